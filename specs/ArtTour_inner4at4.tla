---- MODULE ArtTour_inner4at4 ----
EXTENDS ArtTour
\* an inner node (byte 4) about to grow past 4 children
B == <<1, 0, 255, 7, 9, 0, 3, 6>>
Fan == {With(B, <<<<4, x>>>>) : x \in {5, 128, 250}}
Act == { With(B, <<<<4, 0>>>>),
         With(B, <<<<4, 127>>>>),
         With(B, <<<<4, 255>>>>),
         With(B, <<<<8, 7>>>>),
         With(B, <<<<3, 254>>>>),
         With(B, <<<<4, 5>>, <<8, 0>>>>) }
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[Len(s) + 1 - i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
