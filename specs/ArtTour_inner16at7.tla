---- MODULE ArtTour_inner16at7 ----
EXTENDS ArtTour
\* an inner node (byte 7) about to grow past 16 children
B == <<1, 0, 255, 7, 9, 0, 3, 6>>
Fan == {With(B, <<<<7, x>>>>) : x \in {1, 17, 33, 49, 65, 81, 97, 113, 129, 145, 161, 177, 193, 209, 225}}
Act == { With(B, <<<<7, 0>>>>),
         With(B, <<<<7, 127>>>>),
         With(B, <<<<7, 255>>>>),
         With(B, <<<<8, 7>>>>),
         With(B, <<<<6, 1>>>>),
         With(B, <<<<7, 1>>, <<8, 0>>>>) }
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[Len(s) + 1 - i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
