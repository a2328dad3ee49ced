---- MODULE ArtTour_leaf4 ----
EXTENDS ArtTour
\* a last-level node about to grow past 4 entries, with neighbours above and aside
B == <<1, 0, 255, 7, 0, 0, 3, 0>>
Fan == {With(B, <<<<8, x>>>>) : x \in {5, 128, 250}}
Act == { With(B, <<<<8, 0>>>>),
         With(B, <<<<8, 127>>>>),
         With(B, <<<<8, 255>>>>),
         With(B, <<<<7, 4>>, <<8, 0>>>>),
         With(B, <<<<5, 1>>>>),
         With(B, <<<<1, 0>>>>) }
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
