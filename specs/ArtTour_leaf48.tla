---- MODULE ArtTour_leaf48 ----
EXTENDS ArtTour
\* a last-level node about to grow past 48 entries, with neighbours above and aside
B == <<1, 0, 255, 7, 0, 0, 3, 0>>
Fan == {With(B, <<<<8, x>>>>) : x \in {2, 7, 12, 17, 22, 27, 32, 37, 42, 47, 52, 57, 62, 67, 72, 77, 82, 87, 92, 97, 102, 107, 112, 117, 122, 127, 132, 137, 142, 147, 152, 157, 162, 167, 172, 177, 182, 187, 192, 197, 202, 207, 212, 217, 222, 227, 232}}
Act == { With(B, <<<<8, 0>>>>),
         With(B, <<<<8, 128>>>>),
         With(B, <<<<8, 255>>>>),
         With(B, <<<<7, 4>>, <<8, 0>>>>),
         With(B, <<<<5, 1>>>>),
         With(B, <<<<1, 0>>>>) }
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
