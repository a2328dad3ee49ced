---- MODULE ArtTour_dense ----
EXTENDS ArtTour
\* one last-level node from nothing past four entries, next to another
B == <<0, 0, 0, 0, 0, 0, 1, 0>>
Fan == {With(B, <<<<8, x>>>>) : x \in {}}
Act == { With(B, <<<<8, 0>>>>),
         With(B, <<<<8, 1>>>>),
         With(B, <<<<8, 2>>>>),
         With(B, <<<<8, 127>>>>),
         With(B, <<<<8, 128>>>>),
         With(B, <<<<8, 255>>>>),
         With(B, <<<<7, 0>>, <<8, 255>>>>) }
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
