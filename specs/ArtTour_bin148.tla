---- MODULE ArtTour_bin148 ----
EXTENDS ArtTour
\* eight keys branching at bytes 1, 4 and 8 with nonzero bytes between
B == <<0, 200, 0, 0, 1, 0, 255, 0>>
Fan == {With(B, <<<<8, x>>>>) : x \in {}}
Act == {With(B, <<<<1, x>>, <<4, y>>, <<8, z>>>>) : x \in {1, 2}, y \in {0, 255}, z \in {127, 128}}
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
