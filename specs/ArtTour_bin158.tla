---- MODULE ArtTour_bin158 ----
EXTENDS ArtTour
\* eight keys branching at bytes 1, 5 and 8
B == <<0, 0, 0, 0, 0, 0, 0, 0>>
Fan == {With(B, <<<<8, x>>>>) : x \in {}}
Act == {With(B, <<<<1, x>>, <<5, y>>, <<8, z>>>>) : x \in {0, 255}, y \in {0, 255}, z \in {0, 255}}
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
