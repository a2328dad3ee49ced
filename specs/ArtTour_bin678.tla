---- MODULE ArtTour_bin678 ----
EXTENDS ArtTour
\* eight keys branching at the last three bytes, behind a long common prefix
B == <<9, 127, 128, 0, 255, 0, 0, 0>>
Fan == {With(B, <<<<8, x>>>>) : x \in {}}
Act == {With(B, <<<<6, x>>, <<7, y>>, <<8, z>>>>) : x \in {0, 1}, y \in {127, 128}, z \in {0, 255}}
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
