---- MODULE ArtTour_bin123 ----
EXTENDS ArtTour
\* eight keys branching at the first three bytes: every last-level node holds one entry
B == <<0, 0, 0, 255, 0, 128, 1, 7>>
Fan == {With(B, <<<<8, x>>>>) : x \in {}}
Act == {With(B, <<<<1, x>>, <<2, y>>, <<3, z>>>>) : x \in {0, 128}, y \in {127, 255}, z \in {0, 1}}
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
