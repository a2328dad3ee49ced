---- MODULE ArtTour_stack ----
EXTENDS ArtTour
\* a full last-level node below a full inner node
B == <<0, 0, 0, 2, 0, 0, 0, 0>>
Fan == {With(B, <<<<8, x>>>>) : x \in {1, 2, 3, 200}}
Act == { With(B, <<<<8, 0>>>>),
         With(B, <<<<8, 255>>>>),
         With(B, <<<<4, 0>>>>),
         With(B, <<<<4, 1>>>>),
         With(B, <<<<4, 255>>>>),
         With(B, <<<<4, 9>>>>),
         With(B, <<<<6, 1>>>>) }
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
