---- MODULE ArtTour_inner48at3 ----
EXTENDS ArtTour
\* an inner node (byte 3) about to grow past 48 children
B == <<1, 0, 255, 7, 9, 0, 3, 6>>
Fan == {With(B, <<<<3, x>>>>) : x \in {2, 7, 12, 17, 22, 27, 32, 37, 42, 47, 52, 57, 62, 67, 72, 77, 82, 87, 92, 97, 102, 107, 112, 117, 122, 127, 132, 137, 142, 147, 152, 157, 162, 167, 172, 177, 182, 187, 192, 197, 202, 207, 212, 217, 222, 227, 232}}
Act == { With(B, <<<<3, 0>>>>),
         With(B, <<<<3, 128>>>>),
         With(B, <<<<3, 255>>>>),
         With(B, <<<<8, 7>>>>),
         With(B, <<<<2, 1>>>>),
         With(B, <<<<3, 2>>, <<8, 0>>>>) }
KeysDef == Sorted(Fan \union Act)
BallastDef == LET s == Sorted(Fan) IN [i \in DOMAIN s |-> IdOf(KeysDef, s[Len(s) + 1 - i])]
ActiveDef == {IdOf(KeysDef, k) : k \in Act}
CapsDef == <<4, 16, 48, 256>>
====
