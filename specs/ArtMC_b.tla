------------------------------ MODULE ArtMC_b -------------------------------
EXTENDS ArtMC
\* 2-byte keys over four byte values: growth through every class, both at the
\* last level (which can be unlinked) and inside
KeysDef == << <<0,0>>, <<0,1>>, <<0,2>>, <<0,3>>, <<0,4>>, <<1,1>>, <<2,0>>, <<2,3>>, <<3,2>> >>
CapsDef == <<2, 3, 4, 5>>
BufsDef == {0, 2, 9}
=============================================================================
