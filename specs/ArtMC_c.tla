------------------------------ MODULE ArtMC_c -------------------------------
EXTENDS ArtMC
\* 4-byte keys: inner growth below a compressed path, splits above grown nodes
KeysDef == << <<0,0,0,0>>, <<0,0,1,0>>, <<0,0,2,1>>, <<0,0,3,0>>, <<0,1,0,0>>, <<0,1,0,2>>, <<1,1,1,1>> , <<1,1,2,1>> >>
CapsDef == <<2, 3, 4, 5>>
BufsDef == {0, 2, 9}
=============================================================================
