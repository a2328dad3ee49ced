------------------------------ MODULE ArtMC_a -------------------------------
EXTENDS ArtMC
\* 3-byte keys, two byte values per level: every prefix shape, splits at each depth
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,1,0>>, <<0,1,1>>, <<1,0,0>>, <<1,0,1>>, <<1,1,0>>, <<1,1,1>> >>
CapsDef == <<2, 3, 4>>
BufsDef == {0, 1, 3, 9}
=============================================================================
