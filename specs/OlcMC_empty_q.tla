------------------------------- MODULE OlcMC_empty_q -------------------------------
EXTENDS OlcMC
\* an emptiness question against two modifications; emptied inner nodes
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \in DOMAIN ks |-> <<"del", ks[i]>>]
SetupsDef == { <<>>, Ins(<<1>>), Ins(<<1,4,6,7>>) \o Del(<<1,4,7>>) }
ProgsDef == {<<a, Empty>> : a \in Two({"insert", "remove"}, {1,6}, 1)}
==============================================================================
