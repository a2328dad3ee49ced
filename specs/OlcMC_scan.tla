------------------------------- MODULE OlcMC_scan -------------------------------
EXTENDS OlcMC
\* a scan, with and without a limit, against one or two modifications
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \in DOMAIN ks |-> <<"del", ks[i]>>]
SetupsDef == { Ins(<<1>>), Ins(<<6>>), Ins(<<1,2>>), Ins(<<1,4>>) \o Del(<<4>>), Ins(<<1,2,4>>), Ins(<<1,4,6>>) }
ProgsDef == {<<a, b>> : a \in Two({"insert", "remove"}, {1,2,4,6}, 1) \cup One(Writers, 1..6, 1), b \in {Scan(0), Scan(1), Scan(2)}}
==============================================================================
