------------------------------- MODULE OlcMC_point_q -------------------------------
EXTENDS OlcMC
\* two threads, one point operation each
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \in DOMAIN ks |-> <<"del", ks[i]>>]
SetupsDef == { <<>>, Ins(<<1>>), Ins(<<1,2>>), Ins(<<1,4>>) }
ProgsDef == {<<a, b>> : a \in One({"insert", "remove"}, {1,3,4}, 1), b \in One({"get", "remove", "coi"}, {1,3,4}, 2)}
==============================================================================
