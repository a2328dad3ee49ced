------------------------------- MODULE OlcMC_rmw_q -------------------------------
EXTENDS OlcMC
\* computing operations against modifications
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \in DOMAIN ks |-> <<"del", ks[i]>>]
SetupsDef == { <<>>, Ins(<<1>>), Ins(<<1,2>>) }
ProgsDef == {<<a, b>> : a \in Two({"cip"}, {1}, 1) \cup One({"coi", "cip"}, {1,3}, 1), b \in Two({"insert","remove"}, {1}, 2) \cup One({"coi", "cip"}, {1,3}, 2)}
==============================================================================
