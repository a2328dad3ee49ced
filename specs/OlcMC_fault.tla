------------------------------- MODULE OlcMC_fault -------------------------------
EXTENDS OlcMC
\* up to two allocation failures or panicking closures, two threads
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \in DOMAIN ks |-> <<"del", ks[i]>>]
SetupsDef == { <<>>, Ins(<<1>>), Ins(<<1,2>>), Ins(<<1,4>>) }
ProgsDef == {<<a, b>> : a \in One({"insert", "coi", "cip"}, 1..6, 1), b \in One({"get","insert","coi","remove","cip"}, {1,3,4,6}, 2)}
==============================================================================
