------------------------------- MODULE OlcMC_live -------------------------------
EXTENDS OlcMC
\* every thread completes
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \in DOMAIN ks |-> <<"del", ks[i]>>]
SetupsDef == { Ins(<<1>>), Ins(<<1,2>>), Ins(<<1,4>>) }
ProgsDef == {<<a, b>> : a \in One(Writers, {1,3,4}, 1), b \in One(Ops7, {1,3}, 2)}
==============================================================================
