------------------------------- MODULE OlcMC_point -------------------------------
EXTENDS OlcMC
\* two threads, one point operation each, every initial shape
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \in DOMAIN ks |-> <<"del", ks[i]>>]
SetupsDef == { <<>>, Ins(<<1>>), Ins(<<1,2>>), Ins(<<1,4>>), Ins(<<1,2,4>>), Ins(<<1,4>>) \o Del(<<1,4>>) }
ProgsDef == {<<a, b>> : a \in One(Writers, 1..6, 1), b \in One({"get"} \cup Writers, 1..6, 2)}
==============================================================================
