------------------------------- MODULE OlcMC_three -------------------------------
EXTENDS OlcMC
\* three threads
KeysDef == << <<0,0,0>>, <<0,0,1>>, <<0,0,2>>, <<0,1,0>>, <<0,2,0>>, <<1,0,0>>, <<1,1,0>> >>
CapsDef == <<2, 3>>
Ins(ks) == [i \in DOMAIN ks |-> <<"ins", ks[i]>>]
Del(ks) == [i \in DOMAIN ks |-> <<"del", ks[i]>>]
SetupsDef == { Ins(<<1>>), Ins(<<1,2>>), Ins(<<1,4>>) }
ProgsDef == {<<a, b, c>> : a \in One({"remove", "insert"}, {1,2,3}, 1), b \in One({"insert","cip","remove"}, {1,3,4}, 2), c \in One({"get"}, {1,2}, 3) \cup {Scan(0)}}
==============================================================================
