-------------------------------- MODULE OlcMC --------------------------------
(***************************************************************************)
(* Instances of Olc for TLC: every initial tree of Setups with every       *)
(* assignment of programs in Progs to the threads.                         *)
(***************************************************************************)
EXTENDS Olc

CONSTANTS Setups,   \* sequences of <<"ins"|"del", key>>, applied one after the other
          Progs,    \* set of functions thread -> sequence of operations
          Budget

RECURSIVE Built(_, _, _)
Built(s, i, tm) ==
    IF i > Len(s) THEN tm
    ELSE LET k == s[i][2] IN
         Built(s, i + 1,
               IF s[i][1] = "ins" THEN <<InsertT(tm[1], Keys[k], k), Put(tm[2], k, k)>>
               ELSE <<RemoveT(tm[1], Keys[k]), Put(tm[2], k, None)>>)

Init ==
    /\ prog \in Progs
    /\ \E s \in Setups :
         LET tm == Built(s, 1, <<EmptyTree, [k \in Ids |-> None]>>)
         IN heap = HeapOf(tm[1]) /\ m = tm[2]
    /\ L = [t \in Threads |-> Start(1)]
    /\ seen = [t \in Threads |-> [k \in Ids |-> {}]]
    /\ empt = [t \in Threads |-> {}]
    /\ pins = {} /\ bin = [n \in {} |-> {}] /\ budget = Budget
    /\ bad = FALSE /\ uaf = FALSE
    /\ res = [t \in Threads |-> <<>>] /\ hist = <<>>

Spec == Init /\ [][Next]_vars /\ Fair

\* bookkeeping of idle threads, results and the schedule do not matter
View == <<prog, heap, L, m, [t \in Threads |-> IF L[t].pc = "idle" THEN {} ELSE seen[t]],
          [t \in Threads |-> IF L[t].pc = "idle" THEN {} ELSE empt[t]], pins, bin, budget, bad, uaf>>

(* Menus.  Values are 100 * thread + position: never Nil, never a setup's. *)
Op(o, k, t, i) == [o |-> o, k |-> k, v |-> 100 * t + i]
Menu(os, ks, t, i) == {Op(o, k, t, i) : o \in os \ {"scan", "empty"}, k \in ks}
                      \cup {[o |-> o, k |-> 1, v |-> 0] : o \in os \cap {"scan", "empty"}}
Scan(n) == <<[o |-> "scan", k |-> 1, v |-> n]>>
Empty == <<[o |-> "empty", k |-> 1, v |-> 0]>>
One(os, ks, t) == {<<x>> : x \in Menu(os, ks, t, 1)}
Two(os, ks, t) == {<<x, y>> : x \in Menu(os, ks, t, 1), y \in Menu(os, ks, t, 2)}
Ops7 == {"get", "insert", "coi", "remove", "cip", "scan", "empty"}
Writers == {"insert", "coi", "remove", "cip"}
==============================================================================
