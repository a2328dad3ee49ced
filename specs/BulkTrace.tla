----------------------------- MODULE BulkTrace -----------------------------
(***************************************************************************)
(* Conformance of the real library with CongeeMap on trees of thousands of *)
(* keys.  One event covers many calls:                                     *)
(*   each   the point operation w on the keys a, a + s, ... up to b, every *)
(*          key once (so that their order does not matter); r the results  *)
(*          in key order; the value stored at key i is (7 i + v) mod NV    *)
(*   churn  the insertions (1) and removals (0) p, each <<which, key, value>>,*)
(*          n times over: results of the first round in r1, of the second  *)
(*          in r2; same = 1 if all further rounds gave r2 again            *)
(*   scan   a range scan from key k up to key h, into a buffer of n pairs: *)
(*          c pairs reported, keys ks, values vs                           *)
(*   empty, q, drop   as in SeqTrace                                       *)
(* The structure is not tracked (SeqTrace does that); every node but the   *)
(* root sits in one slot, so slots = nodes - 1 + entries.                  *)
(***************************************************************************)
EXTENDS SeqTrace, SequencesExt

Sel == {E.a + E.s * i : i \in 0..((E.b - E.a) \div E.s)}
Was == [i \in 1..(1 + (E.b - E.a) \div E.s) |-> m[E.a + E.s * (i - 1)]]
EachEffect ==
    CASE E.w = "get" -> m
      [] E.w = "remove" -> [k \in DOMAIN m |-> IF k >= E.a /\ k <= E.b /\ (k - E.a) % E.s = 0 THEN None ELSE m[k]]
      [] E.w = "insert" -> [k \in DOMAIN m |-> IF k >= E.a /\ k <= E.b /\ (k - E.a) % E.s = 0
                                               THEN (7 * k + E.v) % NV ELSE m[k]]
DoEach ==
    /\ E.o = "each"
    /\ CHECK = "C01" => E.r = Was
    /\ m' = EachEffect
    /\ UNCHANGED <<nx, kb, t>>

(* After a round every key it touches is as its last call left it, so the   *)
(* second round begins where every further one does.                        *)
Touched(mm, c) == [mm EXCEPT ![c[2]] = IF c[1] = 1 THEN c[3] ELSE None]
State(mm, i) == FoldLeft(Touched, mm, SubSeq(E.p, 1, i))
Answers(mm) == [i \in 1..Len(E.p) |-> State(mm, i - 1)[E.p[i][2]]]
DoChurn ==
    /\ E.o = "churn"
    /\ m' = State(m, Len(E.p))
    /\ CHECK = "C01" => E.r1 = Answers(m) /\ E.r2 = Answers(State(m, Len(E.p))) /\ E.same = 1
    /\ UNCHANGED <<nx, kb, t>>

(* "= TRUE" where it is used keeps TLC from taking the quantifiers for a   *)
(* part of the action, which it walks recursively.                         *)
(* ks, vs: the entries at keys lo .. hi-1, or the first n of them *)
Reported(lo, hi, n, ks, vs) ==
    LET c == Len(ks)
        end == IF c < n THEN hi ELSE ks[c] + 1
    IN /\ Len(vs) = c /\ c <= n
       /\ \A i \in 1..c : ks[i] >= lo /\ ks[i] < hi
       /\ \A i \in 1..(c - 1) : ks[i] < ks[i + 1]
       /\ \A i \in 1..c : m[ks[i]] # None /\ m[ks[i]] = vs[i]
       /\ Cardinality({k \in lo..(end - 1) : m[k] # None}) = c
DoScan ==
    /\ E.o = "scan"
    /\ CHECK = "C02" => (E.c = Len(E.ks) /\ Reported(E.k, E.h, E.n, E.ks, E.vs)) = TRUE
    /\ UNCHANGED <<nx, kb, m, t>>
BEmpty ==
    /\ E.o = "empty"
    /\ CHECK \in {"C10", "C01"} => E.r = <<IF IsEmpty(m) THEN 1 ELSE 0>>
    /\ UNCHANGED <<nx, kb, m, t>>

NodesIn(lv) == SumSeq([i \in 1..Len(lv) |-> lv[i][1] + lv[i][3] + lv[i][5] + lv[i][7]])
BQuiet ==
    /\ E.o = "q"
    /\ CHECK = "C11" =>
         /\ E.kv = Count(m) /\ E.lok = 1
         /\ SlotsIn(E.lv) = NodesIn(E.lv) - 1 + Count(m)
         /\ \A c \in 1..Top : SumSeq([i \in 1..Len(E.lv) |-> E.lv[i][2 * c - 1]]) = E.live[c]
         /\ PrintedOk(E.lv, E.rows, E.sum, Count(m))
    /\ CHECK = "C07" => E.errs = 0 /\ E.odd = 0
    /\ CHECK = "C15" =>
         /\ E.odd = 0
         /\ \A c \in 1..Top : SumSeq([i \in 1..Len(E.lv) |-> E.lv[i][2 * c - 1]]) = E.live[c]
    /\ UNCHANGED <<nx, kb, m, t>>
BDrop ==
    /\ E.o = "drop"
    /\ CHECK = "C09" /\ E.dn = 1 =>
         Reported(1, Len(m) + 1, Len(m) + 1, E.dk, E.dv) = TRUE
    /\ CHECK = "C07" => NothingHeld
    /\ UNCHANGED <<nx, kb, m, t>>
BNew ==
    /\ E.o = "new"
    /\ m' = [k \in 1..E.u |-> None]
    /\ nx' = E.next
    /\ UNCHANGED <<kb, t>>

BStep == BNew \/ DoEach \/ DoChurn \/ DoScan \/ BEmpty \/ BQuiet \/ BDrop
BNext ==
    \/ /\ l <= Len(Trace)
       /\ \/ BStep /\ l' = l + 1
          \/ Pending /\ l' = l + 1 /\ UNCHANGED <<nx, kb, m, t>>
          \/ /\ ~Pending /\ ~ENABLED BStep
             /\ PrintT(<<"REJECT", l, E.o>>)
             /\ l' = nx
             /\ UNCHANGED <<nx, kb, m, t>>
    \/ /\ l = Len(Trace) + 1
       /\ PrintT(<<"DONE", l - 1>>)
       /\ l' = l + 1
       /\ UNCHANGED <<nx, kb, m, t>>
=============================================================================
