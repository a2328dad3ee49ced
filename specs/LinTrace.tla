------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded concurrent histories of the real library.       *)
(*                                                                         *)
(* The specification of the concurrent tree: every point operation takes   *)
(* effect, as CongeeMap defines, at one instant between its invocation and *)
(* its response.  The trace shows invocations, closure calls and           *)
(* responses; the effects are the hidden actions.  cfgs is the set of all  *)
(* states the specification can be in after the events so far:             *)
(*    m     the map                                                        *)
(*    st    per thread: Idle, Pending, or the result of the operation,     *)
(*          which has then taken effect                                    *)
(*    seen  per thread, for scans and closure operations: for each key the *)
(*          values (or None) it had since the invocation                   *)
(* An event none of these states allows makes cfgs empty and is rejected.  *)
(* (Effects are taken as late as possible, just before the response or the *)
(* closure call that needs them; delaying an effect only enlarges seen.)   *)
(*                                                                         *)
(* A scan is not atomic (the library does not promise that): it must       *)
(* return ascending keys in bounds, only pairs that were in the tree at    *)
(* some instant of the call, and every key in the tree throughout, unless  *)
(* the buffer is filled by smaller ones.                                   *)
(***************************************************************************)
EXTENDS CongeeMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CHECK == IOEnv.CHECK

VARIABLES l, nx, pd, cfgs
vars == <<l, nx, pd, cfgs>>

E == Trace[l]
Threads == {0, 1, 2, 3, 9}       \* 9: the main thread, alone at the end
Idle == <<-71>>
Pending == <<-72>>
NoOp == [o |-> "none"]
NoArg == -73

PointOps == {"get", "insert", "remove", "cip", "coi", "cas"}
Atomic == PointOps \cup {"empty"}
Watching == {"range", "cip", "coi"}

OpOf(e) == [x \in (DOMAIN e \ {"w", "t", "o"}) \cup {"o", "lc"} |->
              IF x = "o" THEN e.w ELSE IF x = "lc" THEN NoArg ELSE e[x]]

(* ------------------------------ hidden actions -------------------------- *)
SeenAfter(c, o, mm) ==
    IF "k" \notin DOMAIN o THEN c.seen
    ELSE [s \in Threads |->
            IF c.seen[s] = <<>> \/ mm[o.k] \in c.seen[s][o.k] THEN c.seen[s]
            ELSE [c.seen[s] EXCEPT ![o.k] = @ \cup {mm[o.k]}]]
Effect(c, t) ==
    LET o == pd[t]
        a == Apply(c.m, o)
    IN [m |-> a.m, st |-> [c.st EXCEPT ![t] = a.r],
        seen |-> IF a.m = c.m THEN c.seen ELSE SeenAfter(c, o, a.m)]
CanEffect(c, t) == c.st[t] = Pending /\ pd[t].o \in Atomic

RECURSIVE Closure(_, _)
Closure(S, frontier) ==
    LET new == UNION {{Effect(c, t) : t \in {x \in Threads : CanEffect(c, x)}} : c \in frontier} \ S
    IN IF new = {} THEN S ELSE Closure(S \cup new, new)
All == Closure(cfgs, cfgs)

(* -------------------------------- scans --------------------------------- *)
RangeOk(sn, o, r) ==
    LET n == Len(r) \div 2
        K(i) == r[2 * i - 1]
        V(i) == r[2 * i]
        last == IF n = 0 THEN 0 ELSE K(n)
    IN /\ Len(r) % 2 = 0 /\ n <= o.n
       /\ \A i \in 1..n : o.k <= K(i) /\ K(i) < o.h /\ V(i) \in sn[K(i)]
       /\ \A i \in 1..(n - 1) : K(i) < K(i + 1)
       /\ \A k \in o.k..(o.h - 1) :
            None \in sn[k] \/ (\E i \in 1..n : K(i) = k) \/ (n = o.n /\ k > last)

(* ------------------------------- responses ------------------------------ *)
Fault == E.p = 1 \/ E.r = <<Oom>>
ClosureArgOk(o) ==      \* the last closure call saw what is reported as old
    Fault \/ CASE o.o = "coi" -> o.lc = E.r[1]
               [] o.o = "cip" -> E.r[1] = None \/ o.lc = E.r[1]
               [] OTHER -> TRUE
FaultOk(o) == /\ E.p = 1 => o.o \in ClosureOps /\ o.lc # NoArg
              /\ E.p = 0 /\ E.r = <<Oom>> => E.ij = 1 /\ o.o \in AllocOps
Reported(o) == E.ij = 1 => Fault       \* a refused request is reported
After(o) ==
    IF o.o = "stats" THEN cfgs
    ELSE IF o.o = "range" THEN {c \in All : RangeOk(c.seen[E.t], o, E.r)}
    ELSE IF ~FaultOk(o) \/ ~ClosureArgOk(o) THEN {}
    ELSE IF Fault THEN {c \in All : c.st[E.t] = Pending}
    ELSE {c \in All : c.st[E.t] = E.r}
Done(S, t) == {[c EXCEPT !.st[t] = Idle, !.seen[t] = <<>>] : c \in S}

(* Which unexplained responses are the concern of the property checked.    *)
Concerns(o) ==
    CASE CHECK \in {"C03"} -> o.o \in PointOps
      [] CHECK = "C04" -> o.o \in PointOps
      [] CHECK = "C05" -> o.o = "range"
      [] CHECK = "C10" -> o.o = "empty"
      [] CHECK = "C11" -> o.o = "stats"
      [] CHECK = "C12" -> FALSE
      [] CHECK \in {"C08", "C13"} -> TRUE
      [] OTHER -> FALSE
Settled == Cardinality(cfgs) = 1
TheMap == (CHOOSE c \in cfgs : TRUE).m

StuckConcerns == CHECK \in {"C12", "C08", "C13", "C11"}
PanConcerns(w) ==
    CASE CHECK \in {"C03", "C04"} -> w \in PointOps
      [] CHECK = "C05" -> w = "range"
      [] CHECK = "C10" -> w = "empty"
      [] CHECK = "C11" -> w = "stats"
      [] CHECK = "C07" -> w = "drop"
      [] OTHER -> TRUE
FinOk ==
    CASE CHECK = "C07" -> E.errs = 0 /\ E.odd = 0
      [] CHECK \in {"C08", "C13"} -> E.errs = 0 /\ E.odd = 0 /\ E.live = E.nodes
      [] CHECK = "C15" -> E.live = E.nodes /\ E.odd = 0
      [] CHECK = "C11" -> E.live = E.nodes /\ \E c \in cfgs : E.kv = Count(c.m)
      [] OTHER -> TRUE
AllOf(mm) == RangeFrom(mm, 1, Len(mm) + 1, Len(mm) + 1)
DropOk ==
    CASE CHECK \in {"C07", "C08", "C13"} -> E.live = <<0, 0, 0, 0>> /\ E.odd = 0 /\ E.errs = 0
      [] CHECK = "C09" -> \E c \in cfgs : E.dr = AllOf(c.m)
      [] OTHER -> TRUE

(* -------------------------------- the trace ----------------------------- *)
Reject == PrintT(<<"REJECT", l, ToJson(E)>>) /\ l' = nx /\ UNCHANGED <<nx, pd, cfgs>>
Skip == l' = nx /\ UNCHANGED <<nx, pd, cfgs>>
Go == l' = l + 1

DoNew ==
    /\ E.o = "new"
    /\ pd' = [t \in Threads |-> NoOp]
    /\ cfgs' = {[m |-> [k \in 1..E.u |-> E.init[k]], st |-> [t \in Threads |-> Idle],
                 seen |-> [t \in Threads |-> <<>>]]}
    /\ nx' = E.next
    /\ Go
DoInv ==
    /\ E.o = "inv"
    /\ pd' = [pd EXCEPT ![E.t] = OpOf(E)]
    /\ cfgs' = {[c EXCEPT !.st[E.t] = Pending,
                          !.seen[E.t] = IF E.w \in Watching THEN [k \in DOMAIN c.m |-> {c.m[k]}] ELSE <<>>]
                : c \in cfgs}
    /\ UNCHANGED nx
    /\ Go
(* The closure was called with x: a value the key had since the invocation. *)
DoCl ==
    /\ E.o = "cl"
    /\ LET S == {c \in All : E.x \in c.seen[E.t][pd[E.t].k]}
       IN IF CHECK \notin {"C04", "C13"}
          THEN Go /\ pd' = [pd EXCEPT ![E.t].lc = E.x] /\ UNCHANGED <<nx, cfgs>>
          ELSE IF S = {} THEN Reject
          ELSE Go /\ cfgs' = S /\ pd' = [pd EXCEPT ![E.t].lc = E.x] /\ UNCHANGED nx
DoRes ==
    /\ E.o = "res"
    /\ LET o == pd[E.t]
           S == IF CHECK \in {"C08", "C13"} /\ ~Reported(o) THEN {} ELSE After(o)
       IN IF S # {}
          THEN /\ Go
               /\ cfgs' = Done(S, E.t)
               /\ pd' = [pd EXCEPT ![E.t] = NoOp]
               /\ UNCHANGED nx
          ELSE IF Concerns(o) THEN Reject ELSE Skip
DoStuck == E.o = "stuck" /\ IF StuckConcerns THEN Reject ELSE Skip
DoPan == E.o = "pan" /\ IF PanConcerns(E.w) THEN Reject ELSE Skip
DoBroken == E.o \in {"crash", "hang"} /\ Reject
DoFin == E.o = "fin" /\ IF FinOk THEN Go /\ UNCHANGED <<nx, pd, cfgs>> ELSE Reject
DoDrop == E.o = "drop" /\ IF DropOk THEN Go /\ UNCHANGED <<nx, pd, cfgs>> ELSE Reject
DoProg == E.o = "prog" /\ Go /\ UNCHANGED <<nx, pd, cfgs>>

Init == l = 1 /\ nx = 1 /\ pd = [t \in Threads |-> NoOp] /\ cfgs = {}
Next ==
    \/ /\ l <= Len(Trace)
       /\ DoNew \/ DoInv \/ DoCl \/ DoRes \/ DoStuck \/ DoPan \/ DoBroken \/ DoFin \/ DoDrop \/ DoProg
    \/ /\ l = Len(Trace) + 1
       /\ PrintT(<<"DONE", l - 1>>)
       /\ l' = l + 1
       /\ UNCHANGED <<nx, pd, cfgs>>
==============================================================================
