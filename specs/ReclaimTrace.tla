---------------------------- MODULE ReclaimTrace ----------------------------
(***************************************************************************)
(* Epoch-based reclamation as its user sees it: memory events of recorded  *)
(* concurrent runs.  Blocks that are given back during the run are         *)
(* numbered; for these the trace has                                       *)
(*   pin t / unpin t   thread t acquires / drops its guard                 *)
(*   inv t             thread t starts an operation                        *)
(*   acc t n           t's current operation touches block n               *)
(*   free t n          block n is returned to the allocator by thread t    *)
(*                     (9: outside of any operation); ok = 0 if the block  *)
(*                     was not held or had another layout                  *)
(* The specification allows                                                *)
(*   acc  only for a block still held,                                     *)
(*   free only once, and not while a guard is pinned under which - since   *)
(*        it was pinned - another operation reached the block.             *)
(* The second rule makes the premature return visible even when nobody     *)
(* touches the block afterwards.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CHECK == IOEnv.CHECK
VARIABLES l, nx,
          pinned,   \* thread -> set of lines at which its live guards were pinned
          op,       \* thread -> line at which its latest operation started
          reached,  \* block -> set of operations (their start lines) that touched it
          gone      \* blocks given back
vars == <<l, nx, pinned, op, reached, gone>>
E == Trace[l]
Threads == {0, 1, 2, 3, 9}

Reached(n) == IF n \in DOMAIN reached THEN reached[n] ELSE {}
Live == UNION {pinned[t] : t \in Threads}
MayAccess == E.n \notin gone
MayFree ==
    /\ E.ok = 1 /\ E.n \notin gone
    /\ \A g \in Live : \A q \in Reached(E.n) : q = op[E.t] \/ q < g

Init == l = 1 /\ nx = 1 /\ pinned = <<>> /\ op = <<>> /\ reached = <<>> /\ gone = {}
Go == l' = l + 1
Step ==
    \/ /\ E.o = "new"
       /\ nx' = E.next
       /\ pinned' = [t \in Threads |-> {}]
       /\ op' = [t \in Threads |-> 0]
       /\ reached' = <<>>
       /\ gone' = {}
    \/ E.o = "pin" /\ pinned' = [pinned EXCEPT ![E.t] = @ \cup {l}] /\ UNCHANGED <<nx, op, reached, gone>>
    \/ E.o = "unpin" /\ pinned' = [pinned EXCEPT ![E.t] = {}] /\ UNCHANGED <<nx, op, reached, gone>>
    \/ E.o = "inv" /\ op' = [op EXCEPT ![E.t] = l] /\ UNCHANGED <<nx, pinned, reached, gone>>
    \/ /\ E.o = "acc" /\ MayAccess
       /\ reached' = (E.n :> (Reached(E.n) \cup {op[E.t]})) @@ reached
       /\ UNCHANGED <<nx, pinned, op, gone>>
    \/ /\ E.o = "free" /\ MayFree
       /\ gone' = gone \cup {E.n}
       /\ UNCHANGED <<nx, pinned, op, reached>>
    \/ E.o = "prog" /\ UNCHANGED <<nx, pinned, op, reached, gone>>
Next ==
    \/ /\ l <= Len(Trace)
       /\ \/ Step /\ Go
          \/ /\ ~ENABLED Step
             /\ PrintT(<<"REJECT", l, ToJson(E)>>)
             /\ l' = nx
             /\ UNCHANGED <<nx, pinned, op, reached, gone>>
    \/ /\ l = Len(Trace) + 1
       /\ PrintT(<<"DONE", l - 1>>)
       /\ l' = l + 1
       /\ UNCHANGED <<nx, pinned, op, reached, gone>>
==============================================================================
