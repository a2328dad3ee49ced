--------------------------------- MODULE Epoch ---------------------------------
(***************************************************************************)
(* The reclamation scheme the tree relies on, at the grain of its own      *)
(* steps: a global epoch, threads that pin themselves at the epoch they    *)
(* read, blocks retired with the epoch the retiring thread reads, and a    *)
(* collector that returns a block two epochs later.                        *)
(*                                                                         *)
(* Olc uses the abstraction  bin: block -> guards pinned when it was       *)
(* retired, "returned only when none of them remains".  Checked here:      *)
(* Abstraction (a block is never returned while such a guard remains), and *)
(* Reclaimed (every retired block is returned once the threads go on       *)
(* pinning and unpinning) - what C06 and C15 ask of the scheme, which the  *)
(* tree must in turn use for every block it unlinks.                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Threads, Blocks, Last,  \* the epochs are 0..Last
          Delay     \* epochs between retiring and returning (2)
VARIABLES g,      \* global epoch
          loc,    \* thread -> epoch it announced, or -1: not pinned
          tmp,    \* thread -> epoch it has read but not announced yet, or -1
          held,   \* thread -> blocks it may still reach under its guard
          linked, \* blocks reachable from the tree
          tag,    \* block -> epoch at which it was retired, or -1
          must,   \* block -> guards (threads) that were pinned when it was unlinked
          gone    \* blocks returned
vars == <<g, loc, tmp, held, linked, tag, must, gone>>

Pinned(t) == loc[t] >= 0
Init == /\ g = 0 /\ loc = [t \in Threads |-> -1] /\ tmp = [t \in Threads |-> -1]
        /\ held = [t \in Threads |-> {}] /\ linked = Blocks
        /\ tag = [b \in Blocks |-> -1] /\ must = [b \in Blocks |-> {}] /\ gone = {}

(* Pinning: read the global epoch, announce it - it may be behind already. *)
ReadEpoch(t) == /\ ~Pinned(t) /\ tmp[t] = -1
                /\ tmp' = [tmp EXCEPT ![t] = g]
                /\ UNCHANGED <<g, loc, held, linked, tag, must, gone>>
Announce(t) == /\ tmp[t] >= 0
               /\ loc' = [loc EXCEPT ![t] = tmp[t]]
               /\ tmp' = [tmp EXCEPT ![t] = -1]
               /\ UNCHANGED <<g, held, linked, tag, must, gone>>
Reach(t, b) == /\ Pinned(t) /\ b \in linked
               /\ held' = [held EXCEPT ![t] = @ \cup {b}]
               /\ UNCHANGED <<g, loc, tmp, linked, tag, must, gone>>
Unlink(t, b) == /\ Pinned(t) /\ b \in linked
                /\ linked' = linked \ {b}
                /\ must' = [must EXCEPT ![b] = {x \in Threads : Pinned(x)}]
                /\ held' = [held EXCEPT ![t] = @ \cup {b}]
                /\ UNCHANGED <<g, loc, tmp, tag, gone>>
Retire(t, b) == /\ Pinned(t) /\ b \in held[t] /\ b \notin linked /\ tag[b] = -1
                /\ tag' = [tag EXCEPT ![b] = g]
                /\ UNCHANGED <<g, loc, tmp, held, linked, must, gone>>
Unpin(t) == /\ Pinned(t)
            /\ \A b \in held[t] : b \in linked \/ tag[b] >= 0
            /\ loc' = [loc EXCEPT ![t] = -1]
            /\ held' = [held EXCEPT ![t] = {}]
            /\ must' = [b \in Blocks |-> must[b] \ {t}]
            /\ UNCHANGED <<g, tmp, linked, tag, gone>>
(* The epoch moves only when every announced thread has seen the present   *)
(* one.                                                                    *)
Advance == /\ \A t \in Threads : Pinned(t) => loc[t] = g
           /\ g < Last
           /\ g' = g + 1
           /\ UNCHANGED <<loc, tmp, held, linked, tag, must, gone>>
Collect(b) == /\ tag[b] >= 0 /\ b \notin gone /\ g >= tag[b] + Delay
              /\ gone' = gone \cup {b}
              /\ UNCHANGED <<g, loc, tmp, held, linked, tag, must>>
Next == \/ \E t \in Threads : ReadEpoch(t) \/ Announce(t) \/ Unpin(t)
        \/ \E t \in Threads, b \in Blocks : Reach(t, b) \/ Unlink(t, b) \/ Retire(t, b)
        \/ Advance \/ \E b \in Blocks : Collect(b)
Fair == /\ WF_vars(Advance)
        /\ \A t \in Threads : WF_vars(Unpin(t)) /\ WF_vars(Announce(t))
        /\ \A b \in Blocks : WF_vars(Collect(b))
        /\ \A t \in Threads, b \in Blocks : WF_vars(Retire(t, b))
Spec == Init /\ [][Next]_vars /\ Fair

Abstraction == \A b \in gone : must[b] = {}
NoUseAfterFree == \A t \in Threads : held[t] \cap gone = {}
(* Every block retired while there are epochs left to come is returned.  A  *)
(* thread that never unpins would stop it: Fair says threads do unpin.      *)
Reclaimed == \A b \in Blocks : (tag[b] >= 0 /\ tag[b] + Delay <= Last) ~> (b \in gone)
==============================================================================
