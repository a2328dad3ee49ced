------------------------------- MODULE Multi ---------------------------------
(***************************************************************************)
(* Several trees, allocators and threads: who owns which block when.       *)
(*                                                                         *)
(* A block comes from one allocator and is linked into one tree; a writer  *)
(* that replaces or empties a node retires its block, which goes back once *)
(* every guard held at that moment has ended (Epoch shows that the epoch   *)
(* scheme implements this); dropping a tree returns the blocks it consists *)
(* of at once, and leaves the ones retired earlier to their release, so    *)
(* the releases have to outlive the tree and know the allocator.           *)
(*                                                                         *)
(* Rule = "none", or a rule left out:                                      *)
(*   "drop_frees_retired"  the drop returns the retired blocks as well     *)
(*   "drop_forgets"        the drop loses the releases still to come       *)
(*   "release_to_home"     releases go to the first allocator              *)
(*   "exit_forgets"        a thread that ends takes its releases with it   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Threads, TreeIds, Allocs, Blocks, Rule, Home

VARIABLES tree,   \* tree -> its allocator, or "none"
          link,   \* block -> the tree it is linked into, or "none"
          from,   \* block -> the allocator that handed it out, or "none"
          ret,    \* block -> [by, tree, wait]: retired; or [by |-> "none"]
          pin,    \* threads holding a guard
          errs    \* complaints of the allocators
vars == <<tree, link, from, ret, pin, errs>>

NoRet == [by |-> "none", tree |-> "none", wait |-> {}]
TypeOk ==
    /\ tree \in [TreeIds -> Allocs \cup {"none"}]
    /\ link \in [Blocks -> TreeIds \cup {"none"}]
    /\ from \in [Blocks -> Allocs \cup {"none"}]
    /\ pin \subseteq Threads

Init ==
    /\ tree = [x \in TreeIds |-> "none"]
    /\ link = [b \in Blocks |-> "none"]
    /\ from = [b \in Blocks |-> "none"]
    /\ ret = [b \in Blocks |-> NoRet]
    /\ pin = {} /\ errs = {}

Free(b) == from[b] = "none" /\ ret[b].by = "none"
Alive(x) == tree[x] # "none"

(* An allocator takes blocks back; a block it has not handed out is one    *)
(* complaint.                                                              *)
Back(bs, al) ==   \* al: block -> the allocator it is given to
    /\ from' = [b \in Blocks |-> IF b \in bs THEN "none" ELSE from[b]]
    /\ errs' = errs \cup {b \in bs : from[b] = "none" \/ from[b] # al[b]}

Mk(x, a) ==
    /\ ~Alive(x)
    /\ \E b \in Blocks :
         /\ Free(b)
         /\ link' = [link EXCEPT ![b] = x]
         /\ from' = [from EXCEPT ![b] = a]
    /\ tree' = [tree EXCEPT ![x] = a]
    /\ UNCHANGED <<ret, pin, errs>>

Pin(t)   == t \notin pin /\ pin' = pin \cup {t} /\ UNCHANGED <<tree, link, from, ret, errs>>
Waits(t) == [b \in Blocks |-> [ret[b] EXCEPT !.wait = @ \ {t}]]
Unpin(t) == t \in pin /\ pin' = pin \ {t} /\ ret' = Waits(t) /\ UNCHANGED <<tree, link, from, errs>>
Exit(t) ==   \* the thread ends; another of the same name takes its place
    /\ pin' = pin \ {t}
    /\ LET w == Waits(t) IN
       ret' = IF Rule = "exit_forgets"
              THEN [b \in Blocks |-> IF w[b].by = t THEN NoRet ELSE w[b]] ELSE w
    /\ UNCHANGED <<tree, link, from, errs>>

(* A writer t in tree x: a new node, one replaced by a larger one, one     *)
(* emptied.                                                                *)
Grow(t, x) ==
    /\ t \in pin /\ Alive(x)
    /\ \E b \in Blocks :
         /\ Free(b)
         /\ link' = [link EXCEPT ![b] = x]
         /\ from' = [from EXCEPT ![b] = tree[x]]
    /\ UNCHANGED <<tree, ret, pin, errs>>
Retire(t, x) ==
    /\ t \in pin /\ Alive(x)
    /\ Cardinality({b \in Blocks : link[b] = x}) > 1      \* the root stays
    /\ \E b \in Blocks :
         /\ link[b] = x
         /\ link' = [link EXCEPT ![b] = "none"]
         /\ ret' = [ret EXCEPT ![b] = [by |-> t, tree |-> x, wait |-> pin]]
    /\ UNCHANGED <<tree, from, pin, errs>>

Release(b) ==
    /\ ret[b].by # "none" /\ ret[b].wait = {}
    /\ ret' = [ret EXCEPT ![b] = NoRet]
    /\ Back({b}, [c \in Blocks |-> IF Rule = "release_to_home" THEN Home ELSE from[b]])
    /\ UNCHANGED <<tree, link, pin>>

Drop(x) ==
    /\ Alive(x)
    /\ LET mine == {b \in Blocks : link[b] = x}
           rets == {b \in Blocks : ret[b].by # "none" /\ ret[b].tree = x}
           gone == IF Rule = "drop_frees_retired" THEN mine \cup rets ELSE mine
       IN /\ Back(gone, [b \in Blocks |-> tree[x]])
          /\ link' = [b \in Blocks |-> IF b \in mine THEN "none" ELSE link[b]]
          /\ ret' = IF Rule = "drop_forgets"
                    THEN [b \in Blocks |-> IF b \in rets THEN NoRet ELSE ret[b]] ELSE ret
    /\ tree' = [tree EXCEPT ![x] = "none"]
    /\ UNCHANGED pin

Next ==
    \/ \E x \in TreeIds, a \in Allocs : Mk(x, a)
    \/ \E t \in Threads : Pin(t) \/ Unpin(t) \/ Exit(t)
    \/ \E t \in Threads, x \in TreeIds : Grow(t, x) \/ Retire(t, x)
    \/ \E b \in Blocks : Release(b)
    \/ \E x \in TreeIds : Drop(x)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------------ *)
Linked  == {b \in Blocks : link[b] # "none"}
Retired == {b \in Blocks : ret[b].by # "none"}
Out     == {b \in Blocks : from[b] # "none"}

NoComplaint == errs = {}
(* what the allocators have handed out is linked or waits for its release  *)
Balance == Out = Linked \cup Retired /\ Linked \cap Retired = {}
(* a linked block is from the allocator of its tree, which exists          *)
Owned == \A b \in Linked : Alive(link[b]) /\ from[b] = tree[link[b]]
(* no guard held: nothing has to wait                                      *)
NothingBlocks == pin = {} => \A b \in Retired : ret[b].wait = {}
(* the blocks a guard protects are not given out again                     *)
Protected == \A b \in Retired : ret[b].wait \subseteq pin
Symm == Permutations(Threads) \cup Permutations(TreeIds) \cup Permutations(Blocks)
==============================================================================
