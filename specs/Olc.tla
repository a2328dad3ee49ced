--------------------------------- MODULE Olc ---------------------------------
(***************************************************************************)
(* The concurrent tree at the grain of its shared accesses: optimistic     *)
(* lock coupling over heap nodes with version words, obsolete marks,       *)
(* half-done modifications visible to readers, retries, allocation         *)
(* failures, panicking closures and epoch-based reclamation.               *)
(*                                                                         *)
(* Every action is one shared access of one thread.  Nothing orders the    *)
(* threads except the version words.  The map m changes at the step at     *)
(* which a modification becomes visible to validated readers (while the    *)
(* node's lock is held); seen[t][k] collects the values key k had since t  *)
(* invoked its current operation.  The verdicts of the specification:      *)
(*   bad     some response or old value is not one CongeeMap allows        *)
(*   uaf     a block was touched after it had been returned                *)
(*   Leaks   at quiescence a block is neither in the tree nor returned     *)
(*   deadlock / Progress                                                   *)
(* Flags drops one rule of the protocol at a time; each such variant must  *)
(* be rejected (OlcMC_x), which shows that the rule is needed, that the    *)
(* verdicts can see its absence - and yields a schedule that is replayed   *)
(* on the real library.                                                    *)
(***************************************************************************)
EXTENDS Art, TLC

CONSTANTS Keys,      \* sequence of byte sequences (ascending)
          Threads,
          Flags,     \* rules of the protocol left out
          Record     \* keep the schedule and the results (simulation, replay)

VARIABLES
    prog,    \* thread -> sequence of operations (constant during a behaviour)
    heap,    \* sequence of nodes; 1 is the root
    L,       \* thread -> control state
    m,       \* the abstract map
    seen,    \* thread -> key -> values since the invocation
    empt,    \* thread -> the answers is_empty may give
    pins,    \* threads whose guard is pinned
    bin,     \* retired nodes: node -> threads pinned when it was retired
    budget,  \* allocation failures and panics still to come
    bad, uaf,
    res,     \* thread -> results so far
    hist     \* the schedule: who took which step
vars == <<prog, heap, L, m, seen, empt, pins, bin, budget, bad, uaf, res, hist>>

Ids == 1..Len(Keys)
Nil == 0
Drop(f) == f \in Flags

(* ------------------------------ heap nodes ------------------------------ *)
(* ks/cs are the slot arrays as the small nodes keep them: sorted, of the  *)
(* class's capacity, only the first cnt in use.  A node of the largest     *)
(* class (the root is one) is indexed by the byte: cs[b + 1], no ks.       *)
NewNode(p, c) == [pre |-> p, cls |-> c, ks |-> [i \in 1..Caps[c] |-> 0],
                  cs |-> [i \in 1..Caps[c] |-> Nil], cnt |-> 0,
                  v |-> 0, lk |-> FALSE, ob |-> FALSE, fr |-> FALSE]
IsLeaf(n) == Len(n.pre) = KLen - 1
RECURSIVE FindFrom(_, _, _)
FindFrom(n, b, i) == IF i > n.cnt THEN Nil ELSE IF n.ks[i] = b THEN n.cs[i] ELSE FindFrom(n, b, i + 1)
Direct(n) == n.cls = Top
Child(n, b) == IF Direct(n) THEN n.cs[b + 1] ELSE FindFrom(n, b, 1)
Pos(n, b) == 1 + Cardinality({i \in 1..n.cnt : n.ks[i] < b})
At(n, b) == IF Direct(n) THEN b + 1 ELSE CHOOSE i \in 1..n.cnt : n.ks[i] = b
ShiftUp(a, pos, cnt) == [i \in DOMAIN a |-> IF i > pos /\ i <= cnt + 1 THEN a[i - 1] ELSE a[i]]
ShiftDown(a, pos, cnt) == [i \in DOMAIN a |-> IF i >= pos /\ i < cnt THEN a[i + 1] ELSE a[i]]
Plus(n, b, c) ==
    LET p == Pos(n, b)
    IN IF Direct(n) THEN [n EXCEPT !.cs[b + 1] = c, !.cnt = @ + 1]
       ELSE [n EXCEPT !.ks = [ShiftUp(n.ks, p, n.cnt) EXCEPT ![p] = b],
                 !.cs = [ShiftUp(n.cs, p, n.cnt) EXCEPT ![p] = c], !.cnt = @ + 1]
FullNode(n) == n.cls # Top /\ n.cnt = Caps[n.cls]
RECURSIVE Grown(_, _, _)
Grown(big, n, i) == IF i > n.cnt THEN big ELSE Grown(Plus(big, n.ks[i], n.cs[i]), n, i + 1)

(* The heap of a tree of Art.                                              *)
RECURSIVE SeqOf(_, _)
SeqOf(S, acc) == IF S = {} THEN acc
                 ELSE LET x == CHOOSE y \in S : \A z \in S : Len(y) <= Len(z)
                      IN SeqOf(S \ {x}, Append(acc, x))
HeapOf(t) ==
    LET ps == SeqOf(DOMAIN t, <<>>)
        idx(p) == CHOOSE i \in DOMAIN ps : ps[i] = p
        RECURSIVE Fill(_, _, _)
        Fill(n, kids, S) == IF S = {} THEN n
                            ELSE LET b == CHOOSE x \in S : TRUE
                                 IN Fill(Plus(n, b, IF IsLeaf(n) THEN kids[b] ELSE idx(kids[b])), kids, S \ {b})
    IN [i \in DOMAIN ps |-> Fill(NewNode(ps[i], t[ps[i]].cls), t[ps[i]].kids, DOMAIN t[ps[i]].kids)]

RECURSIVE Reach(_, _)
Reach(h, S) ==
    LET more == UNION {IF IsLeaf(h[n]) THEN {} ELSE {h[n].cs[i] : i \in IF Direct(h[n]) THEN DOMAIN h[n].cs ELSE 1..h[n].cnt} \ {Nil} : n \in S} \ S
    IN IF more = {} THEN S ELSE Reach(h, S \cup more)

(* ------------------------------ bookkeeping ----------------------------- *)
O(t) == prog[t][L[t].i]
K(t) == Keys[O(t).k]
Has(t) == L[t].i <= Len(prog[t])
NoFrame == <<>>
Start(i) == [pc |-> "idle", i |-> i, n |-> 1, nv |-> 0, p |-> Nil, pv |-> 0, pk |-> 0, nk |-> 0,
             ch |-> Nil, nm |-> 0, full |-> FALSE, new |-> Nil, st |-> NoFrame, vis |-> {}, out |-> <<>>]
Retry(t) == [Start(L[t].i) EXCEPT !.pc = "rl"]

Touch(S) == uaf' = (uaf \/ \E n \in S : heap[n].fr)
Say(t, a) == hist' = IF Record THEN Append(hist, <<t, a>>) ELSE hist

(* m becomes mm at this step, by thread t's operation on key k *)
Becomes(mm) ==
    /\ m' = mm
    /\ seen' = [s \in Threads |-> IF L[s].pc = "idle" THEN seen[s]
                                   ELSE [k \in Ids |-> seen[s][k] \cup {mm[k]}]]
    /\ empt' = [s \in Threads |-> IF L[s].pc = "idle" THEN empt[s] ELSE empt[s] \cup {IsEmpty(mm)}]
SameMap == UNCHANGED <<m, seen, empt>>

(* t's operation returns r *)
Return(t, r, ok) ==
    /\ res' = IF Record THEN [res EXCEPT ![t] = Append(@, r)] ELSE res
    /\ bad' = (bad \/ ~ok)
    /\ L' = [L EXCEPT ![t] = Start(L[t].i + 1)]
    /\ pins' = pins \ {t}
    /\ bin' = [n \in DOMAIN bin |-> bin[n] \ {t}]
NoReturn == UNCHANGED <<res, bad, pins, bin>>
Goto(t, pc) == L' = [L EXCEPT ![t].pc = pc]
Set(t, rec) == L' = [L EXCEPT ![t] = rec]

Miss(t) == Return(t, None, None \in seen[t][O(t).k])
Reading(o) == o.o \in {"scan", "empty"}

(* ------------------------------- the steps ------------------------------ *)
Begin(t) ==
    /\ L[t].pc = "idle" /\ Has(t)
    /\ pins' = pins \cup {t}
    /\ seen' = [seen EXCEPT ![t] = [k \in Ids |-> {m[k]}]]
    /\ empt' = [empt EXCEPT ![t] = {IsEmpty(m)}]
    /\ Set(t, [Start(L[t].i) EXCEPT !.pc = "rl"])
    /\ Say(t, "begin")
    /\ UNCHANGED <<heap, m, bin, budget, bad, uaf, res>>

ReadLock(t) ==
    /\ L[t].pc = "rl"
    /\ LET n == heap[L[t].n] IN
       /\ Touch({L[t].n})
       /\ IF n.lk \/ n.ob THEN Set(t, Retry(t))
          ELSE Set(t, [L[t] EXCEPT !.nv = n.v, !.pc = IF Reading(O(t)) THEN "open" ELSE "rc"])
    /\ Say(t, "rl")
    /\ UNCHANGED <<heap, budget>> /\ SameMap /\ NoReturn

(* prefix (immutable) and child *)
ReadChild(t) ==
    /\ L[t].pc = "rc"
    /\ LET n == heap[L[t].n]
           c == CommonLen(n.pre, K(t), 1)
           b == K(t)[Len(n.pre) + 1]
       IN /\ Touch({L[t].n})
          /\ IF c < Len(n.pre)
             THEN IF O(t).o \in {"insert", "coi"}
                  THEN Set(t, [L[t] EXCEPT !.pc = "upp_s", !.nm = c]) /\ NoReturn
                  ELSE Miss(t)
             ELSE IF Drop("get_miss_unchecked") /\ O(t).o = "get" /\ Child(n, b) = Nil
             THEN Miss(t)
             ELSE Set(t, [L[t] EXCEPT !.pc = "ck", !.ch = Child(n, b), !.nk = b]) /\ NoReturn
    /\ Say(t, "rc")
    /\ UNCHANGED <<heap, budget>> /\ SameMap

Valid(n, v) == heap[n].v = v /\ (~heap[n].lk \/ Drop("check_ignores_lock")) /\ ~heap[n].ob

Descend(t) == [L[t] EXCEPT !.pc = "rl", !.p = L[t].n, !.pv = L[t].nv, !.pk = L[t].nk, !.n = L[t].ch]

Check(t) ==
    /\ L[t].pc = "ck"
    /\ Touch({L[t].n})
    /\ LET o == O(t)  leaf == IsLeaf(heap[L[t].n])  c == L[t].ch IN
       IF ~Valid(L[t].n, L[t].nv) THEN Set(t, Retry(t)) /\ NoReturn
       ELSE CASE o.o = "get" ->
                    IF c = Nil THEN Miss(t)
                    ELSE IF leaf THEN Return(t, c, c \in seen[t][o.k])
                    ELSE Set(t, Descend(t)) /\ NoReturn
              [] o.o \in {"remove", "cip"} ->
                    IF c = Nil THEN Miss(t)
                    ELSE IF ~leaf THEN Set(t, Descend(t)) /\ NoReturn
                    ELSE Goto(t, IF o.o = "remove" THEN "cnt" ELSE "call") /\ NoReturn
              [] o.o \in {"insert", "coi"} ->
                    IF c = Nil THEN Goto(t, "call") /\ NoReturn
                    ELSE IF L[t].p # Nil /\ ~Drop("no_parent_check")
                         THEN Goto(t, "ckp") /\ NoReturn
                    ELSE IF leaf THEN Goto(t, "call") /\ NoReturn
                    ELSE Set(t, Descend(t)) /\ NoReturn
    /\ Say(t, "ck")
    /\ UNCHANGED <<heap, budget>> /\ SameMap

(* A failed attempt returns the leaf it built and unlocks the parent.      *)
Unlocked(h, n) == IF n = Nil THEN h ELSE [h EXCEPT ![n].lk = FALSE,
                                                        ![n].v = IF Drop("version_comes_round") THEN (@ + 1) % 2 ELSE @ + 1]
GaveUp(t, h) == IF L[t].new = Nil \/ Drop("race_leaks_leaf") THEN h ELSE [h EXCEPT ![L[t].new].fr = TRUE]

(* the parent's read lock is given up, with a check *)
CheckParent(t) ==
    /\ L[t].pc = "ckp"
    /\ Touch({L[t].p})
    /\ IF ~Valid(L[t].p, L[t].pv) THEN Set(t, Retry(t)) /\ heap' = GaveUp(t, heap)
       ELSE /\ UNCHANGED heap
            /\ IF L[t].ch # Nil
               THEN IF IsLeaf(heap[L[t].n]) THEN Goto(t, "call") ELSE Set(t, Descend(t))
               ELSE Goto(t, "upn_i")
    /\ Say(t, "ck")
    /\ UNCHANGED budget /\ SameMap /\ NoReturn

(* The closure of a computing operation; it may panic.  A new leaf is made *)
(* for an absent key above the last level; that may fail.                  *)
NewVal(t) == IF O(t).o = "insert" THEN O(t).v ELSE L[t].ch + 10
Give(t) == [heap EXCEPT ![L[t].new].fr = TRUE]
Failing(t, h) ==   \* what the call holds is given up, nothing else changes
    /\ heap' = h
    /\ Return(t, -1, TRUE)
    /\ SameMap
Call(t) ==
    /\ L[t].pc = "call"
    /\ LET leaf == IsLeaf(heap[L[t].n]) IN
       \/ /\ budget > 0 /\ O(t).o # "insert"      \* panic
          /\ budget' = budget - 1
          /\ Failing(t, heap)
       \/ /\ budget > 0 /\ L[t].ch = Nil /\ ~leaf \* no memory for the leaf
          /\ budget' = budget - 1
          /\ Failing(t, heap)
       \/ /\ UNCHANGED budget
          /\ SameMap /\ NoReturn
          /\ IF L[t].ch # Nil THEN Goto(t, "upn_w") /\ UNCHANGED heap
             ELSE IF leaf THEN Goto(t, "full") /\ UNCHANGED heap
             ELSE /\ heap' = Append(heap, Plus(NewNode(LeafPrefix(K(t)), 1), K(t)[KLen], NewVal(t)))
                  /\ Set(t, [L[t] EXCEPT !.pc = "full", !.new = Len(heap) + 1])
    /\ Say(t, "call")
    /\ UNCHANGED uaf

(* is there room? *)
AskFull(t) ==
    /\ L[t].pc = "full"
    /\ Touch({L[t].n})
    /\ Goto(t, IF FullNode(heap[L[t].n]) THEN "upp_g"
               ELSE IF L[t].p # Nil /\ ~Drop("no_parent_check") THEN "ckp" ELSE "upn_i")
    /\ Say(t, "acc")
    /\ UNCHANGED <<heap, budget>> /\ SameMap /\ NoReturn

CountKids(t) ==
    /\ L[t].pc = "cnt"
    /\ Touch({L[t].n})
    /\ Goto(t, IF heap[L[t].n].cnt = 1 THEN "upp_r" ELSE "upn_r")
    /\ Say(t, "acc")
    /\ UNCHANGED <<heap, budget>> /\ SameMap /\ NoReturn

(* -------------------------------- upgrades ------------------------------ *)

UpParent(t) ==
    /\ L[t].pc \in {"upp_g", "upp_s", "upp_r"}
    /\ Touch({L[t].p})
    /\ IF Valid(L[t].p, L[t].pv) /\ ~heap[L[t].p].lk
       THEN /\ heap' = [heap EXCEPT ![L[t].p].lk = TRUE]
            /\ Goto(t, CASE L[t].pc = "upp_g" -> "upn_g" [] L[t].pc = "upp_s" -> "upn_s"
                         [] OTHER -> IF Drop("unlink_without_leaf_lock") THEN "u1" ELSE "upn_u")
       ELSE /\ heap' = GaveUp(t, heap)
            /\ Set(t, Retry(t))
    /\ Say(t, "up")
    /\ UNCHANGED budget /\ SameMap /\ NoReturn

NextPc(pc) == CASE pc = "upn_g" -> "g1" [] pc = "upn_s" -> "s1" [] pc = "upn_u" -> "u1"
                [] pc = "upn_i" -> "i1" [] pc = "upn_w" -> "w1" [] OTHER -> "d1"
UpNode(t) ==
    /\ L[t].pc \in {"upn_g", "upn_s", "upn_u", "upn_i", "upn_w", "upn_r"}
    /\ Touch({L[t].n})
    /\ LET withP == L[t].pc \in {"upn_g", "upn_s", "upn_u"}
           n == L[t].n
       IN IF Valid(n, L[t].nv) /\ ~heap[n].lk
          THEN heap' = [heap EXCEPT ![n].lk = TRUE] /\ Goto(t, NextPc(L[t].pc))
          ELSE IF Drop("relock_in_place") /\ L[t].pc = "upn_w" /\ ~heap[n].lk /\ ~heap[n].ob
                  /\ Child(heap[n], L[t].nk) # Nil
          THEN heap' = [heap EXCEPT ![n].lk = TRUE] /\ Goto(t, NextPc(L[t].pc))
          ELSE /\ heap' = GaveUp(t, IF withP THEN Unlocked(heap, L[t].p) ELSE heap)
               /\ Set(t, Retry(t))
    /\ Say(t, "up")
    /\ UNCHANGED budget /\ SameMap /\ NoReturn

(* ------------------------------ modifications --------------------------- *)
Stay == UNCHANGED <<budget, uaf>> /\ NoReturn
(* a new entry in n: keys shift, children shift, slot written, count up *)
Inserting(t) ==
    LET id == L[t].n  n == heap[id]  p == Pos(n, L[t].nk)
        item == IF IsLeaf(n) THEN NewVal(t) ELSE L[t].new
    IN \/ /\ L[t].pc = "i1" /\ Direct(n)
          /\ heap' = [heap EXCEPT ![id].cs[L[t].nk + 1] = item]
          /\ Goto(t, "i4") /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "i1" /\ ~Direct(n)
          /\ heap' = [heap EXCEPT ![id].ks = ShiftUp(n.ks, p, n.cnt)]
          /\ L' = [L EXCEPT ![t].pc = "i2", ![t].nm = p] /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "i2"
          /\ heap' = [heap EXCEPT ![id].cs = ShiftUp(n.cs, L[t].nm, n.cnt)]
          /\ Goto(t, "i3") /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "i3"
          /\ heap' = [heap EXCEPT ![id].ks[L[t].nm] = L[t].nk, ![id].cs[L[t].nm] = item]
          /\ Goto(t, "i4") /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "i4"
          /\ heap' = [heap EXCEPT ![id].cnt = @ + 1]
          /\ Becomes(Put(m, O(t).k, NewVal(t)))
          /\ bad' = (bad \/ m[O(t).k] # None)
          /\ Goto(t, "un") /\ UNCHANGED <<budget, uaf, res, pins, bin>> /\ Say(t, "torn")
Writing(t) ==
    /\ L[t].pc = "w1"
    /\ heap' = [heap EXCEPT ![L[t].n].cs[At(heap[L[t].n], L[t].nk)] = NewVal(t)]
    /\ Becomes(Put(m, O(t).k, NewVal(t)))
    /\ bad' = (bad \/ m[O(t).k] # L[t].ch)
    /\ Goto(t, "un") /\ UNCHANGED <<budget, uaf, res, pins, bin>> /\ Say(t, "w")
Removing(t) ==
    LET id == L[t].n  n == heap[id] IN
       \/ /\ L[t].pc = "d1" /\ Direct(n)
          /\ heap' = [heap EXCEPT ![id].cs[L[t].nk + 1] = Nil]
          /\ Goto(t, "d3") /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "d1" /\ ~Direct(n)
          /\ heap' = [heap EXCEPT ![id].ks = ShiftDown(n.ks, At(n, L[t].nk), n.cnt)]
          /\ L' = [L EXCEPT ![t].pc = "d2", ![t].nm = At(n, L[t].nk)] /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "d2"
          /\ heap' = [heap EXCEPT ![id].cs = ShiftDown(n.cs, L[t].nm, n.cnt)]
          /\ Goto(t, "d3") /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "d3"
          /\ heap' = [heap EXCEPT ![id].cnt = @ - 1]
          /\ Becomes(Put(m, O(t).k, None))
          /\ bad' = (bad \/ m[O(t).k] # L[t].ch)
          /\ Goto(t, "un") /\ UNCHANGED <<budget, uaf, res, pins, bin>> /\ Say(t, "torn")
(* the node is released; the operation returns what it saw *)
Release(t) ==
    /\ L[t].pc = "un"
    /\ heap' = Unlocked(heap, L[t].n)
    /\ Return(t, IF L[t].ch = Nil THEN None ELSE L[t].ch, TRUE)
    /\ SameMap /\ UNCHANGED <<budget, uaf>> /\ Say(t, "ul")

(* growth: a larger copy takes the node's place below the parent *)
Retire(n) == bin' = (n :> pins) @@ bin
Growing(t) ==
    LET id == L[t].n  n == heap[id]
        item == IF IsLeaf(n) THEN NewVal(t) ELSE L[t].new
        big == Plus(Grown(NewNode(n.pre, n.cls + 1), n, 1), L[t].nk, item)
        pi == At(heap[L[t].p], L[t].pk)
    IN \/ /\ L[t].pc = "g1"
          /\ heap' = [Append(heap, big) EXCEPT ![L[t].p].cs[pi] = Len(heap) + 1]
          /\ Becomes(Put(m, O(t).k, NewVal(t)))
          /\ bad' = (bad \/ m[O(t).k] # None)
          /\ Goto(t, "g2") /\ UNCHANGED <<budget, uaf, res, pins, bin>> /\ Say(t, "w")
       \/ /\ L[t].pc = "g1" /\ budget > 0           \* no memory for the copy
          /\ budget' = budget - 1
          /\ LET h1 == Unlocked(Unlocked(heap, id), L[t].p)
                 h2 == IF Drop("oom_keeps_lock") THEN Unlocked(heap, L[t].p) ELSE h1
             IN heap' = (IF L[t].new = Nil THEN h2 ELSE [h2 EXCEPT ![L[t].new].fr = TRUE])
          /\ Return(t, -1, TRUE)
          /\ SameMap /\ UNCHANGED uaf /\ Say(t, "oom")
       \/ /\ L[t].pc = "g2"
          /\ heap' = IF Drop("grow_without_obsolete") THEN Unlocked(heap, id)
                     ELSE [heap EXCEPT ![id].ob = TRUE, ![id].fr = @ \/ Drop("free_at_once")]
          /\ IF Drop("free_at_once") THEN UNCHANGED bin ELSE Retire(id)
          /\ Goto(t, "g3") /\ SameMap /\ UNCHANGED <<budget, uaf, res, bad, pins>> /\ Say(t, "ob")
       \/ /\ L[t].pc = "g3"
          /\ heap' = Unlocked(heap, L[t].p)
          /\ Return(t, None, TRUE)
          /\ SameMap /\ UNCHANGED <<budget, uaf>> /\ Say(t, "ul")

(* a new inner node above n for the common part, with a new leaf *)
Splitting(t) ==
    LET id == L[t].n  n == heap[id]
        lf == Len(heap) + 1  md == Len(heap) + 2
        leaf == Plus(NewNode(LeafPrefix(K(t)), 1), K(t)[KLen], NewVal(t))
        mid == Plus(Plus(NewNode(SubSeq(K(t), 1, L[t].nm), 1), K(t)[L[t].nm + 1], lf), n.pre[L[t].nm + 1], id)
        pi == At(heap[L[t].p], L[t].pk)
    IN \/ /\ L[t].pc = "s1"
          /\ heap' = [heap \o <<leaf, mid>> EXCEPT ![L[t].p].cs[pi] = md]
          /\ Becomes(Put(m, O(t).k, NewVal(t)))
          /\ bad' = (bad \/ m[O(t).k] # None)
          /\ Goto(t, "s2") /\ UNCHANGED <<budget, uaf, res, pins, bin>> /\ Say(t, "w")
       \/ /\ L[t].pc = "s1" /\ budget > 0           \* no memory, or the closure panics
          /\ budget' = budget - 1
          /\ heap' = Unlocked(Unlocked(heap, id), L[t].p)
          /\ Return(t, -1, TRUE)
          /\ SameMap /\ UNCHANGED uaf /\ Say(t, "oom")
       \/ /\ L[t].pc = "s2"
          /\ heap' = Unlocked(heap, id)
          /\ Goto(t, "s3") /\ SameMap /\ Stay /\ Say(t, "ul")
       \/ /\ L[t].pc = "s3"
          /\ heap' = Unlocked(heap, L[t].p)
          /\ Return(t, None, TRUE)
          /\ SameMap /\ UNCHANGED <<budget, uaf>> /\ Say(t, "ul")

(* the last entry of a leaf goes: the leaf is taken out of its parent *)
Unlinking(t) ==
    LET id == L[t].n  pid == L[t].p  p == heap[pid] IN
       \/ /\ L[t].pc = "u1" /\ Direct(p)
          /\ heap' = [heap EXCEPT ![pid].cs[L[t].pk + 1] = Nil]
          /\ Goto(t, "u3") /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "u1" /\ ~Direct(p)
          /\ heap' = [heap EXCEPT ![pid].ks = ShiftDown(p.ks, At(p, L[t].pk), p.cnt)]
          /\ L' = [L EXCEPT ![t].pc = "u2", ![t].nm = At(p, L[t].pk)] /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "u2"
          /\ heap' = [heap EXCEPT ![pid].cs = ShiftDown(p.cs, L[t].nm, p.cnt)]
          /\ Goto(t, "u3") /\ SameMap /\ Stay /\ Say(t, "torn")
       \/ /\ L[t].pc = "u3"
          /\ heap' = [heap EXCEPT ![pid].cnt = @ - 1]
          /\ Becomes(Put(m, O(t).k, None))
          /\ bad' = (bad \/ m[O(t).k] # L[t].ch \/ (heap[id].cnt # 1))
          /\ Goto(t, "u4") /\ UNCHANGED <<budget, uaf, res, pins, bin>> /\ Say(t, "torn")
       \/ /\ L[t].pc = "u4"
          /\ heap' = [heap EXCEPT ![id].ob = TRUE, ![id].fr = @ \/ Drop("free_at_once")]
          /\ IF Drop("free_at_once") THEN UNCHANGED bin ELSE Retire(id)
          /\ Goto(t, "u5") /\ SameMap /\ UNCHANGED <<budget, uaf, res, bad, pins>> /\ Say(t, "ob")
       \/ /\ L[t].pc = "u5"
          /\ heap' = IF Drop("parent_stays_locked") THEN heap ELSE Unlocked(heap, pid)
          /\ Return(t, L[t].ch, TRUE)
          /\ SameMap /\ UNCHANGED <<budget, uaf>> /\ Say(t, "ul")

(* ------------------------------ whole scans ----------------------------- *)
(* A depth-first visit.  A frame is <<node, version, next slot, slots>>:   *)
(* the number of slots is read once, when the iteration starts; a node of  *)
(* the largest class is looked at slot by slot.  A scan may have a limit   *)
(* (field v of the operation; 0: none): it ends at the first entry that    *)
(* does not fit.                                                           *)
TopF(t) == L[t].st[Len(L[t].st)]
Pop(t) == SubSeq(L[t].st, 1, Len(L[t].st) - 1)
ScanOk(t, out) ==
    /\ \A j \in 1..(Len(out) - 1) : out[j][1] < out[j + 1][1]
    /\ \A j \in DOMAIN out : out[j][2] \in seen[t][out[j][1]]
    /\ \A k \in Ids : \/ None \in seen[t][k]
                      \/ \E j \in DOMAIN out : out[j][1] = k
                      \/ O(t).v # 0 /\ Len(out) = O(t).v /\ \A j \in DOMAIN out : out[j][1] < k
IdOf(kb) == CHOOSE k \in 0..Len(Keys) : IF \E x \in Ids : Keys[x] = kb THEN k > 0 /\ Keys[k] = kb ELSE k = 0

Open(t) ==
    /\ L[t].pc = "open"
    /\ Touch({L[t].n})
    /\ Set(t, [L[t] EXCEPT !.pc = "next", !.st = Append(@, <<L[t].n, L[t].nv, 1, IF Direct(heap[L[t].n]) THEN Caps[Top] ELSE heap[L[t].n].cnt>>)])
    /\ Say(t, "acc")
    /\ UNCHANGED <<heap, budget>> /\ SameMap /\ NoReturn
NextSlot(t) ==
    /\ L[t].pc = "next"
    /\ LET f == TopF(t)  n == heap[f[1]] IN
       IF f[3] > f[4]
       THEN /\ Goto(t, "end") /\ UNCHANGED uaf
       ELSE /\ Touch({f[1]})
            /\ Set(t, IF Direct(n) /\ n.cs[f[3]] = Nil
                      THEN [L[t] EXCEPT !.st[Len(L[t].st)][3] = f[3] + 1]
                      ELSE [L[t] EXCEPT !.pc = "sck", !.ch = n.cs[f[3]],
                                        !.nk = IF Direct(n) THEN f[3] - 1 ELSE n.ks[f[3]],
                                        !.st[Len(L[t].st)][3] = f[3] + 1])
    /\ Say(t, "acc")
    /\ UNCHANGED <<heap, budget>> /\ SameMap /\ NoReturn
SlotCheck(t) ==
    /\ L[t].pc = "sck"
    /\ LET f == TopF(t)  n == heap[f[1]] IN
       /\ Touch({f[1]})
       /\ IF ~Valid(f[1], f[2]) /\ ~Drop("scan_slots_unchecked") THEN Set(t, Retry(t)) /\ NoReturn
          ELSE IF ~IsLeaf(n) THEN Set(t, [L[t] EXCEPT !.pc = "rl", !.n = L[t].ch]) /\ NoReturn
          ELSE IF O(t).o = "empty" THEN Return(t, 0, FALSE \in empt[t])
          ELSE IF O(t).v # 0 /\ Len(L[t].out) = O(t).v THEN Return(t, L[t].out, ScanOk(t, L[t].out))
          ELSE /\ Set(t, [L[t] EXCEPT !.pc = "next",
                                      !.out = Append(@, <<IdOf(Append(n.pre, L[t].nk)), L[t].ch>>)])
               /\ NoReturn
    /\ Say(t, "ck")
    /\ UNCHANGED <<heap, budget>> /\ SameMap
EndOfNode(t) ==
    /\ L[t].pc = "end"
    /\ LET f == TopF(t) IN
       /\ Touch({f[1]})
       /\ IF ~Valid(f[1], f[2]) /\ ~Drop("scan_end_unchecked") THEN Set(t, Retry(t)) /\ NoReturn
          ELSE IF Len(L[t].st) > 1
          THEN Set(t, [L[t] EXCEPT !.pc = "next", !.st = Pop(t), !.vis = @ \cup {<<f[1], f[2]>>}]) /\ NoReturn
          ELSE IF O(t).o = "scan" THEN Return(t, L[t].out, ScanOk(t, L[t].out))
          ELSE IF Drop("empty_without_recheck") THEN Return(t, 1, TRUE \in empt[t])
          ELSE Set(t, [L[t] EXCEPT !.pc = "vck", !.vis = @ \cup {<<f[1], f[2]>>}]) /\ NoReturn
    /\ Say(t, "ck")
    /\ UNCHANGED <<heap, budget>> /\ SameMap
(* is_empty: every visited node once more before the answer "empty" *)
VisitedCheck(t) ==
    /\ L[t].pc = "vck"
    /\ \E x \in L[t].vis :
          /\ \A y \in L[t].vis : x[1] <= y[1]
          /\ Touch({x[1]})
          /\ IF ~Valid(x[1], x[2]) THEN Set(t, Retry(t)) /\ NoReturn
             ELSE IF L[t].vis = {x} THEN Return(t, 1, TRUE \in empt[t])
             ELSE Set(t, [L[t] EXCEPT !.vis = @ \ {x}]) /\ NoReturn
    /\ Say(t, "ck")
    /\ UNCHANGED <<heap, budget>> /\ SameMap

(* ------------------------------ reclamation ----------------------------- *)
(* The epoch has moved past every guard there was: blocks go back.         *)
Free(n) ==
    /\ n \in DOMAIN bin /\ bin[n] = {}
    /\ bin' = [x \in DOMAIN bin \ {n} |-> bin[x]]
    /\ bad' = (bad \/ heap[n].fr)
    /\ heap' = [heap EXCEPT ![n].fr = TRUE]
    /\ UNCHANGED <<L, budget, uaf, res, pins, hist>> /\ SameMap

Step(t) ==
    /\ \/ Begin(t) \/ ReadLock(t) \/ ReadChild(t) \/ Check(t) \/ CheckParent(t) \/ Call(t)
       \/ AskFull(t) \/ CountKids(t) \/ UpParent(t) \/ UpNode(t)
       \/ Inserting(t) \/ Writing(t) \/ Removing(t) \/ Release(t)
       \/ Growing(t) \/ Splitting(t) \/ Unlinking(t)
       \/ Open(t) \/ NextSlot(t) \/ SlotCheck(t) \/ EndOfNode(t) \/ VisitedCheck(t)
    /\ UNCHANGED prog
AllDone == \A t \in Threads : L[t].pc = "idle" /\ ~Has(t)
Next == \/ \E t \in Threads : Step(t)
        \/ \E n \in DOMAIN bin : Free(n) /\ UNCHANGED prog
        \/ AllDone /\ DOMAIN bin = {} /\ UNCHANGED vars

(* ------------------------------- verdicts ------------------------------- *)
Linearizable == ~bad
NoUseAfterFree == ~uaf
NoLeak == (AllDone /\ DOMAIN bin = {}) =>
             \A n \in DOMAIN heap : heap[n].fr = (n \notin Reach(heap, {1}))
Unlocked0 == AllDone => \A n \in Reach(heap, {1}) : ~heap[n].lk /\ ~heap[n].ob
(* at quiescence the heap is a tree that holds exactly the map *)
FinalTree == AllDone => \A k \in Ids :
    LET RECURSIVE Get(_)
        Get(n) == IF CommonLen(heap[n].pre, Keys[k], 1) < Len(heap[n].pre) THEN None
                  ELSE LET c == Child(heap[n], Keys[k][Len(heap[n].pre) + 1])
                       IN IF c = Nil THEN None ELSE IF IsLeaf(heap[n]) THEN c ELSE Get(c)
    IN Get(1) = m[k]
Fair == \A t \in Threads : WF_vars(Step(t))
Progress == <>AllDone
==============================================================================
