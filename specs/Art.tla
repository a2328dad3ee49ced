--------------------------------- MODULE Art ---------------------------------
(***************************************************************************)
(* The structure of the tree: an adaptive radix tree with path             *)
(* compression, as a deterministic function of the operation history.      *)
(*                                                                         *)
(* A node is identified by its prefix, the sequence of key bytes leading   *)
(* to it (the implementation also stores the full prefix in the node).     *)
(* A tree is a function from prefixes to records                           *)
(*     [cls  |-> index of the node's size class,                           *)
(*      kids |-> byte -> prefix of the child, or value at the last level]  *)
(* The root is the node <<>>; it has the largest class and is never full.  *)
(*                                                                         *)
(* Deliberate deviations of the code from a textbook ART, modelled as is:  *)
(*  - nodes never shrink to a smaller class,                               *)
(*  - only a last-level node is unlinked when it becomes empty; an inner   *)
(*    node whose children have all gone stays (a "husk"),                  *)
(*  - an inner node with one child is not merged with it.                  *)
(***************************************************************************)
EXTENDS CongeeMap, TLC

CONSTANTS KLen,   \* bytes per key (8 in the implementation)
          Caps    \* slots of the node classes (<<4, 16, 48, 256>>)

Top == Len(Caps)
EmptyKids == [b \in {} |-> 0]
EmptyTree == (<<>> :> [cls |-> Top, kids |-> EmptyKids])

NumKids(n) == Cardinality(DOMAIN n.kids)
IsLast(p)  == Len(p) = KLen - 1
Full(n)    == n.cls # Top /\ NumKids(n) = Caps[n.cls]
LeafPrefix(kb) == SubSeq(kb, 1, KLen - 1)
IsPre(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]

RECURSIVE CommonLen(_, _, _)
CommonLen(p, q, i) ==
    IF i > Len(p) \/ i > Len(q) THEN i - 1
    ELSE IF p[i] # q[i] THEN i - 1 ELSE CommonLen(p, q, i + 1)

(* Where a traversal for key kb ends: c = "hit" (entry found in p),        *)
(* "absent" (p has no slot for the next byte) or "split" (p's child q has  *)
(* a prefix that diverges from kb); par is the parent of p.                *)
RECURSIVE Locate(_, _, _, _)
Locate(t, kb, p, par) ==
    LET b == kb[Len(p) + 1] IN
    IF b \notin DOMAIN t[p].kids THEN [c |-> "absent", p |-> p, par |-> par, q |-> p]
    ELSE IF IsLast(p) THEN [c |-> "hit", p |-> p, par |-> par, q |-> p]
    ELSE LET q == t[p].kids[b] IN
         IF IsPre(q, kb) THEN Locate(t, kb, q, p)
         ELSE [c |-> "split", p |-> p, par |-> par, q |-> q]

Find(t, kb) == Locate(t, kb, <<>>, <<>>)

Lookup(t, kb) ==
    LET w == Find(t, kb) IN
    IF w.c = "hit" THEN t[w.p].kids[kb[KLen]] ELSE None

AddKid(n, b, x) ==
    [cls  |-> IF Full(n) THEN n.cls + 1 ELSE n.cls,
     kids |-> (b :> x) @@ n.kids]
DropKid(n, b) ==
    [n EXCEPT !.kids = [c \in DOMAIN n.kids \ {b} |-> n.kids[c]]]
Leaf(kb, v) == [cls |-> 1, kids |-> (kb[KLen] :> v)]

(* What an insertion of kb does to the structure.                          *)
CaseOf(t, kb) ==
    LET w == Find(t, kb) IN
    CASE w.c = "hit"    -> "update"
      [] w.c = "split"  -> "split"
      [] w.c = "absent" -> IF IsLast(w.p)
                           THEN IF Full(t[w.p]) THEN "growleaf" ELSE "slot"
                           ELSE IF Full(t[w.p]) THEN "growinner" ELSE "newleaf"

InsertT(t, kb, v) ==
    LET w == Find(t, kb)
        lp == LeafPrefix(kb)
        b == kb[Len(w.p) + 1]
    IN CASE w.c = "hit" -> [t EXCEPT ![w.p].kids[b] = v]
         [] w.c = "absent" /\ IsLast(w.p) -> [t EXCEPT ![w.p] = AddKid(@, b, v)]
         [] w.c = "absent" /\ ~IsLast(w.p) ->
                (lp :> Leaf(kb, v)) @@ [t EXCEPT ![w.p] = AddKid(@, b, lp)]
         [] w.c = "split" ->
                LET n == CommonLen(w.q, kb, 1)
                    mid == SubSeq(kb, 1, n)
                IN (lp :> Leaf(kb, v))
                   @@ (mid :> [cls |-> 1, kids |-> (kb[n + 1] :> lp) @@ (w.q[n + 1] :> w.q)])
                   @@ [t EXCEPT ![w.p].kids[b] = mid]

(* The class sizes an insertion allocates, in order.                       *)
AllocsOf(t, kb) ==
    LET w == Find(t, kb) IN
    CASE CaseOf(t, kb) = "update"    -> <<>>
      [] CaseOf(t, kb) = "slot"      -> <<>>
      [] CaseOf(t, kb) = "newleaf"   -> <<1>>
      [] CaseOf(t, kb) = "growleaf"  -> <<t[w.p].cls + 1>>
      [] CaseOf(t, kb) = "growinner" -> <<1, t[w.p].cls + 1>>
      [] CaseOf(t, kb) = "split"     -> <<1, 1>>

RemoveT(t, kb) ==
    LET w == Find(t, kb) IN
    IF w.c # "hit" THEN t
    ELSE IF NumKids(t[w.p]) = 1
         THEN LET b == kb[Len(w.par) + 1]
                  t1 == [t EXCEPT ![w.par] = DropKid(@, b)]
              IN [p \in DOMAIN t \ {w.p} |-> t1[p]]
         ELSE [t EXCEPT ![w.p] = DropKid(@, kb[KLen])]

StoreT(t, kb, old, new) ==        \* the effect of changing kb from old to new
    IF new = old THEN t
    ELSE IF new = None THEN RemoveT(t, kb)
    ELSE InsertT(t, kb, new)

(* ---------------------------------------------------------------------- *)
(* What is observable about the structure                                  *)
Nodes(t) == DOMAIN t
Live(t)  == [c \in 1..Top |-> Cardinality({p \in Nodes(t) : t[p].cls = c})]
Slots(t, ps, c) ==
    LET RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN 0
                  ELSE LET p == CHOOSE x \in S : TRUE
                       IN NumKids(t[p]) + Sum(S \ {p})
    IN Sum({p \in ps : t[p].cls = c})
Entries(t) ==                      \* key -> value, keys as byte sequences
    LET last == {p \in Nodes(t) : IsLast(p)}
        keys == UNION {{Append(p, b) : b \in DOMAIN t[p].kids} : p \in last}
    IN [k \in keys |-> t[LeafPrefix(k)].kids[k[KLen]]]
RECURSIVE Depth(_, _, _)
Depth(t, p, q) == IF p = q THEN 0 ELSE 1 + Depth(t, t[p].kids[q[Len(p) + 1]], q)
MaxDepth(t) == CHOOSE d \in 0..KLen : (\E p \in Nodes(t) : Depth(t, <<>>, p) = d)
                                   /\ \A p \in Nodes(t) : Depth(t, <<>>, p) <= d
(* Statistics: per level and class, <<nodes, occupied slots>>.             *)
LevelStats(t) ==
    LET dep == [p \in Nodes(t) |-> Depth(t, <<>>, p)]
        maxd == CHOOSE d \in 0..KLen : (\E p \in Nodes(t) : dep[p] = d)
                                       /\ \A p \in Nodes(t) : dep[p] <= d
    IN [i \in 1..(maxd + 1) |->
         LET ps == {p \in Nodes(t) : dep[p] = i - 1}
         IN [j \in 1..(2 * Top) |->
              IF j % 2 = 1 THEN Cardinality({p \in ps : t[p].cls = (j + 1) \div 2})
              ELSE Slots(t, ps, j \div 2)]]

(* ---------------------------------------------------------------------- *)
(* Structural well-formedness                                              *)
WellFormed(t) ==
    /\ <<>> \in DOMAIN t
    /\ \A p \in Nodes(t) :
        /\ Len(p) <= KLen - 1
        /\ NumKids(t[p]) <= Caps[t[p].cls]
        /\ IsLast(p) /\ p # <<>> => NumKids(t[p]) > 0
        /\ ~IsLast(p) => \A b \in DOMAIN t[p].kids :
              LET q == t[p].kids[b] IN
              q \in Nodes(t) /\ Len(q) > Len(p) /\ IsPre(p, q) /\ q[Len(p) + 1] = b
    /\ \A q \in Nodes(t) \ {<<>>} :
         Cardinality({p \in Nodes(t) : ~IsLast(p) /\ \E b \in DOMAIN t[p].kids : t[p].kids[b] = q}) = 1
==============================================================================
