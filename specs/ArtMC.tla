-------------------------------- MODULE ArtMC --------------------------------
(***************************************************************************)
(* Exhaustive check of the structural specification on small constants:    *)
(* Art refines CongeeMap for point operations, and the scan algorithm      *)
(* computes the specified range, on every reachable tree and every bound.  *)
(***************************************************************************)
EXTENDS ArtScan

CONSTANTS Keys,     \* sequence of byte sequences, ascending
          Bufs      \* buffer lengths tried
VARIABLES t, m

Ids == 1..Len(Keys)
Vals == 0..(NV - 1)
Init == t = EmptyTree /\ m = [k \in Ids |-> None]

Insert(k, v) == t' = InsertT(t, Keys[k], v) /\ m' = Put(m, k, v)
Delete(k) == m[k] # None /\ t' = RemoveT(t, Keys[k]) /\ m' = Put(m, k, None)
Next == \E k \in Ids : Delete(k) \/ \E v \in Vals : Insert(k, v)
Spec == Init /\ [][Next]_<<t, m>>

Refines == /\ \A k \in Ids : Lookup(t, Keys[k]) = m[k]
           /\ Cardinality(DOMAIN Entries(t)) = Count(m)
Shape   == WellFormed(t)
(* a node is never in a class larger than its history needs: one class up  *)
(* only when full, which Next respects; here: alloc list matches the case  *)
AllocOk == \A k \in Ids :
    LET t2 == InsertT(t, Keys[k], 0)
        before == Live(t)  after == Live(t2)
        a == AllocsOf(t, Keys[k])
        got(c) == Cardinality({i \in DOMAIN a : a[i] = c})
        w == Find(t, Keys[k])
        lost(c) == IF CaseOf(t, Keys[k]) \in {"growleaf", "growinner"} /\ t[w.p].cls = c THEN 1 ELSE 0
    IN \A c \in 1..Top : after[c] = before[c] + got(c) - lost(c)

ToPairs(flat) == [i \in 1..(Len(flat) \div 2) |-> <<Keys[flat[2*i - 1]], flat[2*i]>>]
ScanOk == \A lo \in Ids, hi \in Ids, n \in Bufs :
    RangeT(t, Keys[lo], Keys[hi], n) = ToPairs(Apply(m, [o |-> "range", k |-> lo, h |-> hi, n |-> n]).r)

(* With no entry left the tree may still hold husks: the reason why        *)
(* emptiness cannot be read off the root's child count (must be violated). *)
RootCountTellsEmpty == IsEmpty(m) => DOMAIN t[<<>>].kids = {}
(* A removal followed by a re-insertion reaches every class again, etc.:   *)
(* reachability goals used to guard against vacuity (each must be violated)*)
NoHusk == \A p \in Nodes(t) : p = <<>> \/ NumKids(t[p]) > 0
NoTop  == \A p \in Nodes(t) : p = <<>> \/ t[p].cls < 3
==============================================================================
