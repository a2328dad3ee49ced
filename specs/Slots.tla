--------------------------------- MODULE Slots ---------------------------------
(***************************************************************************)
(* How the four node classes keep their slots, as a refinement of a        *)
(* partial map from bytes to children.                                     *)
(*                                                                         *)
(*   classes 1, 2   two parallel arrays sorted by byte; only the first cnt *)
(*                  places count, what lies behind them is stale           *)
(*   class 3        an index from bytes to places, and a free list running *)
(*                  through the unused places themselves: a free place     *)
(*                  holds the number of the next one                       *)
(*   class 4        one place per byte and a presence mask; the child of   *)
(*                  an absent byte is stale                                *)
(*                                                                         *)
(* A full node is replaced by a copy of the next class.  Checked: each     *)
(* representation means the map the operations define (Means), lookup and  *)
(* iteration read exactly that map (Reads), the free list is exactly the   *)
(* unused places (FreeList), and a node is never larger than the largest   *)
(* number of slots it has had to hold asks for (Smallest).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NB,     \* bytes are 0..NB-1
          Caps,   \* <<c1, c2, c3>>; class 4 holds every byte
          Kids    \* children
VARIABLES r,      \* the representation
          a,      \* the map it stands for
          most    \* the largest number of slots needed so far

Bytes == 0..(NB - 1)
Cap(c) == IF c = 4 THEN NB ELSE Caps[c]
Empty3 == Caps[3]                \* the marker for "no place"
Stale == 0                       \* fresh memory is zeroed

Sorted(c) == [cls |-> c, ks |-> [i \in 1..Caps[c] |-> 0], cs |-> [i \in 1..Caps[c] |-> Stale], cnt |-> 0]
Indexed   == [cls |-> 3, ix |-> [b \in Bytes |-> Empty3],
              pl |-> [i \in 0..(Caps[3] - 1) |-> i + 1], nx |-> 0, cnt |-> 0]
Direct    == [cls |-> 4, mk |-> [b \in Bytes |-> FALSE], cs |-> [b \in Bytes |-> Stale], cnt |-> 0]
New(c) == CASE c \in {1, 2} -> Sorted(c) [] c = 3 -> Indexed [] c = 4 -> Direct

(* ------------------------------- reading -------------------------------- *)
None == -1
Where(n, b) == {i \in 1..n.cnt : n.ks[i] = b}
Get(n, b) ==
    CASE n.cls \in {1, 2} -> IF Where(n, b) = {} THEN None
                             ELSE n.cs[CHOOSE i \in Where(n, b) : \A j \in Where(n, b) : i <= j]
      [] n.cls = 3 -> IF n.ix[b] = Empty3 THEN None ELSE n.pl[n.ix[b]]
      [] n.cls = 4 -> IF n.mk[b] THEN n.cs[b] ELSE None

RECURSIVE Walk(_, _, _)
Walk(n, b, hi) == IF b > hi THEN <<>>
                  ELSE IF Get(n, b) = None THEN Walk(n, b + 1, hi)
                  ELSE <<<<b, Get(n, b)>>>> \o Walk(n, b + 1, hi)
Part(n, i, j) == IF i > j THEN <<>> ELSE [x \in 1..(j - i + 1) |-> <<n.ks[i + x - 1], n.cs[i + x - 1]>>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* Children between two bytes as each class's iterator gives them: class 1 *)
(* filters, class 2 cuts only at a bound that is itself present, classes 3 *)
(* and 4 walk the bytes.                                                   *)
Iter(n, lo, hi) ==
    CASE n.cls = 1 -> SelectSeq(Part(n, 1, n.cnt), LAMBDA e : lo <= e[1] /\ e[1] <= hi)
      [] n.cls = 2 -> IF n.cnt = 0 THEN <<>>
                      ELSE Part(n, IF Where(n, lo) = {} THEN 1 ELSE Least(Where(n, lo)),
                                   IF Where(n, hi) = {} THEN n.cnt ELSE Least(Where(n, hi)))
      [] OTHER -> Walk(n, lo, hi)

(* ------------------------------ operations ------------------------------ *)
PosFor(n, b) == 1 + Cardinality({i \in 1..n.cnt : n.ks[i] < b})
Up(s, p, cnt)   == [i \in DOMAIN s |-> IF i > p /\ i <= cnt + 1 THEN s[i - 1] ELSE s[i]]
Down(s, p, cnt) == [i \in DOMAIN s |-> IF i >= p /\ i < cnt THEN s[i + 1] ELSE s[i]]
Add(n, b, c) ==
    CASE n.cls \in {1, 2} ->
            LET p == PosFor(n, b)
            IN [n EXCEPT !.ks = [Up(n.ks, p, n.cnt) EXCEPT ![p] = b],
                         !.cs = [Up(n.cs, p, n.cnt) EXCEPT ![p] = c], !.cnt = @ + 1]
      [] n.cls = 3 -> [n EXCEPT !.nx = n.pl[n.nx], !.pl[n.nx] = c, !.ix[b] = n.nx, !.cnt = @ + 1]
      [] n.cls = 4 -> [n EXCEPT !.cs[b] = c, !.mk[b] = TRUE, !.cnt = @ + 1]
Del(n, b) ==
    CASE n.cls \in {1, 2} ->
            LET p == Least(Where(n, b))
            IN [n EXCEPT !.ks = Down(n.ks, p, n.cnt), !.cs = Down(n.cs, p, n.cnt), !.cnt = @ - 1]
      [] n.cls = 3 -> [n EXCEPT !.pl[n.ix[b]] = n.nx, !.nx = n.ix[b], !.ix[b] = Empty3, !.cnt = @ - 1]
      [] n.cls = 4 -> [n EXCEPT !.mk[b] = FALSE, !.cnt = @ - 1]
Change(n, b, c) ==
    CASE n.cls \in {1, 2} -> [n EXCEPT !.cs[Least(Where(n, b))] = c]
      [] n.cls = 3 -> [n EXCEPT !.pl[n.ix[b]] = c]
      [] n.cls = 4 -> [n EXCEPT !.cs[b] = c]
RECURSIVE AddAll(_, _)
AddAll(n, es) == IF es = <<>> THEN n ELSE AddAll(Add(n, Head(es)[1], Head(es)[2]), Tail(es))
Full(n) == n.cls # 4 /\ n.cnt = Cap(n.cls)
Grown(n) == AddAll(New(n.cls + 1), IF n.cls \in {1, 2} THEN Part(n, 1, n.cnt) ELSE Walk(n, 0, NB - 1))

(* -------------------------------- behaviour ----------------------------- *)
Init == r = New(1) /\ a = [b \in Bytes |-> None] /\ most = 0
Size == Cardinality({b \in Bytes : a[b] # None})
Insert(b, c) ==
    /\ a[b] = None
    /\ r' = Add(IF Full(r) THEN Grown(r) ELSE r, b, c)
    /\ a' = [a EXCEPT ![b] = c]
    /\ most' = IF Size + 1 > most THEN Size + 1 ELSE most
Remove(b) == a[b] # None /\ r' = Del(r, b) /\ a' = [a EXCEPT ![b] = None] /\ UNCHANGED most
Replace(b, c) == a[b] # None /\ r' = Change(r, b, c) /\ a' = [a EXCEPT ![b] = c] /\ UNCHANGED most
Next == \E b \in Bytes : Remove(b) \/ \E c \in Kids : Insert(b, c) \/ Replace(b, c)

(* ------------------------------- properties ----------------------------- *)
Means == /\ r.cnt = Size
         /\ \A b \in Bytes : Get(r, b) = a[b]
         /\ r.cls \in {1, 2} => \A i \in 1..(r.cnt - 1) : r.ks[i] < r.ks[i + 1]
RECURSIVE Expect(_, _)
Expect(b, hi) == IF b > hi THEN <<>> ELSE IF a[b] = None THEN Expect(b + 1, hi)
                 ELSE <<<<b, a[b]>>>> \o Expect(b + 1, hi)
Inside(s, lo, hi) == SelectSeq(s, LAMBDA e : lo <= e[1] /\ e[1] <= hi)
Reads == \A lo \in Bytes, hi \in Bytes :
            lo <= hi => LET s == Iter(r, lo, hi) IN
                /\ Inside(s, lo, hi) = Expect(lo, hi)
                /\ r.cls # 2 => s = Expect(lo, hi)
                /\ \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]
RECURSIVE Chain(_, _)
Chain(x, seen) == IF x = Empty3 \/ x \in seen THEN seen ELSE Chain(r.pl[x], seen \cup {x})
FreeList == r.cls = 3 =>
    LET used == {r.ix[b] : b \in {x \in Bytes : r.ix[x] # Empty3}}
    IN Chain(r.nx, {}) = (0..(Caps[3] - 1)) \ used /\ Cardinality(used) = r.cnt
Smallest == \A c \in 1..3 : r.cls > c => most > Cap(c)
(* goals, to be violated: every class is reached, also by a node that has  *)
(* been larger, and the free list gets out of order                        *)
NeverDirect == r.cls # 4
FreeInOrder == r.cls = 3 /\ r.nx # Empty3 => r.pl[r.nx] = r.nx + 1
==============================================================================
