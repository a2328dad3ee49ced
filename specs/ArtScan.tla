------------------------------- MODULE ArtScan -------------------------------
(***************************************************************************)
(* The range-scan algorithm of the implementation, transcribed over Art    *)
(* trees: the descent while both bounds agree (Scan), the left and right   *)
(* flanks (FindStart, FindEnd) and whole subtrees (Copy).  Keys are byte   *)
(* sequences; lo and hi have length KLen.  A result is [r |-> pairs,       *)
(* full |-> a further match was seen after the buffer of n was full].      *)
(***************************************************************************)
EXTENDS Art

RECURSIVE LexLt(_, _, _)
LexLt(a, b, i) == IF i > Len(a) THEN FALSE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLt(a, b, i + 1)
Lt(a, b) == LexLt(a, b, 1)
Le(a, b) == ~Lt(b, a)

RECURSIVE SortUp(_)
SortUp(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SortUp(S \ {x})
SortedKids(n) == SortUp(DOMAIN n.kids)

(* Children of a node between two bytes, as the class's iterator gives     *)
(* them: class 2 (16 slots) only cuts at a bound that is itself a child.   *)
Children(n, lo, hi) ==
    LET all == SortedKids(n) IN
    IF n.cls = 2
    THEN SelectSeq(all, LAMBDA b : (lo \in DOMAIN n.kids => b >= lo) /\ (hi \in DOMAIN n.kids => b <= hi))
    ELSE SelectSeq(all, LAMBDA b : lo <= b /\ b <= hi)

Write(acc, key, v, lo, hi, n) ==
    IF ~(Le(lo, key) /\ Lt(key, hi)) THEN acc
    ELSE IF Len(acc.r) = n THEN [acc EXCEPT !.full = TRUE]
    ELSE [acc EXCEPT !.r = Append(@, <<key, v>>)]

RECURSIVE Copy(_, _, _, _, _, _), CopyKids(_, _, _, _, _, _, _)
Copy(t, p, lo, hi, n, acc) == CopyKids(t, p, SortedKids(t[p]), lo, hi, n, acc)
CopyKids(t, p, bs, lo, hi, n, acc) ==
    IF bs = <<>> \/ acc.full THEN acc
    ELSE LET b == Head(bs)
             acc1 == IF IsLast(p) THEN Write(acc, Append(p, b), t[p].kids[b], lo, hi, n)
                     ELSE Copy(t, t[p].kids[b], lo, hi, n, acc)
         IN CopyKids(t, p, Tail(bs), lo, hi, n, acc1)

(* -1, 0, 1: the prefix q compared with the same-length prefix of k        *)
CmpPrefix(q, k) == LET i == CommonLen(q, k, 1) + 1 IN
    IF i > Len(q) THEN 0 ELSE IF q[i] < k[i] THEN -1 ELSE 1

RECURSIVE FindStart(_, _, _, _, _, _), StartKids(_, _, _, _, _, _, _, _)
FindStart(t, p, lo, hi, n, acc) ==
    LET c == CmpPrefix(p, lo) IN
    IF c = 1 THEN Copy(t, p, lo, hi, n, acc)
    ELSE IF c = -1 THEN acc
    ELSE LET s == lo[Len(p) + 1] IN StartKids(t, p, Children(t[p], s, 255), s, lo, hi, n, acc)
StartKids(t, p, bs, s, lo, hi, n, acc) ==
    IF bs = <<>> \/ acc.full THEN acc
    ELSE LET b == Head(bs)
             acc1 == IF IsLast(p) THEN Write(acc, Append(p, b), t[p].kids[b], lo, hi, n)
                     ELSE IF b = s THEN FindStart(t, t[p].kids[b], lo, hi, n, acc)
                     ELSE IF b > s THEN Copy(t, t[p].kids[b], lo, hi, n, acc)
                     ELSE acc
         IN StartKids(t, p, Tail(bs), s, lo, hi, n, acc1)

RECURSIVE FindEnd(_, _, _, _, _, _), EndKids(_, _, _, _, _, _, _, _)
FindEnd(t, p, lo, hi, n, acc) ==
    LET c == CmpPrefix(p, hi) IN
    IF c = 1 THEN acc
    ELSE IF c = -1 THEN Copy(t, p, lo, hi, n, acc)
    ELSE LET e == hi[Len(p) + 1] IN EndKids(t, p, Children(t[p], 0, e), e, lo, hi, n, acc)
EndKids(t, p, bs, e, lo, hi, n, acc) ==
    IF bs = <<>> \/ acc.full THEN acc
    ELSE LET b == Head(bs)
             acc1 == IF IsLast(p) THEN Write(acc, Append(p, b), t[p].kids[b], lo, hi, n)
                     ELSE IF b = e THEN FindEnd(t, t[p].kids[b], lo, hi, n, acc)
                     ELSE IF b < e THEN Copy(t, t[p].kids[b], lo, hi, n, acc)
                     ELSE acc
         IN EndKids(t, p, Tail(bs), e, lo, hi, n, acc1)

RECURSIVE Scan(_, _, _, _, _, _), ScanKids(_, _, _, _, _, _, _, _, _)
Scan(t, p, lo, hi, n, acc) ==
    LET cl == CommonLen(p, lo, 1)
        ch == CommonLen(p, hi, 1)
        i  == (IF cl < ch THEN cl ELSE ch) + 1     \* first byte differing from a bound
    IN IF i <= Len(p)
       THEN IF lo[i] <= p[i] /\ p[i] <= hi[i] THEN Copy(t, p, lo, hi, n, acc) ELSE acc
       ELSE LET s == lo[i]  e == hi[i] IN
            IF s # e THEN ScanKids(t, p, Children(t[p], s, e), s, e, lo, hi, n, acc)
            ELSE IF s \notin DOMAIN t[p].kids THEN acc
            ELSE Scan(t, t[p].kids[s], lo, hi, n, acc)
ScanKids(t, p, bs, s, e, lo, hi, n, acc) ==
    IF bs = <<>> \/ acc.full THEN acc
    ELSE LET b == Head(bs)
             acc1 == IF IsLast(p) THEN Write(acc, Append(p, b), t[p].kids[b], lo, hi, n)
                     ELSE IF b = s THEN FindStart(t, t[p].kids[b], lo, hi, n, acc)
                     ELSE IF b > s /\ b < e THEN Copy(t, t[p].kids[b], lo, hi, n, acc)
                     ELSE IF b = e THEN FindEnd(t, t[p].kids[b], lo, hi, n, acc)
                     ELSE acc
         IN ScanKids(t, p, Tail(bs), s, e, lo, hi, n, acc1)

RangeT(t, lo, hi, n) ==
    IF ~Lt(lo, hi) THEN <<>>
    ELSE Scan(t, <<>>, lo, hi, n, [r |-> <<>>, full |-> FALSE]).r
==============================================================================
