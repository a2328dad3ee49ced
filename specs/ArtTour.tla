------------------------------- MODULE ArtTour -------------------------------
(***************************************************************************)
(* The state graph of Art around one situation, with the real key length   *)
(* and the real node capacities, written out edge by edge.  The harness    *)
(* walks every edge of it on the real tree, and starts concurrent programs *)
(* from every state of it.                                                 *)
(*                                                                         *)
(* Ballast keys are inserted first and never touched afterwards; the       *)
(* Active ones come and go in every order.                                 *)
(***************************************************************************)
EXTENDS ArtMC, TLCExt

CONSTANTS Ballast,  \* sequence of ids into Keys
          Active    \* set of ids into Keys

Start == [i \in 0..Len(Ballast) |-> i]
RECURSIVE Fill(_)
Fill(i) == IF i = 0 THEN EmptyTree ELSE InsertT(Fill(i - 1), Keys[Ballast[i]], 0)
Loaded == {Ballast[i] : i \in DOMAIN Ballast}

Id == TLCFP(<<t, m>>)
Edge(a, x) == PrintT(<<"E", a, x, TLCFP(<<t', m'>>)>>)

TourInit == /\ t = Fill(Len(Ballast))
            /\ m = [k \in Ids |-> IF k \in Loaded THEN 0 ELSE None]
            /\ PrintT(<<"KEYS", Keys>>)
            /\ PrintT(<<"BALLAST", Ballast>>)
            /\ PrintT(<<"START", Id>>)
TourNext == \E k \in Active :
    \/ Insert(k, 0) /\ Edge(Id, k)
    \/ Delete(k) /\ Edge(Id, -k)
TourSpec == TourInit /\ [][TourNext]_<<t, m>>

(* the invariants of ArtMC, looked at where something can change           *)
TourRefines == /\ \A k \in Active : Lookup(t, Keys[k]) = m[k]
               /\ Cardinality(DOMAIN Entries(t)) = Count(m)
TourAllocOk == \A k \in Active :
    LET t2 == InsertT(t, Keys[k], 0)
        before == Live(t)  after == Live(t2)
        a == AllocsOf(t, Keys[k])
        got(c) == Cardinality({i \in DOMAIN a : a[i] = c})
        w == Find(t, Keys[k])
        lost(c) == IF CaseOf(t, Keys[k]) \in {"growleaf", "growinner"} /\ t[w.p].cls = c THEN 1 ELSE 0
    IN \A c \in 1..Top : after[c] = before[c] + got(c) - lost(c)

(* Key sets are built from a base key and replacements <<byte, value>>.    *)
With(base, s) == [i \in 1..8 |-> IF \E j \in DOMAIN s : s[j][1] = i
                                  THEN s[CHOOSE j \in DOMAIN s : s[j][1] = i][2] ELSE base[i]]
Less(a, b) == \E i \in 1..8 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>>
             ELSE LET x == CHOOSE x \in s : \A y \in s : x = y \/ Less(x, y) IN <<x>> \o Sorted(s \ {x})
IdOf(ks, k) == CHOOSE i \in DOMAIN ks : ks[i] = k
==============================================================================
