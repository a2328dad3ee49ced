------------------------------ MODULE CongeeMap ------------------------------
(***************************************************************************)
(* The abstract object a Congee tree is: a map from keys to values.        *)
(*                                                                         *)
(* Keys are the integers 1..n (the rank of the real 64-bit key in the      *)
(* universe of the run, so that < is the key order), values are naturals   *)
(* (indices into a table of real 64-bit values).  A map is a total         *)
(* function from keys to Value \cup {None}.                                *)
(*                                                                         *)
(* Apply(m, o) is the one definition of what each public operation returns *)
(* and does; every other module (the sequential and concurrent trace       *)
(* specifications, the structural specification Art and the protocol       *)
(* specification Olc) refers to it.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT NV            \* values are 0..NV-1

None == -1             \* "no value"
Oom  == -9             \* result of an operation that reported out-of-memory

(* The closures passed to compute_*: "set" stores a, "del" removes, "id"   *)
(* keeps, "add" adds a (modulo NV).                                        *)
Fn(f, a, x) == CASE f = "set" -> a
                 [] f = "del" -> None
                 [] f = "id"  -> x
                 [] f = "add" -> IF x = None THEN a ELSE (x + a) % NV

(* compute_or_insert cannot delete; on an absent key "id" inserts a.       *)
FnIns(f, a, x) == IF x = None THEN a ELSE IF f = "del" THEN x ELSE Fn(f, a, x)

Put(m, k, v) == [m EXCEPT ![k] = v]

(* Entries of m with lo <= key < hi, at most n of them, as the flat        *)
(* sequence <<k1, v1, k2, v2, ...>>.                                       *)
RECURSIVE RangeFrom(_, _, _, _)
RangeFrom(m, k, hi, n) ==
    IF n = 0 \/ k >= hi THEN <<>>
    ELSE IF m[k] = None THEN RangeFrom(m, k + 1, hi, n)
    ELSE <<k, m[k]>> \o RangeFrom(m, k + 1, hi, n - 1)

IsEmpty(m) == \A k \in DOMAIN m : m[k] = None
Count(m)   == Cardinality({k \in DOMAIN m : m[k] # None})

(* The effect and the result of one operation o (a record, field o.o names *)
(* it).  Results are sequences of integers.                                *)
Apply(m, o) ==
    CASE o.o = "get"    -> [m |-> m, r |-> <<m[o.k]>>]
      [] o.o = "insert" -> [m |-> Put(m, o.k, o.v), r |-> <<m[o.k]>>]
      [] o.o = "remove" -> [m |-> Put(m, o.k, None), r |-> <<m[o.k]>>]
      [] o.o = "cip"    ->
            IF m[o.k] = None THEN [m |-> m, r |-> <<None>>]
            ELSE LET new == Fn(o.f, o.v, m[o.k])
                 IN  [m |-> Put(m, o.k, new), r |-> <<m[o.k], new>>]
      [] o.o = "coi"    ->
            [m |-> Put(m, o.k, FnIns(o.f, o.v, m[o.k])), r |-> <<m[o.k]>>]
      [] o.o = "cas"    ->
            IF m[o.k] = None THEN [m |-> m, r |-> <<0, None>>]
            ELSE IF m[o.k] = o.x THEN [m |-> Put(m, o.k, o.v), r |-> <<1, o.v>>]
            ELSE [m |-> m, r |-> <<0, m[o.k]>>]
      [] o.o = "range"  -> [m |-> m, r |-> RangeFrom(m, o.k, o.h, o.n)]
      [] o.o = "empty"  -> [m |-> m, r |-> <<IF IsEmpty(m) THEN 1 ELSE 0>>]
      [] OTHER          -> [m |-> m, r |-> <<-98>>]

MapOps == {"get", "insert", "remove", "cip", "coi", "cas", "range", "empty"}
ClosureOps == {"cip", "coi"}
AllocOps == {"insert", "coi"}   \* the operations allowed to report Oom
==============================================================================
