------------------------------ MODULE MultiTrace -----------------------------
(***************************************************************************)
(* Several trees at a time: each is a map of its own (CongeeMap) with a    *)
(* structure of its own (Art); an allocator may serve several of them.     *)
(* Which thread makes a call, under which guard, and which other trees     *)
(* live, have lived or are in use does not appear in what a call does:     *)
(* the events name the thread, and nothing below looks at it.              *)
(*                                                                         *)
(* Recorded histories, one event per line:                                 *)
(*   new    starts a history: u keys (bytes in kb), next as in SeqTrace    *)
(*   mk     tree tr is created on allocator al (0: not observed)           *)
(*   get insert remove cip coi cas range empty                             *)
(*          thread th completes a call on tree tr                          *)
(*   drop   tree tr is dropped: what its drainer was given, what each      *)
(*          allocator has handed out then                                  *)
(*   q      no thread holds a guard and the epoch has advanced: what each  *)
(*          allocator has handed out (per class; other sizes; complaints), *)
(*          statistics of the trees                                        *)
(*   call   a call that never returned; then pan, hang or crash            *)
(***************************************************************************)
EXTENDS Art, Json, IOUtils

RealCaps == <<4, 16, 48, 256>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* line
          nx,   \* line of the next history
          kb,   \* key bytes per rank
          ms,   \* tree -> its map (of the trees that exist)
          ts,   \* tree -> its structure
          al,   \* tree -> its allocator
          rt    \* allocator -> blocks per class unlinked since the last q
vars == <<l, nx, kb, ms, ts, al, rt>>

E == Trace[l]
Trees == DOMAIN ms
Empty == [k \in {} |-> 0]
NA == 2       \* allocators that are observed
NoneWait == [a \in 1..NA |-> [c \in 1..Top |-> 0]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

DoMk ==
    /\ E.o = "mk" /\ E.tr \notin Trees
    /\ ms' = (E.tr :> [k \in 1..Len(kb) |-> None]) @@ ms
    /\ ts' = (E.tr :> EmptyTree) @@ ts
    /\ al' = (E.tr :> E.al) @@ al
    /\ UNCHANGED <<nx, kb, rt>>

(* blocks a change of tree x, from t to u, takes out of it                 *)
Unlinked(t, u, k, new) ==
    LET got == IF new = None THEN <<>> ELSE AllocsOf(t, kb[k])
        n(c) == Cardinality({i \in 1..Len(got) : got[i] = c})
    IN [c \in 1..Top |-> Live(t)[c] + n(c) - Live(u)[c]]

DoCall ==
    /\ E.o \in MapOps /\ E.tr \in Trees
    /\ LET a == Apply(ms[E.tr], E) IN
       /\ E.r = a.r
       /\ ms' = [ms EXCEPT ![E.tr] = a.m]
       /\ IF a.m = ms[E.tr] THEN UNCHANGED <<ts, rt>>
          ELSE LET t == ts[E.tr]
                   u == StoreT(t, kb[E.k], ms[E.tr][E.k], a.m[E.k])
                   d == Unlinked(t, u, E.k, a.m[E.k])
               IN /\ ts' = [ts EXCEPT ![E.tr] = u]
                  /\ rt' = IF al[E.tr] = 0 THEN rt
                           ELSE [rt EXCEPT ![al[E.tr]] = [c \in 1..Top |-> @[c] + d[c]]]
    /\ UNCHANGED <<nx, kb, al>>

(* What the allocator a holds is what the trees on it consist of.          *)
RECURSIVE Held(_, _)
Held(S, c) == IF S = {} THEN 0
              ELSE LET x == CHOOSE y \in S : TRUE IN Live(ts[x])[c] + Held(S \ {x}, c)
HeldBy(a) == [c \in 1..Top |-> Held({x \in Trees : al[x] = a}, c)]

DoDrop ==
    /\ E.o = "drop" /\ E.tr \in Trees
    /\ E.dn = 1 => E.pre = 0 /\ E.dr = RangeFrom(ms[E.tr], 1, Len(kb) + 1, Len(kb) + 1)
    /\ ms' = Without(ms, E.tr)
    /\ ts' = Without(ts, E.tr)
    /\ al' = Without(al, E.tr)
    (* its nodes are back; what was unlinked before may still wait *)
    /\ \A a \in 1..NA : \A c \in 1..Top :
         LET h == Held({x \in Trees \ {E.tr} : al[x] = a}, c)
         IN E.al[a][c] \in h..(h + rt[a][c])
    /\ UNCHANGED <<nx, kb, rt>>

DoQuiesce ==
    /\ E.o = "q"
    /\ \A a \in 1..NA : E.al[a] = <<HeldBy(a), 0, 0>>
    /\ \A i \in 1..Len(E.st) :
         LET x == E.st[i][1] IN
         /\ x \in Trees
         /\ E.st[i][2] = Count(ms[x])
         /\ E.st[i][3] = LevelStats(ts[x])
    /\ rt' = NoneWait
    /\ UNCHANGED <<nx, kb, ms, ts, al>>

DoNew ==
    /\ E.o = "new"
    /\ kb' = E.kb /\ nx' = E.next
    /\ ms' = Empty /\ ts' = Empty /\ al' = Empty /\ rt' = NoneWait

Step == DoNew \/ DoMk \/ DoCall \/ DoDrop \/ DoQuiesce
Pending == E.o = "call"       \* explained only by what follows; nothing does
Same == UNCHANGED <<kb, ms, ts, al, rt>>

Init == l = 1 /\ nx = 1 /\ kb = <<>> /\ ms = Empty /\ ts = Empty /\ al = Empty
        /\ rt = NoneWait

Next ==
    \/ /\ l <= Len(Trace)
       /\ \/ Step /\ l' = l + 1
          \/ Pending /\ l' = l + 1 /\ UNCHANGED nx /\ Same
          \/ /\ ~Pending /\ ~ENABLED Step
             /\ PrintT(<<"REJECT", l, ToJson(E)>>)
             /\ l' = nx
             /\ UNCHANGED nx /\ Same
    \/ /\ l = Len(Trace) + 1
       /\ PrintT(<<"DONE", l - 1>>)
       /\ l' = l + 1
       /\ UNCHANGED nx /\ Same
==============================================================================
