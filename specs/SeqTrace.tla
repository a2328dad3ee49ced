------------------------------ MODULE SeqTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded single-threaded histories of the real library   *)
(* with CongeeMap (contents, results) and Art (structure, memory).         *)
(*                                                                         *)
(* A file holds many histories, one event per line:                        *)
(*   new    starts a history: u keys (their bytes in kb), the line of the  *)
(*          next history in next                                           *)
(*   get insert remove cip coi cas range empty                             *)
(*          a completed call: arguments, result r, closure arguments c,    *)
(*          blocks obtained per node class al, ij = 1 if a request of it   *)
(*          was refused, p = 1 if the closure panicked                     *)
(*   q      all guards dropped, epoch advanced: blocks held per class,     *)
(*          statistics                                                     *)
(*   drop   the tree dropped: drained entries, blocks still held           *)
(*   call   a call that never returned; then pan, hang or crash, which no  *)
(*          action explains                                                *)
(*                                                                         *)
(* CHECK names the property whose observations have to match.  A line no   *)
(* action explains is printed as REJECT, and checking continues with the   *)
(* next history.                                                           *)
(***************************************************************************)
EXTENDS Art, Json, IOUtils

RealCaps == <<4, 16, 48, 256>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
CHECK == IOEnv.CHECK

VARIABLES l,    \* line
          nx,   \* line of the next history
          kb,   \* key bytes per rank
          m,    \* the map
          t     \* the structure (maintained only where a property needs it)
vars == <<l, nx, kb, m, t>>

E == Trace[l]

UsesShape == CHECK \in {"C08", "C11", "C13", "C14", "C15"}

(* ------------------------------ one call -------------------------------- *)
Call == E.o \in MapOps
Void == E.p = 1 \/ E.r = <<Oom>>             \* no effect on the contents
After == IF Void THEN m ELSE Apply(m, E).m
ResultOk ==
    IF E.p = 1 THEN TRUE                     \* the closure's panic came back
    ELSE IF E.r = <<Oom>> THEN E.ij = 1 /\ E.o \in AllocOps
    ELSE E.r = Apply(m, E).r
ReportOk == E.ij = 1 => E.r = <<Oom>> \/ E.p = 1
ClosureOk ==
    E.o \in ClosureOps =>
      /\ \A i \in 1..Len(E.c) : E.c[i] = m[E.k]
      /\ E.p = 1 => E.c # <<>>
      /\ ~Void /\ (E.o = "coi" \/ m[E.k] # None) => E.c # <<>>
      /\ E.o = "cip" /\ m[E.k] = None => E.c = <<>>
TailOk == E.o = "range" => E.tl = 1

(* blocks obtained by a call that took effect: exactly the nodes it built *)
CountOf(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Built ==
    IF E.o \notin {"insert", "coi", "cip", "cas", "remove"} \/ After = m THEN <<>>
    ELSE IF After[E.k] # None /\ m[E.k] = None THEN AllocsOf(t, kb[E.k])
    ELSE <<>>
AllocOk == Void \/ (/\ \A c \in 1..Top : E.al[c] = CountOf(Built, c)
                    /\ E.al[Top + 1] = 0)

CallOk ==
    CASE CHECK = "C01" -> E.o \in {"range", "empty"} \/ ResultOk
      [] CHECK = "C02" -> E.o # "range" \/ (ResultOk /\ TailOk)
      [] CHECK = "C04" -> E.o \in {"range", "empty"} \/ (ResultOk /\ ClosureOk)
      [] CHECK = "C08" -> ResultOk /\ ReportOk
      [] CHECK = "C10" -> E.o # "empty" \/ ResultOk
      [] CHECK = "C13" -> ResultOk /\ ClosureOk
      [] CHECK = "C14" -> AllocOk
      [] OTHER -> TRUE

DoCall ==
    /\ Call
    /\ CallOk
    /\ m' = After
    /\ t' = IF UsesShape /\ "k" \in DOMAIN E /\ E.o # "range" /\ After # m
            THEN StoreT(t, kb[E.k], m[E.k], After[E.k]) ELSE t
    /\ UNCHANGED <<nx, kb>>

(* ---------------------------- quiescence -------------------------------- *)
LiveOk == E.live = Live(t) /\ E.odd = 0
SumSeq(s) == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1)
             IN S(Len(s))
SlotsIn(lv) == SumSeq([i \in 1..Len(lv) |-> lv[i][2] + lv[i][4] + lv[i][6] + lv[i][8]])
(* The printed form: load factors are given in hundredths, rounded.        *)
Near(f, num, den) ==      \* f/100 is num/den, rounded
    IF den = 0 THEN f = 0
    ELSE LET d == f * den - 100 * num IN d <= den \div 2 /\ -d <= den \div 2
BlockSize == <<64, 168, 672, 2104>>
PrintedOk(lv, rows, sum, pairs) ==
    LET all(g(_, _)) == SumSeq([i \in 1..Len(lv) |-> SumSeq([c \in 1..Top |-> g(i, c)])])
        nodes == all(LAMBDA i, c : lv[i][2 * c - 1])
        slots == all(LAMBDA i, c : lv[i][2 * c])
        \* occupied share of all nodes, in 768ths (each class size divides it)
        used == all(LAMBDA i, c : lv[i][2 * c] * (768 \div Caps[c]))
        bytes == all(LAMBDA i, c : lv[i][2 * c - 1] * BlockSize[c])
    IN /\ Len(rows) = Len(lv)
       /\ \A i \in 1..Len(lv) :
            /\ rows[i][1] = i - 1
            /\ \A c \in 1..Top :
                 /\ rows[i][2 * c] = lv[i][2 * c - 1]
                 /\ Near(rows[i][2 * c + 1], lv[i][2 * c], lv[i][2 * c - 1] * Caps[c])
       /\ sum[1] = nodes /\ sum[2] = slots
       /\ Near(sum[3], used, 768 * nodes)
       /\ 2 * used < 768 * nodes => sum[4] = 1
       /\ 2 * used > 768 * nodes => sum[4] = 0
       /\ sum[5] = bytes \div 1048576
       /\ sum[6] = pairs
StatsOk ==
    E.st = 1 =>
      /\ E.kv = Count(m)
      /\ E.lok = 1
      /\ \A c \in 1..Top :
           SumSeq([i \in 1..Len(E.lv) |-> E.lv[i][2 * c - 1]]) = E.live[c]
      /\ E.lv = LevelStats(t)
      /\ PrintedOk(E.lv, E.rows, E.sum, Count(m))
ShapeOk == E.live = Live(t) /\ (E.st = 1 => E.lv = LevelStats(t))

QuiesceOk ==
    CASE CHECK = "C07" -> E.errs = 0 /\ E.odd = 0
      [] CHECK = "C08" -> LiveOk /\ E.errs = 0
      [] CHECK = "C11" -> StatsOk
      [] CHECK = "C13" -> LiveOk /\ E.errs = 0
      [] CHECK = "C14" -> ShapeOk
      [] CHECK = "C15" -> LiveOk
      [] OTHER -> TRUE

DoQuiesce == E.o = "q" /\ QuiesceOk /\ UNCHANGED <<nx, kb, m, t>>

(* ------------------------------- drop ----------------------------------- *)
AllOf(mm) == RangeFrom(mm, 1, Len(kb) + 1, Len(kb) + 1)
DrainOk == E.dn = 1 => E.dr = AllOf(m) /\ E.pre = 0
NothingHeld == E.live = [c \in 1..Top |-> 0] /\ E.odd = 0 /\ E.errs = 0

DropOk ==
    CASE CHECK \in {"C07", "C08", "C13"} -> NothingHeld
      [] CHECK \in {"C04", "C09"} -> DrainOk
      [] OTHER -> TRUE

DoDrop == E.o = "drop" /\ DropOk /\ UNCHANGED <<nx, kb, m, t>>

(* ------------------------------------------------------------------------ *)
DoNew ==
    /\ E.o = "new"
    /\ m' = [k \in 1..E.u |-> None]
    /\ kb' = E.kb
    /\ nx' = E.next
    /\ t' = EmptyTree

Step == DoNew \/ DoCall \/ DoQuiesce \/ DoDrop
Pending == E.o = "call"       \* explained only by what follows; nothing does

Init == l = 1 /\ nx = 1 /\ kb = <<>> /\ m = <<>> /\ t = <<>>

Next ==
    \/ /\ l <= Len(Trace)
       /\ \/ Step /\ l' = l + 1
          \/ Pending /\ l' = l + 1 /\ UNCHANGED <<nx, kb, m, t>>
          \/ /\ ~Pending /\ ~ENABLED Step
             /\ PrintT(<<"REJECT", l, ToJson(E)>>)
             /\ l' = nx
             /\ UNCHANGED <<nx, kb, m, t>>
    \/ /\ l = Len(Trace) + 1
       /\ PrintT(<<"DONE", l - 1>>)
       /\ l' = l + 1
       /\ UNCHANGED <<nx, kb, m, t>>
==============================================================================
