---------------------------- MODULE TracePermits ----------------------------
(***************************************************************************)
(* Validates recorded runs of permit counters.  A step "par" records the    *)
(* calls of several threads with their results; it is accepted if some      *)
(* sequential order of the calls explains all of them and what follows.     *)
(***************************************************************************)
EXTENDS Permits, Json, IOUtils

VARIABLES run, l, pos
vars == <<count, run, l, pos>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]

\* A number given as two 16-bit numbers.
Num(p) == <<p[1] \div 32768, (p[1] % 32768) * 65536 + p[2]>>

Call(c, r) ==
    CASE c.o = "take" -> r \in TakeOuts /\ Take
      [] c.o = "add"  -> r = Done /\ Add(Num(c.n))
      [] c.o = "zero" -> r \in ZeroOuts /\ UNCHANGED count
      [] c.o = "load" -> r \in LoadOuts /\ UNCHANGED count
      [] c.o = "new"  -> r = Done /\ New(Num(c.n))
\* So many takes in a row: what they returned goes down by one each time.
Many ==
    /\ Ev.o = "many"
    /\ Ev.r = [t |-> "ok", first |-> count, last |-> count - (Ev.k - 1), steps |-> TRUE]
    /\ count' = count - Ev.k
\* Many calls by each of several threads, so few permits that the count does
\* not saturate in any order: in the end it is off by what was added and taken,
\* and takers got counts from within what any order allows - each its own, if
\* nothing was added.
RECURSIVE Total(_, _)
Total(o, s) ==
    IF s = <<>> THEN 0
    ELSE Total(o, Tail(s)) +
         (IF Head(s).o # o THEN 0 ELSE Head(s).k * (IF o = "add" THEN Num(Head(s).n)[2] ELSE 1))
Rush ==
    LET added == Total("add", Ev.calls)
        taken == Total("take", Ev.calls)
    IN  /\ Ev.o = "rush" /\ Ev.r.t = "ok"
        /\ IF taken = 0 THEN Ev.r.lo = <<>> /\ Ev.r.hi = <<>>
           ELSE /\ count - taken < Ev.r.lo[1] /\ Ev.r.hi[1] <= count + added
                /\ added = 0 => Ev.r.apart /\ Ev.r.hi[1] - Ev.r.lo[1] = taken - 1
        /\ count' = count + added - taken
Par ==
    /\ Ev.o = "par" /\ Ev.r.t = "ok"
    /\ IF pos = <<>>
       THEN pos' = [p \in 1..Len(Ev.calls) |-> 1] /\ UNCHANGED <<count, l>>
       ELSE IF \A p \in 1..Len(pos) : pos[p] > Len(Ev.calls[p])
       THEN pos' = <<>> /\ l' = l + 1 /\ UNCHANGED count
       ELSE \E p \in 1..Len(pos) :
                /\ pos[p] <= Len(Ev.calls[p])
                /\ Call(Ev.calls[p][pos[p]], Ev.r.got[p][pos[p]])
                /\ pos' = [pos EXCEPT ![p] = @ + 1] /\ UNCHANGED l

Init == count = 0 /\ run \in 1..Len(Log) /\ l = 1 /\ pos = <<>>
Next ==
    /\ l <= Len(Steps)
    /\ UNCHANGED run
    /\ \/ Ev.o \notin {"par", "many", "rush"} /\ Call(Ev, Ev.r) /\ l' = l + 1 /\ UNCHANGED pos
       \/ Rush /\ l' = l + 1 /\ UNCHANGED pos
       \/ Many /\ l' = l + 1 /\ UNCHANGED pos
       \/ Par
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
