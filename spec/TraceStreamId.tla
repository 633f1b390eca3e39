---------------------------- MODULE TraceStreamId ----------------------------
(***************************************************************************)
(* Validates recorded runs of stream id providers.  Ids are recorded as     *)
(* pairs of 16-bit numbers.  A step "par" records what each of several      *)
(* threads got; it is accepted if some sequential order of the allocations  *)
(* explains it.  A step "many" records n allocations in a row as segments   *)
(* of ids two apart.                                                        *)
(***************************************************************************)
EXTENDS StreamId, Json, IOUtils

VARIABLES run, l, pos,
    blocks      \* blocks of ids in use
vars == <<idVars, run, l, pos, blocks>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r

\* -1 for what is no stream id at all.
Id(p) == IF p[1] > 32767 THEN -1 ELSE p[1] * 65536 + p[2]
Low31(p) == (p[1] % 32768) * 65536 + p[2]

\* n allocations in a row, as <<first, how many>>.
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Segments(_, _, _)
Segments(n, c, u) ==
    IF n = 0 THEN <<>>
    ELSE LET s == PickPast(c, u, blocks)
             above == {i \in u \cup {b[1] : b \in blocks} : i > s /\ i % 2 = s % 2}
             last == IF above # {} THEN MinOf(above) - 2
                     ELSE IF s % 2 = MaxId % 2 THEN MaxId ELSE MaxId - 1
             avail == (last - s) \div 2 + 1
         IN  IF n <= avail THEN <<<<s, n>>>>
             ELSE <<<<s, avail>>>> \o Segments(n - avail, Succ(last), u)

After(n, c, u) ==
    LET s == Segments(n, c, u)
        z == s[Len(s)]
    IN  Succ(z[1] + 2 * (z[2] - 1))

TNew ==
    /\ Ev.o = "new" /\ R.t = "ok"
    /\ cand' = (IF Ev.side = "client" THEN Sides.client
                ELSE IF Ev.side = "server" THEN Sides.server ELSE Low31(Ev.at))
    /\ used' = {} /\ blocks' = {}
TNext ==
    LET i == PickPast(cand, used, blocks)
    IN  Ev.o = "next" /\ R.t = "ok" /\ Id(R.id) = i /\ cand' = Succ(i) /\ UNCHANGED <<used, blocks>>
TMany ==
    /\ Ev.o = "many" /\ R.t = "ok"
    /\ [i \in 1..Len(R.segs) |-> <<Id(R.segs[i][1]), R.segs[i][2]>>] = Segments(Ev.n, cand, used)
    /\ cand' = After(Ev.n, cand, used) /\ UNCHANGED <<used, blocks>>
\* Many allocations by each of several threads: all together they got what one
\* would have got in a row, and each its own in order.
RECURSIVE Together(_)
Together(s) == IF s = <<>> THEN 0 ELSE Head(s) + Together(Tail(s))
TRush ==
    LET n == Together(Ev.todo)
    IN  /\ Ev.o = "rush" /\ R.t = "ok" /\ R.orderly
        /\ [i \in 1..Len(R.segs) |-> <<Id(R.segs[i][1]), R.segs[i][2]>>] = Segments(n, cand, used)
        /\ cand' = After(n, cand, used) /\ UNCHANGED <<used, blocks>>
TOccupy == Ev.o = "occupy" /\ Occupy(Id(Ev.id)) /\ UNCHANGED blocks
TRelease == Ev.o = "release" /\ Release(Id(Ev.id)) /\ UNCHANGED blocks
\* n ids two apart from one on.
TBlock ==
    /\ Ev.o = "block" /\ UNCHANGED idVars
    /\ blocks' = blocks \cup {<<Id(Ev.id), Id(Ev.id) + 2 * (Ev.n - 1)>>}
\* And no longer.
TUnblock ==
    /\ Ev.o = "unblock" /\ UNCHANGED idVars
    /\ blocks' = blocks \ {<<Id(Ev.id), Id(Ev.id) + 2 * (Ev.n - 1)>>}

TPar ==
    /\ Ev.o = "par" /\ R.t = "ok" /\ UNCHANGED blocks
    /\ IF pos = <<>>
       THEN \* each thread got as many ids as it asked for
            /\ \A p \in 1..Len(Ev.todo) : Len(R.got[p]) = Ev.todo[p]
            /\ pos' = [p \in 1..Len(Ev.todo) |-> 1] /\ UNCHANGED <<idVars, l>>
       ELSE IF \A p \in 1..Len(pos) : pos[p] > Ev.todo[p]
       THEN pos' = <<>> /\ l' = l + 1 /\ UNCHANGED idVars
       ELSE \E p \in 1..Len(pos) :
                /\ pos[p] <= Ev.todo[p] /\ Id(R.got[p][pos[p]]) = PickPast(cand, used, blocks)
                /\ cand' = Succ(PickPast(cand, used, blocks)) /\ UNCHANGED used
                /\ pos' = [pos EXCEPT ![p] = @ + 1] /\ UNCHANGED l

Init == Start(0) /\ run \in 1..Len(Log) /\ l = 1 /\ pos = <<>> /\ blocks = {}
Next ==
    /\ l <= Len(Steps)
    /\ UNCHANGED run
    /\ \/ l' = l + 1 /\ UNCHANGED pos /\ (TNew \/ TNext \/ TMany \/ TRush \/ TOccupy \/ TRelease \/ TBlock \/ TUnblock)
       \/ TPar
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
