------------------------------ MODULE MCDelivery ------------------------------
(***************************************************************************)
(* Sessions deliver: every behaviour of MCSession (lanes fnf and par), with *)
(* a receiver that puts the fragments of each stream together, is one of    *)
(* Delivery.                                                                *)
(***************************************************************************)
EXTENDS MCSession

\* What has been accepted for request r, and whether the last fragment has.
Parts1(r) == Sends(r, TRUE)
Complete(r) == Parts1(r) # <<>> /\ ~Parts1(r)[Len(Parts1(r))].f.follows
\* The receiver knows streams, not requests.
OnStream(s) == SelectSeq(log, LAMBDA x : x.e = "send" /\ x.ok /\ x.f.sid = s)
Received(r) ==
    LET fs == OnStream(Parts1(r)[1].f.sid)
    IN  [m |-> Nz(Some(Glue(fs, MetaPart))), d |-> Nz(Some(Glue(fs, DataPart)))]

D == INSTANCE Delivery WITH
    Users <- Callers,
    open <- [p \in Callers |->
        IF calls[p].o # "fnf" THEN <<>>
        ELSE LET q == reqs[cur[p]]
             IN  <<[m |-> Nz(q.m), d |-> Nz(q.d)],
                   IF ~calls[p].done THEN "sending"
                   ELSE IF calls[p].res.t = "ok" THEN "there" ELSE "refused">>],
    arrived <- [p \in Callers |->
        LET mine == SelectSeq([r \in 1..Len(reqs) |-> r], LAMBDA r : reqs[r].p = p /\ Complete(r))
        IN  [i \in 1..Len(mine) |-> Received(mine[i])]]

DNext ==
    \E p \in Callers :
        \/ \E r \in 1..Len(reqs') : D!Give(p, D!Message(reqs'[r].m, reqs'[r].d))
        \/ D!Arrive(p) \/ D!Refuse(p)
        \/ \E ok \in BOOLEAN : D!Finish(p, ok)
Delivers == D!DelInit /\ [][DNext]_(D!delVars)
=============================================================================
