---------------------------- MODULE TraceDelivery ----------------------------
(***************************************************************************)
(* Validates recorded runs of a session whose frames a receiver has decoded *)
(* and put together.  A step of the run records, besides the results of the *)
(* calls, the messages that arrived during it, each with its caller and its *)
(* stream, and the number of streams that are left unfinished.              *)
(***************************************************************************)
EXTENDS Delivery, FiniteSets, Json, IOUtils

VARIABLES run, l,
    at,         \* how many calls of each caller are over in this step
    got,        \* how many of its messages have been accounted for in this step
    streams,    \* the streams of all messages
    failed      \* the number of requests refused
vars == <<delVars, run, l, at, got, streams, failed>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r

\* The calls of a caller, all of them, and their results; those that are requests.
AllCalls(p) ==
    IF Ev.o = "par" THEN IF p - 1 \in 1..Len(Ev.calls) THEN Ev.calls[p - 1] ELSE <<>>
    ELSE IF Ev.o = "fnf" /\ p = 1 THEN <<Ev>> ELSE <<>>
AllRes(p) == IF Ev.o = "par" THEN IF p - 1 \in 1..Len(R.got) THEN R.got[p - 1] ELSE <<>>
             ELSE IF Ev.o = "fnf" /\ p = 1 THEN <<R>> ELSE <<>>
Requests(p, s) ==
    LET is == SelectSeq([i \in 1..Len(AllCalls(p)) |-> i], LAMBDA i : AllCalls(p)[i].o = "fnf")
    IN  [j \in 1..Len(is) |-> s[is[j]]]
Calls(p) == Requests(p, AllCalls(p))
Res(p) == IF Len(AllRes(p)) = Len(AllCalls(p)) THEN Requests(p, AllRes(p)) ELSE <<>>
Of(p) == SelectSeq(R.arrived, LAMBDA x : x.p + 1 = p)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Zero == [p \in Users |-> 0]

Sound ==
    /\ R.t \in {"ok", "err"}
    /\ \A i \in 1..Len(R.arrived) : "odd" \notin DOMAIN R.arrived[i]
    /\ \A p \in Users : /\ Len(Res(p)) = Len(Calls(p))
                        /\ \A i \in 1..Len(Res(p)) : Res(p)[i].t \in {"ok", "err"}
Left == {p \in Users : at[p] < Len(Calls(p))}
Mine(p) == Calls(p)[at[p] + 1]
Taken(p) == Res(p)[at[p] + 1].t = "ok"

\* The callers one after the other: their messages have nothing to do with
\* one another, except for the streams.
Move(p) ==
    IF open[p] = <<>>
    THEN Give(p, Message(Mine(p).m, Mine(p).d)) /\ UNCHANGED <<at, got, streams, failed>>
    ELSE IF open[p][2] = "sending" /\ Taken(p)
    THEN LET k == got[p] + 1
             x == Of(p)[k]
         IN  /\ k <= Len(Of(p))
             /\ Arrive(p)
             /\ Message(x.m, x.d) = open[p][1]
             /\ x.sid \notin streams
             /\ streams' = streams \cup {x.sid}
             /\ got' = [got EXCEPT ![p] = k]
             /\ UNCHANGED <<at, failed>>
    ELSE IF open[p][2] = "sending"
    THEN Refuse(p) /\ failed' = failed + 1 /\ UNCHANGED <<at, got, streams>>
    ELSE Finish(p, Taken(p)) /\ at' = [at EXCEPT ![p] = @ + 1] /\ UNCHANGED <<got, streams, failed>>
End ==
    /\ \A p \in Users : got[p] = Len(Of(p))
    /\ R.open <= failed
    /\ l' = l + 1 /\ at' = Zero /\ got' = Zero
    \* what has arrived has been looked at
    /\ arrived' = [p \in Users |-> <<>>]
    /\ UNCHANGED <<open, streams, failed>>

Init ==
    /\ DelInit /\ run \in 1..Len(Log) /\ l = 1
    /\ at = Zero /\ got = Zero /\ streams = {} /\ failed = 0
Next ==
    /\ l <= Len(Steps)
    /\ Sound
    /\ UNCHANGED run
    /\ IF Left # {} THEN UNCHANGED l /\ Move(MinOf(Left)) ELSE End
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
