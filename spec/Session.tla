------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* One end of a connection: requests of several callers on clones of one    *)
(* session, the transport it hands frames to, the status watch and the      *)
(* keepalive watch.                                                         *)
(*                                                                          *)
(* Time is in milliseconds since the session was made.  Every action is one *)
(* visible effect (a frame handed over, a close, a report), a call or a     *)
(* return, an input from the transport, or time passing.                    *)
(***************************************************************************)
EXTENDS Tables, StreamId

VARIABLES
    mtu,        \* the fragment size, if there is one
    calls,      \* what each caller is doing
    refuse,     \* what the transport refuses: [left, kind, cause], left = -1: nothing
    answers,    \* what the transport will answer to the next pushes
    queue,      \* statuses published and not handled
    watching,   \* whether the status stream has not ended
    now,
    limit,      \* the keepalive timeout
    heard,      \* when something was received last
    keep,       \* the keepalive watch: [said, closed, excused]
    closes      \* how often the transport was closed

sesVars == <<idVars, mtu, calls, refuse, answers, queue, watching, now, limit, heard, keep, closes>>
callVars == <<idVars, calls, refuse, answers>>
statVars == <<queue, watching>>
timeVars == <<now, limit, heard, keep>>

CONSTANT
    Callers,
    Slack,      \* the resolution of two timers
    Deaf        \* a session that takes no notice of what it receives

Idle == [o |-> "idle"]
Octets31(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

SesInit(n, lim) ==
    /\ mtu = n /\ limit = lim
    /\ calls = [p \in Callers |-> Idle]
    /\ refuse = [left |-> -1, kind |-> "", cause |-> None]
    /\ answers = <<>> /\ queue = <<>> /\ watching = TRUE
    /\ now = 0 /\ heard = 0 /\ closes = 0
    /\ keep = [said |-> FALSE, closed |-> FALSE, excused |-> FALSE]

----------------------------------------------------------------------------
(* Fire and forget.                                                         *)

\* A fragment size cuts only payloads that have bytes.
CallFnf(p, m, d) ==
    /\ calls[p] = Idle
    /\ calls' = [calls EXCEPT ![p] =
        [o |-> "fnf", m |-> m, d |-> d, sid |-> None, done |-> FALSE,
         whole |-> ~Has(mtu) \/ SizeOpt(m) + SizeOpt(d) = 0, res |-> [t |-> "ok"]]]
    /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, timeVars, closes>>

\* Taking a stream id is one step; no other caller gets the same.
TakeId(p) ==
    /\ calls[p].o = "fnf" /\ ~Has(calls[p].sid)
    /\ calls' = [calls EXCEPT ![p].sid = Some(Pick)]
    /\ Allocate
    /\ UNCHANGED <<mtu, refuse, answers, statVars, timeVars, closes>>

\* The part of a fragment: a prefix of what is left of the part.
PartFits(o, x, n) ==
    IF ~Has(o) THEN ~Has(x)
    ELSE Has(x) => Size(x[1]) <= n /\ IsPrefixOf(x[1], o[1])
Rest(o, x) == IF Has(o) THEN Some(Drop(o[1], SizeOpt(x))) ELSE None
\* Frame f (seen through its accessors) is next on the stream.
FnfFits(c, f) ==
    /\ Has(c.sid) /\ ~c.done /\ f.k = "REQUEST_FNF"
    /\ f = [k |-> "REQUEST_FNF", sid |-> Octets31(c.sid[1]), follows |-> f.follows,
            meta |-> f.meta, data |-> f.data]
    /\ IF c.whole THEN f.meta = c.m /\ f.data = c.d /\ ~f.follows
       ELSE /\ PartFits(c.m, f.meta, mtu[1]) /\ PartFits(c.d, f.data, mtu[1])
            /\ SizeOpt(f.meta) + SizeOpt(f.data) > 0
            /\ f.follows <=> SizeOpt(f.meta) + SizeOpt(f.data) < SizeOpt(c.m) + SizeOpt(c.d)

Refusing == refuse.left = 0
\* What the request still has to send after an accepted frame.
Sent(c, f) == [c EXCEPT !.m = Rest(@, f.meta), !.d = Rest(@, f.data), !.done = ~f.follows]
\* The transport accepts a frame, or refuses it, which ends the request.
SendFnf(p, f, ok) ==
    LET c == calls[p] IN
    /\ c.o = "fnf" /\ FnfFits(c, f)
    /\ ok = ~Refusing
    /\ calls' = [calls EXCEPT ![p] =
        IF ok THEN Sent(c, f)
        ELSE [c EXCEPT !.done = TRUE,
                       !.res = [t |-> "err", kind |-> refuse.kind, cause |-> refuse.cause]]]
    /\ refuse' = [refuse EXCEPT !.left = IF @ >= 0 THEN @ - 1 ELSE @]
    /\ UNCHANGED <<idVars, mtu, answers, statVars, timeVars, closes>>

\* The same frame n times in a row, all accepted, nothing in between: n steps
\* SendFnf(p, f, TRUE) in one.
SentRun(c0, f, n) ==
    FoldLeft(LAMBDA c, i : IF Has(c) /\ FnfFits(c[1], f) THEN Some(Sent(c[1], f)) ELSE None,
             Some(c0), [i \in 1..n |-> i])
SendRun(p, f, n) ==
    /\ calls[p].o = "fnf"
    /\ refuse.left = -1 \/ refuse.left >= n
    /\ LET c == SentRun(calls[p], f, n) IN
       /\ Has(c)
       /\ calls' = [calls EXCEPT ![p] = c[1]]
    /\ refuse' = [refuse EXCEPT !.left = IF @ >= 0 THEN @ - n ELSE @]
    /\ UNCHANGED <<idVars, mtu, answers, statVars, timeVars, closes>>

Return(p) ==
    /\ calls[p].o # "idle" /\ calls[p].done
    /\ calls' = [calls EXCEPT ![p] = Idle]
    /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, timeVars, closes>>

----------------------------------------------------------------------------
(* Metadata push: one frame, handed over once; its outcome is what the       *)
(* transport answers, some time after the caller has begun to wait for it.   *)
(* A caller may stop waiting.  Close: one close.                            *)

CallPush(p, m) ==
    /\ calls[p] = Idle
    /\ calls' = [calls EXCEPT ![p] = [o |-> "push", m |-> m, handed |-> FALSE, at |-> -1,
                                      done |-> FALSE, res |-> [t |-> "ok"]]]
    /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, timeVars, closes>>
Push(p, f) ==
    LET c == calls[p] IN
    /\ c.o = "push" /\ ~c.handed /\ f = [k |-> "METADATA_PUSH", meta |-> c.m]
    /\ calls' = [calls EXCEPT ![p].handed = TRUE]
    /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, timeVars, closes>>
Answer == IF answers = <<>> THEN [t |-> "ok", after |-> 0] ELSE Head(answers)
\* The transport is asked for the outcome, which it has after that time.
Await(p, after) ==
    LET c == calls[p] IN
    /\ c.o = "push" /\ c.handed /\ c.at = -1
    /\ calls' = [calls EXCEPT ![p] =
        [c EXCEPT !.at = now + after,
                  !.res = IF Answer.t = "ok" THEN [t |-> "ok"]
                          ELSE [t |-> "err", kind |-> Answer.kind, cause |-> Answer.cause]]]
    /\ answers' = IF answers = <<>> THEN answers ELSE Tail(answers)
    /\ UNCHANGED <<idVars, mtu, refuse, statVars, timeVars, closes>>
Answered(p) ==
    LET c == calls[p] IN
    /\ c.o = "push" /\ c.at >= 0 /\ ~c.done /\ c.at <= now
    /\ calls' = [calls EXCEPT ![p].done = TRUE]
    /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, timeVars, closes>>
Abandon(p) ==
    /\ calls[p].o = "push"
    /\ calls' = [calls EXCEPT ![p] = Idle]
    /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, timeVars, closes>>

CallClose(p) ==
    /\ calls[p] = Idle
    /\ calls' = [calls EXCEPT ![p] = [o |-> "close", done |-> FALSE, res |-> [t |-> "ok"]]]
    /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, timeVars, closes>>
CloseTransport(p) ==
    /\ calls[p].o = "close" /\ ~calls[p].done
    /\ calls' = [calls EXCEPT ![p].done = TRUE]
    /\ closes' = closes + 1
    \* there is nothing left to keep alive
    /\ keep' = [keep EXCEPT !.excused = TRUE]
    /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, now, limit, heard>>

----------------------------------------------------------------------------
(* The status watch: every status is handled once, in order.                *)

Silent(s) == s.s \notin {"Closed", "Error"}
Publish(s) ==
    /\ watching /\ queue' = Append(queue, s)
    /\ UNCHANGED <<callVars, mtu, watching, timeVars, closes>>
EndOfStatus ==
    /\ watching' = FALSE
    /\ UNCHANGED <<callVars, mtu, queue, timeVars, closes>>
Excuse(s) ==
    keep' = IF Silent(s) THEN keep ELSE [keep EXCEPT !.excused = TRUE]
HandleSilent ==
    /\ queue # <<>> /\ Silent(Head(queue))
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<callVars, mtu, watching, timeVars, closes>>
ReportFits(s, text) ==
    CASE s.s = "Closed" -> HasWithin(text, "closed")
      [] s.s = "Error"  -> HasWithin(text, s.m)
      [] OTHER -> FALSE
HandleLoud ==
    /\ queue # <<>> /\ ~Silent(Head(queue))
    /\ queue' = Tail(queue) /\ Excuse(Head(queue))
    /\ UNCHANGED <<callVars, mtu, watching, now, limit, heard, closes>>

----------------------------------------------------------------------------
(* Time and the keepalive watch.                                            *)

Receive ==
    /\ heard' = IF Deaf THEN heard ELSE now
    /\ UNCHANGED <<callVars, mtu, statVars, now, limit, keep, closes>>

\* Silence has lasted long enough to give up, and not too long.
\* (Written so that no sum is larger than the times it is about.)
MayGiveUp == limit <= now - heard /\ now - heard - limit <= limit + Slack
KeepSay ==
    /\ ~keep.said /\ (keep.closed \/ MayGiveUp)
    /\ keep' = [keep EXCEPT !.said = TRUE]
    /\ UNCHANGED <<callVars, mtu, statVars, now, limit, heard, closes>>
KeepClose ==
    /\ ~keep.closed /\ (keep.said \/ MayGiveUp)
    /\ keep' = [keep EXCEPT !.closed = TRUE]
    /\ closes' = closes + 1
    /\ UNCHANGED <<callVars, mtu, statVars, now, limit, heard>>

\* Time does not pass the point where the session has to have given up, nor
\* between the report and the close.
Tick(t) ==
    /\ t >= now
    /\ t > now => keep.said = keep.closed
    /\ t - heard - limit <= limit + Slack \/ keep.excused \/ (keep.said /\ keep.closed)
    /\ now' = t
    /\ UNCHANGED <<callVars, mtu, statVars, limit, heard, keep, closes>>
=============================================================================
