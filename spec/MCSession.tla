------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* All small histories of a session.  LANE picks what happens in them:      *)
(*   fnf     requests of one caller, refusals, ids in use        (C18)      *)
(*   par     requests of several callers, every interleaving     (C19)      *)
(*   push    pushes, closes and requests                         (C20)      *)
(*   status  statuses, published at any time                     (C21)      *)
(*   keep    time, silence, closes, the odd request              (C22)      *)
(* In the last two the program may let go of its handles at any time.        *)
(* EMIT prints every history of full length as a run for the real code; what *)
(* the session may choose (sizes of fragments, when to give up) is then      *)
(* fixed, as the inputs alone matter.                                        *)
(***************************************************************************)
EXTENDS Session, FiniteSets, Json, IOUtils

VARIABLES
    ops,        \* the inputs so far
    log,        \* the visible effects so far
    reqs,       \* the requests so far
    cur         \* which request each caller is busy with
vars == <<sesVars, ops, log, reqs, cur>>

Asked(x) == x \in DOMAIN IOEnv
Lane == IOEnv.LANE
Deep == Asked("DEEP")
Emit == Asked("EMIT")
\* Fragments as large as they can be.
Canonical == Emit \/ Asked("FULL")
Depth == CASE Lane = "fnf" -> IF Deep \/ Emit THEN 3 ELSE 2
           [] Lane = "par" -> IF Deep /\ Canonical THEN 3 ELSE 2
           [] Lane = "push" -> IF Deep THEN 6 ELSE 5
           [] Lane = "status" -> IF Deep THEN 6 ELSE 5
           [] Lane = "keep" -> IF Deep THEN 8 ELSE 7
MCCallers == IF Lane = "par" THEN 1..(IF Deep /\ Canonical THEN 3 ELSE 2)
             ELSE IF Lane = "push" THEN 1..2 ELSE {1}
MCDeaf == FALSE

B(v, n) == Some(Lit([i \in 1..n |-> v + i]))
Payloads ==
    IF Lane = "fnf" THEN {<<None, None>>, <<None, B(10, 0)>>, <<B(20, 0), B(10, 3)>>, <<B(20, 3), B(10, 2)>>, <<B(20, 1), None>>}
    ELSE IF Lane = "par" THEN {<<None, B(10, 2)>>, <<B(20, 2), B(10, 1)>>, <<None, None>>}
    ELSE {<<None, B(10, 1)>>}
Mtus == IF Lane = "fnf" THEN {None, Some(1), Some(2), Some(5)}
        ELSE IF Lane = "par" THEN {Some(1)} ELSE {None}

Init ==
    /\ ops = <<>> /\ log = <<>> /\ reqs = <<>>
    /\ cur = [p \in Callers |-> 0]
    /\ \E n \in Mtus : SesInit(n, 2)
    /\ \E c \in (IF Lane \in {"fnf", "par"} THEN {1, 2, MaxId} ELSE {1}) : Start(c)

\* The program has let go of its handles: it asks for nothing any more.
Left == \E i \in 1..Len(ops) : ops[i].o = "leave"
\* In the keep lane most inputs are time.
Room ==
    /\ Len(ops) < Depth
    /\ Lane = "keep" => Len(SelectSeq(ops, LAMBDA x : x.o # "advance")) < (IF Deep THEN 3 ELSE 2)
Quiet == \A p \in Callers : calls[p] = Idle
Op(x) == ops' = Append(ops, x)
Did(x) == log' = Append(log, x)
Same == UNCHANGED <<ops, log, reqs, cur>>

Leave == Room /\ ~Left /\ Quiet /\ Op([o |-> "leave"]) /\ UNCHANGED <<sesVars, log, reqs, cur>>

Request(p, m, d) ==
    /\ Room /\ ~Left /\ CallFnf(p, m, d) /\ (Lane = "push" => Len(reqs) < 3)
    /\ Op([o |-> "fnf", p |-> p, m |-> m, d |-> d])
    /\ reqs' = Append(reqs, [p |-> p, m |-> m, d |-> d, mtu |-> mtu])
    /\ cur' = [cur EXCEPT ![p] = Len(reqs) + 1]
    /\ UNCHANGED log
\* The fragments a caller may send next: of any size in the first request, as
\* large as they can be in the others.
Cuts(o, n) ==
    IF ~Has(o) THEN {None}
    ELSE IF Canonical \/ (Lane = "fnf" /\ Len(ops) > 1) THEN {Some(Take(o[1], n))}
    ELSE {None} \cup {Some(Take(o[1], i)) : i \in 0..n}
Fragments(c) ==
    {[k |-> "REQUEST_FNF", sid |-> Octets31(c.sid[1]), follows |-> w, meta |-> m, data |-> d] :
        w \in BOOLEAN,
        m \in IF c.whole THEN {c.m} ELSE Cuts(c.m, mtu[1]),
        d \in IF c.whole THEN {c.d} ELSE Cuts(c.d, mtu[1])}
Hand(p) ==
    /\ calls[p].o = "fnf" /\ Has(calls[p].sid)
    /\ \E f \in Fragments(calls[p]), ok \in BOOLEAN :
        SendFnf(p, f, ok) /\ Did([e |-> "send", r |-> cur[p], f |-> f, ok |-> ok])
    /\ UNCHANGED <<ops, reqs, cur>>
FreeIds == {i \in 1..MaxId : i % 2 = cand % 2} \ used

Requests ==
    \/ \E p \in (IF Lane = "push" THEN {1} ELSE Callers), x \in Payloads : Request(p, x[1], x[2])
    \/ \E p \in Callers : TakeId(p) /\ Same
    \/ \E p \in Callers : Hand(p)
    \/ \E p \in Callers : calls[p].o = "fnf" /\ Return(p) /\ Same
Refusal ==
    /\ Room /\ Quiet
    /\ \E n \in 0..2 :
        /\ refuse' = [left |-> n, kind |-> "Io", cause |-> None]
        /\ Op([o |-> "refuse", left |-> n])
    /\ UNCHANGED <<idVars, mtu, calls, answers, statVars, timeVars, closes, log, reqs, cur>>
InUse ==
    /\ Room /\ Quiet /\ Cardinality(FreeIds) > 2
    /\ \E i \in FreeIds :
        Occupy(i) /\ Op([o |-> "occupy", id |-> i])
    /\ UNCHANGED <<mtu, calls, refuse, answers, statVars, timeVars, closes, log, reqs, cur>>

\* Several pushes at a time, each waited for or not: cur[p] is 1 as soon as the
\* caller waits.
Pushes ==
    \/ \E p \in Callers :
        \/ /\ Room /\ CallPush(p, <<<<p, 1>>>>)
           /\ Op([o |-> "begin", p |-> p]) /\ cur' = [cur EXCEPT ![p] = 0] /\ UNCHANGED <<log, reqs>>
        \/ /\ Push(p, [k |-> "METADATA_PUSH", meta |-> <<<<p, 1>>>>])
           /\ Did([e |-> "push", p |-> p]) /\ UNCHANGED <<ops, reqs, cur>>
        \/ /\ Room /\ calls[p].o = "push" /\ cur[p] = 0 /\ cur' = [cur EXCEPT ![p] = 1]
           /\ Op([o |-> "join", p |-> p]) /\ UNCHANGED <<sesVars, log, reqs>>
        \/ /\ Room /\ cur[p] = 0 /\ Abandon(p)
           /\ Op([o |-> "abandon", p |-> p]) /\ UNCHANGED <<log, reqs, cur>>
        \/ cur[p] = 1 /\ Await(p, Answer.after) /\ Same
        \/ Answered(p) /\ Same
        \/ /\ cur[p] = 1 /\ calls[p].o = "push" /\ Return(p)
           /\ Did([e |-> "answer", p |-> p]) /\ UNCHANGED <<ops, reqs, cur>>
    \/ /\ Room /\ Quiet /\ Len(answers) < 2
       /\ \E t \in {"ok", "err"} :
            /\ answers' = Append(answers, [t |-> t, kind |-> "Io", cause |-> None, after |-> 1])
            /\ Op([o |-> "answers", t |-> t])
       /\ UNCHANGED <<idVars, mtu, calls, refuse, statVars, timeVars, closes, log, reqs, cur>>
Closing ==
    \/ /\ Room /\ ~Left /\ (Lane = "push" \/ Quiet) /\ CallClose(1)
       /\ Op([o |-> "close"]) /\ UNCHANGED <<log, reqs, cur>>
    \/ /\ CloseTransport(1)
       /\ Did([e |-> "close", who |-> "user"]) /\ UNCHANGED <<ops, reqs, cur>>
    \/ calls[1].o = "close" /\ Return(1) /\ Same

Names == {"Connecting", "Closed", "Error"}
StatusOps ==
    \/ /\ Room
       /\ \E s \in Names :
            /\ Publish([s |-> s, m |-> "boom"]) /\ Op([o |-> "status", s |-> s])
       /\ UNCHANGED <<log, reqs, cur>>
    \/ /\ Room /\ watching /\ EndOfStatus /\ Op([o |-> "end"]) /\ UNCHANGED <<log, reqs, cur>>
Handling ==
    \/ HandleSilent /\ Did([e |-> "silent", s |-> Head(queue).s]) /\ UNCHANGED <<ops, reqs, cur>>
    \/ HandleLoud /\ Did([e |-> "said", s |-> Head(queue).s]) /\ UNCHANGED <<ops, reqs, cur>>

Clock ==
    \/ /\ Len(ops) < Depth /\ Quiet /\ Tick(now + 1) /\ Op([o |-> "advance"]) /\ UNCHANGED <<log, reqs, cur>>
    \/ (Emit => now >= heard + 2 * limit) /\ KeepSay /\ Did([e |-> "timeout", at |-> now]) /\ UNCHANGED <<ops, reqs, cur>>
    \/ (Emit => keep.said) /\ KeepClose /\ Did([e |-> "close", who |-> "keep", at |-> now]) /\ UNCHANGED <<ops, reqs, cur>>
Peer == Room /\ Quiet /\ Receive /\ Op([o |-> "peer"]) /\ UNCHANGED <<log, reqs, cur>>

Next ==
    \/ Lane \in {"fnf", "par", "push", "keep"} /\ Requests
    \/ Lane = "fnf" /\ (Refusal \/ InUse)
    \/ Lane = "push" /\ Pushes
    \* a push is answered later; nothing else moves time there
    \/ Lane = "push" /\ now' = now + 1 /\ (\E p \in Callers : calls[p].o = "push" /\ now < calls[p].at)
       /\ UNCHANGED <<callVars, mtu, statVars, limit, heard, keep, closes, ops, log, reqs, cur>>
    \/ Lane \in {"push", "keep"} /\ Closing
    \/ Lane \in {"status", "keep"} /\ StatusOps
    \/ Lane \in {"status", "keep"} /\ Handling
    \/ Lane = "keep" /\ (Clock \/ Peer)
    \/ Lane \in {"status", "keep"} /\ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Handling) /\ WF_vars(Requests)

----------------------------------------------------------------------------
Sends(r, ok) == SelectSeq(log, LAMBDA x : x.e = "send" /\ x.r = r /\ x.ok = ok)
Busy(r) == \E p \in Callers : cur[p] = r /\ calls[p].o = "fnf" /\ ~calls[p].done
Glue(ss, part(_)) == CatAll([i \in 1..Len(ss) |-> Opt(part(ss[i].f))])
MetaPart(f) == f.meta
DataPart(f) == f.data
AnyHas(ss, part(_)) == \E i \in 1..Len(ss) : Has(part(ss[i].f))

\* C18: what a request has sent, and that it got through or was refused.
RequestWhole ==
    \A r \in 1..Len(reqs) :
        LET q == reqs[r]
            acc == Sends(r, TRUE)
            ref == Sends(r, FALSE)
            all == SelectSeq(log, LAMBDA x : x.e = "send" /\ x.r = r)
        IN  /\ \A i, j \in 1..Len(all) : all[i].f.sid = all[j].f.sid
            /\ Len(ref) <= 1 /\ (ref # <<>> => ~all[Len(all)].ok)
            /\ \A i \in 1..Len(all) : i < Len(all) => all[i].f.follows
            /\ IsPrefixOf(Glue(acc, MetaPart), Opt(q.m)) /\ IsPrefixOf(Glue(acc, DataPart), Opt(q.d))
            /\ Has(q.mtu) => \A i \in 1..Len(all) :
                 SizeOpt(all[i].f.meta) <= q.mtu[1] /\ SizeOpt(all[i].f.data) <= q.mtu[1]
            /\ (~Has(q.mtu) \/ SizeOpt(q.m) + SizeOpt(q.d) = 0) => Len(all) <= 1
            /\ ~Busy(r) /\ ref = <<>> =>
                 /\ Glue(acc, MetaPart) = Opt(q.m) /\ Glue(acc, DataPart) = Opt(q.d)
                 /\ acc # <<>> /\ ~acc[Len(acc)].f.follows
                 /\ AnyHas(acc, MetaPart) => Has(q.m)
                 /\ AnyHas(acc, DataPart) => Has(q.d)
\* C18, C19: one stream for each request, of the session's side, not in use.
OwnStreams ==
    \A i, j \in 1..Len(log) :
        log[i].e = "send" /\ log[j].e = "send" =>
            /\ (log[i].r = log[j].r) = (log[i].f.sid = log[j].f.sid)
            /\ log[i].f.sid[4] % 2 = log[j].f.sid[4] % 2
            /\ ~IsZero(log[i].f.sid)
Inputs(o) == Len(SelectSeq(ops, LAMBDA x : x.o = o))
Effects(e) == Len(SelectSeq(log, LAMBDA x : x.e = e))
\* C20
Of(s, p, names) == Len(SelectSeq(s, LAMBDA x : "p" \in DOMAIN x /\ x.p = p /\
    (IF "o" \in DOMAIN x THEN x.o ELSE x.e) \in names))
PushesOnce ==
    Lane = "push" =>
        LET shuts == Inputs("close")   shut == Effects("close")
        IN  /\ \A p \in Callers :
                LET begun == Of(ops, p, {"begin"})   pushed == Of(log, p, {"push"})
                    joined == Of(ops, p, {"join"})   got == Of(log, p, {"answer"})
                    gone == Of(ops, p, {"abandon"})
                IN  /\ pushed <= begun /\ got <= joined /\ pushed >= got
                    /\ calls[p] = Idle => got = joined /\ pushed + gone >= begun
            /\ shut <= shuts /\ shut = closes
            /\ Quiet => shut = shuts
            \* no id is used up
            /\ Quiet => cand = 1 + 2 * (Len(reqs) % 4)
\* C21: what was handled, and what waits, is what was published.
StatusOnce ==
    Lane = "status" =>
        LET names == [i \in 1..Len(SelectSeq(ops, LAMBDA y : y.o = "status")) |->
                        SelectSeq(ops, LAMBDA y : y.o = "status")[i].s]
        IN  /\ [i \in 1..Len(log) |-> log[i].s] \o [i \in 1..Len(queue) |-> queue[i].s] = names
            /\ \A i \in 1..Len(log) : (log[i].e = "said") = (log[i].s \in {"Closed", "Error"})
Drained == []<>(queue = <<>>)
\* C22
GaveUpInTime ==
    Lane = "keep" =>
        LET times == SelectSeq(log, LAMBDA x : x.e = "close" /\ x.who = "keep")
            said == SelectSeq(log, LAMBDA x : x.e = "timeout")
        IN  /\ Len(times) <= 1 /\ Len(said) <= 1
            /\ closes = Len(SelectSeq(log, LAMBDA x : x.e = "close"))
            /\ \A i \in 1..Len(times) : times[i].at >= limit
            /\ now > heard + 2 * limit + Slack /\ ~keep.excused => Len(times) = 1
            \* said and closed belong together
            /\ times # <<>> /\ said # <<>> => times[1].at = said[1].at

SessionInv == RequestWhole /\ OwnStreams /\ PushesOnce /\ StatusOnce /\ GaveUpInTime

\* Reached in some run (negated: TLC shows the run).
Over == Len(ops) = Depth /\ Quiet /\ queue = <<>> /\ (Lane = "keep" => keep.said = keep.closed)
Emitted ==
    Emit /\ Over =>
        PrintT(ToJson([ops |-> ops, mtu |-> mtu,
                       turns |-> IF Lane = "par"
                                 THEN [i \in 1..Len(log) |-> reqs[log[i].r].p] ELSE <<>>,
                       start |-> IF Len(log) > 0 /\ log[1].e = "send" /\ ops[1].o = "fnf"
                                 THEN log[1].f.sid[4] ELSE 0]))
=============================================================================
