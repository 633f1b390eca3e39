----------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Validates recorded runs of a session.  A step of the run is an input and *)
(* the list of visible effects it had, each with its time and its caller;   *)
(* the effects are consumed one by one, each by an action of Session.       *)
(*                                                                          *)
(* ASPECT names the property at hand; effects of other properties are       *)
(* passed over.  ALL is all of them.                                        *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

VARIABLES run, l,
    fx,         \* the effects of the step that matter to the aspect
    k,          \* the effect to be explained next; 0: the step has not begun
    left,       \* the calls each caller still has to make
    done        \* the results so far of each caller
vars == <<sesVars, run, l, fx, k, left, done>>
own == <<run, l, fx, k, left, done>>

Aspect == IOEnv.ASPECT
About(S) == Aspect \in S \cup {"ALL"}
DeafEars == "DEAF" \in DOMAIN IOEnv
\* On the machine's clock a session may be late, but never early.
Slack1 == IF "REAL" \in DOMAIN IOEnv THEN 12000 ELSE 2

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r

IsKeepSaid(e) == HasWithin(e.text, "keepalive")
Relevant(e) ==
    CASE e.e = "send"   -> About({"C18", "C19", "C20"})
      [] e.e = "push"   -> About({"C20"})
      [] e.e \in {"asked", "answer"} -> About({"C20"})
      [] e.e = "close"  -> About({"C20", "C22"})
      [] e.e = "said"   -> IF IsKeepSaid(e) THEN About({"C22"}) ELSE About({"C21"})
      [] e.e = "stream" -> About({"C18", "C19", "C20"})
      [] OTHER -> FALSE
Id(p) == p[1] * 65536 + p[2]
Low31(p) == (p[1] % 32768) * 65536 + p[2]
E == fx[k]
P == E.by + 1

\* The callers of the step.  Pushes that are waited for now and then are
\* callers of their own.
Waiter(slot) == slot + 17
Active ==
    CASE Ev.o = "par" -> 2..(Len(Ev.calls) + 1)
      [] Ev.o = "begin" -> {Waiter(Ev.slot)}
      [] Ev.o = "join" -> {Waiter(Ev.slots[i]) : i \in 1..Len(Ev.slots)}
      [] OTHER -> {1}
\* Stages of a step.
Step(a, k2) == a /\ k' = k2 /\ UNCHANGED <<run, l, fx, left, done>>

\* A fragment size below 0 stands for one that no part reaches.
Size1(o) == IF Has(o) THEN Some(IF o[1] < 0 THEN MaxId ELSE o[1]) ELSE None
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
None1 == [p \in Callers |-> <<>>]

Begin ==
    /\ k = 0 /\ R.t \in {"ok", "err"}
    /\ k' = 1 /\ fx' = SelectSeq(R.log, Relevant) /\ UNCHANGED <<run, l>>
    /\ done' = None1
    /\ left' = IF Ev.o = "par" THEN [p \in Callers |-> IF p - 1 \in 1..Len(Ev.calls) THEN Ev.calls[p - 1] ELSE <<>>]
               ELSE IF Ev.o \in {"fnf", "push", "close"} THEN [None1 EXCEPT ![1] = <<Ev>>]
               ELSE IF Ev.o = "begin" THEN [None1 EXCEPT ![Waiter(Ev.slot)] = <<Ev>>]
               ELSE None1
    /\ CASE Ev.o = "new" ->
            /\ mtu' = Size1(Ev.mtu) /\ limit' = Ev.timeout
            /\ cand' = (IF Has(Ev.ids) THEN Low31(Ev.ids[1])
                        ELSE IF Ev.server THEN Sides.server ELSE Sides.client)
            /\ queue' = <<Ev.status>>
            /\ UNCHANGED <<used, calls, refuse, answers, watching, now, heard, keep, closes>>
         [] Ev.o = "occupy" ->
            Occupy(Id(Ev.id))
            /\ UNCHANGED <<mtu, calls, refuse, answers, statVars, timeVars, closes>>
         [] Ev.o = "release" ->
            Release(Id(Ev.id))
            /\ UNCHANGED <<mtu, calls, refuse, answers, statVars, timeVars, closes>>
         [] Ev.o = "refuse" ->
            refuse' = [left |-> Ev.left, kind |-> Ev.kind, cause |-> Ev.cause]
            /\ UNCHANGED <<idVars, mtu, calls, answers, statVars, timeVars, closes>>
         [] Ev.o = "answers" ->
            answers' = answers \o Ev.list
            /\ UNCHANGED <<idVars, mtu, calls, refuse, statVars, timeVars, closes>>
         [] Ev.o = "status" ->
            queue' = (IF watching THEN queue \o Ev.list ELSE queue)
            /\ UNCHANGED <<callVars, mtu, watching, timeVars, closes>>
         [] Ev.o = "end" -> EndOfStatus
         [] Ev.o = "peer" -> Receive
         [] Ev.o = "abandon" -> Abandon(Waiter(Ev.slot))
         [] OTHER -> UNCHANGED sesVars

\* The next frame of a caller.
NextSend(p) ==
    LET S == {i \in k..Len(fx) : fx[i].e = "send" /\ fx[i].by + 1 = p}
    IN  IF S = {} THEN None ELSE Some(fx[MinOf(S)].f)
Call(p) ==
    /\ calls[p] = Idle /\ left[p] # <<>>
    /\ left' = [left EXCEPT ![p] = Tail(@)]
    /\ LET c == Head(left[p]) IN
       CASE c.o = "fnf" -> CallFnf(p, c.m, c.d)
         [] c.o \in {"push", "begin"} -> CallPush(p, c.m)
         [] c.o = "close" -> CallClose(p)
    /\ UNCHANGED <<run, l, fx, k, done>>
Take1(p) ==
    LET f == NextSend(p) IN
    /\ calls[p].o = "fnf" /\ ~Has(calls[p].sid)
    /\ Has(f) /\ f[1].k = "REQUEST_FNF" /\ f[1].sid = Octets31(Pick)
    /\ Step(TakeId(p), k)
Return1(p) ==
    /\ Return(p)
    /\ done' = [done EXCEPT ![p] = Append(@, calls[p].res)]
    /\ UNCHANGED <<run, l, fx, k, left>>

\* Steps without an effect are taken as soon as they can be: nothing else is
\* possible for that caller, and the others do not care.  For the same reason
\* the callers take them one after the other.
MayCall == {p \in Active : calls[p] = Idle /\ left[p] # <<>>}
MayReturn == {p \in Active : Ev.o # "begin" /\ calls[p].o # "idle" /\ calls[p].done}
\* what the aspect does not show happened unseen
Unseen == {p \in Active :
    /\ calls[p].o # "idle" /\ ~calls[p].done
    /\ calls[p].o = "fnf" => ~About({"C18", "C19", "C20"})
    /\ calls[p].o = "push" => ~About({"C20"})
    /\ calls[p].o = "close" => ~About({"C20", "C22"})}
Silent1 ==
    IF MayCall # {} THEN Call(MinOf(MayCall))
    ELSE IF MayReturn # {} THEN Return1(MinOf(MayReturn))
    ELSE IF Unseen # {} THEN
        /\ calls' = [calls EXCEPT ![MinOf(Unseen)].done = TRUE]
        /\ UNCHANGED <<idVars, mtu, refuse, answers, statVars, timeVars, closes, own>>
    ELSE \/ \E p \in Active : Take1(p)
         \/ Step(HandleSilent, k)
         \/ ~About({"C21"}) /\ Step(HandleLoud, k)

Timed == About({"C22"})
MustTick(t) == IF Timed THEN Tick(t)
               ELSE now' = t /\ t >= now
                    /\ UNCHANGED <<callVars, mtu, statVars, limit, heard, keep, closes>>
Explain ==
    /\ k \in 1..Len(fx)
    /\ IF now < E.at THEN Step(MustTick(E.at), k)
       ELSE Step(
            CASE E.e = "send"   -> IF E.n = 1 THEN SendFnf(P, E.f, E.ok) ELSE E.ok /\ SendRun(P, E.f, E.n)
              [] E.e = "push"   -> Push(P, E.f)
              [] E.e = "asked"  -> E.after \in {0, Answer.after} /\ Await(P, E.after)
              [] E.e = "answer" -> Answered(P)
              [] E.e = "close"  -> CloseTransport(P) \/ KeepClose
              [] E.e = "said"   -> IF IsKeepSaid(E) THEN KeepSay
                                   ELSE queue # <<>> /\ ReportFits(Head(queue), E.text) /\ HandleLoud
              [] OTHER -> FALSE,
            k + 1)

\* A result: success, or the error of the transport.
ResFits(want, got) ==
    IF want.t = "ok" THEN got.t = "ok"
    ELSE /\ got.t = "err" /\ got.cause = want.cause
         /\ {got.yes[i] : i \in 1..Len(got.yes)} = Yes(want.kind)
Judged(o) == CASE o = "fnf" -> About({"C18", "C19"}) [] o = "push" -> About({"C20"})
               [] OTHER -> About({"C20"})
Results ==
    CASE Ev.o = "par" ->
            /\ Len(R.got) = Len(Ev.calls)
            /\ \A p \in 1..Len(R.got) :
                /\ Len(R.got[p]) = Len(done[p + 1])
                /\ \A i \in 1..Len(R.got[p]) :
                    Judged(Ev.calls[p][i].o) => ResFits(done[p + 1][i], R.got[p][i])
      [] Ev.o = "join" ->
            Judged("push") =>
            /\ Len(R.got) = Len(Ev.slots)
            /\ \A i \in 1..Len(R.got) :
                Len(done[Waiter(Ev.slots[i])]) = 1 /\ ResFits(done[Waiter(Ev.slots[i])][1], R.got[i])
      [] Ev.o \in {"fnf", "push", "close"} ->
            Judged(Ev.o) => Len(done[1]) = 1 /\ ResFits(done[1][1], R)
      [] OTHER -> R.t = "ok"
Count == IF Ev.o = "status" THEN Len(Ev.list) ELSE 1
End ==
    /\ k = Len(fx) + 1 /\ k > 0
    /\ \A p \in Active : left[p] = <<>> /\ (Ev.o = "begin" \/ calls[p] = Idle)
    /\ queue = <<>>
    /\ IF now < R.now THEN MustTick(R.now) /\ UNCHANGED own
       ELSE /\ now = R.now
            /\ Timed => keep.said = keep.closed
            /\ Results
            \* asked once, and only when there was something to ask for
            /\ About({"C21"}) => R.subs = 1 /\ R.polls <= 30 + 3 * Count
            /\ l' = l + 1 /\ k' = 0 /\ fx' = <<>> /\ UNCHANGED <<sesVars, run, left, done>>

Init ==
    /\ SesInit(None, 0) /\ Start(0)
    /\ run \in 1..Len(Log) /\ l = 1 /\ k = 0 /\ fx = <<>> /\ left = None1 /\ done = None1
Next ==
    /\ l <= Len(Steps)
    /\ \/ Begin
       \/ k > 0 /\ IF ENABLED Silent1 THEN Silent1 ELSE Explain \/ End
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
