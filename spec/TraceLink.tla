------------------------------ MODULE TraceLink ------------------------------
(***************************************************************************)
(* Validates recorded runs of the real codec against Link.  A run is a      *)
(* sequence of steps with the results the code gave.  The channel holds the *)
(* bytes the code really produced; each step must be a step of Link and its *)
(* result one the specification allows.  ASPECT restricts the comparison to *)
(* the facts one property is about, so that a check reports only breaches   *)
(* of its own property.                                                     *)
(***************************************************************************)
EXTENDS Link, Json, IOUtils

VARIABLES run, l
vars == <<chan, run, l>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT

Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r
About(p) == Aspect = p

----------------------------------------------------------------------------
\* Send: r is the outcome of constructing and encoding a.

AccIs(r, f) == r.acc = View(f)

\* C17: refused, or reduced so that the wire carries what the accessors say.
Carried(a, r) ==
    LET f == Make(a)
        d == Decode(r.b)
    IN  /\ AccIs(r, f)
        /\ InScope(f) => d.t = "ok" /\ d.rem = 0 /\ \E g \in Settlings(f) : View(d.f) = View(g)
        /\ Size(r.b) >= 4 /\ ByteAt(r.b, 1) < 128

SendFits(a, r) ==
    CASE About("C01") -> InRange(a) => r.t = "ok" /\ AccIs(r, Make(a))
      [] About("C02") -> InRange(a) => r.t = "ok" /\ r.len = Size(r.b) /\ r.empty = (r.len = 0) /\ r.tob /\ r.pre
      [] About("C03") -> InRange(a) => r.t = "ok" /\ r.b = Encode(Make(a))
      [] About("C17") ->
            IF r.t = "panic" THEN ~InRange(a)
            ELSE (InRange(a) \/ Reducible(a)) /\ Carried(a, r)
      [] About("ALL") -> r \in SendOuts(a)
      [] OTHER -> TRUE

----------------------------------------------------------------------------
\* Receive: r is the outcome of decoding the datagram d.

\* C01: by the arguments alone, not by the bytes.
RoundTrips(d, r) ==
    Has(d.a) /\ InRange(d.a[1]) /\ InScope(Src(d)) =>
        /\ r.t = "ok"
        /\ \E f \in Settlings(Src(d)) :
              r = [t |-> "ok", acc |-> View(f), rem |-> 0, eq |-> f = Src(d)]

\* C04: every field of a well-formed frame.
FieldsRead(d, r) ==
    LET x == Decode(d.b)
    IN  x.t = "ok" => r.t = "ok" /\ r.acc = View(x.f) /\ r.rem = x.rem

\* C05: no panic; incomplete and unrecognised exactly when that is the fault.
Structural(e) == e.e \in {"incomplete", "type", "other"}
Diagnosed(d, r) ==
    LET x == Decode(d.b)
        E == IF x.t = "ok" THEN {} ELSE {e \in x.errs : Structural(e)}
    IN  /\ r.t \in {"ok", "err"}
        /\ r.t = "err" /\ Structural(r.err) => r.err \in E
        /\ E # {} => r.t = "err"

\* C06: scope faults exactly when there are any.
ScopeKept(d, r) ==
    LET x == Decode(d.b)
        E == IF x.t = "ok" THEN {} ELSE {e \in x.errs : e.e = "sid"}
    IN  /\ r.t = "err" /\ r.err.e = "sid" => r.err \in E
        /\ E # {} /\ x.errs = E => r.t = "err" /\ r.err \in E
        /\ E # {} => r.t # "ok"

RecvFits(d, r) ==
    CASE About("C01") -> RoundTrips(d, r)
      [] About("C04") -> FieldsRead(d, r)
      [] About("C05") -> Diagnosed(d, r)
      [] About("C06") -> ScopeKept(d, r)
      [] About("C17") ->
            \* out-of-range arguments still read back as reported
            Has(d.a) /\ ~InRange(d.a[1]) /\ InScope(Src(d)) =>
                r.t = "ok" /\ \E f \in Settlings(Src(d)) : r.acc = View(f)
      [] About("ALL") -> r \in RecvOuts(d)
      [] OTHER -> TRUE

\* The same three about the decoders of the kinds.
BodyFits(d, e, r) ==
    LET at(sid) == Datagram(Behead(d.b, e.k, sid, e.fl), None)
        loose == e.k \in ConnKinds /\ ~IsZero(e.sid)
        noted == r.t = "err" /\ r.err.e = "sid"
        x == at(IF loose THEN Zero32 ELSE e.sid)
    IN  CASE About("C04") -> (loose /\ noted) \/ FieldsRead(x, r)
          [] About("C05") -> (loose /\ noted) \/ Diagnosed(x, r)
          [] About("C06") -> IF loose THEN noted => r.err = BadSid("0", e.sid) ELSE ScopeKept(x, r)
          [] About("ALL") -> r \in BodyOuts(d, e.k, e.sid, e.fl)
          [] OTHER -> TRUE

----------------------------------------------------------------------------
\* C07: the same outcome from every segmentation of the datagram.
SegFits(r) ==
    \* no decode, or an undecodable one, is the matter of C05
    About("C07") => \A i \in 1..Len(r.outs) : r.outs[i] = r.base

\* C08: what was accepted can be sent on, and is received as the same frame;
\* frames that carry flags still tell the next hop whether it may ignore them.
MayIgnore(b) == Bit(ByteAt(b, 5), 2)
RelayFits(d, r) ==
    CASE About("C08") ->
            /\ r.t \in {"ok", "err"}
            /\ r.t = "ok" => r.acc2 = r.acc /\ r.same /\ r.rem2 = 0
            /\ r.t = "ok" /\ r.acc.k \in PayloadKinds => MayIgnore(r.b) = MayIgnore(d.b)
      [] About("C02") -> r.t = "ok" => r.len = Size(r.b)
      [] About("C05") -> r.t \in {"ok", "err"}
      [] About("ALL") -> r \in RelayOuts(d)
      [] OTHER -> TRUE

----------------------------------------------------------------------------
TSend ==
    /\ Ev.o = "send"
    /\ SendFits(Ev.a, R)
    /\ IF R.t = "ok" THEN chan' = Append(chan, Datagram(R.b, Some(Ev.a)))
       ELSE UNCHANGED chan
TInject == Ev.o = "inject" /\ Inject(Ev.b)
TCut == Ev.o = "cut" /\ Cut(R.n)
TPoke == Ev.o = "poke" /\ Poke(R.i, Ev.v)
TSeg == Ev.o = "seg" /\ chan # <<>> /\ SegFits(R) /\ UNCHANGED chan
TRelay ==
    /\ Ev.o = "relay" /\ chan # <<>>
    /\ RelayFits(Head(chan), R)
    /\ chan' = IF R.t = "ok" THEN [chan EXCEPT ![1].b = R.b] ELSE chan
TBody == Ev.o = "body" /\ chan # <<>> /\ BodyFits(Head(chan), Ev, R) /\ UNCHANGED chan
TRecv == Ev.o = "recv" /\ RecvFits(Head(chan), R) /\ Recv
TNone ==
    /\ Ev.o \in {"cut", "poke", "relay", "seg", "body", "recv"}
    /\ IF chan = <<>> THEN TRUE ELSE Head(chan).b = <<>>
    /\ UNCHANGED chan

Init == LinkInit /\ run \in 1..Len(Log) /\ l = 1
Next ==
    /\ l <= Len(Steps)
    /\ l' = l + 1 /\ UNCHANGED run
    /\ IF R.t = "none" THEN TNone
       ELSE TSend \/ TInject \/ TCut \/ TPoke \/ TSeg \/ TBody \/ TRelay \/ TRecv
Spec == Init /\ [][Next]_vars

\* A run is accepted if its last step is reached.
Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
