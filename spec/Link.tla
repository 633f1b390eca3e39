-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* A link between two peers.  The sender constructs frames and puts their   *)
(* encodings on the channel; the network (or a hostile peer) may put any    *)
(* other byte string there, cut a datagram short or change its bits; a      *)
(* relay may decode the next datagram and encode it again; the receiver     *)
(* decodes it.                                                              *)
(*                                                                          *)
(* A datagram is [b, a]: its bytes, and the arguments of the frame it was   *)
(* encoded from, absent if the bytes are not (or no longer) the sender's.   *)
(***************************************************************************)
EXTENDS Frames

VARIABLE chan

LinkInit == chan = <<>>

Datagram(b, a) == [b |-> b, a |-> a]

\* A frame is constructed and sent.  Out-of-range arguments are refused, or
\* reduced where that is possible.
Send(a) ==
    /\ InRange(a) \/ Reducible(a)
    /\ chan' = Append(chan, Datagram(Encode(Make(a)), Some(a)))
Refused(a) == ~InRange(a) /\ UNCHANGED chan

\* Bytes from elsewhere.
Inject(b) == chan' = Append(chan, Datagram(b, None))

\* The next datagram is cut short, or one of its bytes is changed.
Cut(n) ==
    /\ chan # <<>> /\ n < Size(Head(chan).b)
    /\ chan' = [chan EXCEPT ![1] = Datagram(Take(@.b, n), None)]
Poke(i, v) ==
    /\ chan # <<>> /\ i <= Size(Head(chan).b)
    /\ chan' = [chan EXCEPT ![1] =
            Datagram(CatAll(<<Take(@.b, i - 1), Run(v, 1), Drop(@.b, i)>>), None)]

\* The next datagram is decoded and, if it is a frame, encoded again.
Relay ==
    /\ chan # <<>>
    /\ LET d == Decode(Head(chan).b)
       IN  chan' = IF d.t = "ok"
                   THEN [chan EXCEPT ![1] = Datagram(Encode(d.f), @.a)] ELSE chan

\* What follows the header of the next datagram is decoded as a frame of kind k
\* on stream sid with flags fl, by somebody who has read the header himself.
Behead(b, k, sid, fl) ==
    CatAll(<<Lit(sid), Lit(Oct16(1024 * TypeCode[k] + fl)), Drop(b, 6)>>)

\* The next datagram is decoded for good.
Recv == chan # <<>> /\ chan' = Tail(chan)

----------------------------------------------------------------------------
(* What is observed when one of these happens: the set of correct outcomes. *)

ErrOuts(errs) == {[t |-> "err", err |-> e] : e \in errs}
Panic == [t |-> "panic"]

SendOk(a) ==
    LET f == Make(a)
    IN  [t |-> "ok", acc |-> View(f), len |-> Length(f), b |-> Encode(f),
         tob |-> TRUE, pre |-> TRUE, empty |-> FALSE]
SendOuts(a) ==
    IF InRange(a) THEN {SendOk(a)}
    ELSE {Panic} \cup (IF Reducible(a) THEN {SendOk(a)} ELSE {})

RecvOuts(d) ==
    LET r == Decode(d.b)
    IN  IF r.t = "ok"
        THEN {[t |-> "ok", acc |-> View(r.f), rem |-> r.rem,
               eq |-> Has(d.a) => r.f = Make(d.a[1])]}
        ELSE ErrOuts(r.errs)

\* A kind of the connection may leave it to the reader of the header to look
\* at the stream id.
BodyOuts(d, k, sid, fl) ==
    RecvOuts(Datagram(Behead(d.b, k, sid, fl), None))
    \cup IF k \in ConnKinds THEN RecvOuts(Datagram(Behead(d.b, k, Zero32, fl), None)) ELSE {}

RelayOuts(d) ==
    LET r == Decode(d.b)
    IN  IF r.t = "ok"
        THEN {[t |-> "ok", acc |-> View(r.f), acc2 |-> View(r.f), same |-> TRUE,
               rem2 |-> 0, b |-> Encode(r.f), len |-> Length(r.f)]}
        ELSE ErrOuts(r.errs)

----------------------------------------------------------------------------
(* Properties of every datagram on the channel.                             *)

Datagrams == {chan[i] : i \in 1..Len(chan)}
Sent == {d \in Datagrams : Has(d.a)}
Src(d) == Make(d.a[1])

WellFormed == \A d \in Datagrams : Normal(d.b)

\* C01: what was sent is what is received, up to empty trailing parts.
RoundTrip == \A d \in Sent :
    LET f == Src(d)
        r == Decode(d.b)
    IN  IF InScope(f)
        THEN r.t = "ok" /\ r.f = Settle(f) /\ r.rem = 0
        ELSE r.t = "err"
\* In-range arguments are reported unchanged by the accessors (part of C17).
Faithful == \A d \in Sent :
    InRange(d.a[1]) =>
        LET a == d.a[1]
            f == Src(d)
        IN  \A x \in {"sid", "n", "ttl", "pos", "srv", "cli", "code", "ka", "lt",
                      "maj", "min", "mm", "dm", "tok", "meta", "data"}
                    \cap DOMAIN a \cap DOMAIN f : a[x] = f[x]

\* C02
LengthExact == \A d \in Sent : Size(d.b) = Length(Src(d))

\* C03: facts about the layout, stated on the bytes alone.
LayoutFacts == \A d \in Sent :
    LET f == Src(d)
        w == U16(Octs(d.b, 5, 2))
        sid == Octs(d.b, 1, 4)
    IN  /\ Size(d.b) >= 6
        /\ sid[1] < 128
        /\ w \div 1024 = TypeCode[f.k]
        /\ (f.k \in ConnKinds) => IsZero(sid)
        /\ DefinedFlags(w) = w % 1024 /\ ~Bit(w, IGNORE)
        /\ (f.k \in {"REQUEST_N", "CANCEL", "ERROR", "RESUME", "RESUME_OK"}) => w % 1024 = 0
        /\ (f.k \in {"REQUEST_RESPONSE", "REQUEST_FNF", "REQUEST_STREAM"})
                => ~Bit(w, COMPLETE) /\ ~Bit(w, NEXT)
        /\ (f.k \in {"SETUP", "REQUEST_CHANNEL"}) => ~Bit(w, NEXT)
        /\ (f.k = "KEEPALIVE") => ~Bit(w, METADATA) /\ ~Bit(w, COMPLETE) /\ ~Bit(w, NEXT)
        /\ (f.k \in PayloadKinds) => (Bit(w, METADATA) <=> Has(f.meta))
        /\ (f.k = "SETUP") => (Bit(w, RESUME) <=> d.a[1].resume \/ Has(f.tok))
        /\ (f.k \in {"SETUP"}) => Octs(d.b, 11, 1)[1] < 128 /\ Octs(d.b, 15, 1)[1] < 128
        /\ (f.k \in {"LEASE"}) => Octs(d.b, 7, 1)[1] < 128 /\ Octs(d.b, 11, 1)[1] < 128
        /\ (f.k \in {"KEEPALIVE", "RESUME_OK", "REQUEST_N", "REQUEST_STREAM",
                     "REQUEST_CHANNEL"}) => Octs(d.b, 7, 1)[1] < 128

\* C04/C05: decoding is total, and refuses for a reason.
DecodeTotal == \A d \in Datagrams :
    LET r == Decode(d.b)
    IN  \/ r.t = "ok" /\ r.f.k \in KindSet /\ r.rem <= Size(d.b)
        \/ r.t = "err" /\ r.errs # {}
\* Reserved bits do not matter to the decoder.
ReservedIgnored == \A d \in Datagrams :
    Size(d.b) >= 6 =>
        LET flip(i, m) == CatAll(<<Take(d.b, i - 1),
                                  Run(IF Bit(ByteAt(d.b, i), m) THEN ByteAt(d.b, i) - m
                                      ELSE ByteAt(d.b, i) + m, 1), Drop(d.b, i)>>)
        IN  /\ Decode(flip(1, 128)) = Decode(d.b)
            /\ \A m \in {1, 2, 4, 8} : Decode(flip(6, m)) = Decode(d.b)
\* A cut-off frame is incomplete, or a frame of its kind with a shorter end.
CutOff == \A d \in Sent :
    Size(d.b) <= 80 =>
    \A n \in 0..(Size(d.b) - 1) :
        LET r == Decode(Take(d.b, n))
        IN  IF r.t = "ok" THEN r.f.k = Src(d).k ELSE
            \/ Incomplete \in r.errs
            \/ ~InScope(Src(d))

\* C06
Scoped == \A d \in Datagrams :
    LET r == Decode(d.b)
    IN  r.t = "ok" => /\ InScope(r.f)
                      /\ (r.f.k \in ConnKinds) => IsZero(ClearTop(Octs(d.b, 1, 4)))

\* A frame is what its header says and what its body decodes to.
BodyAgrees == \A d \in Datagrams :
    LET r == Decode(d.b)
        w == U16(Octs(d.b, 5, 2))
    IN  r.t = "ok" =>
        \A sid \in {ClearTop(Octs(d.b, 1, 4)), <<0, 0, 0, 9>>} :
            LET q == BodyOuts(d, r.f.k, sid, DefinedFlags(w))
            IN  \/ sid = ClearTop(Octs(d.b, 1, 4)) /\ q = RecvOuts(Datagram(d.b, None))
                \/ r.f.k = "ERROR"
                \/ r.f.k \in ConnKinds /\ RecvOuts(Datagram(d.b, None)) \subseteq q
                \/ \A o \in q : o.t = "ok" /\ o.acc = [View(r.f) EXCEPT !.sid = sid]

\* C08
RelayStable == \A d \in Datagrams :
    LET r == Decode(d.b)
    IN  r.t = "ok" => LET b2 == Encode(r.f)
                          r2 == Decode(b2)
                      IN  r2.t = "ok" /\ r2.f = r.f /\ r2.rem = 0 /\ Size(b2) = Length(r.f)

LinkInv == /\ WellFormed /\ RoundTrip /\ Faithful /\ LengthExact /\ LayoutFacts
           /\ DecodeTotal /\ ReservedIgnored /\ CutOff /\ Scoped /\ BodyAgrees /\ RelayStable
=============================================================================
