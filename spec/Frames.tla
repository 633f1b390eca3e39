------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* The frames of the RSocket protocol as binate models them: what can be    *)
(* constructed, the bytes of each frame, and what any byte string decodes   *)
(* to.  Everything here follows the protocol text, not the Rust code; the   *)
(* conformance checks compare the two.                                      *)
(*                                                                          *)
(* An optional value is the empty tuple or a tuple of one value.            *)
(***************************************************************************)
EXTENDS Octets, Integers, TLC

None == <<>>
Some(x) == <<x>>
Has(o) == o # <<>>

\* Header flags.  Three of the bits have several names.
IGNORE   == 512
METADATA == 256
FOLLOWS  == 128     RESUME == 128   RESPOND == 128
COMPLETE == 64      LEASE  == 64
NEXT     == 32
FlagBits == {IGNORE, METADATA, FOLLOWS, COMPLETE, NEXT}

Bit(n, b) == (n \div b) % 2 = 1
If(c, b)  == IF c THEN b ELSE 0
\* Undefined flag bits are dropped.
DefinedFlags(n) == (n % 1024) - (n % 32)

Kinds == <<"SETUP", "LEASE", "KEEPALIVE", "REQUEST_RESPONSE", "REQUEST_FNF",
           "REQUEST_STREAM", "REQUEST_CHANNEL", "REQUEST_N", "CANCEL",
           "PAYLOAD", "ERROR", "METADATA_PUSH", "RESUME", "RESUME_OK">>
KindSet == {Kinds[i] : i \in 1..14}
TypeCode == [k \in KindSet |-> CHOOSE i \in 1..14 : Kinds[i] = k]
ExtCode == 63

\* Kinds that pertain to the connection and live on stream 0 only.
ConnKinds == {"SETUP", "LEASE", "KEEPALIVE", "METADATA_PUSH", "RESUME", "RESUME_OK"}
\* Kinds whose header keeps the flags, and whose body ends in metadata & data.
PayloadKinds == {"SETUP", "REQUEST_RESPONSE", "REQUEST_FNF", "REQUEST_STREAM",
                 "REQUEST_CHANNEL", "PAYLOAD"}
\* Kinds that may be fragmented and take part in reassembly.
MessageKinds == PayloadKinds \ {"SETUP"}

\* Error codes of the protocol, by scope.
Code(a, b) == <<0, 0, a, b>>
ConnCodes   == {Code(0, 1), Code(0, 2), Code(0, 3), Code(0, 4), Code(1, 1), Code(1, 2)}
StreamCodes == {Code(2, 1), Code(2, 2), Code(2, 3), Code(2, 4)}

----------------------------------------------------------------------------
(* Construction.  `a' is the list of arguments a user passes.  It is in     *)
(* range if it respects the documented limits; then Make(a) is the frame.   *)
(* Reduce(a) is what out-of-range arguments may be reduced to.              *)

Pos31(q) == TopClear(q) /\ ~IsZero(q)
SizeOpt(o) == IF Has(o) THEN Size(o[1]) ELSE 0
MetaFits(o) == SizeOpt(o) <= MaxU24

InRange(a) ==
    CASE a.k = "SETUP" ->
            /\ TopClear(a.ka) /\ TopClear(a.lt)
            /\ SizeOpt(a.tok) <= MaxU16
            /\ Size(a.mm) <= 255 /\ Size(a.dm) <= 255 /\ MetaFits(a.meta)
      [] a.k = "LEASE"     -> TopClear(a.ttl) /\ TopClear(a.n)
      [] a.k = "KEEPALIVE" -> TopClear(a.pos)
      [] a.k \in {"REQUEST_RESPONSE", "REQUEST_FNF", "PAYLOAD"} ->
            TopClear(a.sid) /\ MetaFits(a.meta)
      [] a.k \in {"REQUEST_STREAM", "REQUEST_CHANNEL"} ->
            TopClear(a.sid) /\ Pos31(a.n) /\ MetaFits(a.meta)
      [] a.k = "REQUEST_N" -> TopClear(a.sid) /\ Pos31(a.n)
      [] a.k = "CANCEL"    -> TopClear(a.sid)
      [] a.k = "ERROR"     -> TopClear(a.sid)
      [] a.k = "METADATA_PUSH" -> TRUE
      [] a.k = "RESUME" ->
            TopClear(a.srv) /\ TopClear(a.cli) /\ Size(a.tok) <= MaxU16
      [] a.k = "RESUME_OK" -> TopClear(a.pos)

\* Whether the out-of-range arguments have an in-range reduction at all: a
\* part that is too long for its length field can only be refused.
Reducible(a) ==
    CASE a.k = "SETUP" ->
            /\ SizeOpt(a.tok) <= MaxU16
            /\ Size(a.mm) <= 255 /\ Size(a.dm) <= 255 /\ MetaFits(a.meta)
      [] a.k \in PayloadKinds \ {"SETUP"} -> MetaFits(a.meta)
      [] a.k = "RESUME" -> Size(a.tok) <= MaxU16
      [] OTHER -> TRUE

\* The frame for the given arguments, with wide fields reduced to their bits.
Make(a) ==
    CASE a.k = "SETUP" ->
            [k |-> "SETUP",
             fl |-> If(Has(a.meta), METADATA) + If(a.resume \/ Has(a.tok), RESUME)
                    + If(a.lease, LEASE),
             maj |-> a.maj, min |-> a.min,
             ka |-> ClearTop(a.ka), lt |-> ClearTop(a.lt),
             tok |-> a.tok, mm |-> a.mm, dm |-> a.dm,
             meta |-> a.meta, data |-> a.data]
      [] a.k = "LEASE" ->
            [k |-> "LEASE", ttl |-> ClearTop(a.ttl), n |-> ClearTop(a.n), meta |-> a.meta]
      [] a.k = "KEEPALIVE" ->
            [k |-> "KEEPALIVE", resp |-> a.resp, pos |-> ClearTop(a.pos), data |-> a.data]
      [] a.k \in {"REQUEST_RESPONSE", "REQUEST_FNF"} ->
            [k |-> a.k, sid |-> ClearTop(a.sid),
             fl |-> If(Has(a.meta), METADATA) + If(a.follows, FOLLOWS),
             meta |-> a.meta, data |-> a.data]
      [] a.k = "REQUEST_STREAM" ->
            [k |-> a.k, sid |-> ClearTop(a.sid),
             fl |-> If(Has(a.meta), METADATA) + If(a.follows, FOLLOWS),
             n |-> ClearTop(a.n), meta |-> a.meta, data |-> a.data]
      [] a.k = "REQUEST_CHANNEL" ->
            [k |-> a.k, sid |-> ClearTop(a.sid),
             fl |-> If(Has(a.meta), METADATA) + If(a.follows, FOLLOWS)
                    + If(a.complete, COMPLETE),
             n |-> ClearTop(a.n), meta |-> a.meta, data |-> a.data]
      [] a.k = "REQUEST_N" ->
            [k |-> a.k, sid |-> ClearTop(a.sid), n |-> ClearTop(a.n)]
      [] a.k = "CANCEL" -> [k |-> a.k, sid |-> ClearTop(a.sid)]
      [] a.k = "PAYLOAD" ->
            \* the caller's flags, of which only these three belong to the frame
            [k |-> a.k, sid |-> ClearTop(a.sid),
             fl |-> If(Has(a.meta), METADATA) + If(Bit(a.fl, FOLLOWS), FOLLOWS)
                    + If(Bit(a.fl, COMPLETE), COMPLETE) + If(Bit(a.fl, NEXT), NEXT),
             meta |-> a.meta, data |-> a.data]
      [] a.k = "ERROR" ->
            [k |-> a.k, sid |-> ClearTop(a.sid), code |-> a.code, data |-> a.data]
      [] a.k = "METADATA_PUSH" -> [k |-> a.k, meta |-> a.meta]
      [] a.k = "RESUME" ->
            [k |-> a.k, maj |-> a.maj, min |-> a.min, tok |-> a.tok,
             srv |-> ClearTop(a.srv), cli |-> ClearTop(a.cli)]
      [] a.k = "RESUME_OK" -> [k |-> a.k, pos |-> ClearTop(a.pos)]

----------------------------------------------------------------------------
(* What the accessors of a frame report.                                    *)

Ascii(s) == IF IsAscii(s) THEN Some(s) ELSE None

View(f) ==
    CASE f.k = "SETUP" ->
            [k |-> f.k, lease |-> Bit(f.fl, LEASE), resume |-> Bit(f.fl, RESUME),
             maj |-> f.maj, min |-> f.min, ka |-> f.ka, lt |-> f.lt, tok |-> f.tok,
             mm |-> Ascii(f.mm), dm |-> Ascii(f.dm), meta |-> f.meta, data |-> f.data]
      [] f.k = "REQUEST_RESPONSE" \/ f.k = "REQUEST_FNF" ->
            [k |-> f.k, sid |-> f.sid, follows |-> Bit(f.fl, FOLLOWS),
             meta |-> f.meta, data |-> f.data]
      [] f.k = "REQUEST_STREAM" ->
            [k |-> f.k, sid |-> f.sid, follows |-> Bit(f.fl, FOLLOWS), n |-> f.n,
             meta |-> f.meta, data |-> f.data]
      [] f.k = "REQUEST_CHANNEL" ->
            [k |-> f.k, sid |-> f.sid, follows |-> Bit(f.fl, FOLLOWS),
             complete |-> Bit(f.fl, COMPLETE), n |-> f.n,
             meta |-> f.meta, data |-> f.data]
      [] f.k = "PAYLOAD" ->
            [k |-> f.k, sid |-> f.sid, follows |-> Bit(f.fl, FOLLOWS),
             complete |-> Bit(f.fl, COMPLETE), next |-> Bit(f.fl, NEXT),
             meta |-> f.meta, data |-> f.data]
      [] f.k = "ERROR" ->
            [k |-> f.k, sid |-> f.sid, code |-> f.code, data |-> f.data,
             utf8 |-> Has(f.data) /\ IsUtf8(f.data[1])]
      [] OTHER -> f

----------------------------------------------------------------------------
(* Encoding.                                                                *)

Opt(o) == IF Has(o) THEN o[1] ELSE <<>>
Header(sid, k, fl) == Lit(sid \o Oct16(1024 * TypeCode[k] + fl))
\* Metadata & data: the length is there exactly if metadata is.
Tail2(meta, data) ==
    IF Has(meta)
    THEN CatAll(<<Lit(Oct24(Size(meta[1]))), meta[1], Opt(data)>>)
    ELSE Opt(data)

Encode(f) ==
    CASE f.k = "SETUP" ->
            CatAll(<<Header(Zero32, f.k, f.fl), Lit(Oct16(f.maj) \o Oct16(f.min)),
                     Lit(f.ka), Lit(f.lt),
                     IF Bit(f.fl, RESUME)
                     THEN Cat(Lit(Oct16(SizeOpt(f.tok))), Opt(f.tok)) ELSE <<>>,
                     Lit(<<Size(f.mm)>>), f.mm, Lit(<<Size(f.dm)>>), f.dm,
                     Tail2(f.meta, f.data)>>)
      [] f.k = "LEASE" ->
            CatAll(<<Header(Zero32, f.k, If(Has(f.meta), METADATA)),
                     Lit(f.ttl), Lit(f.n), Opt(f.meta)>>)
      [] f.k = "KEEPALIVE" ->
            CatAll(<<Header(Zero32, f.k, If(f.resp, RESPOND)), Lit(f.pos), Opt(f.data)>>)
      [] f.k \in {"REQUEST_RESPONSE", "REQUEST_FNF", "PAYLOAD"} ->
            CatAll(<<Header(f.sid, f.k, f.fl), Tail2(f.meta, f.data)>>)
      [] f.k \in {"REQUEST_STREAM", "REQUEST_CHANNEL"} ->
            CatAll(<<Header(f.sid, f.k, f.fl), Lit(f.n), Tail2(f.meta, f.data)>>)
      [] f.k = "REQUEST_N" -> CatAll(<<Header(f.sid, f.k, 0), Lit(f.n)>>)
      [] f.k = "CANCEL" -> Header(f.sid, f.k, 0)
      [] f.k = "ERROR" ->
            CatAll(<<Header(f.sid, f.k, 0), Lit(f.code), Opt(f.data)>>)
      [] f.k = "METADATA_PUSH" ->
            CatAll(<<Header(Zero32, f.k, METADATA), f.meta>>)
      [] f.k = "RESUME" ->
            CatAll(<<Header(Zero32, f.k, 0), Lit(Oct16(f.maj) \o Oct16(f.min)),
                     Lit(Oct16(Size(f.tok))), f.tok, Lit(f.srv), Lit(f.cli)>>)
      [] f.k = "RESUME_OK" -> CatAll(<<Header(Zero32, f.k, 0), Lit(f.pos)>>)

\* The number of bytes of a frame, counted field by field.
Length(f) ==
    LET tail == SizeOpt(IF f.k \in PayloadKinds THEN f.data ELSE None)
                + (IF f.k \in PayloadKinds /\ Has(f.meta) THEN 3 + Size(f.meta[1]) ELSE 0)
    IN  6 +
        CASE f.k = "SETUP" ->
                4 + 4 + 4 + (IF Bit(f.fl, RESUME) THEN 2 + SizeOpt(f.tok) ELSE 0)
                + 1 + Size(f.mm) + 1 + Size(f.dm) + tail
          [] f.k = "LEASE" -> 8 + SizeOpt(f.meta)
          [] f.k = "KEEPALIVE" -> 8 + SizeOpt(f.data)
          [] f.k \in {"REQUEST_RESPONSE", "REQUEST_FNF", "PAYLOAD"} -> tail
          [] f.k \in {"REQUEST_STREAM", "REQUEST_CHANNEL"} -> 4 + tail
          [] f.k = "REQUEST_N" -> 4
          [] f.k = "CANCEL" -> 0
          [] f.k = "ERROR" -> 4 + SizeOpt(f.data)
          [] f.k = "METADATA_PUSH" -> Size(f.meta)
          [] f.k = "RESUME" -> 4 + 2 + Size(f.tok) + 16
          [] f.k = "RESUME_OK" -> 8

----------------------------------------------------------------------------
(* Decoding.  The result is a frame with the number of unread bytes, or the *)
(* set of errors that are correct reports for the byte string: a string     *)
(* with several faults may be refused for any of them.                      *)

Incomplete     == [e |-> "incomplete"]
BadType(c)     == [e |-> "type", code |-> c]
BadSid(x, sid) == [e |-> "sid", exp |-> x, found |-> sid]

\* Every reader below works on [ok, f, b]: f collects the fields, b is unread.
Short(r) == [r EXCEPT !.ok = FALSE]
\* Read n octets into field x.
Read(r, x, n) ==
    IF ~r.ok THEN r
    ELSE IF Size(r.b) < n THEN Short(r)
    ELSE [r EXCEPT !.f = @ @@ (x :> Octs(r.b, 1, n)), !.b = Drop(@, n)]
\* Read n bytes as a byte string.
ReadStr(r, x, n) ==
    IF ~r.ok THEN r
    ELSE IF Size(r.b) < n THEN Short(r)
    ELSE [r EXCEPT !.f = @ @@ (x :> Take(r.b, n)), !.b = Drop(@, n)]
\* Read a byte string after its length in 1, 2 or 3 octets.
ReadVar(r, x, w) ==
    IF ~r.ok THEN r
    ELSE IF Size(r.b) < w THEN Short(r)
    ELSE LET q == Octs(r.b, 1, w)
             n == CASE w = 1 -> q[1] [] w = 2 -> U16(q) [] w = 3 -> U24(q)
         IN  ReadStr([r EXCEPT !.b = Drop(@, w)], x, n)
\* The same, present only if c.
ReadOptVar(r, x, w, c) ==
    IF ~r.ok THEN r
    ELSE IF ~c THEN [r EXCEPT !.f = @ @@ (x :> None)]
    ELSE LET t == ReadVar(r, x, w)
         IN  IF t.ok THEN [t EXCEPT !.f[x] = Some(@)] ELSE t
\* All that is left, absent if that is nothing.
ReadRest(r, x) ==
    IF ~r.ok THEN r
    ELSE [r EXCEPT !.f = @ @@ (x :> IF r.b = <<>> THEN None ELSE Some(r.b)), !.b = <<>>]
\* Drop the reserved top bit of an integer field.
Reserved(r, x) == IF ~r.ok THEN r ELSE [r EXCEPT !.f[x] = ClearTop(@)]
\* 16-bit fields are numbers.
AsU16(r, x) == IF ~r.ok THEN r ELSE [r EXCEPT !.f[x] = U16(@)]

Version(r) == AsU16(Read(AsU16(Read(r, "maj", 2), "maj"), "min", 2), "min")
U31F(r, x) == Reserved(Read(r, x, 4), x)
U63F(r, x) == Reserved(Read(r, x, 8), x)
MetaData(r, fl) == ReadRest(ReadOptVar(r, "meta", 3, Bit(fl, METADATA)), "data")

Body(k, sid, fl, b) ==
    LET r0 == [ok |-> TRUE, f |-> [k |-> k], b |-> b]
        rs == [ok |-> TRUE, f |-> [k |-> k, sid |-> sid], b |-> b]
        rf == [ok |-> TRUE, f |-> [k |-> k, sid |-> sid, fl |-> fl], b |-> b]
    IN  CASE k = "SETUP" ->
                MetaData(ReadVar(ReadVar(ReadOptVar(
                    U31F(U31F(Version([r0 EXCEPT !.f = @ @@ ("fl" :> fl)]), "ka"), "lt"),
                    "tok", 2, Bit(fl, RESUME)), "mm", 1), "dm", 1), fl)
          [] k = "LEASE" -> ReadRest(U31F(U31F(r0, "ttl"), "n"), "meta")
          [] k = "KEEPALIVE" ->
                ReadRest(U63F([r0 EXCEPT !.f = @ @@ ("resp" :> Bit(fl, RESPOND))], "pos"), "data")
          [] k \in {"REQUEST_RESPONSE", "REQUEST_FNF", "PAYLOAD"} -> MetaData(rf, fl)
          [] k \in {"REQUEST_STREAM", "REQUEST_CHANNEL"} -> MetaData(U31F(rf, "n"), fl)
          [] k = "REQUEST_N" -> U31F(rs, "n")
          [] k = "CANCEL" -> rs
          [] k = "ERROR" -> ReadRest(Read(rs, "code", 4), "data")
          [] k = "METADATA_PUSH" -> ReadStr(r0, "meta", Size(b))
          [] k = "RESUME" -> U63F(U63F(ReadVar(Version(r0), "tok", 2), "srv"), "cli")
          [] k = "RESUME_OK" -> U63F(r0, "pos")

Ok(f, rest)  == [t |-> "ok", f |-> f, rem |-> Size(rest)]
Refuse(errs) == [t |-> "err", errs |-> errs]

Decode(b) ==
    IF Size(b) < 6 THEN Refuse({Incomplete})
    ELSE LET sid  == ClearTop(Octs(b, 1, 4))
             w    == U16(Octs(b, 5, 2))
             code == w \div 1024
         IN  IF code \notin 1..14 THEN Refuse({BadType(code)})
             ELSE LET k == Kinds[code]
                      r == Body(k, sid, DefinedFlags(w), Drop(b, 6))
                      \* scope faults, as far as the fields can be read
                      scope ==
                        IF k \in ConnKinds /\ ~IsZero(sid) THEN {BadSid("0", sid)}
                        ELSE IF k = "ERROR" /\ r.ok
                        THEN IF r.f.code \in ConnCodes /\ ~IsZero(sid)
                             THEN {BadSid("0", sid)}
                             ELSE IF r.f.code \in StreamCodes /\ IsZero(sid)
                             THEN {BadSid("> 0", sid)} ELSE {}
                        ELSE {}
                      errs == scope \cup (IF r.ok THEN {} ELSE {Incomplete})
                  IN  IF errs = {} THEN Ok(r.f, r.b) ELSE Refuse(errs)

----------------------------------------------------------------------------
(* The one loss a round trip may have: a present-but-empty trailing part    *)
(* may read back as absent, and a resume flag reads back with a token.      *)
(* Settle(f) is what this decoder makes of f; Settlings(f) all a decoder    *)
(* may make of it.                                                          *)
Nz(o) == IF Has(o) /\ o[1] = <<>> THEN None ELSE o
Settle(f) ==
    CASE f.k = "SETUP" ->
            [f EXCEPT !.data = Nz(@), !.tok = IF Bit(f.fl, RESUME) THEN Some(Opt(@)) ELSE @]
      [] f.k \in MessageKinds \/ f.k = "KEEPALIVE" \/ f.k = "ERROR" ->
            [f EXCEPT !.data = Nz(@)]
      [] f.k = "LEASE" -> [f EXCEPT !.meta = Nz(@)]
      [] OTHER -> f
Settlings(f) ==
    CASE f.k = "SETUP" ->
            {[f EXCEPT !.data = d, !.tok = t] :
                d \in {f.data, Nz(f.data)},
                t \in {f.tok, IF Bit(f.fl, RESUME) THEN Some(Opt(f.tok)) ELSE f.tok}}
      [] OTHER -> {f, Settle(f)}

\* Frames within the stream-id scope rules, i.e. those a peer accepts.
InScope(f) ==
    f.k = "ERROR" => /\ f.code \in ConnCodes => IsZero(f.sid)
                     /\ f.code \in StreamCodes => ~IsZero(f.sid)
=============================================================================
