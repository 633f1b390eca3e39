------------------------------ MODULE PayloadVal ------------------------------
(* Payloads as values: a builder, and what a payload reports of itself.      *)
(* Also the two small values that are encoded inside frames: versions and    *)
(* 24-bit integers.                                                          *)
EXTENDS Frames

VARIABLES
    build,      \* the builder: [m, d]
    cur         \* the current payload: [m, d]

payVars == <<build, cur>>
Nothing == [m |-> None, d |-> None]

Text(o) == IF ~Has(o) THEN Some(<<>>) ELSE IF IsUtf8(o[1]) THEN o ELSE None
Len2(p) == SizeOpt(p.m) + SizeOpt(p.d)
Bytes(p) == Cat(Opt(p.m), Opt(p.d))

PayInit == build = Nothing /\ cur = Nothing
NewBuilder == build' = Nothing /\ UNCHANGED cur
SetData(v) == build' = [build EXCEPT !.d = Some(v)] /\ UNCHANGED cur
SetMeta(v) == build' = [build EXCEPT !.m = Some(v)] /\ UNCHANGED cur
Build == cur' = build /\ build' = Nothing
Clear == cur' = Nothing /\ UNCHANGED build

LookOuts ==
    {[t |-> "ok", data |-> cur.d, meta |-> cur.m, len |-> Len2(cur), elen |-> Len2(cur), eempty |-> Len2(cur) = 0,
      empty |-> Len2(cur) = 0, hd |-> Has(cur.d), hm |-> Has(cur.m),
      dtext |-> Text(cur.d), mtext |-> Text(cur.m), split |-> cur,
      enc |-> Bytes(cur), pre |-> TRUE, tob |-> TRUE, same |-> TRUE]}

Small(s) == [t |-> "ok", len |-> Size(s), empty |-> FALSE, enc |-> s, pre |-> TRUE, tob |-> TRUE]
VersionOuts(maj, min) == {Small(Lit(Oct16(maj) \o Oct16(min)))}
U24Outs(n) == {Small(Lit(Oct24(n)))}
=============================================================================
