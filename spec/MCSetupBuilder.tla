---------------------------- MODULE MCSetupBuilder ----------------------------
EXTENDS SetupBuilder, Json, IOUtils

VARIABLE h

Asked(x) == x \in DOMAIN IOEnv
Depth == IF Asked("DEEP") THEN 4 ELSE 3

X == Lit(<<120>>)
Bad == Lit(<<195, 169>>)        \* not ASCII
Options ==
    {[o |-> "resume"], [o |-> "lease"]}
    \cup {[o |-> "version", maj |-> v[1], min |-> v[2]] : v \in {<<1, 0>>, <<2, 7>>}}
    \cup {[o |-> o, v |-> v] : o \in {"ka", "lt"}, v \in {<<0, 0, 0, 1>>, <<127, 255, 255, 255>>}}
    \cup {[o |-> o, v |-> v] : o \in {"tok", "meta", "data"}, v \in {<<>>, X}}
    \cup {[o |-> o, v |-> v] : o \in {"mm", "dm"}, v \in {<<>>, X, Bad}}

Init == BuilderInit /\ h = <<>>
Next == Len(h) < Depth /\ \E s \in Options : Apply(s) /\ h' = Append(h, s)
Spec == Init /\ [][Next]_<<b, h>>

\* C16, said of the history: the last value given, else the default.
Latest(o) == {i \in 1..Len(h) : h[i].o = o /\ \A j \in (i + 1)..Len(h) : h[j].o # o}
Given(o) == Latest(o) # {}
The(o) == h[CHOOSE i \in Latest(o) : TRUE]
ValueOr(o, d) == IF Given(o) THEN The(o).v ELSE d
PartOf(o) == IF Given(o) THEN Some(The(o).v) ELSE None
Exactly ==
    LET r == (CHOOSE x \in BuildOuts : TRUE).acc
        fl == (CHOOSE x \in BuildOuts : TRUE).flags
    IN  /\ r.ka = ValueOr("ka", Defaults.ka) /\ r.lt = ValueOr("lt", Defaults.lt)
        /\ r.maj = (IF Given("version") THEN The("version").maj ELSE 1)
        /\ r.min = (IF Given("version") THEN The("version").min ELSE 0)
        /\ r.tok = PartOf("tok") /\ r.meta = PartOf("meta") /\ r.data = PartOf("data")
        /\ r.mm = Ascii(ValueOr("mm", DefaultMime)) /\ r.dm = Ascii(ValueOr("dm", DefaultMime))
        /\ r.lease = Given("lease") /\ r.resume = (Given("resume") \/ Given("tok"))
        /\ Bit(fl, METADATA) = Given("meta") /\ Bit(fl, RESUME) = r.resume
        /\ Bit(fl, LEASE) = r.lease /\ ~Bit(fl, IGNORE) /\ ~Bit(fl, NEXT)
\* Different settings commute.
Commute ==
    Len(h) = Depth =>
    \A s, t \in Options : s.o # t.o => Set(Set(b, s), t) = Set(Set(b, t), s)

Emitted == Asked("EMIT") /\ Len(h) = Depth => PrintT(ToJson(h))
=============================================================================
