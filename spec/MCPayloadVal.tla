----------------------------- MODULE MCPayloadVal -----------------------------
EXTENDS PayloadVal, Json, IOUtils

VARIABLE h

Asked(x) == x \in DOMAIN IOEnv
Depth == IF Asked("DEEP") THEN 5 ELSE 4

\* Empty, ASCII, valid and broken UTF-8, a valid character cut in two.
Values == {<<>>, Lit(<<97>>), Lit(<<195, 169>>), Lit(<<195>>), Lit(<<169, 97>>)}
Init == PayInit /\ h = <<[o |-> "new"]>>
Note(s) == Len(h) < Depth /\ h' = Append(h, s)
Next ==
    \/ \E v \in Values : Note([o |-> "data", v |-> v]) /\ SetData(v)
    \/ \E v \in Values : Note([o |-> "meta", v |-> v]) /\ SetMeta(v)
    \/ Len(h) = Depth /\ h' = Append(h, [o |-> "build"]) /\ Build
Spec == Init /\ [][Next]_<<payVars, h>>

Built == h[Len(h)].o = "build"
LastOf(o) == {i \in 1..Len(h) : h[i].o = o /\ \A j \in (i + 1)..Len(h) : h[j].o # o}
LastValue(o) == IF LastOf(o) = {} THEN None ELSE Some(h[CHOOSE i \in LastOf(o) : TRUE].v)
\* C27, said of the history.
Reports ==
    Built => LET r == CHOOSE x \in LookOuts : TRUE
             IN  /\ r.data = LastValue("data") /\ r.meta = LastValue("meta")
                 /\ r.len = Size(r.enc) /\ r.len = SizeOpt(r.data) + SizeOpt(r.meta)
                 /\ r.empty = (r.len = 0)
                 /\ r.hd = (LastOf("data") # {}) /\ r.hm = (LastOf("meta") # {})
                 /\ IsPrefixOf(Opt(r.meta), r.enc) /\ Drop(r.enc, SizeOpt(r.meta)) = Opt(r.data)
                 /\ Has(r.dtext) => r.dtext[1] = Opt(r.data)
                 /\ Has(r.dtext) <=> \A v \in Values : Opt(r.data) = v =>
                        v \in {<<>>, Lit(<<97>>), Lit(<<195, 169>>)}
Emitted == Asked("EMIT") /\ Built => PrintT(ToJson(h))
=============================================================================
