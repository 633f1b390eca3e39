----------------------------- MODULE MCFragment -----------------------------
(* Chunks of every small payload, with a record of what was cut off, and the *)
(* message made of them carried over the link.                               *)
EXTENDS Fragment, Json, IOUtils

VARIABLES orig, out, ops

Asked(x) == x \in DOMAIN IOEnv
Deep == Asked("DEEP")
Limit == IF Deep THEN 9 ELSE 5

\* Bytes that differ, so that no two cuts look alike.
Count(n) == Lit([i \in 1..n |-> i])
PartsUpTo(n) == {None} \cup {Some(Count(i)) : i \in 0..n}

Init ==
    /\ \E m \in PartsUpTo(Limit), d \in PartsUpTo(Limit), n \in 1..(Limit + 1) :
        /\ orig = [m |-> m, d |-> d]
        /\ meta = m /\ data = d /\ size = n
    /\ out = <<>> /\ ops = <<>>
Step ==
    /\ Remaining > 0
    /\ out' = Append(out, NextChunk[1])
    /\ ops' = ops \o <<"len", "next">>
    /\ Advance(1)
    /\ UNCHANGED orig
Spec == Init /\ [][Step]_<<fragVars, orig, out, ops>>

Glue(sel(_)) == CatAll([i \in 1..Len(out) |-> Opt(sel(out[i]))])
M(c) == c.m
D(c) == c.d

\* C09: the chunks so far and the rest are the payload; no piece is too large;
\* pieces start at the first chunk, are full but the last, absent stays absent.
Partition ==
    /\ Cat(Glue(M), Opt(meta)) = Opt(orig.m)
    /\ Cat(Glue(D), Opt(data)) = Opt(orig.d)
    /\ \A i \in 1..Len(out) :
        /\ SizeOpt(out[i].m) <= size /\ SizeOpt(out[i].d) <= size
        /\ i < Len(out) /\ Has(out[i + 1].m) => SizeOpt(out[i].m) = size
        /\ i < Len(out) /\ Has(out[i + 1].d) => SizeOpt(out[i].d) = size
        /\ Has(out[i].m) \/ Has(out[i].d)
        /\ ~Has(orig.m) => ~Has(out[i].m)
        /\ ~Has(orig.d) => ~Has(out[i].d)
\* The number reported is the number to come.
Exact ==
    /\ Remaining = Max2(Pieces(orig.m, size), Pieces(orig.d, size)) - Len(out)
    /\ Remaining = 0 <=> ~Has(meta) /\ ~Has(data)
    /\ Remaining = Len(AllChunks(meta, data, size))
\* k steps at once are k single steps.
Skips ==
    \A k \in 0..3 :
        LET n == Len(out)
        IN  n >= k =>
            LET cut(o) == LeftOf(o, size, n - k)
            IN  /\ LeftOf(cut(orig.m), size, k) = meta
                /\ LeftOf(cut(orig.d), size, k) = data
Others ==
    \A k \in 0..3 :
        LET all == AllChunks(meta, data, size)
        IN  /\ After(k) = IF k < Len(all) THEN Some(all[k + 1]) ELSE None
            /\ LastOuts = {[t |-> "ok", c |-> IF all = <<>> THEN None ELSE Some(all[Len(all)])]}

\* C10: the fragments, encoded and decoded, give back the payload.
Frag(i, k) ==
    LET c == out[i]
    IN  Encode([k |-> k, sid |-> <<0, 0, 0, 1>>,
                fl |-> If(Has(c.m), METADATA) + If(i < Len(out), FOLLOWS),
                meta |-> c.m, data |-> c.d])
Carried ==
    Remaining = 0 =>
    \A k \in {"REQUEST_FNF", "PAYLOAD"} :
        LET bs == [i \in 1..Len(out) |-> Frag(i, IF i = 1 THEN "REQUEST_RESPONSE" ELSE k)]
            noise == Encode([k |-> "CANCEL", sid |-> <<0, 0, 0, 1>>])
        IN  /\ JoinOuts(bs) = CarryOuts(orig.m, orig.d)
            /\ JoinOuts(<<noise>> \o bs \o <<noise>>) = CarryOuts(orig.m, orig.d)
            \* a damaged fragment is an error, not a partial payload
            /\ \A i \in 1..Len(bs) :
                \A r \in JoinOuts([bs EXCEPT ![i] = Take(@, 5)]) : r.t = "err"

FragInv == Partition /\ Exact /\ Skips /\ Others /\ Carried

Emitted ==
    Asked("EMIT") /\ Remaining = 0 =>
        PrintT(ToJson([m |-> orig.m, d |-> orig.d, n |-> size,
                       ops |-> ops \o <<"len", "next", "len", "next">>]))
=============================================================================
