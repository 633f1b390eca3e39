------------------------------- MODULE MCTwins -------------------------------
(* Pairs of frames of one kind that differ in at most one argument, and      *)
(* pairs of kinds.  EMIT prints every pair as a run for the real code.       *)
EXTENDS Twins, FiniteSets, Json, IOUtils

VARIABLES kind, a, b
vars == <<kind, a, b>>

Asked(x) == x \in DOMAIN IOEnv
Deep == Asked("DEEP")
None0 == [k |-> "none"]
Low(n) == <<0, 0, 0, n>>
Max31 == <<127, 255, 255, 255>>
Ab == <<<<65, 1>>, <<66, 1>>>>
Ba == <<<<66, 1>>, <<65, 1>>>>
\* Some values of each argument; the first two of a kind are told apart by
\* one bit, one byte, or by being there.
Words == {Low(1), Low(2), <<64, 0, 0, 1>>, Max31}
Longs == {<<0, 0, 0, 0, 0, 0, 0, 1>>, <<0, 0, 0, 1, 0, 0, 0, 1>>, <<64, 0, 0, 0, 0, 0, 0, 1>>}
Parts == {None, Some(<<>>), Some(Ab), Some(Ba), Some(<<<<65, 1>>>>)}
Strings == {<<>>, Ab, Ba, <<<<65, 1>>>>}
Mimes == {<<>>, Ab, <<<<195, 1>>, <<169, 1>>>>, <<<<195, 1>>, <<168, 1>>>>}
Values(k, x) ==
    CASE x \in {"sid", "n", "ttl", "ka", "lt"} -> Words
      [] x \in {"pos", "srv", "cli"} -> Longs
      [] x \in {"maj", "min"} -> {0, 1, 256}
      [] x \in {"follows", "complete", "resp", "resume", "lease"} -> BOOLEAN
      [] x = "fl" -> {0, 32, 64, 128, 224, 256, 512, 1023}
      [] x = "code" -> {Code(2, 1), Code(2, 2), Code(1, 1), <<0, 0, 3, 1>>, <<128, 0, 2, 1>>}
      [] x \in {"mm", "dm"} -> Mimes
      [] x = "tok" /\ k = "SETUP" -> Parts
      [] x = "meta" /\ k = "METADATA_PUSH" -> Strings
      [] x = "tok" -> Strings
      [] OTHER -> Parts
Fields(k) ==
    CASE k = "SETUP" -> {"resume", "lease", "maj", "min", "ka", "lt", "tok", "mm", "dm", "meta", "data"}
      [] k = "LEASE" -> {"ttl", "n", "meta"}
      [] k = "KEEPALIVE" -> {"pos", "resp", "data"}
      [] k \in {"REQUEST_RESPONSE", "REQUEST_FNF"} -> {"sid", "follows", "meta", "data"}
      [] k = "REQUEST_STREAM" -> {"sid", "follows", "n", "meta", "data"}
      [] k = "REQUEST_CHANNEL" -> {"sid", "follows", "complete", "n", "meta", "data"}
      [] k = "REQUEST_N" -> {"sid", "n"}
      [] k = "CANCEL" -> {"sid"}
      [] k = "PAYLOAD" -> {"sid", "fl", "meta", "data"}
      [] k = "ERROR" -> {"sid", "code", "data"}
      [] k = "METADATA_PUSH" -> {"meta"}
      [] k = "RESUME" -> {"maj", "min", "tok", "srv", "cli"}
      [] k = "RESUME_OK" -> {"pos"}
\* One argument list to start from, with parts or without.
Plain(k, x, full) ==
    CASE x = "maj" -> 1 [] x = "min" -> 0
      [] x \in {"follows", "complete", "resp", "resume", "lease"} -> FALSE
      [] x = "fl" -> 32 [] x = "code" -> Code(2, 1)
      [] x \in {"pos", "srv", "cli"} -> <<0, 0, 0, 0, 0, 0, 0, 1>>
      [] x \in {"sid", "n", "ttl", "ka", "lt"} -> Low(1)
      [] x \in {"mm", "dm"} -> Ab
      [] <<x, k>> \in {<<"meta", "METADATA_PUSH">>, <<"tok", "RESUME">>} -> IF full THEN Ab ELSE <<>>
      [] OTHER -> IF full THEN Some(Ab) ELSE None
Base(k, full) == [x \in Fields(k) \cup {"k"} |-> IF x = "k" THEN k ELSE Plain(k, x, full)]
Near(c) == {c} \cup UNION {{[c EXCEPT ![x] = v] : v \in Values(c.k, x)} : x \in Fields(c.k)}

Init == kind \in KindSet /\ a = None0 /\ b = None0
First == a = None0 /\ a' \in UNION {Near(Base(kind, w)) : w \in BOOLEAN} /\ UNCHANGED <<kind, b>>
Second ==
    /\ a # None0 /\ b = None0 /\ UNCHANGED <<kind, a>>
    /\ b' \in (IF Deep THEN Near(a) \cup UNION {Near(Base(kind, w)) : w \in BOOLEAN} ELSE Near(a))
              \cup {Base(k, TRUE) : k \in KindSet}
Spec == Init /\ [][First \/ Second]_vars

Pair == b # None0
\* What has to be equal is equal in everything that can be seen of it.
Consistent ==
    Pair =>
        /\ ~(MustEqual(a, b) /\ MustDiffer(a, b))
        /\ MustEqual(a, a) /\ ~MustDiffer(b, b)
        /\ MustDiffer(a, b) = MustDiffer(b, a)
        /\ a = b => MustEqual(a, b)
        /\ a.k # b.k => MustDiffer(a, b)
\* Every argument matters: frames in range of which one differs are different,
\* save for flags that are not the frame's, and for a resume flag set twice.
Matters ==
    Pair /\ a.k = b.k /\ a # b =>
        \/ MustDiffer(a, b)
        \/ MustEqual(a, b) /\ a.k \in {"PAYLOAD", "SETUP"}
Emitted == Asked("EMIT") /\ Pair => PrintT(ToJson([a |-> a, b |-> b]))
=============================================================================
