------------------------------- MODULE MCLink -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Link over small sets of arguments.  The first  *)
(* datagram comes from one of the lanes: frames with in-range arguments     *)
(* (ARGS), with arguments at and beyond their limits (RANGE), byte strings  *)
(* no encoder writes (WILD), scope combinations (SCOPE), a few full frames  *)
(* of each kind that are then cut and changed at every byte (CUTS).  The environment   *)
(* names the families to explore; EMIT prints every first datagram as a run *)
(* for the real code.                                                       *)
(***************************************************************************)
EXTENDS Link, Json, IOUtils

VARIABLE lane

Asked(x) == x \in DOMAIN IOEnv
Deep == Asked("DEEP")
Emit == Asked("EMIT")

Low(n) == <<0, 0, 0, n>>
Max31 == <<127, 255, 255, 255>>
Sids == {Low(0), Low(1), Max31} \cup (IF Deep THEN {<<64, 0, 0, 0>>, <<0, 1, 0, 0>>} ELSE {})
BadSids == {<<128, 0, 0, 1>>}
Ns == {Low(1), Max31} \cup (IF Deep THEN {<<0, 0, 1, 0>>, <<1, 2, 3, 4>>} ELSE {})
BadNs == {Low(0), <<255, 255, 255, 255>>}
Pos64 == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<127, 1, 2, 3, 4, 5, 6, 255>>}
BadPos == {<<128, 0, 0, 0, 0, 0, 0, 7>>}
Codes == ConnCodes \cup StreamCodes \cup {<<0, 0, 3, 1>>, <<255, 255, 255, 254>>, Zero32,
          <<128, 0, 0, 1>>, <<1, 0, 2, 1>>}

S(n) == Run(77, n)
Ab == <<<<65, 1>>, <<66, 1>>>>
Parts == {None, Some(<<>>), Some(S(1)), Some(Ab)}
         \cup (IF Deep THEN {Some(<<<<195, 1>>, <<169, 1>>>>), Some(S(256))} ELSE {})
Metas == Parts \cup {Some(S(257))} \cup (IF Deep THEN {Some(S(65536)), Some(S(MaxU24))} ELSE {})
HugeMetas == {Some(S(MaxU24 + 1))}
Toks == {None, Some(<<>>), Some(Ab)} \cup (IF Deep THEN {Some(S(256)), Some(S(MaxU16))} ELSE {})
Mimes == {<<>>, Ab} \cup (IF Deep THEN {S(255), <<<<195, 1>>, <<169, 1>>>>} ELSE {})

\* In-range arguments, split by one field so that the lanes are of a size.
Args(k) ==
    CASE k = "SETUP" ->
            [k : {k}, resume : BOOLEAN, lease : BOOLEAN, maj : {1}, min : {0},
             ka : Ns, lt : {Max31, Low(0)}, tok : Toks, mm : Mimes, dm : Mimes,
             meta : {None, Some(<<>>), Some(Ab)}, data : {None, Some(<<>>), Some(S(1))}]
            \cup [k : {k}, resume : {FALSE}, lease : {FALSE}, maj : {258}, min : {65535},
                  ka : {Low(7)}, lt : {Max31}, tok : {None, Some(S(MaxU16))},
                  mm : {Ab, S(255)}, dm : {<<>>, S(255)}, meta : {Some(S(257))},
                  data : {Some(Ab)}]
      [] k = "LEASE" ->
            [k : {k}, ttl : Ns \cup {Low(0)}, n : Ns \cup {Low(0)}, meta : Metas]
      [] k = "KEEPALIVE" -> [k : {k}, pos : Pos64, resp : BOOLEAN, data : Metas]
      [] k \in {"REQUEST_RESPONSE", "REQUEST_FNF"} ->
            [k : {k}, sid : Sids, follows : BOOLEAN, meta : Metas, data : Parts]
      [] k = "REQUEST_STREAM" ->
            [k : {k}, sid : Sids, follows : BOOLEAN, n : Ns, meta : Metas, data : Parts]
      [] k = "REQUEST_CHANNEL" ->
            [k : {k}, sid : Sids, follows : BOOLEAN, complete : BOOLEAN, n : Ns,
             meta : Metas, data : Parts]
      [] k = "REQUEST_N" -> [k : {k}, sid : Sids, n : Ns]
      [] k = "CANCEL" -> [k : {k}, sid : Sids]
      [] k = "PAYLOAD" ->
            [k : {k}, sid : Sids, fl : {0, 32, 64, 128, 224, 992}, meta : Metas, data : Parts]
      [] k = "ERROR" -> [k : {k}, sid : Sids, code : Codes, data : Parts]
      [] k = "METADATA_PUSH" -> [k : {k}, meta : {<<>>, S(1), Ab, S(300)}]
      [] k = "RESUME" ->
            [k : {k}, maj : {0, 1}, min : {0, 513}, tok : {<<>>, Ab, S(257), S(MaxU16)},
             srv : Pos64, cli : Pos64]
      [] k = "RESUME_OK" -> [k : {k}, pos : Pos64]

\* Arguments at and beyond their limits.
EdgeSids == BadSids \cup {Max31}
EdgeNs == BadNs \cup {Max31, <<128, 0, 0, 0>>}
EdgePos == BadPos \cup {<<127, 255, 255, 255, 255, 255, 255, 255>>}
Edge(k) ==
    CASE k = "SETUP" ->
            [k : {k}, resume : {FALSE}, lease : {FALSE}, maj : {1}, min : {0},
             ka : EdgeSids, lt : EdgeSids, tok : {None, Some(S(MaxU16)), Some(S(MaxU16 + 1))},
             mm : {Ab, S(255), S(256)}, dm : {<<>>, S(255), S(256)},
             meta : {None} \cup HugeMetas, data : {None}]
      [] k = "LEASE" -> [k : {k}, ttl : EdgeNs, n : EdgeNs, meta : {None}]
      [] k = "KEEPALIVE" -> [k : {k}, pos : EdgePos, resp : BOOLEAN, data : {None}]
      [] k \in {"REQUEST_RESPONSE", "REQUEST_FNF"} ->
            [k : {k}, sid : EdgeSids, follows : {TRUE}, meta : {None, Some(Ab)} \cup HugeMetas,
             data : {None}]
      [] k = "REQUEST_STREAM" ->
            [k : {k}, sid : EdgeSids, follows : {TRUE}, n : EdgeNs,
             meta : {None} \cup HugeMetas, data : {None}]
      [] k = "REQUEST_CHANNEL" ->
            [k : {k}, sid : EdgeSids, follows : {TRUE}, complete : {FALSE}, n : EdgeNs,
             meta : {None} \cup HugeMetas, data : {None}]
      [] k = "REQUEST_N" -> [k : {k}, sid : EdgeSids, n : EdgeNs]
      [] k = "CANCEL" -> [k : {k}, sid : EdgeSids]
      [] k = "PAYLOAD" ->
            [k : {k}, sid : EdgeSids, fl : {96, 1023}, meta : {None} \cup HugeMetas, data : {None}]
      [] k = "ERROR" -> [k : {k}, sid : EdgeSids, code : Codes, data : {None}]
      [] k = "METADATA_PUSH" -> [k : {k}, meta : {<<>>}]
      [] k = "RESUME" ->
            [k : {k}, maj : {1}, min : {0}, tok : {Ab, S(MaxU16), S(MaxU16 + 1)},
             srv : EdgePos, cli : EdgePos]
      [] k = "RESUME_OK" -> [k : {k}, pos : EdgePos]

\* Bytes no encoder writes: header words with any flags on short bodies.
Codes6 == (0..15) \cup {62, 63}
WordsOf(c) == {1024 * c + fl : fl \in {0, 1, 31, 32, 64, 128, 192, 256, 384, 448, 512, 1023}}
Bodies == {<<>>, Run(0, 1), Run(0, 2), Run(0, 3), Run(0, 4), Run(255, 4), Run(0, 8), Run(128, 8),
           Run(0, 12), Run(0, 13), Run(0, 14), Run(1, 14), Run(0, 17), Run(0, 22), Run(1, 40),
           Lit(<<0, 0, 2, 65, 66, 67>>), Lit(<<0, 0, 3, 65, 66>>),
           Lit(<<0, 0, 0, 1, 0, 0, 1, 65, 66>>), Lit(<<0, 0, 1, 1, 69>>), Lit(<<0, 0, 2, 1, 69>>)}
Wild(c) == {CatAll(<<Lit(s), Lit(Oct16(w)), b>>) :
                s \in {Zero32, Low(1)} \cup (IF Deep THEN {<<128, 0, 0, 0>>, <<128, 0, 0, 1>>} ELSE {}),
                w \in WordsOf(c), b \in Bodies}
           \cup (IF c = 0 THEN {Run(v, n) : v \in {0, 4, 255}, n \in 0..9} ELSE {})

\* A complete frame of every kind on various streams, every error code.
ScopeBody(c) == IF c = 1 THEN Run(0, 14) ELSE IF c \in {3, 14} THEN Run(0, 8)
                ELSE IF c = 13 THEN Run(0, 22) ELSE Run(1, 9)
ScopeSids == {Zero32, Low(1), Low(2), Max31, <<128, 0, 0, 0>>, <<128, 0, 0, 5>>, <<0, 0, 1, 0>>,
              <<1, 0, 0, 0>>, <<255, 255, 255, 255>>, <<64, 0, 0, 0>>}
ScopeCodes == Codes \cup {Code(0, n) : n \in 0..6} \cup {Code(1, n) : n \in 0..4}
              \cup {Code(2, n) : n \in 0..6} \cup {<<0, 1, 2, 1>>, <<128, 0, 2, 2>>}
Scope(c) == {CatAll(<<Lit(s), Lit(Oct16(1024 * c + fl)), b>>) :
                s \in ScopeSids, fl \in {0, 128, 256},
                b \in IF c = 11 THEN {Lit(q) : q \in ScopeCodes} ELSE {ScopeBody(c)}}

\* A few frames of each kind with all their parts.
Full(k) ==
    LET Y == {None, Some(<<>>), Some(Ab)}
    IN  CASE k = "SETUP" ->
            [k : {k}, resume : {TRUE}, lease : {FALSE}, maj : {1}, min : {0}, ka : {Low(9)},
             lt : {Max31}, tok : {None, Some(Ab)}, mm : {Ab}, dm : {<<>>, S(3)}, meta : {Some(Ab)},
             data : {Some(S(2))}]
      [] k = "LEASE" -> [k : {k}, ttl : {Low(9)}, n : {Max31}, meta : Y]
      [] k = "KEEPALIVE" -> [k : {k}, pos : Pos64, resp : {TRUE}, data : Y]
      [] k \in {"REQUEST_RESPONSE", "REQUEST_FNF"} ->
            [k : {k}, sid : {Low(1)}, follows : {TRUE}, meta : Y, data : {None, Some(S(2))}]
      [] k = "REQUEST_STREAM" ->
            [k : {k}, sid : {Low(1)}, follows : {TRUE}, n : {Max31}, meta : Y, data : {None, Some(S(2))}]
      [] k = "REQUEST_CHANNEL" ->
            [k : {k}, sid : {Low(1)}, follows : {TRUE}, complete : {TRUE}, n : {Low(1)},
             meta : Y, data : {None, Some(S(2))}]
      [] k = "REQUEST_N" -> [k : {k}, sid : {Low(1)}, n : {Max31}]
      [] k = "CANCEL" -> [k : {k}, sid : {Max31}]
      [] k = "PAYLOAD" ->
            [k : {k}, sid : {Low(1)}, fl : {224}, meta : Y, data : {None, Some(S(2))}]
      [] k = "ERROR" ->
            [k : {k}, sid : {Low(1)}, code : {Code(2, 1), <<0, 0, 3, 1>>}, data : Y]
      [] k = "METADATA_PUSH" -> [k : {k}, meta : {<<>>, Ab}]
      [] k = "RESUME" -> [k : {k}, maj : {1}, min : {0}, tok : {<<>>, Ab}, srv : Pos64, cli : Pos64]
      [] k = "RESUME_OK" -> [k : {k}, pos : Pos64]

\* The lanes only spread the work: the larger kinds have several.
Subs(k) == IF k \in {"SETUP", "REQUEST_CHANNEL"} THEN 0..7 ELSE {0}
Sub(a) == IF a.k = "SETUP"
          THEN If(a.resume, 1) + If(a.lease, 2) + If(IsZero(a.lt), 4)
          ELSE IF a.k = "REQUEST_CHANNEL"
          THEN If(a.follows, 1) + If(a.complete, 2) + If(a.n = Max31, 4)
          ELSE 0
Lanes == (IF Asked("ARGS") THEN UNION {{<<"args", k, i>> : i \in Subs(k)} : k \in KindSet} ELSE {})
         \cup (IF Asked("RANGE") THEN {<<"range", k, 0>> : k \in KindSet} ELSE {})
         \cup (IF Asked("CUTS") THEN {<<"cuts", k, 0>> : k \in KindSet} ELSE {})
         \cup (IF Asked("WILD") THEN {<<"wild", c, 0>> : c \in Codes6} ELSE {})
         \cup (IF Asked("SCOPE") THEN {<<"scope", c, 0>> : c \in Codes6} ELSE {})

Init == LinkInit /\ lane \in Lanes
Fresh == chan = <<>> /\ Len(lane) = 3
First ==
    \/ lane[1] = "args"  /\ \E a \in Args(lane[2]) : Sub(a) = lane[3] /\ Send(a)
    \/ lane[1] = "range" /\ \E a \in Edge(lane[2]) : Send(a) \/ Refused(a)
    \/ lane[1] = "cuts"  /\ \E a \in Full(lane[2]) : Send(a)
    \/ lane[1] = "wild"  /\ \E b \in Wild(lane[2]) : Inject(b)
    \/ lane[1] = "scope" /\ \E b \in Scope(lane[2]) : Inject(b)
Damage == lane[1] = "cuts" \/ (Deep /\ lane[1] = "args" /\ Size(Head(chan).b) <= 40)
Next ==
    \/ Fresh /\ First /\ lane' = Append(lane, "on")
    \/ /\ UNCHANGED lane
       /\ \/ /\ chan # <<>> /\ Has(Head(chan).a) /\ Damage
             /\ \/ \E n \in 0..(Size(Head(chan).b) - 1) : Cut(n)
                \/ \E i \in 1..Size(Head(chan).b) : \E v \in {0, 1, 128, 255} : Poke(i, v)
          \/ Relay
          \/ Recv
Spec == Init /\ [][Next]_<<chan, lane>>

\* Every first datagram as a run: sent or injected, decoded from pieces, relayed
\* twice and received.  Cut and changed datagrams are runs of their own.
Rest == <<[o |-> "seg", cuts |-> <<1, 3, 5, 6, 7, 9, 12>>], [o |-> "relay"], [o |-> "relay"],
          [o |-> "recv"]>>
RunOf(d) == IF Has(d.a) THEN <<[o |-> "send", a |-> d.a[1]]>> \o Rest
            ELSE <<[o |-> "inject", b |-> d.b]>> \o Rest
\* A refused frame leaves no datagram: its run is printed from the fresh lane.
Emitted ==
    /\ Emit /\ chan # <<>> => PrintT(ToJson(RunOf(Head(chan))))
    /\ Emit /\ Fresh /\ lane[1] = "range" =>
        \A a \in Edge(lane[2]) :
            ~(InRange(a) \/ Reducible(a)) => PrintT(ToJson(<<[o |-> "send", a |-> a]>>))
=============================================================================
