---------------------------- MODULE TraceFragment ----------------------------
(* Validates recorded runs of payload chunks and of reassembly.              *)
EXTENDS Fragment, Json, IOUtils

VARIABLES run, l
vars == <<fragVars, run, l>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r

TBegin ==
    /\ Ev.o = "new" /\ R \in BeginOuts(Ev.n)
    /\ IF Ev.n = 0 THEN UNCHANGED fragVars ELSE Begin(Ev.m, Ev.d, Ev.n)
TLen  == Ev.o = "len" /\ R \in LenOuts /\ UNCHANGED fragVars
TNext == Ev.o = "next" /\ R \in NextOuts /\ Advance(1)
TSkip == Ev.o = "skip" /\ R \in SkipOuts(Ev.k) /\ Advance(Ev.k)
TNth == Ev.o = "nth" /\ R \in NthOuts(Ev.k) /\ Advance(Ev.k + 1)
TRest ==
    /\ \/ Ev.o = "count" /\ R \in CountOuts
       \/ Ev.o = "last" /\ R \in LastOuts
       \/ Ev.o = "fold" /\ R \in FoldOuts
    /\ Advance(Remaining)
TCarry == Ev.o = "carry" /\ R \in CarryOuts(Ev.m, Ev.d) /\ UNCHANGED fragVars
TJoin == Ev.o = "join" /\ R \in JoinOuts(Ev.frames) /\ UNCHANGED fragVars

Init == /\ meta = None /\ data = None /\ size = 1
        /\ run \in 1..Len(Log) /\ l = 1
Next ==
    /\ l <= Len(Steps)
    /\ l' = l + 1 /\ UNCHANGED run
    /\ TBegin \/ TLen \/ TNext \/ TSkip \/ TNth \/ TRest \/ TCarry \/ TJoin
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
