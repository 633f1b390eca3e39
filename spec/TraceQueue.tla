----------------------------- MODULE TraceQueue -----------------------------
(* Validates recorded runs of the buffer list.                               *)
EXTENDS Queue, Json, IOUtils

VARIABLES run, l
vars == <<segs, run, l>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r
\* A refused request ends a run.
Ended == l > 1 /\ Steps[l - 1].r.t = "panic"
Taken(n) == IF n <= Count THEN Drain(n) ELSE UNCHANGED segs

TPush == Ev.o = "push" /\ R \in PushOuts(Ev.s) /\ Push(Ev.s)
TSkip == Ev.o = "advance" /\ R \in SkipOuts(Ev.n) /\ Taken(Ev.n)
TTake == Ev.o \in {"copy", "get", "num"} /\ R \in TakeOuts(Ev.n) /\ Taken(Ev.n)
TRest == Ev.o = "rest" /\ R \in TakeOuts(Count) /\ Taken(Count)
TChunk == Ev.o = "chunk" /\ ChunkFits(R) /\ UNCHANGED segs
TView == Ev.o = "vec" /\ R \in ViewOuts(Ev.n) /\ UNCHANGED segs

Init == QueueInit /\ run \in 1..Len(Log) /\ l = 1
Next ==
    /\ l <= Len(Steps) /\ ~Ended
    /\ l' = l + 1 /\ UNCHANGED run
    /\ TPush \/ TSkip \/ TTake \/ TRest \/ TChunk \/ TView
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
