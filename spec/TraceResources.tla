---------------------------- MODULE TraceResources ----------------------------
(***************************************************************************)
(* Validates recorded uses of memory.  A step is a task that was done many  *)
(* times in a row: the most that was held at any time, and what was held in *)
(* the end.  Each time is a Begin, a Reserve of at most that much, a Yield  *)
(* and an End.                                                              *)
(***************************************************************************)
EXTENDS Resources, Json, IOUtils

VARIABLES run, l
vars == <<resVars, run, l>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r

\* Buffers that are filled once and used again are not kept for a task; what is
\* kept after the first time may follow the number of pieces (shared pieces are
\* counted once they are shared), not their size.
Once == Fixed \div 4

Init == ResInit /\ run \in 1..Len(Log) /\ l = 1
Next ==
    /\ l <= Len(Steps)
    /\ R.t = "ok"
    /\ \/ Begin(R.size, R.count) /\ UNCHANGED l
       \/ task # <<>> /\ task[1].taken = 0 /\ R.peak > 0 /\ Reserve(R.peak) /\ UNCHANGED l
       \/ task # <<>> /\ task[1].taken = R.peak /\ R.peak <= Bound(R.size, R.count)
          /\ R.kept <= Once /\ R.first <= Fixed + PerPiece * R.count
          /\ task' = <<>> /\ l' = l + 1 /\ UNCHANGED held
    /\ UNCHANGED run
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
