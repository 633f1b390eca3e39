-------------------------- MODULE TraceSetupBuilder --------------------------
(* Validates recorded runs of the SETUP builder.                             *)
EXTENDS SetupBuilder, Json, IOUtils

VARIABLES run, l
vars == <<b, run, l>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r

TNew == Ev.o = "new" /\ R = [t |-> "ok"] /\ b' = Defaults
TSet == Ev.o \in Settings /\ R = [t |-> "ok"] /\ Apply(Ev)
TBuild == Ev.o = "build" /\ R \in BuildOuts /\ UNCHANGED b

Init == BuilderInit /\ run \in 1..Len(Log) /\ l = 1
Next ==
    /\ l <= Len(Steps) /\ l' = l + 1 /\ UNCHANGED run
    /\ TNew \/ TSet \/ TBuild
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
