------------------------------ MODULE TraceTwins ------------------------------
(* Validates recorded comparisons of frames and payloads.                    *)
EXTENDS Twins, Json, IOUtils

VARIABLES run, l
vars == <<run, l>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r

Init == run \in 1..Len(Log) /\ l = 1
Next ==
    /\ l <= Len(Steps)
    /\ \/ Ev.o = "frames" /\ FramesFit(Ev.a, Ev.b, R)
       \/ Ev.o = "payloads" /\ PayloadsFit(Ev, R)
       \/ Ev.o = "values" /\ ValuesFit(Ev, R)
    /\ l' = l + 1 /\ UNCHANGED run
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
