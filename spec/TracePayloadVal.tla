--------------------------- MODULE TracePayloadVal ---------------------------
(* Validates recorded runs of payload values.  ASPECT C02 is about lengths   *)
(* alone.                                                                    *)
EXTENDS PayloadVal, Json, IOUtils

VARIABLES run, l
vars == <<payVars, run, l>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r
Lengths == IOEnv.ASPECT = "C02"

Fits(x, outs) ==
    IF Lengths THEN x.t = "ok" /\ x.len = Size(x.enc) /\ x.pre /\ x.tob
                    /\ x.empty = (x.len = 0)
                    /\ ("elen" \in DOMAIN x => x.elen = x.len /\ x.eempty = x.empty)
    ELSE x \in outs

TSet ==
    /\ R = [t |-> "ok"]
    /\ \/ Ev.o = "new" /\ NewBuilder
       \/ Ev.o = "data" /\ SetData(Ev.v)
       \/ Ev.o = "meta" /\ SetMeta(Ev.v)
       \/ Ev.o = "default" /\ Clear
       \/ Ev.o = "build" /\ Build
TLook == Ev.o = "look" /\ Fits(R, LookOuts) /\ UNCHANGED payVars
TVersion == Ev.o = "version" /\ Fits(R, VersionOuts(Ev.maj, Ev.min)) /\ UNCHANGED payVars
TU24 == Ev.o = "u24" /\ Fits(R, U24Outs(Ev.v)) /\ UNCHANGED payVars

Init == PayInit /\ run \in 1..Len(Log) /\ l = 1
Next ==
    /\ l <= Len(Steps) /\ l' = l + 1 /\ UNCHANGED run
    /\ TSet \/ TLook \/ TVersion \/ TU24
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
