------------------------------ MODULE TraceTables ------------------------------
(* Validates recorded lookups: every step on its own.                        *)
EXTENDS Tables, Json, IOUtils

VARIABLES run, l
vars == <<run, l>>

Log == ndJsonDeserialize(IOEnv.TRACE)
Steps == Log[run].steps
Ev == Steps[l]
R == Ev.r

Fits ==
    CASE Ev.o = "mime"     -> R \in MimeOuts(Ev.i + 1)
      [] Ev.o = "parse"    -> R \in ParseOuts(Ev.text)
      [] Ev.o = "error"    -> ErrorFits(Ev.kind, Ev.src, Ev.about, R)
      [] Ev.o = "code"     -> R \in CodeOuts(Ev.i + 1)
      [] Ev.o = "own"      -> R \in OwnCodes
      [] Ev.o = "own-types" -> R \in OwnTypes
      [] Ev.o = "limits"   -> R \in LimitsOuts
      [] Ev.o = "type"     -> R \in TypeOuts(Ev.i + 1)
      [] Ev.o = "values"   -> R = [t |-> "ok", runs |-> ValueRuns]
      [] Ev.o = "words"    -> R = [t |-> "ok", runs |-> WordRuns]
      [] Ev.o = "flags"    -> FlagsFit(Ev.w, R)
      [] Ev.o = "u24"      -> R \in U24Outs(Ev.lo, Ev.hi)
      [] Ev.o = "u24over"  -> R \in OverOuts(Ev.route, Ev.v)
      [] Ev.o = "versions" -> R \in VersionsOuts(Ev.a, Ev.b)

Init == run \in 1..Len(Log) /\ l = 1
Next == l <= Len(Steps) /\ l' = l + 1 /\ UNCHANGED run /\ Fits
Spec == Init /\ [][Next]_vars

Accepted == l > Len(Steps) => PrintT(<<"ACCEPT", Log[run].id>>)
Reached  == "SHOW" \in DOMAIN IOEnv => PrintT(<<"REACHED", Log[run].id, l>>)
=============================================================================
