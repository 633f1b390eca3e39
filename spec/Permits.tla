------------------------------- MODULE Permits -------------------------------
(***************************************************************************)
(* The count of request permits: -Max-1..Max, Max being 2^31-1.  Numbers of *)
(* permits given by callers have one bit more; they are <<b, l>> standing   *)
(* for b * (Max + 1) + l, so that no number here exceeds Max.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Max

VARIABLE count

Low(n) == n[2]
\* c + l, at most Max.  For c < 0 the sum cannot exceed Max.
SatAdd(c, l) == IF c > 0 /\ l > Max - c THEN Max ELSE c + l
Sum(c, n) ==
    IF n[1] = 0 THEN SatAdd(c, n[2])
    ELSE IF c >= 0 THEN Max
    ELSE SatAdd(c + Max + 1, n[2])

Done == [t |-> "ok"]
Start(n) == count = Low(n)
New(n) == count' = Low(n)
Take == count' = count - 1
Add(n) == count' = Sum(count, n)
TakeOuts == {[t |-> "ok", v |-> count]}
LoadOuts == {[t |-> "ok", v |-> count]}
ZeroOuts == {[t |-> "ok", z |-> count = 0]}
=============================================================================
