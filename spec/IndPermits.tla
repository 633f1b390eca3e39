------------------------------ MODULE IndPermits ------------------------------
(***************************************************************************)
(* The count of permits at its real size, for Apalache: whatever it is and  *)
(* whatever is added.  IndInv is inductive; TLC checks the same steps with  *)
(* a small ceiling.  The balance has no bounds: all permits given, less     *)
(* those taken, less those above the ceiling.                               *)
(***************************************************************************)
EXTENDS Integers

Max == 2147483647

VARIABLES
    \* @type: Int;
    count,
    \* @type: Int;
    given,
    \* @type: Int;
    taken,
    \* @type: Int;
    cut         \* permits above the ceiling

\* As in Permits, whose numbers <<b, l>> are b * (Max + 1) + l.
\* @type: (Int, Int) => Int;
SatAdd(c, l) == IF c > 0 /\ l > Max - c THEN Max ELSE c + l
\* @type: (Int, Int, Int) => Int;
Sum(c, b, l) ==
    IF b = 0 THEN SatAdd(c, l)
    ELSE IF c >= 0 THEN Max
    ELSE SatAdd(c + Max + 1, l)
\* @type: (Int, Int) => Int;
Least(a, b) == IF a < b THEN a ELSE b

Init ==
    \E b \in 0..1 : \E l \in 0..Max :
        count = l /\ given = l /\ taken = 0 /\ cut = 0

Take ==
    /\ count > -Max - 1
    /\ count' = count - 1 /\ taken' = taken + 1 /\ UNCHANGED <<given, cut>>
Add ==
    \E b \in 0..1 : \E l \in 0..Max :
        LET n == b * (Max + 1) + l IN
        /\ count' = Sum(count, b, l)
        /\ given' = given + n
        /\ cut' = cut + (count + n - count')
        /\ UNCHANGED taken
Next == Take \/ Add

IndInv ==
    /\ count \in -Max - 1..Max
    /\ given \in Int /\ taken \in Int /\ cut \in Int
    /\ given >= 0 /\ taken >= 0 /\ cut >= 0
    /\ count = given - taken - cut

\* What a step does: the sums of the specification are sums, cut off at the
\* ceiling, and credit is lost at the ceiling only.
Sums ==
    /\ taken' = taken => count' = Least(count + (given' - given), Max)
    /\ cut' # cut => count' = Max /\ cut' > cut

\* Not true, for trying the trap.
Wrong == cut = 0
=============================================================================
