------------------------------ MODULE Resources ------------------------------
(***************************************************************************)
(* Memory.  A task - decoding, encoding, cutting, putting together, a call  *)
(* of a session - works on a number of bytes in a number of pieces.  While  *)
(* it lasts it may take memory in proportion to these and nothing else: not *)
(* to a number that somebody wrote into a frame.  When it is over and its   *)
(* result is dropped, nothing is kept.                                      *)
(*                                                                          *)
(* Numbers of bytes are cut off at Most.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS
    Most,
    Fixed, PerPiece, PerByte    \* the proportion: generous, but a proportion
VARIABLES
    held,       \* the bytes taken for good
    task        \* <<>>, or the task at hand: [size, pieces, taken]

resVars == <<held, task>>

Bound(size, pieces) ==
    LET c == IF pieces > (Most - Fixed) \div PerPiece THEN Most ELSE Fixed + PerPiece * pieces
    IN  IF size > (Most - c) \div PerByte THEN Most ELSE c + PerByte * size

ResInit == held = 0 /\ task = <<>>
Begin(size, pieces) ==
    /\ task = <<>>
    /\ task' = <<[size |-> size, pieces |-> pieces, taken |-> 0]>>
    /\ UNCHANGED held
Reserve(k) ==
    /\ task # <<>>
    /\ k > 0 /\ task[1].taken + k <= Bound(task[1].size, task[1].pieces)
    /\ task' = [task EXCEPT ![1].taken = @ + k]
    /\ UNCHANGED held
Yield(k) ==
    /\ task # <<>> /\ k > 0 /\ task[1].taken >= k
    /\ task' = [task EXCEPT ![1].taken = @ - k]
    /\ UNCHANGED held
End ==
    /\ task # <<>> /\ task[1].taken = 0
    /\ task' = <<>> /\ UNCHANGED held
=============================================================================
