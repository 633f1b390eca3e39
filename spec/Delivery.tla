------------------------------- MODULE Delivery -------------------------------
(***************************************************************************)
(* What a session does for its users, seen from the far end of the          *)
(* connection: a request that was taken on arrives there once and whole, in *)
(* its caller's order, as a message of its own; one that was refused does   *)
(* not arrive.  How this is done - stream ids, fragments, frames - is not   *)
(* to be seen.                                                              *)
(*                                                                          *)
(* Messages are [m, d]; a part that is empty counts as absent.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT Users
VARIABLES
    open,       \* for each caller: <<>>, or the message being sent, and its fate so far
    arrived     \* for each caller: the messages that have arrived

delVars == <<open, arrived>>

Message(m, d) ==
    [m |-> IF m = <<<<>>>> THEN <<>> ELSE m, d |-> IF d = <<<<>>>> THEN <<>> ELSE d]

DelInit == open = [p \in Users |-> <<>>] /\ arrived = [p \in Users |-> <<>>]
Give(p, x) ==
    /\ open[p] = <<>>
    /\ open' = [open EXCEPT ![p] = <<x, "sending">>]
    /\ UNCHANGED arrived
Arrive(p) ==
    /\ open[p] # <<>> /\ open[p][2] = "sending"
    /\ open' = [open EXCEPT ![p][2] = "there"]
    /\ arrived' = [arrived EXCEPT ![p] = Append(@, open[p][1])]
Refuse(p) ==
    /\ open[p] # <<>> /\ open[p][2] = "sending"
    /\ open' = [open EXCEPT ![p][2] = "refused"]
    /\ UNCHANGED arrived
\* Success is reported when the message has gone, and only then.
Finish(p, ok) ==
    /\ open[p] # <<>> /\ open[p][2] = (IF ok THEN "there" ELSE "refused")
    /\ open' = [open EXCEPT ![p] = <<>>]
    /\ UNCHANGED arrived
=============================================================================
