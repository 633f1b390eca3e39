----------------------------- MODULE MCResources -----------------------------
(* Any number of tasks, one after the other.                                 *)
EXTENDS Resources
CONSTANT Size

Next ==
    \/ \E s \in 0..Size, p \in 0..Size : Begin(s, p)
    \/ \E k \in 1..Most : Reserve(k) \/ Yield(k)
    \/ End
Spec == ResInit /\ [][Next]_resVars

\* However many tasks there were, what is held depends on the one at hand.
Bounded ==
    /\ held = 0
    /\ task # <<>> => held + task[1].taken <= Bound(task[1].size, task[1].pieces)
\* The bound never exceeds what can be written, and grows with the task.
ASSUME
    \A s \in 0..Size, p \in 0..Size :
        /\ Bound(s, p) <= Most
        /\ s > 0 => Bound(s - 1, p) <= Bound(s, p)
        /\ p > 0 => Bound(s, p - 1) <= Bound(s, p)
        /\ Fixed + PerPiece * p + PerByte * s <= Most =>
            Bound(s, p) = Fixed + PerPiece * p + PerByte * s
=============================================================================
