------------------------------- MODULE IndKeep -------------------------------
(***************************************************************************)
(* The keepalive watch for any timeout and any silence, for Apalache: it    *)
(* sleeps for the timeout, looks how long it is since the peer was heard,   *)
(* and gives up when that is longer.  It is woken up to Late too late.      *)
(*                                                                          *)
(* Session says of the watch that it gives up (once) after more than the    *)
(* timeout, and before twice the timeout and Slack; IndInv, which is        *)
(* inductive, says so of this algorithm.                                    *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
    \* @type: Int;
    limit,      \* the timeout
    \* @type: Int;
    late,       \* how late it may be woken up
    \* @type: Int;
    now,
    \* @type: Int;
    heard,      \* when the peer was heard last
    \* @type: Int;
    wake,       \* when the watch is to be woken up
    \* @type: Bool;
    closed,
    \* @type: Int;
    at          \* when it closed the connection

Init ==
    /\ limit \in Int /\ limit >= 0
    /\ late \in Int /\ late >= 0
    /\ now \in Int /\ now >= 0
    /\ heard = now /\ wake = now + limit
    /\ closed = FALSE /\ at = 0

\* Time passes, but a sleeper that is due is woken up before it is too late.
Tick ==
    \E t \in Int :
        /\ t > now /\ (closed \/ t <= wake + late)
        /\ now' = t
        /\ UNCHANGED <<limit, late, heard, wake, closed, at>>
Woken ==
    /\ ~closed /\ now >= wake
    /\ IF now - heard > limit
       THEN closed' = TRUE /\ at' = now /\ wake' = wake
       ELSE closed' = FALSE /\ at' = at /\ wake' = now + limit
    /\ UNCHANGED <<limit, late, now, heard>>
Next == Tick \/ Woken

IndInv ==
    /\ limit \in Int /\ late \in Int /\ now \in Int /\ heard \in Int /\ wake \in Int
    /\ closed \in BOOLEAN /\ at \in Int
    /\ limit >= 0 /\ late >= 0 /\ now >= heard
    /\ wake - heard <= 2 * limit
    /\ wake - heard >= limit
    /\ ~closed => now <= wake + late
    /\ closed => at - heard > limit /\ at - heard <= 2 * limit + late /\ at <= now

\* It closes once.
Once == closed => closed' /\ at' = at

\* Not true, for trying the trap: that it gives up as soon as the time is up.
Wrong == ~closed => now - heard <= limit + late
=============================================================================
