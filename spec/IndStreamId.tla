----------------------------- MODULE IndStreamId -----------------------------
(***************************************************************************)
(* The allocation of stream ids at its real size, for Apalache: whatever    *)
(* the counter is, and however many candidates were fetched before.         *)
(*                                                                          *)
(* Word is the 32-bit word the counter is kept in, a number of -2^31..2^31-1*)
(* that is advanced by two and wraps around; cand is the next candidate of  *)
(* StreamId.  Any thread fetches at any time, so a step is a fetch; which   *)
(* thread made it does not matter.  One fetch, any of them, is watched.     *)
(*                                                                          *)
(* IndInv is inductive: it holds in Init, and in every successor of a state *)
(* in which it holds.  TLC checks the same steps on a small counter.        *)
(***************************************************************************)
EXTENDS Integers

MaxId == 2147483647
Size  == 2147483648     \* MaxId + 1
Half  == 1073741824     \* the ids of a side, 0 among those of the server

VARIABLES
    \* @type: Int;
    word,
    \* @type: Int;
    cand,
    \* @type: Int;
    first,      \* the first candidate
    \* @type: Int;
    watched,    \* the candidate that is watched, -1 if none yet
    \* @type: Int;
    since,      \* the fetches from it on
    \* @type: Int;
    last        \* the candidate fetched last, -1 if none yet

\* @type: Int => Int;
Succ(n) == IF n > MaxId - 2 THEN n - (MaxId - 1) ELSE n + 2
\* @type: Int => Int;
Wrap(n) == IF n > MaxId THEN n - 2 * Size ELSE n
\* The 31 low bits of a word.
\* @type: Int => Int;
Low(n) == IF n < 0 THEN n + Size ELSE n
\* How far b is ahead of a, in steps of two around the circle.
\* @type: (Int, Int) => Int;
Ahead(a, b) == IF b >= a THEN b - a ELSE b - a + Size

Init ==
    /\ word \in -Size..MaxId
    /\ cand = Low(word) /\ first = cand
    /\ watched = -1 /\ since = 0 /\ last = -1

Fetch ==
    /\ last' = Low(word)
    /\ word' = Wrap(word + 2)
    /\ cand' = Succ(cand)
    /\ UNCHANGED first
    /\ IF watched >= 0
       THEN watched' = watched /\ since' = (IF since < Half THEN since + 1 ELSE since)
       ELSE \/ watched' = last' /\ since' = 1
            \/ watched' = watched /\ since' = since
Next == Fetch

\* What is fetched is the specification's candidate; it is an id of the side
\* that the provider was made for (or 0, which is skipped); and the watched
\* candidate is not fetched again before all the others of its side were.
Sound ==
    /\ last \in -1..MaxId
    /\ last >= 0 => (last - first) % 2 = 0 /\ cand = Succ(last)
    /\ watched >= 0 /\ since > 1 /\ since < Half => last # watched

IndInv ==
    /\ word \in -Size..MaxId
    /\ cand \in 0..MaxId /\ first \in 0..MaxId
    /\ cand = Low(word)
    /\ (cand - first) % 2 = 0
    /\ watched \in -1..MaxId /\ since \in 0..Half
    /\ watched = -1 => since = 0
    /\ watched >= 0 => since >= 1
    /\ watched >= 0 /\ since < Half => Ahead(watched, cand) = 2 * since
    /\ Sound

\* Not true, for trying the trap: the same id again after all of its side.
Wrong == watched >= 0 /\ since > 1 => last # watched
=============================================================================
