------------------------------- MODULE StreamId -------------------------------
(***************************************************************************)
(* Allocation of stream ids: a counter, and the set of ids in use.  Ids of  *)
(* one side all have the parity of the counter.  MaxId is the largest id,     *)
(* 2^31-1 in the protocol, small in the model; MaxId + 1 is even.             *)
(*                                                                          *)
(* The counter is the next candidate, 0..MaxId.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxId

VARIABLES
    cand,       \* the next candidate
    used        \* the ids in use

idVars == <<cand, used>>

\* (n + 2) mod (MaxId + 1), never computing a number above MaxId.
Succ(n) == IF n > MaxId - 2 THEN n - (MaxId - 1) ELSE n + 2
Free(n, u) == n # 0 /\ n \notin u

\* The first free candidate from n on.  There has to be one.
RECURSIVE PickFrom(_, _)
PickFrom(n, u) == IF Free(n, u) THEN n ELSE PickFrom(Succ(n), u)

\* Many ids in use at once are kept as blocks <<first, last>> of ids two apart:
\* the same search, jumping over them.
Within(n, b) == b[1] <= n /\ n <= b[2] /\ n % 2 = b[1] % 2
RECURSIVE PickPast(_, _, _)
PickPast(n, u, bs) ==
    LET i == PickFrom(n, u)
        hit == {b \in bs : Within(i, b)}
    IN  IF hit = {} THEN i ELSE PickPast(Succ((CHOOSE b \in hit : TRUE)[2]), u, bs)

Start(n) == cand = n /\ used = {}
Sides == [client |-> 1, server |-> 2]

\* One allocation, as a single step.
Pick == PickFrom(cand, used)
Allocate == cand' = Succ(Pick) /\ UNCHANGED used
Occupy(i) == used' = used \cup {i} /\ UNCHANGED cand
Release(i) == used' = used \ {i} /\ UNCHANGED cand

AllocateOuts == {[t |-> "ok", id |-> Pick]}

\* The ids n sequential allocations yield.
RECURSIVE Picks(_, _, _)
Picks(n, c, u) ==
    IF n = 0 THEN <<>>
    ELSE LET i == PickFrom(c, u) IN <<i>> \o Picks(n - 1, Succ(i), u)
=============================================================================
