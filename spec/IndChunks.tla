------------------------------ MODULE IndChunks ------------------------------
(***************************************************************************)
(* Cutting a payload, for any lengths and any chunk size, for Apalache: the *)
(* lengths of Fragment without the contents.  Absent is -1.                 *)
(*                                                                          *)
(* IndInv is inductive.  Steps are chunks; left is what an iterator has     *)
(* still to say of itself (the number of chunks to come).                   *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
    \* @type: Int;
    size,
    \* @type: Int;
    meta,       \* length of the metadata, of the data: at first
    \* @type: Int;
    data,
    \* @type: Int;
    m,          \* what is left of them
    \* @type: Int;
    d,
    \* @type: Int;
    gotm,       \* what was yielded of them
    \* @type: Int;
    gotd,
    \* @type: Bool;
    open        \* some chunk was yielded, and it was not the last

\* @type: (Int, Int) => Int;
Least(a, b) == IF a < b THEN a ELSE b
\* @type: (Int, Int) => Int;
Cut(part, n) == IF part > n THEN n ELSE part
\* @type: (Int, Int) => Int;
Rest(part, n) == IF part > n THEN part - n ELSE -1

Init ==
    /\ size \in Nat /\ size > 0
    /\ meta \in Int /\ meta >= -1 /\ data \in Int /\ data >= -1
    /\ m = meta /\ d = data /\ gotm = 0 /\ gotd = 0 /\ open = FALSE

Yield ==
    /\ m >= 0 \/ d >= 0
    /\ m' = Rest(m, size) /\ d' = Rest(d, size)
    /\ gotm' = IF m >= 0 THEN gotm + Cut(m, size) ELSE gotm
    /\ gotd' = IF d >= 0 THEN gotd + Cut(d, size) ELSE gotd
    /\ open' = (m' >= 0 \/ d' >= 0)
    /\ UNCHANGED <<size, meta, data>>
Next == Yield

\* Nothing is lost, nothing comes twice, and a part is used up only when all
\* of it was yielded.
IndInv ==
    /\ size \in Int /\ meta \in Int /\ data \in Int /\ m \in Int /\ d \in Int
    /\ gotm \in Int /\ gotd \in Int /\ open \in BOOLEAN
    /\ size > 0 /\ meta >= -1 /\ data >= -1
    /\ m = 0 => meta = 0
    /\ d = 0 => data = 0
    /\ m >= -1 /\ d >= -1 /\ gotm >= 0 /\ gotd >= 0
    /\ m >= 0 => meta >= 0 /\ gotm + m = meta
    /\ d >= 0 => data >= 0 /\ gotd + d = data
    /\ m = -1 => gotm = (IF meta >= 0 THEN meta ELSE 0)
    /\ d = -1 => gotd = (IF data >= 0 THEN data ELSE 0)
    /\ gotm + gotd > 0 \/ open => (open <=> m >= 0 \/ d >= 0)

\* What a step does: a piece that is not the last of its part is of the size
\* of a chunk exactly, no piece is larger, and only a part that was empty from
\* the start is yielded empty.
Pieces ==
    /\ m' >= 0 => gotm' - gotm = size
    /\ d' >= 0 => gotd' - gotd = size
    /\ gotm' - gotm <= size /\ gotd' - gotd <= size
    /\ m >= 0 /\ gotm' = gotm => meta = 0
    /\ d >= 0 /\ gotd' = gotd => data = 0

\* Not true, for trying the trap.
Wrong == gotm <= size
=============================================================================
