------------------------------ MODULE Fragment ------------------------------
(***************************************************************************)
(* Cutting a payload into chunks, step by step, and putting the fragments   *)
(* of a message together again.                                             *)
(*                                                                          *)
(* A payload is two optional parts.  Both are cut from the front into       *)
(* pieces of the chunk size; a present part takes at least one chunk.       *)
(***************************************************************************)
EXTENDS Frames

VARIABLES
    meta, data,     \* what has not been cut off yet
    size            \* the chunk size

fragVars == <<meta, data, size>>

MaxInt == 2147483647
\* Sizes are given as numbers; those below 0 stand for ones that no part
\* reaches: -1 for the largest the machine has, -2 for 2^32 + 1, -3 for 2^63.
ChunkSize(n) == IF n < 0 THEN MaxInt ELSE n

Max2(a, b) == IF a > b THEN a ELSE b
Pieces(o, n) ==
    IF ~Has(o) THEN 0 ELSE IF o[1] = <<>> THEN 1 ELSE (Size(o[1]) - 1) \div n + 1
PieceOf(o, n) == IF Has(o) THEN Some(Take(o[1], n)) ELSE None
\* What is left of a part after k pieces of at most n bytes.
LeftOf(o, n, k) ==
    IF ~Has(o) THEN None
    ELSE IF k >= Pieces(o, n) THEN None ELSE Some(Drop(o[1], k * n))
\* k pieces as one, absent if there was none.
TakenOf(o, n, k) ==
    IF ~Has(o) \/ k = 0 THEN None
    ELSE IF k >= Pieces(o, n) THEN o ELSE Some(Take(o[1], k * n))

Remaining == Max2(Pieces(meta, size), Pieces(data, size))

Begin(m, d, n) ==
    /\ n # 0
    /\ meta' = m /\ data' = d /\ size' = ChunkSize(n)
BeginOuts(n) == {[t |-> IF n = 0 THEN "panic" ELSE "ok"]}

LenOuts == {[t |-> "ok", n |-> Remaining, lo |-> Remaining, hi |-> Some(Remaining)]}

NextChunk ==
    IF Remaining = 0 THEN None
    ELSE Some([m |-> PieceOf(meta, size), d |-> PieceOf(data, size)])
Advance(k) ==
    /\ meta' = LeftOf(meta, size, k) /\ data' = LeftOf(data, size, k)
    /\ UNCHANGED size
NextOuts == {[t |-> "ok", c |-> NextChunk]}

Min2(a, b) == IF a < b THEN a ELSE b
Widest(o, n, k) == IF ~Has(o) \/ k = 0 THEN 0 ELSE Min2(Size(o[1]), n)
SkipOuts(k) ==
    {[t |-> "ok", m |-> TakenOf(meta, size, k), d |-> TakenOf(data, size, k),
      got |-> Min2(k, Remaining),
      wide |-> Max2(Widest(meta, size, k), Widest(data, size, k))]}

\* The chunk after k others, and the ways to use up what is left.
After(k) ==
    IF k >= Remaining THEN None
    ELSE Some([m |-> PieceOf(LeftOf(meta, size, k), size), d |-> PieceOf(LeftOf(data, size, k), size)])
NthOuts(k) == {[t |-> "ok", c |-> After(k)]}
CountOuts == {[t |-> "ok", n |-> Remaining]}
LastOuts == {[t |-> "ok", c |-> IF Remaining = 0 THEN None ELSE After(Remaining - 1)]}
FoldOuts == SkipOuts(Remaining)

----------------------------------------------------------------------------
(* A message: the fragments of one payload, in order.                       *)

\* All chunks of a payload at once.
RECURSIVE AllChunks(_, _, _)
AllChunks(m, d, n) ==
    IF ~Has(m) /\ ~Has(d) THEN <<>>
    ELSE <<[m |-> PieceOf(m, n), d |-> PieceOf(d, n)]>>
         \o AllChunks(LeftOf(m, n, 1), LeftOf(d, n, 1), n)

\* Putting together: the parts of the request and payload frames in order;
\* frames of other kinds contribute nothing; nothing at all reads as absent.
MetaOf(f) == IF f.k \in MessageKinds THEN Opt(f.meta) ELSE <<>>
DataOf(f) == IF f.k \in MessageKinds THEN Opt(f.data) ELSE <<>>
Joined(frames) ==
    [t |-> "ok", m |-> Nz(Some(CatAll([i \in 1..Len(frames) |-> MetaOf(frames[i])]))),
                 d |-> Nz(Some(CatAll([i \in 1..Len(frames) |-> DataOf(frames[i])])))]
JoinOuts(bs) ==
    LET ds == [i \in 1..Len(bs) |-> Decode(bs[i])]
        failed == {i \in 1..Len(bs) : ds[i].t # "ok"}
    IN  IF failed = {} THEN {Joined([i \in 1..Len(bs) |-> ds[i].f])}
        ELSE {[t |-> "err", err |-> e] : e \in UNION {ds[i].errs : i \in failed}}

\* The whole way: what was sent is what is put together.
CarryOuts(m, d) == {[t |-> "ok", m |-> Nz(m), d |-> Nz(d)]}
=============================================================================
