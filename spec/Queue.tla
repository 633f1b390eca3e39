-------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* The list of received buffers as a queue of bytes.  A segment is a        *)
(* non-empty sequence of non-empty byte strings (its chunks); the queue is  *)
(* the segments in order.                                                   *)
(***************************************************************************)
EXTENDS Octets, Integers, TLC

VARIABLE segs

\* The chunks of all segments, and the bytes of all chunks.
Chunks == FlattenSeq(segs)
Bytes == CatAll(Chunks)
Count == Size(Bytes)

\* Remove n bytes from the front: chunks and segments that become empty go.
RECURSIVE DropChunks(_, _)
DropChunks(cs, n) ==
    IF cs = <<>> THEN <<>>
    ELSE IF Size(cs[1]) <= n THEN DropChunks(Tail(cs), n - Size(cs[1]))
    ELSE <<Drop(cs[1], n)>> \o Tail(cs)
RECURSIVE DropSegs(_, _)
DropSegs(ss, n) ==
    IF ss = <<>> THEN <<>>
    ELSE LET k == Size(CatAll(ss[1]))
         IN  IF k <= n THEN DropSegs(Tail(ss), n - k)
             ELSE <<DropChunks(ss[1], n)>> \o Tail(ss)

QueueInit == segs = <<>>

Push(s) == segs' = Append(segs, s)
\* Bytes are skipped, copied out or read as a number: they leave the queue.
Drain(n) == n <= Count /\ segs' = DropSegs(segs, n)

----------------------------------------------------------------------------
(* Outcomes: v is the list of byte strings returned, rem what remains then. *)

Panic == [t |-> "panic"]
Left(n) == Count - n
Done(v, n) == [t |-> "ok", v |-> v, rem |-> Left(n), has |-> Left(n) > 0]

PushOuts(s) ==
    LET n == Count + Size(CatAll(s))
    IN  {[t |-> "ok", v |-> <<>>, rem |-> n, has |-> n > 0]}
SkipOuts(n) == IF n <= Count THEN {Done(<<>>, n)} ELSE {Panic}
TakeOuts(n) == IF n <= Count THEN {Done(<<Take(Bytes, n)>>, n)} ELSE {Panic}
\* The current chunk is a prefix, and not empty if bytes remain.
ChunkFits(r) ==
    /\ r.t = "ok" /\ r.rem = Count /\ r.has = (Count > 0)
    /\ Len(r.v) = 1
    /\ IsPrefixOf(r.v[1], Bytes) /\ Size(r.v[1]) <= Count
    /\ Count > 0 => r.v[1] # <<>>
\* The vectored view: the first chunks, as many as there are slots.
ViewOuts(k) ==
    {Done(SubSeq(Chunks, 1, IF k < Len(Chunks) THEN k ELSE Len(Chunks)), 0)}
=============================================================================
