------------------------------- MODULE MCQueue -------------------------------
(* All short histories of a queue, against the plain byte string it stands   *)
(* for; each history of the full length is printed as a run.                 *)
EXTENDS Queue, Json, IOUtils

VARIABLES in, gone, h

Asked(x) == x \in DOMAIN IOEnv
Depth == IF Asked("DEEP") THEN 6 ELSE 5

\* Segments of one or two chunks, numbered so that all bytes differ.
Seg(a, b) ==
    LET from == Size(in)
        part(i, n) == Lit([j \in 1..n |-> (from + i + j) % 256])
    IN  <<part(0, a)>> \o (IF b = 0 THEN <<>> ELSE <<part(a, b)>>)

Init == QueueInit /\ in = <<>> /\ gone = 0 /\ h = <<>>
Op(o) == Len(h) < Depth /\ h' = Append(h, o)
DoPush == \E a \in 1..2, b \in 0..1 :
    LET s == Seg(a, b)
    IN  Op([o |-> "push", s |-> s]) /\ Push(s) /\ in' = Cat(in, CatAll(s)) /\ UNCHANGED gone
DoDrain == \E n \in 0..4, o \in {"advance", "copy"} :
    Op([o |-> o, n |-> n]) /\ Drain(n) /\ gone' = gone + n /\ UNCHANGED in
DoLook == \E o \in {[o |-> "vec", n |-> 2]} : Op(o) /\ UNCHANGED <<segs, in, gone>>
\* One request for too much ends a history.
DoFail == \E o \in {"advance", "copy", "get"} :
    /\ Len(h) = Depth - 1 /\ Op([o |-> o, n |-> Count + 1]) /\ UNCHANGED <<segs, in, gone>>
Next == DoPush \/ DoDrain \/ DoLook \/ DoFail
Spec == Init /\ [][Next]_<<segs, in, gone, h>>

\* C11: the queue is the byte string pushed, less what was removed.
IsQueue ==
    /\ Bytes = Drop(in, gone)
    /\ Count = Size(in) - gone
    /\ \A i \in 1..Len(segs) : segs[i] # <<>> /\ \A j \in 1..Len(segs[i]) : segs[i][j] # <<>>
    /\ Count > 0 => Chunks # <<>> /\ ChunkFits(Done(<<Chunks[1]>>, 0))
    /\ \A k \in 0..4 : \A r \in ViewOuts(k) : IsPrefixOf(CatAll(r.v), Bytes)
    /\ \A n \in 0..Count : \A r \in TakeOuts(n) : Cat(r.v[1], Drop(Bytes, n)) = Bytes

Emitted == Asked("EMIT") /\ Len(h) = Depth => PrintT(ToJson(h))
=============================================================================
