-------------------------------- MODULE Twins --------------------------------
(***************************************************************************)
(* Frames and payloads as values: what equality, copies and printing may    *)
(* say of two of them.  Frames are given by the arguments they are made of. *)
(*                                                                          *)
(* Frames of which all is the same are equal.  Frames that report something *)
(* different, or are encoded differently, are not.                          *)
(***************************************************************************)
EXTENDS Frames

MustEqual(a, b) == Make(a) = Make(b)
MustDiffer(a, b) == View(Make(a)) # View(Make(b)) \/ Encode(Make(a)) # Encode(Make(b))

\* Equality is one relation, whichever way it is asked for; a copy is equal to
\* what it was made of.
Relation(r) == r.ab = r.ba /\ r.ne = ~r.ab /\ r.own

\* The two frames as they come out of their encodings, if they do.
ReadFits(a, b, q) ==
    LET f == Make(a)  g == Make(b)
    IN  InScope(f) /\ InScope(g) =>
        /\ Len(q) = 3 /\ q[1] = q[2] /\ q[3]
        /\ Encode(f) = Encode(g) => q[1]
        /\ {View(x) : x \in Settlings(f)} \cap {View(x) : x \in Settlings(g)} = {} => ~q[1]

FramesFit(a, b, r) ==
    InRange(a) /\ InRange(b) =>
        /\ r.t = "ok" /\ Relation(r) /\ r.acc /\ r.text
        /\ MustEqual(a, b) => r.ab
        /\ MustDiffer(a, b) => ~r.ab
        /\ r.wire = (Encode(Make(a)) = Encode(Make(b)))
        /\ ReadFits(a, b, r.read)

PayloadsFit(x, r) ==
    r.t = "ok" /\ Relation(r) /\ r.ab = (x.m = x.m2 /\ x.d = x.d2)

\* Small values, given by what they are made of: faults, statuses, versions,
\* lengths, codes, names.  Bits that are no flags are dropped.
ValuesFit(x, r) ==
    r.t = "ok" /\ Relation(r) /\
    r.ab = IF x.k = "flags" THEN DefinedFlags(x.a) = DefinedFlags(x.b) ELSE x.a = x.b
=============================================================================
