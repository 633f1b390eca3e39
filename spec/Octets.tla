------------------------------- MODULE Octets -------------------------------
(***************************************************************************)
(* Byte strings.  A byte string is a sequence of runs <<value, count>> with *)
(* positive counts and different values in adjacent runs, so that strings   *)
(* of many MiB (metadata of 2^24-1 bytes, payloads whose chunk count        *)
(* exceeds what a float can count) stay small.  The normal form makes       *)
(* equality of byte strings the equality of TLA+ values.                    *)
(*                                                                          *)
(* Fixed-width integers wider than 16 bits are kept as tuples of octets,    *)
(* most significant first, because TLC's integers have 32 bits.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Byte == 0..255

\* One run as a byte string.
Run(v, n) == IF n = 0 THEN <<>> ELSE <<<<v, n>>>>

Cat(s, t) ==
    IF s = <<>> THEN t
    ELSE IF t = <<>> THEN s
    ELSE LET a == s[Len(s)]
             b == t[1]
         IN  IF a[1] = b[1]
             THEN SubSeq(s, 1, Len(s) - 1) \o <<<<a[1], a[2] + b[2]>>>>
                  \o SubSeq(t, 2, Len(t))
             ELSE s \o t

\* Concatenation of a sequence of byte strings.
CatAll(ss) == FoldLeft(Cat, <<>>, ss)

\* A tuple of octets as a byte string.
Lit(q) == FoldLeft(LAMBDA acc, b : Cat(acc, <<<<b, 1>>>>), <<>>, q)

Size(s) == FoldLeft(LAMBDA acc, r : acc + r[2], 0, s)

RECURSIVE TakeAt(_, _, _)
TakeAt(s, i, n) ==
    IF n = 0 \/ i > Len(s) THEN <<>>
    ELSE IF s[i][2] >= n THEN <<<<s[i][1], n>>>>
    ELSE <<s[i]>> \o TakeAt(s, i + 1, n - s[i][2])

\* The first n bytes (all of them if there are fewer).
Take(s, n) == TakeAt(s, 1, n)

RECURSIVE DropAt(_, _, _)
DropAt(s, i, n) ==
    IF i > Len(s) THEN <<>>
    ELSE IF n = 0 THEN SubSeq(s, i, Len(s))
    ELSE IF s[i][2] > n
         THEN <<<<s[i][1], s[i][2] - n>>>> \o SubSeq(s, i + 1, Len(s))
    ELSE DropAt(s, i + 1, n - s[i][2])

\* What follows the first n bytes.
Drop(s, n) == DropAt(s, 1, n)

RECURSIVE ByteAtRun(_, _, _)
ByteAtRun(s, i, n) ==
    IF s[i][2] >= n THEN s[i][1] ELSE ByteAtRun(s, i + 1, n - s[i][2])

\* The n-th byte, counted from 1.
ByteAt(s, n) == ByteAtRun(s, 1, n)

\* The n bytes from position i (counted from 1) as a tuple of octets.
Octs(s, i, n) == [j \in 1..n |-> ByteAt(s, i + j - 1)]

IsPrefixOf(s, t) == Take(t, Size(s)) = s

\* A value in which every byte string is in normal form.
Normal(s) ==
    /\ \A i \in 1..Len(s) : s[i][1] \in Byte /\ s[i][2] > 0
    /\ \A i \in 1..(Len(s) - 1) : s[i][1] # s[i + 1][1]

----------------------------------------------------------------------------
\* Fixed-width integers.

U16(q) == 256 * q[1] + q[2]
U24(q) == 65536 * q[1] + 256 * q[2] + q[3]
Oct16(n) == <<n \div 256, n % 256>>
Oct24(n) == <<n \div 65536, (n \div 256) % 256, n % 256>>
Zero32 == <<0, 0, 0, 0>>

\* Clear the reserved top bit: 32 -> 31 bits, 64 -> 63 bits.
ClearTop(q) == [q EXCEPT ![1] = @ % 128]
TopClear(q) == q[1] < 128
IsZero(q) == \A i \in 1..Len(q) : q[i] = 0

MaxU16 == 65535
MaxU24 == 16777215

----------------------------------------------------------------------------
\* UTF-8 validity (Unicode 3.9, table 3-7) as a finite automaton.  The state
\* is the tuple of ranges in which the next continuation bytes must lie.
Cont == <<128, 191>>
Utf8Start(b) ==
    IF b < 128 THEN <<>>
    ELSE IF b \in 194..223 THEN <<Cont>>
    ELSE IF b = 224 THEN <<<<160, 191>>, Cont>>
    ELSE IF b \in 225..236 \/ b \in {238, 239} THEN <<Cont, Cont>>
    ELSE IF b = 237 THEN <<<<128, 159>>, Cont>>
    ELSE IF b = 240 THEN <<<<144, 191>>, Cont, Cont>>
    ELSE IF b \in 241..243 THEN <<Cont, Cont, Cont>>
    ELSE IF b = 244 THEN <<<<128, 143>>, Cont, Cont>>
    ELSE <<<<1, 0>>>>          \* no byte can follow: invalid
Utf8Next(st, b) ==
    IF st = <<>> THEN Utf8Start(b)
    ELSE IF b >= st[1][1] /\ b <= st[1][2] THEN Tail(st)
    ELSE <<<<1, 0>>>>

\* A run of one byte reaches its final state after at most four steps: it is
\* ASCII (state unchanged) or it becomes invalid.
RECURSIVE Utf8Run(_, _, _)
Utf8Run(st, b, n) ==
    IF n = 0 \/ st = <<<<1, 0>>>> THEN st
    ELSE IF st = <<>> /\ b < 128 THEN <<>>
    ELSE Utf8Run(Utf8Next(st, b), b, n - 1)

IsUtf8(s) == FoldLeft(LAMBDA st, r : Utf8Run(st, r[1], r[2]), <<>>, s) = <<>>

IsAscii(s) == \A i \in 1..Len(s) : s[i][1] < 128
=============================================================================
