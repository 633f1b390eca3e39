------------------------------ MODULE MCStreamId ------------------------------
(* Histories of one provider: allocate, take an id into use, let it go.      *)
(* MODE "seq": one user, from every state of the counter.                    *)
(* MODE "par": threads that allocate with the real algorithm, in the steps   *)
(* an atomic counter gives: fetch a candidate, advance the counter; keep the *)
(* candidate if it is free, else try again.                                  *)
EXTENDS StreamId, Json, IOUtils

VARIABLES h, got, pc, todo

Asked(x) == x \in DOMAIN IOEnv
Par == Asked("PAR")
Deep == Asked("DEEP")
Depth == IF Deep THEN 7 ELSE 5
vars == <<idVars, h, got, pc, todo>>

Ids(c) == {i \in 1..MaxId : i % 2 = c % 2}
Threads == IF Par THEN 1..(IF Deep THEN 4 ELSE 3) ELSE {}

Init ==
    /\ h = <<>> /\ got = <<>>
    /\ cand \in IF Par /\ ~Deep THEN {0, 3, MaxId - 1, MaxId} ELSE 0..MaxId
    /\ IF Par
       THEN /\ used \in SUBSET Ids(cand)
            /\ pc = [p \in Threads |-> [at |-> "idle", n |-> 0]]
            /\ todo \in [Threads -> 0..(IF Deep THEN 1 ELSE 2)]
            \* fewer allocations than there are free ids: no wrap-around
            /\ Cardinality(Ids(cand) \ used) >= 1
       ELSE used = {} /\ pc = <<>> /\ todo = <<>>

\* Some id of the side stays free, or the allocation would not end.
Sequential ==
    /\ ~Par /\ Len(h) < Depth
    /\ UNCHANGED <<pc, todo>>
    /\ \/ /\ Ids(cand) \ used # {}
          /\ got' = Append(got, Pick) /\ Allocate
          /\ h' = Append(h, [o |-> "next"])
       \/ \E i \in 1..MaxId \ used :
            Occupy(i) /\ h' = Append(h, [o |-> "occupy", id |-> i]) /\ UNCHANGED got
       \/ \E i \in used :
            Release(i) /\ h' = Append(h, [o |-> "release", id |-> i]) /\ UNCHANGED got

Fetch(p) ==
    /\ \/ pc[p].at = "idle" /\ todo[p] > 0
       \/ pc[p].at = "retry"
    /\ cand' = Succ(cand)
    /\ pc' = [pc EXCEPT ![p] = [at |-> "check", n |-> cand]]
    /\ UNCHANGED <<used, h, got, todo>>
Check(p) ==
    /\ pc[p].at = "check"
    /\ IF Free(pc[p].n, used)
       THEN /\ got' = Append(got, pc[p].n)
            /\ todo' = [todo EXCEPT ![p] = @ - 1]
            /\ pc' = [pc EXCEPT ![p] = [at |-> "idle", n |-> 0]]
       ELSE pc' = [pc EXCEPT ![p].at = "retry"] /\ UNCHANGED <<got, todo>>
    /\ UNCHANGED <<idVars, h>>
\* The first step is recorded in h: where the counter was.
Note == Par /\ h = <<>> /\ h' = <<cand, todo>> /\ UNCHANGED <<idVars, got, pc, todo>>
Concurrent == h # <<>> /\ \E p \in Threads : Fetch(p) \/ Check(p)

Next == Sequential \/ Note \/ Concurrent
Spec == Init /\ [][Next]_vars

TypeOK == cand \in 0..MaxId /\ used \subseteq 1..MaxId

\* C12.  What an allocation yields is valid, free, of the right parity, and
\* the first such id from the counter on, cyclically.
Range(a, b) == {i \in 1..MaxId : IF a <= b THEN i \in a..b ELSE i >= a \/ i <= b}
Valid ==
    Ids(cand) \ used # {} =>
        /\ Pick \in Ids(cand) \ used
        /\ \A i \in Range(cand, Pick) : i \in Ids(cand) /\ i # Pick => i \in used
        /\ Succ(cand) % 2 = cand % 2

\* Keeping ids in use as blocks makes no difference.
BlocksAgree ==
    \A a, b \in Ids(cand) :
        LET block == {i \in Ids(cand) : a <= i /\ i <= b}
        IN  a <= b /\ Ids(cand) \ (used \cup block) # {} =>
                PickPast(cand, used, {<<a, b>>}) = PickFrom(cand, used \cup block)

\* C13.  All distinct, none in use; together what sequential allocation gives.
Sum == LET RECURSIVE S(_)
           S(P) == IF P = {} THEN 0 ELSE LET p == CHOOSE x \in P : TRUE IN h[2][p] + S(P \ {p})
       IN S(Threads)
NoWrap == Sum <= Cardinality(Ids(cand) \ used)
Exclusive ==
    Par /\ h # <<>> =>
        /\ \A i \in 1..Len(got) : got[i] \in Ids(cand) \ used
        /\ NoWrap =>
            /\ \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
            /\ Len(got) = Sum =>
                {got[i] : i \in 1..Len(got)} =
                    LET s == Picks(Sum, h[1], used) IN {s[i] : i \in 1..Len(s)}

Emitted ==
    Asked("EMIT") =>
        IF Par
        THEN h # <<>> /\ got = <<>> /\ (\A p \in Threads : pc[p].at = "idle") /\ NoWrap =>
                PrintT(ToJson([at |-> h[1], todo |-> h[2], used |-> used]))
        ELSE Len(h) = Depth => PrintT(ToJson(h))
=============================================================================
