------------------------------- MODULE MCAmong -------------------------------
(***************************************************************************)
(* Independence.  Two id providers and a count of permits are used in turns *)
(* in any order; each goes through what it would go through on its own.     *)
(* EMIT prints every order of turns as one for the real code.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxId, Max
VARIABLES candA, usedA, candB, usedB, count,
    prog,       \* what is to be done with each of the three
    outs,       \* what each has said so far
    turns       \* whose steps they were
vars == <<candA, usedA, candB, usedB, count, prog, outs, turns>>

A == INSTANCE StreamId WITH cand <- candA, used <- usedA
B == INSTANCE StreamId WITH cand <- candB, used <- usedB
P == INSTANCE Permits

Asked(x) == x \in DOMAIN IOEnv
IdPrograms == {<<"next", "next", "next">>, <<"occupy", "next", "next">>, <<"next", "occupy", "next">>}
PermitPrograms == {<<"take", "take", "load">>, <<"add", "take", "take">>}

Init ==
    /\ candA \in {1, 2} /\ usedA = {} /\ candB \in {1, MaxId} /\ usedB = {} /\ count = 1
    /\ prog \in [{1, 2} -> IdPrograms] \X PermitPrograms
    /\ outs = <<<<>>, <<>>, <<>>>> /\ turns = <<>>

Prog(i) == IF i = 3 THEN prog[2] ELSE prog[1][i]
Done(i) == Len(outs[i])
Next3(i) == Prog(i)[Done(i) + 1]
Say(i, x) == outs' = [outs EXCEPT ![i] = Append(@, x)] /\ turns' = Append(turns, i) /\ UNCHANGED prog

StepA ==
    /\ Done(1) < 3
    /\ IF Next3(1) = "next" THEN Say(1, A!Pick) /\ A!Allocate ELSE Say(1, 0) /\ A!Occupy(3)
    /\ UNCHANGED <<candB, usedB, count>>
StepB ==
    /\ Done(2) < 3
    /\ IF Next3(2) = "next" THEN Say(2, B!Pick) /\ B!Allocate ELSE Say(2, 0) /\ B!Occupy(3)
    /\ UNCHANGED <<candA, usedA, count>>
StepP ==
    /\ Done(3) < 3
    /\ CASE Next3(3) = "take" -> Say(3, count) /\ P!Take
         [] Next3(3) = "load" -> Say(3, count) /\ UNCHANGED count
         [] Next3(3) = "add" -> Say(3, 0) /\ P!Add(<<0, 2>>)
    /\ UNCHANGED <<candA, usedA, candB, usedB>>
Spec == Init /\ [][StepA \/ StepB \/ StepP]_vars

\* Each on its own.
RECURSIVE IdsAlone(_, _, _, _)
IdsAlone(pr, k, c, u) ==
    IF k = 0 THEN <<>>
    ELSE IF Head(pr) = "next"
    THEN <<A!PickFrom(c, u)>> \o IdsAlone(Tail(pr), k - 1, A!Succ(A!PickFrom(c, u)), u)
    ELSE <<0>> \o IdsAlone(Tail(pr), k - 1, c, u \cup {3})
RECURSIVE PermitsAlone(_, _, _)
PermitsAlone(pr, k, n) ==
    IF k = 0 THEN <<>>
    ELSE CASE Head(pr) = "take" -> <<n>> \o PermitsAlone(Tail(pr), k - 1, n - 1)
           [] Head(pr) = "load" -> <<n>> \o PermitsAlone(Tail(pr), k - 1, n)
           [] Head(pr) = "add" -> <<0>> \o PermitsAlone(Tail(pr), k - 1, n + 2)

\* Where each started can be told from what it has said.
Independent ==
    /\ \E c \in {1, 2} : outs[1] = IdsAlone(Prog(1), Done(1), c, {})
    /\ \E c \in {1, MaxId} : outs[2] = IdsAlone(Prog(2), Done(2), c, {})
    /\ outs[3] = PermitsAlone(Prog(3), Done(3), 1)
Emitted ==
    Asked("EMIT") /\ Len(turns) = 9 /\ prog[1][1] = prog[1][2] /\ prog[1][1][1] = "occupy"
    /\ prog[2][1] = "add" => PrintT(ToJson(turns))
=============================================================================
