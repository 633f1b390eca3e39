------------------------------ MODULE MCPermits ------------------------------
(* MODE "seq": all short histories of one counter.                           *)
(* MODE PAR: threads that take and add with the real algorithm (an add reads *)
(* the count and installs the sum if the count is still the same), checked   *)
(* to return what some sequential order of the calls returns.                *)
EXTENDS Permits, FiniteSets, Json, IOUtils

VARIABLES h, init, pc, calls, spec

Asked(x) == x \in DOMAIN IOEnv
Par == Asked("PAR")
Deep == Asked("DEEP")
Depth == IF Deep THEN 6 ELSE 4
vars == <<count, h, init, pc, calls, spec>>

Numbers == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, Max - 1>>, <<0, Max>>, <<1, 0>>, <<1, 1>>, <<1, Max>>}
Threads == IF Par THEN 1..(IF Deep THEN 3 ELSE 2) ELSE {}
TakeCall == [o |-> "take"]
Calls == {TakeCall, [o |-> "add", n |-> <<0, 1>>], [o |-> "add", n |-> <<0, 3>>],
          [o |-> "add", n |-> <<1, 0>>], [o |-> "zero"]}
Progs == IF Deep THEN {<<a, b>> : a \in Calls, b \in Calls}
         ELSE {<<a>> : a \in Calls} \cup {<<a, b>> : a \in Calls, b \in Calls}
              \cup {<<a, TakeCall, b>> : a \in Calls, b \in Calls}

Init ==
    /\ IF Par THEN \E n \in {<<0, 0>>, <<0, 1>>, <<0, Max - 1>>} : init = n /\ Start(n)
       ELSE \E n \in Numbers : init = n /\ Start(n)
    /\ h = <<>>
    /\ calls \in [Threads -> Progs]
    /\ pc = [p \in Threads |-> [i |-> 1, at |-> "idle", seen |-> 0]]
    /\ spec = {}

Exact == -Max - 1..Max
Ops == {TakeCall, [o |-> "zero"], [o |-> "load"]} \cup {[o |-> "add", n |-> n] : n \in Numbers}
Sequential ==
    /\ ~Par /\ Len(h) < Depth
    /\ \E c \in Ops :
        /\ CASE c.o = "take" -> Take [] c.o = "add" -> Add(c.n) [] OTHER -> UNCHANGED count
        /\ h' = Append(h, c)
    /\ UNCHANGED <<init, pc, calls, spec>>

\* The algorithm, step by step; h records the calls in the order in which
\* they take effect, with what they return.
Call(p) == calls[p][pc[p].i]
Step(p) ==
    /\ pc[p].i <= Len(calls[p])
    /\ \/ /\ Call(p).o = "take" /\ count' = count - 1
          /\ h' = Append(h, [p |-> p, o |-> "take", v |-> count])
          /\ pc' = [pc EXCEPT ![p].i = @ + 1]
       \/ /\ Call(p).o = "zero" /\ UNCHANGED count
          /\ h' = Append(h, [p |-> p, o |-> "zero", v |-> IF count = 0 THEN 1 ELSE 0])
          /\ pc' = [pc EXCEPT ![p].i = @ + 1]
       \/ /\ Call(p).o = "add" /\ pc[p].at = "idle"
          /\ pc' = [pc EXCEPT ![p].at = "read", ![p].seen = count]
          /\ UNCHANGED <<count, h>>
       \/ /\ Call(p).o = "add" /\ pc[p].at = "read"
          /\ IF count = pc[p].seen
             THEN /\ count' = Sum(pc[p].seen, Call(p).n)
                  /\ h' = Append(h, [p |-> p, o |-> "add", v |-> 0])
                  /\ pc' = [pc EXCEPT ![p] = [i |-> @.i + 1, at |-> "idle", seen |-> 0]]
             ELSE /\ pc' = [pc EXCEPT ![p].at = "idle", ![p].seen = 0]
                  /\ UNCHANGED <<count, h>>
    /\ UNCHANGED <<init, calls, spec>>

Next == Sequential \/ \E p \in Threads : Step(p)
Spec == Init /\ [][Next]_vars

\* C14, in numbers that fit because Max is small here: all that was added
\* less all that was taken, except that credit above Max is cut off.
Value(n) == n[1] * (Max + 1) + n[2]
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Replay(_, _)
Replay(c, s) ==
    IF s = <<>> THEN c
    ELSE LET x == s[1]
             d == CASE x.o = "take" -> c - 1
                    [] x.o = "add" -> Min2(c + Value(x.n), Max)
                    [] OTHER -> c
         IN Replay(d, Tail(s))
Accounted ==
    ~Par =>
        /\ count \in Exact
        /\ count = Replay(Value(init) % (Max + 1), h)
        /\ \A n \in Numbers : Sum(count, n) = Min2(count + Value(n), Max)

\* C15.  The order in which calls take effect is a sequential order that
\* explains every value returned, and the count.
RECURSIVE Explains(_, _, _)
Explains(i, c, done) ==
    IF i > Len(h) THEN count = c
    ELSE LET x == h[i]
             op == calls[x.p][done[x.p] + 1]
         IN  /\ op.o = x.o
             /\ x.o = "take" => x.v = c
             /\ x.o = "zero" => x.v = (IF c = 0 THEN 1 ELSE 0)
             /\ Explains(i + 1,
                    CASE x.o = "take" -> c - 1 [] x.o = "add" -> Sum(c, op.n) [] OTHER -> c,
                    [done EXCEPT ![x.p] = @ + 1])
Serial == Par => Explains(1, Low(init), [p \in Threads |-> 0])
\* Below the ceiling, no permit is granted twice.
Granted ==
    Par /\ (\A p \in Threads : \A i \in 1..Len(calls[p]) : calls[p][i].o \in {"take", "zero"}) =>
        \A i, j \in 1..Len(h) : i # j /\ h[i].o = "take" /\ h[j].o = "take" => h[i].v # h[j].v

Emitted ==
    Asked("EMIT") =>
        IF Par THEN h = <<>> /\ (\A p \in Threads : pc[p].at = "idle") =>
                PrintT(ToJson([init |-> init, calls |-> calls]))
        ELSE Len(h) = Depth => PrintT(ToJson([init |-> init, ops |-> h]))
=============================================================================
