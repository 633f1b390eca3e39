------------------------------- MODULE MCTables -------------------------------
(* Consistency of the tables, entry by entry.                                *)
EXTENDS Tables, IOUtils

VARIABLES which, i
Init == \/ which = "mime" /\ i \in 1..Len(Mimes)
        \/ which = "code" /\ i \in 1..10
        \/ which = "type" /\ i \in 1..15
        \/ which = "value" /\ i \in 0..63
        \/ which = "flags" /\ i \in 0..1023
        \/ which = "version" /\ i \in 0..255
Next == FALSE /\ UNCHANGED <<which, i>>
Spec == Init /\ [][Next]_<<which, i>>

One(S) == CHOOSE x \in S : TRUE
MimeBijection ==
    which = "mime" =>
        /\ \A j \in 1..Len(Mimes) : j # i => Mimes[j][2] # Mimes[i][2] /\ Mimes[j][1] # Mimes[i][1]
        /\ Parsed(Mimes[i][2]) = i
        /\ Parsed(Mimes[i][2] \o " ") = 1
        /\ One(ParseOuts(Mimes[i][2])).text = Mimes[i][2]
Codes ==
    which = "code" =>
        LET e == Protocol[i] IN
        /\ e.num \in ConnCodes \cup StreamCodes
        /\ \A j \in 1..10 : j # i => Protocol[j].num # e.num /\ Protocol[j].kind # e.kind
        /\ Yes(e.kind) \cap ProtocolKinds = {e.kind}
        /\ \A c \in {None, Some("x: y")} :
            TextFits(e.kind, e.text \o (IF Has(c) THEN ": " \o c[1] ELSE ""), c)
        /\ ~TextFits(e.kind, e.text \o "x", None) /\ ~TextFits(e.kind, "x" \o e.text, None)
        /\ (e.num \in ConnCodes) = (One(CodeOuts(i)).zero = "ok" /\ One(CodeOuts(i)).one = "sid")
        /\ (e.num \in StreamCodes) = (One(CodeOuts(i)).one = "ok" /\ One(CodeOuts(i)).zero = "sid")
TypesBijective ==
    /\ which = "type" => NameOf(TypeValue(i)) = Some(Types[i]) /\ TypeValue(i) \in 0..63
    /\ which = "value" =>
        (Has(NameOf(i)) <=> \E j \in 1..15 : TypeValue(j) = i /\ NameOf(i) = Some(Types[j]))
FlagsAlone ==
    which = "flags" =>
        \A x \in FlagNames :
            /\ Bit(i, x[2]) = Bit(DefinedFlags(i), x[2])
            /\ \A b \in FlagBits : b # x[2] =>
                 Bit(i, x[2]) = Bit(IF Bit(i, b) THEN i - b ELSE i + b, x[2])
Versions ==
    which = "version" =>
        LET a == <<i \div 64, (i \div 16) % 4>>
            b == <<(i \div 4) % 4, i % 4>>
        IN  /\ Order(a, b) = -Order(b, a)
            /\ (Order(a, b) = 0) = (a = b)
            /\ (Order(a, b) < 0) = (4 * a[1] + a[2] < 4 * b[1] + b[2])
            /\ One(VersionsOuts(<<65535, 10>>, b)).text = "65535.10"
=============================================================================
