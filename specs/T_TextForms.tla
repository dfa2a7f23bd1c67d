---------------------------- MODULE T_TextForms -----------------------------
EXTENDS Replay, TextForms
TStart(t) == {[x |-> 0]}
Zeroed(s) == Starts(s, OX) /\ Len(s) > 3 /\ s[3] = 48
Allowed(e) ==
  CASE e.op = "hex" -> {ParseHex(e.s)}
    [] e.op = "loose" -> {ParseLoose(e.s)}
    [] e.op = "printhex" -> {[s |-> PrintHex(e.b)]}
    [] e.op = "uint" -> {ParseUint(e.s, e.w)} \cup (IF Zeroed(e.s) THEN {Refused} ELSE {})
    [] e.op = "printuint" -> {[s |-> PrintUint(e.n)]}
    [] e.op = "address" -> {ParseAddress(e.s)}
    [] e.op = "checked" -> {ParseChecked(e.s, e.d)}
    \* in configuration files the prefix may be left out
    [] e.op = "confaddr" -> {IF Starts(e.s, OX) THEN ParseChecked(e.s, e.d) ELSE ParseChecked(OX \o e.s, e.d)}
    [] e.op = "rawaddr" -> {IF Len(e.b) = 20 THEN [b |-> e.b] ELSE Refused}
    [] e.op = "printaddr" -> {[s |-> PrintAddress(e.a, e.d)]}
    [] e.op = "key" -> {ParseFixed(e.s, 32)}
    [] e.op = "clikey" -> {ParseSecret(e.s)}
    [] e.op = "secret" -> {[leaks |-> FALSE]}
    [] e.op = "pubaddr" -> {IF e.n \in {33, 65} THEN [a |-> SubSeq(e.d, 13, 32)] ELSE Refused}
TSteps(s, e) == IF e.out \in Allowed(e) THEN {s} ELSE {}
TExpect(s, e) == Allowed(e)
=============================================================================
