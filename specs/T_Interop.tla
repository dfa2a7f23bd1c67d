------------------------------ MODULE T_Interop -----------------------------
EXTENDS Replay, Interop
TStart(t) == {[x |-> 0]}
Refused == [error |-> TRUE]
Dig(tab, p) == LET h == {i \in 1..Len(tab) : tab[i].p = p} IN
               IF h = {} THEN <<>> ELSE tab[CHOOSE i \in h : TRUE].d
Cross(e) == LET p == Signer(e.r) IN
            IF p.ok THEN {[cross |-> SubSeq(Dig(e.tab, p.key), 13, 32)]} \cup (IF p.whole THEN {} ELSE {Refused})
            ELSE {Refused}
Allowed(e) ==
  CASE \* a transaction that came over the wire, with these two parts of its signature
       e.op = "wire" -> IF Plain(e.r, e.s) THEN {IF e.plain # <<>> THEN [plain |-> e.plain] ELSE Refused} ELSE Cross(e)
    [] e.op = "sender" -> Cross(e)
    [] e.op = "encode" -> {[enc |-> EncOf(e.kind, e.v), same |-> TRUE]}
    [] e.op = "mangled" -> {[safe |-> TRUE]}
TSteps(s, e) == IF e.out \in Allowed(e) THEN {s} ELSE {}
TExpect(s, e) == Allowed(e)
=============================================================================
