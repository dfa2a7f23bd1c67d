------------------------------- MODULE T_Money -------------------------------
EXTENDS Replay, Money
New(c) == [bal |-> c.bal, nonce |-> c.nonce, slot |-> <<0, 0, 0>>, gone |-> {}]
TStart(t) == {[s |-> New(t.cfg), past |-> <<New(t.cfg)>>, roots |-> <<>>]}
Seen(o, s) ==
  /\ o.bal = s.bal /\ o.slot = s.slot
  /\ \A a \in 1..Len(o.nonce) : o.nonce[a] = s.nonce[a]
\* what a call finds at an earlier state
Answer(e, s) == CASE e.what = "bal" -> s.bal[e.a] [] e.what = "slot" -> s.slot[e.a] [] e.what = "number" -> e.at
                  [] e.what = "nonce" -> s.nonce[e.a]
Sums(e) == e.gas = LET RECURSIVE G(_)
                       G(l) == IF l = <<>> THEN 0 ELSE l[1].g + G(Tail(l)) IN G(e.txs)
TSteps(x, e) ==
  CASE e.op = "block" -> LET r == Block(x.s, e) IN
         IF r.ok /\ Seen(e.after, r.s) /\ Sums(e) THEN {[s |-> r.s, past |-> Append(x.past, r.s), roots |-> Append(x.roots, e.root)]} ELSE {}
    \* another node executes the same block
    [] e.op = "twin" -> IF e.root = x.roots[Len(x.roots)] THEN {x} ELSE {}
    [] e.op = "ask" -> IF e.got = Answer(e, x.past[e.at]) THEN {x} ELSE {}
    \* a call that would change things if it were a transaction
    [] e.op = "try" -> {x}
    [] e.op = "see" -> IF Seen(e.after, x.past[e.at]) THEN {x} ELSE {}
    [] OTHER -> {}
TExpect(x, e) ==
  CASE e.op = "block" -> <<Block(x.s, e), [i \in 1..Len(e.txs) |-> e.txs[i].to < 0 \/ GasFits(e.txs[i])]>>
    [] e.op \in {"ask", "see"} -> x.past[e.at]
    [] OTHER -> "no other result"
=============================================================================
