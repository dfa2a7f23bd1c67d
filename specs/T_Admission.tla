---------------------------- MODULE T_Admission ----------------------------
EXTENDS Replay, Admission
TStart(t) == {[c |-> t.cfg, s |-> NewChain(t.cfg.nonces)]}
TSteps(x, e) ==
  CASE e.op = "insert" -> IF e.ok = Admissible(x.s, x.c, e.t) /\ e.in = e.ok THEN {x} ELSE {}
    [] e.op = "commit" -> {[x EXCEPT !.s = Commit(x.s, {e.q[i] : i \in 1..Len(e.q)}, e.nonces, e.h)]}
    \* while a block is being committed: by the state before or after it
    [] e.op = "during" ->
         LET y == Commit(x.s, {e.q[i] : i \in 1..Len(e.q)}, e.nonces, e.h) IN
         IF e.ok \in {Admissible(x.s, x.c, e.t), Admissible(y, x.c, e.tt)} THEN {x} ELSE {}
    [] OTHER -> {}
TExpect(x, e) == IF e.op = "commit" THEN {} ELSE <<"admissible", Admissible(x.s, x.c, e.t), "nonces", x.s.nonce, "validators", Validators(x.c, x.s.h + 1), "committed", x.s.old>>
=============================================================================
