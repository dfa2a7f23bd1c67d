------------------------------- MODULE T_Keys -------------------------------
EXTENDS Replay, Keys
TStart(t) == {[x |-> 0]}
Rng(s) == {s[i] : i \in 1..Len(s)}
Sig(e) == [key |-> e.k, msg |-> e.m, alter |-> e.alter]
Allowed(e) ==
  CASE e.op = "verify" -> {[ok |-> Verifies(Sig(e), e.ck, e.cm)]}
    [] e.op = "recover" -> IF MayRecover(Sig(e), e.cm, e.k) THEN {[who |-> e.k]} ELSE {[who |-> w] : w \in (0..9) \ {e.k}}
    [] e.op = "agg" -> {[ok |-> AggVerifies(Rng(e.signers), e.msgs, Rng(e.keys), e.cm)]}
    [] e.op = "parse" -> {[ok |-> e.valid]}
    [] e.op = "refused" -> {[ok |-> FALSE]}
    [] e.op = "secret" -> {[leaks |-> FALSE]}
TSteps(s, e) == IF e.out \in Allowed(e) THEN {s} ELSE {}
TExpect(s, e) == Allowed(e)
=============================================================================
