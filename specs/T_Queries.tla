------------------------------ MODULE T_Queries -----------------------------
EXTENDS Replay, Queries
TStart(t) == {[c |-> NoChain, range |-> t.cfg.range]}
TSteps(s, e) ==
  IF e.op = "commit" THEN {[s EXCEPT !.c = Commit(s.c, e.txs, e.bal)]}
  ELSE IF e.op = "send" THEN IF e.r = "ok" /\ e.got = e.tx.id THEN {[s EXCEPT !.c = Send(s.c, e.tx)]} ELSE {}
  ELSE IF Answer(s.c, e, s.range) THEN {s} ELSE {}
TExpect(s, e) == [tip |-> Tip(s.c), op |-> e.op]
=============================================================================
