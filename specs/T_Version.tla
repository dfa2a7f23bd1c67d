------------------------------ MODULE T_Version -----------------------------
EXTENDS Replay, Version
\* the state: what is recorded, and the bytes it is recorded as
TStart(t) == {[rec |-> t.cfg.rec, bytes |-> t.cfg.bytes]}
Went(s, e) == [rec |-> After(s.rec, e.least, e.cur), bytes |-> IF MayStart(s.rec, e.least) THEN e.curbytes ELSE s.bytes]
Out(s, e) == [started |-> MayStart(s.rec, e.least), left |-> Went(s, e).bytes]
TSteps(s, e) ==
  CASE e.op = "start" -> IF e.out = Out(s, e) THEN {Went(s, e)} ELSE {}
    [] e.op = "order" -> IF e.out = [lt |-> VLt(e.a, e.b), gt |-> VLt(e.b, e.a)] THEN {s} ELSE {}
    [] e.op = "print" -> IF e.out = [same |-> TRUE] THEN {s} ELSE {}
    \* the process was killed while it started
    [] e.op = "killed" -> IF e.out.left \in {s.bytes, Went(s, e).bytes} THEN {s} ELSE {}
TExpect(s, e) == IF e.op \in {"start", "killed"} THEN {Out(s, e)} ELSE {}
=============================================================================
