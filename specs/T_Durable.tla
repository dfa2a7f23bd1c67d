------------------------------ MODULE T_Durable -----------------------------
EXTENDS Replay, Durable
\* cfg: the name that is replaced, its old contents (<<-2>> for none) and the new
First(old) == IF old = <<-2>> THEN [New EXCEPT !.sure = <<[n |-> "P", i |-> 0]>>] ELSE [ino |-> <<[data |-> old, safe |-> old]>>, names |-> <<[n |-> "P", i |-> 1]>>, sure |-> <<[n |-> "P", i |-> 1]>>]
TStart(t) == {[d |-> First(t.cfg.old), old |-> t.cfg.old, new |-> t.cfg.new]}
TSteps(s, e) ==
  IF e.op = "end" THEN IF Found(s.d, "P") = {s.new} THEN {s} ELSE {}
  ELSE LET d == Apply(s.d, e) IN IF Found(d, "P") \subseteq {s.old, s.new} THEN {[s EXCEPT !.d = d]} ELSE {}
TExpect(s, e) == {s.old, s.new}
=============================================================================
