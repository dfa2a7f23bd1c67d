------------------------------ MODULE T_Quorum ------------------------------
EXTENDS Replay, Quorum
TStart(t) == {[x |-> 0]}
TSteps(s, e) == IF e.out = [accept |-> Accepts(e.t)] THEN {s} ELSE {}
TExpect(s, e) == [accept |-> Accepts(e.t)]
=============================================================================
