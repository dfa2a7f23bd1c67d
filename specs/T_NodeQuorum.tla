----------------------------- MODULE T_NodeQuorum ----------------------------
EXTENDS Replay, NodeQuorum
TStart(t) == {[x |-> 0]}
Fits(e) ==
  CASE e.op = "verify" -> e.out = [accept |-> NodeAccepts(e.t)]
    [] e.op = "votes" -> (e.t.garble \notin {"bitmap_empty"} => e.out = [accept |-> VotesFit(e.t)])
    [] e.op = "combine" -> e.out = [same |-> TRUE, uneven |-> TRUE, each |-> TRUE, crossed |-> TRUE, stranger |-> TRUE]
    [] OTHER -> FALSE
TSteps(s, e) == IF Fits(e) THEN {s} ELSE {}
TExpect(s, e) == IF e.op = "verify" THEN [accept |-> NodeAccepts(e.t)] ELSE [accept |-> e.op = "combine" \/ VotesFit(e.t)]
=============================================================================
