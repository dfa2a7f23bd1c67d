----------------------------- MODULE T_Contracts -----------------------------
EXTENDS Replay, Contracts
Eps(c) == [i \in 1..Len(c.first) |-> E!Epoch(c.first[i].start, c.first[i].end, c.first[i].vals, NA)]
New(c) == [bal |-> c.bal, e |-> [eps |-> Eps(c), cfg |-> 0, ckb |-> 0], m |-> M!NewMirror(2, 2), n |-> c.n]
TStart(t) == {[s |-> New(t.cfg), seen |-> {[s |-> New(t.cfg), id |-> t.cfg.sys]}]}
\* what a contract keeps and what it is seen to keep go together
Fits(q, s, id) ==
  /\ q.id[1] = id[1]
  /\ (q.s.e = s.e) <=> (q.id[2] = id[2])
  /\ (q.s.m = s.m) <=> (q.id[3] = id[3])
  /\ (q.s.m = s.m) <=> (q.id[4] = id[4])
After(s, e) == LET r == Calls(s, s.n + 1, e.txs) IN [r EXCEPT !.s.n = @ + 1]
TSteps(x, e) ==
  CASE e.op = "block" ->
         LET r == After(x.s, e)
         IN IF r.ok /\ e.bal = r.s.bal /\ \A q \in x.seen : Fits(q, r.s, e.sys) THEN {[s |-> r.s, seen |-> x.seen \cup {[s |-> r.s, id |-> e.sys]}]} ELSE {}
    [] OTHER -> {}
TExpect(x, e) == IF e.op = "block" THEN After(x.s, e) ELSE "no other result"
=============================================================================
