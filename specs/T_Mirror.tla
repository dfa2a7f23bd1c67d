------------------------------ MODULE T_Mirror ------------------------------
EXTENDS Replay, Mirror
\* past: the state at each block; roots: the digests that contents were seen under
TStart(t) == {[s |-> NewMirror(t.cfg.nh, t.cfg.nc), past |-> <<>>, roots |-> {}]}
Same(o, s) == o.hdr = [h \in 1..Len(o.hdr) |-> s.hdr[h]] /\ o.cell = [p \in 1..Len(o.cell) |-> s.cell[p]]
\* the results of one block's transactions, and the state after them
RECURSIVE Apply(_, _)
Apply(s, l) ==
  IF l = <<>> THEN {s}
  ELSE LET r == Call(s, l[1])
           good == IF l[1].k = "ask" THEN l[1].ok = (s.hdr[l[1].h] # 0) /\ l[1].got = s.hdr[l[1].h]
                   ELSE l[1].ok = r.ok
       IN IF good THEN Apply(r.s, Tail(l)) ELSE {}
\* a digest stands for one content and a content has one digest
Digest(x, y, r) == \A q \in x.roots : (q.r = r) <=> (q.s = y)
TSteps(x, e) ==
  CASE e.op = "block" ->
         {[s |-> y, past |-> Append(x.past, y), roots |-> x.roots \cup {[s |-> y, r |-> e.root]}] :
             y \in {y \in Apply(x.s, e.txs) : Same(e.live, y) /\ Same(e.disk, y) /\ e.metadata /\ Digest(x, y, e.root)}}
    [] e.op = "past" -> IF Same(e.live, x.past[e.n]) /\ Same(e.disk, x.past[e.n]) /\ e.call = x.past[e.n].hdr[e.h] THEN {x} ELSE {}
    [] e.op = "restart" -> IF Same(e.live, x.s) THEN {x} ELSE {}
    [] OTHER -> {}
TExpect(x, e) == IF e.op = "block" THEN Apply(x.s, e.txs) ELSE IF e.op = "past" THEN x.past[e.n] ELSE x.s
=============================================================================
