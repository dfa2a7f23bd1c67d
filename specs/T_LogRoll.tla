------------------------------ MODULE T_LogRoll -----------------------------
EXTENDS Replay, LogRoll
TStart(t) == {[cfg |-> t.cfg, axon |-> Empty, metrics |-> Empty, cli |-> <<>>]}
\* what the directory shows of a stream: no two archives may show the same records, so a set and a count agree
Shows(s, o) == /\ o.active = s.active
               /\ LET non == SelectSeq(o.arch, LAMBDA a : a.recs # <<>>) IN
                  /\ {non[i] : i \in 1..Len(non)} = Bag(s)
                  /\ Len(non) = Cardinality(Bag(s))
\* a stream after a record: it is set aside exactly when it outgrew the limit
After(s, id, d, o, limit) == LET w == Write(s, id) IN
   {x \in {w, Roll(w, d)} : Shows(x, o)}
TSteps(s, e) ==
  CASE e.op = "write" -> {x \in {[s EXCEPT !.axon = Write(@, e.id)]} : Shows(x.axon, e.out)}
    [] e.op = "roll" -> IF ~e.ok /\ s.axon.active # <<>> THEN {} ELSE {x \in {[s EXCEPT !.axon = Roll(@, e.date)]} : Shows(x.axon, e.out)}
    [] e.op = "log" ->
         LET to == Sink(s.cfg, e.target, e.level) IN
         {x \in {[s EXCEPT !.axon = a, !.metrics = m, !.cli = IF to = "cli" THEN Append(@, e.id) ELSE @] :
                  a \in IF to = "axon" THEN After(s.axon, e.id, e.date, e.out.axon, s.cfg.limit) ELSE {s.axon},
                  m \in IF to = "metrics" THEN After(s.metrics, e.id, e.date, e.out.metrics, s.cfg.limit) ELSE {s.metrics}} :
            /\ Shows(x.axon, e.out.axon) /\ Shows(x.metrics, e.out.metrics) /\ e.out.cli = x.cli
            \* no active file is left larger than the limit
            /\ e.sizes.axon <= s.cfg.limit /\ e.sizes.metrics <= s.cfg.limit}
    [] OTHER -> {}
TExpect(s, e) == IF e.op = "log" THEN <<Sink(s.cfg, e.target, e.level), s.axon, s.metrics, s.cli>> ELSE <<e.op, s.axon>>
=============================================================================
