------------------------------ MODULE T_Filters -----------------------------
EXTENDS Replay, Filters
TStart(t) == {[c |-> NoChain, fs |-> <<>>, range |-> t.cfg.range]}
\* filters by number; there is no filter any more where `on` is false
Has(s, k) == k \in 1..Len(s.fs) /\ s.fs[k].on
Put(s, k, f) == [s EXCEPT !.fs[k] = [on |-> TRUE, f |-> f]]
Off(s, k) == [s EXCEPT !.fs[k].on = FALSE]
Polls(s, e) ==
  (IF Has(s, e.f) /\ MayLive(s.fs[e.f].f, e.t)
   THEN LET p == Poll(s.c, s.fs[e.f].f, e.t, s.range) IN
        IF e.r = p.r /\ e.logs = p.logs /\ e.blocks = p.blocks THEN {IF p.keep THEN Put(s, e.f, p.f) ELSE Off(s, e.f)} ELSE {}
   ELSE {})
  \cup
  (IF ~Has(s, e.f) \/ MayBeGone(s.fs[e.f].f, e.t)
   THEN IF e.r = "err" THEN {IF Has(s, e.f) THEN Off(s, e.f) ELSE s} ELSE {}
   ELSE {})
\* who asked has gone: the answer is not known
Unseen(s, e) ==
  {s} \cup (IF Has(s, e.f) THEN
     CASE e.m = "poll" -> LET p == Poll(s.c, s.fs[e.f].f, e.t, s.range) IN {IF p.keep THEN Put(s, e.f, p.f) ELSE Off(s, e.f)}
       [] e.m = "drop" -> {Off(s, e.f)}
       [] OTHER -> {}
   ELSE {})
TSteps(s, e) ==
  CASE e.op = "commit" -> {[s EXCEPT !.c = Commit(s.c, e.txs, e.bal)]}
    [] e.op = "newL" -> IF BadRange(e.from, e.to) THEN IF e.r = "err" THEN {s} ELSE {}
                        ELSE IF e.r = "ok" THEN {[s EXCEPT !.fs = Append(@, [on |-> TRUE, f |-> LogFilter(s.c, e.from, e.to, e.want, e.t)])]} ELSE {}
    [] e.op = "newB" -> IF e.r = "ok" THEN {[s EXCEPT !.fs = Append(@, [on |-> TRUE, f |-> BlockFilter(s.c, e.t)])]} ELSE {}
    [] e.op = "poll" -> Polls(s, e)
    [] e.op = "both" -> UNION {Polls(x, e.b) : x \in Polls(s, e.a)} \cup UNION {Polls(x, e.a) : x \in Polls(s, e.b)}
    [] e.op = "drop" -> IF e.r # "ok" THEN {}
                        ELSE (IF e.was /\ Has(s, e.f) /\ MayLive(s.fs[e.f].f, e.t) THEN {Off(s, e.f)} ELSE {})
                        \cup (IF ~e.was /\ (~Has(s, e.f) \/ MayBeGone(s.fs[e.f].f, e.t)) THEN {IF Has(s, e.f) THEN Off(s, e.f) ELSE s} ELSE {})
    [] e.op = "lost" -> Unseen(s, e)
    [] OTHER -> {}
TExpect(s, e) == IF e.op = "poll" /\ Has(s, e.f) THEN [tip |-> Tip(s.c), p |-> Poll(s.c, s.fs[e.f].f, e.t, s.range)] ELSE [tip |-> Tip(s.c), p |-> [r |-> "none"]]
=============================================================================
