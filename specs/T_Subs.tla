------------------------------- MODULE T_Subs -------------------------------
EXTENDS Replay, Subs
TStart(t) == {[c |-> NoChain, cur |-> 0, subs |-> <<>>, box |-> <<>>, state |-> <<-1, 0, 0>>]}
\* when much time went by before it, there may have been a round nobody looked at, wherever it was
Hidden(s) == {s, Round(s)}
TSteps(s, e) ==
  CASE e.op = "commit" -> {[s EXCEPT !.c = Commit(s.c, e.txs, e.bal)]}
    [] e.op = "sub" -> IF e.kind = "odd" THEN IF e.r = "err" THEN {s} ELSE {}
                       ELSE IF e.r = "ok" THEN {Subscribe(s, e.kind, e.want)} ELSE {}
    [] e.op = "close" -> {[s EXCEPT !.subs[e.k].on = FALSE]}
    [] e.op = "sync" -> {[s EXCEPT !.state = e.v]}
    [] e.op = "syncing" -> IF e.r = "ok" /\ e.v = s.state THEN {s} ELSE {}
    [] e.op = "round" -> LET x == Round(s) IN
                         IF \/ e.got = x.box
                            \/ e.late   \* the clock ran away: nothing is judged until the next round
                         THEN {[x EXCEPT !.box = [k \in DOMAIN x.box |-> NoMail]]} ELSE {}
    [] OTHER -> {}
TExpect(s, e) == IF e.op = "round" THEN [tip |-> Tip(s.c), box |-> Round(s).box] ELSE [tip |-> Tip(s.c), box |-> <<>>]
=============================================================================
