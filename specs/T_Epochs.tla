------------------------------ MODULE T_Epochs ------------------------------
EXTENDS Replay, Epochs
First(c) == [eps |-> [i \in 1..Len(c.first) |-> Epoch(c.first[i].start, c.first[i].end, c.first[i].vals, c.na)], cfg |-> c.cfg, ckb |-> 0]
TStart(t) == {[s |-> First(t.cfg), na |-> t.cfg.na, n |-> 0, past |-> <<>>]}
Seen(o, s) ==
  /\ o.cfg = s.cfg /\ o.ckb = s.ckb
  /\ Len(o.eps) = Len(s.eps)
  /\ \A i \in 1..Len(o.eps) : LET q == o.eps[i] IN
       /\ q.e = i - 1 /\ q.start = s.eps[i].start /\ q.end = s.eps[i].end /\ q.vals = s.eps[i].vals
       /\ \A a \in DOMAIN s.eps[i].cnt : q.cnt[a] = s.eps[i].cnt[a]
       /\ q.counted = Cardinality({a \in DOMAIN s.eps[i].cnt : In(s.eps[i].vals, a)})
  /\ \A j \in 1..Len(o.at) : LET q == o.at[j] IN
       /\ q.e = EpochOf(s, q.n) /\ q.last = Last(s, q.n)
       /\ q.contains = [i \in 1..Len(o.eps) |-> EpochOf(s, q.n) = i - 1]
       /\ q.valid = [a \in 1..Len(q.valid) |-> IsValidator(s, q.n, a)]
RECURSIVE Txs(_, _, _, _)
Txs(s, n, l, na) ==
  IF l = <<>> THEN {s} ELSE LET r == Call(s, n, l[1], na) IN IF l[1].ok = r.ok THEN Txs(r.s, n, Tail(l), na) ELSE {}
After(x, e) == {Count(y, x.n + 1, e.proposer) : y \in Txs(x.s, x.n + 1, e.txs, x.na)}
TSteps(x, e) ==
  CASE e.op = "genesis" -> IF Seen(e.look, x.s) THEN {x} ELSE {}
    [] e.op = "block" -> {[x EXCEPT !.s = y, !.n = @ + 1, !.past = Append(@, y)] : y \in {y \in After(x, e) : Seen(e.look, y)}}
    [] e.op = "restart" -> IF Seen(e.look, x.s) THEN {x} ELSE {}
    [] e.op = "past" -> IF Seen(e.look, x.past[e.n]) THEN {x} ELSE {}
    [] OTHER -> {}
TExpect(x, e) == CASE e.op = "block" -> <<"right", [i \in 1..Len(e.txs) |-> IF e.txs[i].k = "evm" THEN TRUE ELSE Right(x.s, x.n + 1, e.txs[i])], After(x, e)>>
                   [] e.op = "past" -> x.past[e.n]
                   [] e.op = "crash" -> "a block is executed"
                   [] OTHER -> x.s
=============================================================================
