---------------------------- MODULE T_Validator -----------------------------
EXTENDS Replay, Validator
TStart(t) == {[s |-> Fresh(t.cfg.fork), at |-> t.cfg.stop]}
SetOf(q) == {q[i] : i \in 1..Len(q)}
Seen(o, s) ==
  /\ o.chain = s.chain /\ (o.beyond => s.proof > Tip(s))
  /\ o.proof = s.proof /\ o.status = s.proof
  /\ o.keys = <<s.keys>>
  /\ SetOf(o.pool) = s.pool
  /\ o.fork = <<s.fork, s.fork>>
  /\ Len(o.serve) = Tip(s) + 1 /\ \A n \in 1..Len(o.serve) : o.serve[n] \in Serves(s, n)
Keep(X, e) == {x \in X : Seen(e.now, x.s)}
With(x, s) == [x EXCEPT !.s = s]

Commits(x, e) ==   \* the possible nodes afterwards, and what is answered
  LET s == x.s
      stopped == s.stop \/ StopsAt(e.n, x.at)
      t == [s EXCEPT !.stop = stopped]
      no == IF e.out.ok \/ e.heard # <<>> THEN {} ELSE {t} IN
  IF stopped \/ e.lock THEN no
  ELSE IF e.n = Tip(s) THEN IF e.out.ok /\ e.out.next = e.n + 1 /\ e.out.set = SetAt(e.n + 1) /\ e.heard = <<>> THEN {t} ELSE {}
  ELSE IF ~Turn(s, e.n) \/ ~Held(s, e.n, e.v) THEN no
  ELSE IF e.out.ok /\ e.out.next = e.n + 1 /\ e.out.set = SetAt(e.n + 1) /\ e.heard = <<e.n>> THEN {Committed(t, e.n, e.v)} ELSE {}
Syncs(x, e) == {r[1] : r \in {r \in Synced(x.s, e.remote, e.vs, e.at, e.bad, e.lock) : r[2] = e.ok}}
Inner(x, e) == IF e.op = "commit" THEN Commits(x, e) ELSE Syncs(x, e)
Crashes(x, e) == UNION {(IF e.all THEN {Restarted(t)} ELSE {Restarted(b) : b \in Between(x.s, t)}) : t \in Inner(x, e.inner)}

Judges(x, e) ==
  LET s == x.s
      yes == Approves(s, e.alter, e.fork, e.hash, e.txs, e.peers)
      may == Harmless(s, e.alter) /\ e.hash = "right" /\ Available(s, e.txs, e.peers)
      pool == SetOf(e.now.pool)
      had == <<Tip(s) + 1, e.root>> \in s.wal
  IN
  CASE e.ok = 1 /\ (yes \/ may) -> IF e.wal = e.txs /\ Els(e.txs) \subseteq pool THEN {[Saved(s, e.txs) EXCEPT !.pool = @ \cup Els(e.txs)]} ELSE {}
    [] e.ok = 0 /\ ~yes ->
         IF e.wal # (IF had THEN e.root ELSE <<0>>) THEN {}
         ELSE IF e.peers /\ pool \subseteq s.pool \cup Els(e.txs) /\ s.pool \subseteq pool /\ pool \cap OnChain(s) = {} THEN {[s EXCEPT !.pool = pool]} ELSE {s}
    [] OTHER -> {}

TSteps(x, e) ==
  LET s == x.s IN
  CASE e.op = "give" ->
         LET got == {i \in 1..Len(e.txs) : Takes(s, e.txs[i])} IN
         IF \A i \in 1..Len(e.txs) : e.ok[i] = (i \in got) THEN Keep({With(x, [s EXCEPT !.pool = @ \cup {e.txs[i] : i \in got}])}, e) ELSE {}
    [] e.op = "propose" ->
         LET t == Forked(s) IN
         IF CanPropose(s) THEN IF e.out.ok /\ e.out.good /\ e.out.prev /\ SetOf(e.out.txs) = s.pool /\ Len(e.out.txs) = Cardinality(s.pool) /\ e.out.fork = (t.fork # 0) THEN Keep({With(x, t)}, e) ELSE {}
         ELSE IF e.out.ok THEN {} ELSE Keep({With(x, t)}, e)
    [] e.op = "check" -> Keep({With(x, t) : t \in Judges(x, e)}, e)
    [] e.op = "commit" -> Keep({With(x, t) : t \in Commits(x, e)}, e)
    [] e.op = "sync" -> Keep({With(x, t) : t \in Syncs(x, e)}, e)
    [] e.op = "restart" -> Keep({With(x, Restarted(s))}, e)
    [] e.op = "crash" -> Keep({With(x, t) : t \in Crashes(x, e)}, e)
    [] OTHER -> {}
TExpect(x, e) ==
  CASE e.op = "check" -> <<"approve", Approves(x.s, e.alter, e.fork, e.hash, e.txs, e.peers), Judges(x, e), x.s>>
    [] e.op = "commit" -> <<Commits(x, [e EXCEPT !.out = [ok |-> TRUE, next |-> e.n + 1, set |-> SetAt(e.n + 1)], !.heard = <<e.n>>]), x.s>>
    [] e.op = "sync" -> <<Synced(x.s, e.remote, e.vs, e.at, e.bad, e.lock), x.s>>
    [] e.op = "crash" -> <<Crashes(x, e), x.s>>
    [] e.op = "restart" -> Restarted(x.s)
    [] OTHER -> x.s
=============================================================================
