------------------------------- MODULE T_Pool -------------------------------
(* Traces of the real pool, its adapter, storage and executor.              *)
EXTENDS Replay, Pool
\* the transactions and bounds of a trace come with it
TStart(t) == {[u |-> t.cfg.txs, cap |-> t.cfg.cap, T |-> t.cfg.timeout, p |-> NewPool(t.cfg.nonces, t.cfg.txs)]}
With(s, P) == {[s EXCEPT !.p = q] : q \in P}
Out(M, ok) == {m.s : m \in {m \in M : m.ok = ok}}
RECURSIVE InsertAll(_, _, _, _, _)
InsertAll(P, U, cap, q, oks) == IF q = <<>> THEN P
  ELSE InsertAll(UNION {Out(MayInsert(p, U, cap, Head(q)), Head(oks)) : p \in P}, U, cap, Tail(q), Tail(oks))
TSteps(s, e) ==
  CASE e.op = "insert" -> With(s, Out(MayInsert(s.p, s.u, s.cap, e.i), e.ok))
    \* several at once: as if one after the other
    [] e.op = "inserts" -> With(s, InsertAll({s.p}, s.u, s.cap, e.q, e.oks))
    [] e.op = "package" -> IF PackageOK(s.p, s.u, e.limit, e.gas, e.out, e.k) THEN {s} ELSE {}
    [] e.op = "commit" -> With(s, {Flush(s.p, s.u, ToSet(e.q), e.nonces, e.h, s.T)})
    [] e.op = "ensure" -> With(s, Out(MayEnsure(s.p, s.u, e.q, e.asked, e.reply), e.ok))
    \* what is asked for by hash, in this order
    [] e.op = "full" ->
         LET sure == Held(s.p) \cup s.p.old maybe == s.p.ghost q == ToSet(e.q) IN
         IF e.out = e.q /\ q \subseteq sure \cup maybe THEN {s}
         ELSE IF e.out = <<-1>> /\ ~(q \subseteq sure) THEN {s} ELSE {}
    \* contains, and get by hash, of every transaction; the size
    [] e.op = "look" ->
         LET H == ToSet(e.has) IN
         IF Held(s.p) \subseteq H /\ H \subseteq Held(s.p) \cup s.p.ghost /\ e.got = e.has /\ e.len = Cardinality(H)
         THEN {[s EXCEPT !.p.ghost = @ \cap H]} ELSE {}
    [] OTHER -> {}
TExpect(s, e) ==
  CASE e.op \in {"insert", "inserts"} -> <<"held", Held(s.p), "nonces", s.p.nonce, "committed", s.p.old, "cap", s.cap>>
    [] e.op = "package" -> <<"sys", s.p.sys, "runs", Runs(s.p, s.u)>>
    [] e.op = "look" -> <<"held", Held(s.p), "replaced", s.p.ghost>>
    [] OTHER -> <<"held", Held(s.p), "replaced", s.p.ghost, "old", s.p.old>>
=============================================================================
