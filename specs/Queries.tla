------------------------------- MODULE Queries ------------------------------
(***************************************************************************)
(* What a node may answer to a query about the chain (ChainQ).             *)
(***************************************************************************)
EXTENDS ChainQ
Refused(e) == e.r \in {"null", "err"}
Tx(s, p, rich) == [id |-> Block(s, p[1]).txs[p[2]].id, b |-> IF rich THEN p[1] ELSE -1, h |-> IF rich THEN p[1] ELSE -1, i |-> IF rich THEN p[2] - 1 ELSE -1, bad |-> <<>>]
IsBlock(s, e) ==
  LET n == Resolve(s, e.at) IN
  IF n = -1 THEN Refused(e)
  ELSE /\ e.r = "ok" /\ e.n = n /\ e.h = n /\ e.parent = n - 1 /\ e.bad = <<>>
       /\ e.txs = [i \in 1..Len(Block(s, n).txs) |-> Tx(s, <<n, i>>, e.rich)]
IsCount(s, e) ==
  LET n == Resolve(s, e.at) IN
  IF n = -1 THEN Refused(e) \/ (e.r = "ok" /\ e.k = 0) ELSE e.r = "ok" /\ e.k = Len(Block(s, n).txs)
IsTx(s, e) ==
  LET p == Place(s, e.id) IN
  IF p # Nowhere THEN e.r = "ok" /\ e.got = Tx(s, p, TRUE)
  ELSE IF \E t \in s.pool : t.id = e.id THEN e.r = "ok" /\ e.got = [id |-> e.id, b |-> -1, h |-> -1, i |-> -1, bad |-> <<>>]
  ELSE Refused(e)
IsTxAt(s, e) ==
  LET n == Resolve(s, e.at) IN
  IF n = -1 \/ e.pos < 0 THEN Refused(e)
  ELSE IF e.pos >= Len(Block(s, n).txs) THEN Refused(e)
  ELSE e.r = "ok" /\ e.got = Tx(s, <<n, e.pos + 1>>, TRUE)
IsReceipt(s, e) ==
  LET p == Place(s, e.id) IN
  IF p = Nowhere THEN Refused(e)
  ELSE LET x == Block(s, p[1]).txs[p[2]] IN
       /\ e.r = "ok" /\ e.bad = <<>>
       /\ <<e.tx, e.b, e.h, e.i, e.st, e.new>> = <<x.id, p[1], p[1], p[2] - 1, x.st, x.new>>
       /\ e.logs = x.logs
IsLogs(s, e, range) ==
  IF e.only THEN IF Known(s, e.hash) = -1 THEN Refused(e) \/ (e.r = "ok" /\ e.logs = <<>>) ELSE e.r = "ok" /\ e.logs = BlockLogs(s, e.hash, e.want)
  ELSE LET from == Resolve(s, e.from)
           to == IF e.to.t \in {"num", "numobj"} /\ e.to.n > Tip(s) THEN Tip(s) ELSE Resolve(s, e.to)
       IN IF from = -1 \/ to = -1 THEN Refused(e) \/ (e.r = "ok" /\ e.logs = <<>>)
          ELSE IF to - from > range THEN Refused(e)
          ELSE IF from > to THEN Refused(e) \/ (e.r = "ok" /\ e.logs = <<>>)
          ELSE e.r = "ok" /\ e.logs = RangeLogs(s, from, to, e.want)
\* of a block that is not there nothing is told but that nothing is there
IsAccount(s, e) ==
  LET n == Resolve(s, e.at) IN
  IF n = -1 THEN Refused(e) \/ (e.r = "ok" /\ e.got \in {"0", "none"})
  ELSE LET w == Block(s, n) IN
       /\ e.r = "ok"
       /\ e.got = CASE e.op = "bal" -> Balance(w, e.a)
                    [] e.op = "nonce" -> ToString(Nonce(w, e.a) + IF e.at.t = "pending" THEN Waiting(s, e.a) ELSE 0)
                    [] OTHER -> IF IsToy(w, e.a) THEN "toy" ELSE "none"
IsSlot(s, e) ==
  LET n == Resolve(s, e.at) IN
  IF n = -1 THEN Refused(e) \/ (e.r = "ok" /\ e.got = 0) ELSE e.r = "ok" /\ e.got = Stored(Block(s, n), e.a, e.s)
IsCall(s, e) ==
  LET n == Resolve(s, e.at) IN
  IF n = -1 THEN Refused(e)
  ELSE LET c == Call(Block(s, n), e.a, e.recs) IN
       IF c.ok THEN e.r = "ok" /\ e.got = (IF e.op = "call" THEN c.ret ELSE 1) ELSE Refused(e)
IsProof(s, e) ==
  LET n == Resolve(s, e.at) IN
  IF n = -1 THEN Refused(e)
  ELSE LET w == Block(s, n) IN e.r = "ok" /\ e.good /\ e.nonce = Nonce(w, e.a) /\ e.slot = Stored(w, e.a, e.s)
Answer(s, e, range) ==
  CASE e.op = "number" -> e.r = "ok" /\ e.n = Tip(s)
    [] e.op = "block" -> IsBlock(s, e)
    [] e.op = "count" -> IsCount(s, e)
    [] e.op = "tx" -> IsTx(s, e)
    [] e.op = "txat" -> IsTxAt(s, e)
    [] e.op = "receipt" -> IsReceipt(s, e)
    [] e.op = "logs" -> IsLogs(s, e, range)
    [] e.op \in {"bal", "nonce", "code"} -> IsAccount(s, e)
    [] e.op = "slot" -> IsSlot(s, e)
    [] e.op \in {"call", "estimate"} -> IsCall(s, e)
    [] e.op = "proof" -> IsProof(s, e)
    \* who asks for a call that gives up is told why
    [] e.op = "revert" -> e.r = "err" /\ (e.form = "text" => e.says)
    [] e.op = "sendbad" -> Refused(e) /\ ~e.there
    [] e.op = "junk" -> e.r \notin {"panic", "stuck"}
    [] OTHER -> FALSE
=============================================================================
