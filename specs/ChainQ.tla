------------------------------- MODULE ChainQ -------------------------------
(***************************************************************************)
(* A chain as those see it who ask a node about it.  Blocks hold           *)
(* transactions that pay, make the toy contract, or call it with a list of *)
(* records: 0..4 a log with so many topics, 5 write a slot, 6 fail,        *)
(* 7 return a slot, 8 fail if a slot has a value.  Everything that can be  *)
(* asked about block n is decided by blocks 0..n alone.                    *)
(*   accounts: 1..3 people, 11..13 contracts in the order they were made,  *)
(*   20 nobody                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoChain == [blocks |-> <<>>, pool |-> {}]
Tip(s) == Len(s.blocks) - 1
Block(s, n) == s.blocks[n + 1]
Empty == [nonce |-> <<0, 0, 0>>, made |-> 0, slots |-> [c \in 1..3 |-> <<0, 0, 0>>], txs |-> <<>>, bal |-> <<>>]
World(s) == IF s.blocks = <<>> THEN Empty ELSE Block(s, Tip(s))

\* ---- what a call does --------------------------------------------------------
RECURSIVE Go(_, _, _, _)
Go(sl, recs, i, logs) ==
  IF i > Len(recs) THEN [ok |-> TRUE, slots |-> sl, logs |-> logs, ret |-> -1]
  ELSE LET r == recs[i] IN
    CASE r.op <= 4 -> Go(sl, recs, i + 1, Append(logs, [t |-> SubSeq(r.w, 1, r.op), d |-> i - 1]))
      [] r.op = 5 -> Go([sl EXCEPT ![r.w[1]] = r.w[2]], recs, i + 1, logs)
      [] r.op = 7 -> [ok |-> TRUE, slots |-> sl, logs |-> logs, ret |-> sl[r.w[1]]]
      [] r.op = 8 /\ sl[r.w[1]] # r.w[2] -> Go(sl, recs, i + 1, logs)
      [] OTHER -> [ok |-> FALSE, slots |-> sl, logs |-> <<>>, ret |-> -1]
IsToy(w, a) == a > 10 /\ a <= 10 + w.made
Call(w, a, recs) == IF IsToy(w, a) THEN Go(w.slots[a - 10], recs, 1, <<>>) ELSE [ok |-> TRUE, slots |-> <<0, 0, 0>>, logs |-> <<>>, ret |-> -1]

\* the world after one more transaction of block b
Apply(w, tx, b) ==
  LET r == Call(w, tx.to, tx.recs)
      n == [w.nonce EXCEPT ![tx.from] = @ + 1]
      L == [j \in 1..Len(r.logs) |-> [a |-> tx.to, t |-> r.logs[j].t, d |-> r.logs[j].d, b |-> b, h |-> b, tx |-> tx.id, ti |-> Len(w.txs), li |-> j - 1]]
      done == [id |-> tx.id, from |-> tx.from, st |-> IF r.ok THEN 1 ELSE 0, new |-> IF tx.to = 0 THEN 11 + w.made ELSE 0, logs |-> L]
  IN [w EXCEPT !.nonce = n, !.txs = Append(@, done), !.made = IF tx.to = 0 THEN @ + 1 ELSE @, !.slots = IF IsToy(w, tx.to) /\ r.ok THEN [@ EXCEPT ![tx.to - 10] = r.slots] ELSE @]
RECURSIVE ApplyAll(_, _, _)
ApplyAll(w, txs, b) == IF txs = <<>> THEN w ELSE ApplyAll(Apply(w, Head(txs), b), Tail(txs), b)
Commit(s, txs, bal) ==
  LET w == ApplyAll([World(s) EXCEPT !.txs = <<>>], txs, Tip(s) + 1)
  IN [blocks |-> Append(s.blocks, [w EXCEPT !.bal = bal]), pool |-> {t \in s.pool : \A i \in 1..Len(txs) : txs[i].id # t.id}]
Send(s, tx) == [s EXCEPT !.pool = @ \cup {[id |-> tx.id, from |-> tx.from]}]

\* ---- which block is meant: its number, or -1 if there is no such block ---------------------
Known(s, n) == IF n \in 0..Tip(s) THEN n ELSE -1
Resolve(s, at) == IF at.t \in {"none", "latest", "pending"} THEN Tip(s) ELSE IF at.t = "earliest" THEN 0 ELSE Known(s, at.n)

\* ---- where a transaction is --------------------------------------------------
Nowhere == <<-1, 0>>
Place(s, id) ==
  LET P == {<<n, i>> \in (0..Tip(s)) \X (1..4) : i <= Len(Block(s, n).txs) /\ Block(s, n).txs[i].id = id}
  IN IF P = {} THEN Nowhere ELSE CHOOSE p \in P : TRUE

\* ---- which logs --------------------------------------------------------------
\* every position asks for a topic there; one that names nothing, or null (0) among its alternatives, takes
\* whatever topic it is
Position(l, p, i) == i <= Len(l.t) /\ (p.any \/ \E j \in 1..Len(p.alts) : p.alts[j] = 0 \/ p.alts[j] = l.t[i])
Match(want, l) ==
  /\ (want.addr = <<>> \/ \E i \in 1..Len(want.addr) : want.addr[i] = l.a)
  /\ \A i \in 1..Len(want.topics) : Position(l, want.topics[i], i)
RECURSIVE Logs(_)
Logs(txs) == IF txs = <<>> THEN <<>> ELSE Head(txs).logs \o Logs(Tail(txs))
BlockLogs(s, n, want) == SelectSeq(Logs(Block(s, n).txs), LAMBDA l : Match(want, l))
RECURSIVE RangeLogs(_, _, _, _)
RangeLogs(s, from, to, want) == IF from > to THEN <<>> ELSE BlockLogs(s, from, want) \o RangeLogs(s, from + 1, to, want)

\* ---- accounts ----------------------------------------------------------------
Slot == [a \in 1..3 |-> a] @@ (11 :> 4) @@ (12 :> 5) @@ (13 :> 6) @@ (20 :> 7)
Balance(w, a) == w.bal[Slot[a]]
Nonce(w, a) == IF a <= 3 THEN w.nonce[a] ELSE IF IsToy(w, a) THEN 1 ELSE 0
Stored(w, a, k) == IF IsToy(w, a) THEN w.slots[a - 10][k] ELSE 0
Waiting(s, a) == Cardinality({t \in s.pool : t.from = a})
=============================================================================
