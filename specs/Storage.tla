------------------------------ MODULE Storage -------------------------------
(* What a chain database holds and what it answers.  Values and hashes are  *)
(* numbers that stand for records; 0 stands for none.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* blocks: set of [n, h, b];  txs and receipts: set of [n, h, v] with h the transaction's hash
\* addr: set of [a, h];  code: set of [h, v]
NoData == [blocks |-> {}, txs |-> {}, rcpts |-> {}, latest |-> 0, proof |-> 0, addr |-> {}, code |-> {}, fork |-> 0]
Of(S, P(_)) == LET h == {x \in S : P(x)} IN IF h = {} THEN 0 ELSE LET x == CHOOSE x \in h : TRUE IN x.v
SetBlock(s, b) == [s EXCEPT !.blocks = @ \cup {[n |-> b.n, h |-> b.h, v |-> b.v]}]
SetLatest(s, b) == [s EXCEPT !.latest = b.v]
AddTxs(s, n, xs) == [s EXCEPT !.txs = @ \cup {[n |-> n, h |-> xs[i].h, v |-> xs[i].v] : i \in 1..Len(xs)}]
AddReceipts(s, n, xs) == [s EXCEPT !.rcpts = @ \cup {[n |-> n, h |-> xs[i].h, v |-> xs[i].v] : i \in 1..Len(xs)}]
AddCode(s, a, h, v) == [s EXCEPT !.addr = {x \in @ : x.a # a} \cup {[a |-> a, v |-> h]}, !.code = @ \cup {[h |-> h, v |-> v]}]

ByNumber(s, n) == Of(s.blocks, LAMBDA x : x.n = n)
ByHash(s, h) == Of(s.blocks, LAMBDA x : x.h = h)
NumberOf(s, h) == LET b == {x \in s.blocks : x.h = h} IN IF b = {} THEN 0 ELSE (CHOOSE x \in b : TRUE).n
Tx(s, h) == Of(s.txs, LAMBDA x : x.h = h)
Rcpt(s, h) == Of(s.rcpts, LAMBDA x : x.h = h)
TxsAt(s, n, hs) == [i \in 1..Len(hs) |-> Of({x \in s.txs : x.n = n}, LAMBDA x : x.h = hs[i])]
RcptsAt(s, n, hs) == [i \in 1..Len(hs) |-> Of({x \in s.rcpts : x.n = n}, LAMBDA x : x.h = hs[i])]
CodeOf(s, h) == Of(s.code, LAMBDA x : x.h = h)
CodeAt(s, a) == LET h == Of(s.addr, LAMBDA x : x.a = a) IN IF h = 0 THEN 0 ELSE CodeOf(s, h)
=============================================================================
