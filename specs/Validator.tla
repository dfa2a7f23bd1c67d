----------------------------- MODULE Validator ------------------------------
(***************************************************************************)
(* A validator that follows its chain: it proposes, judges the proposals   *)
(* of others, commits what the others agreed on, catches up from peers,    *)
(* stops at any durable write and starts again.                            *)
(*                                                                         *)
(* A block is named by its number and variant (two blocks of one number on *)
(* the same parent differ in the variant), so a chain is a sequence of     *)
(* variants; which transactions a block has is TxsOf.                      *)
(*   s.chain   the committed blocks, genesis (number 0) left out           *)
(*   s.proof   the number of the stored latest proof                       *)
(*   s.pool    the transactions that wait                                  *)
(*   s.wal     the saved transactions: pairs <<number, transactions>>      *)
(*   s.left    the stored transactions of a commit that did not finish     *)
(*   s.keys    which validator set's votes are understood                  *)
(*   s.fork    the number of the node's own hardfork announcement (0 none) *)
(*   s.stop    it has reached the number where it was told to stop         *)
(* The first epoch ends at Edge; then another set of validators has its turn*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Edge == 3
Last == 8
Genesis == 0
None == -1

SetAt(n) == IF n <= Edge THEN 0 ELSE 1
TxsOf(n, v) == IF v = 1 THEN (IF n = 3 THEN <<>> ELSE <<2 * n - 1, 2 * n>>) ELSE IF v = 2 THEN <<20 + n>> ELSE <<>>
Els(q) == {q[i] : i \in 1..Len(q)}
Txs(n, v) == Els(TxsOf(n, v))
Tip(s) == Len(s.chain)
Min(a, b) == IF a < b THEN a ELSE b
OnChain(s) == UNION {Txs(n, s.chain[n]) : n \in 1..Tip(s)}

Fresh(fork) == [chain |-> <<>>, proof |-> 0, pool |-> {}, wal |-> {}, left |-> {}, keys |-> 0, fork |-> fork, stop |-> FALSE]

\* ---- what is given to the pool
Takes(s, x) == x \notin OnChain(s)

\* ---- proposing
CanPropose(s) == s.proof = Tip(s)
Forked(s) == IF s.fork # 0 /\ s.fork <= Tip(s) + 1 THEN [s EXCEPT !.fork = 0] ELSE s

\* ---- judging a proposal for the next number: a block on top of the tip, altered in one place (or none)
NoMatter == {"none", "txs_swap_fit", "txs_drop_fit", "ts_prev", "ts_now", "proof_again"}
\* the genesis has no proof that a change could make wrong
ProofOnly == {"proof_round", "proof_hash", "proof_sig", "proof_bitmap", "proof_weak", "proof_others", "proof_again"}
Agrees(s, alter, announced) ==
  \/ alter \in NoMatter
  \/ alter = "fork_same" /\ s.fork # 0 /\ announced = s.fork
Harmless(s, alter) == Tip(s) = 0 /\ alter \in ProofOnly
Available(s, txs, peers) == Els(txs) \cap OnChain(s) = {} /\ (Els(txs) \subseteq s.pool \/ peers)
Approves(s, alter, announced, hash, txs, peers) == Agrees(s, alter, announced) /\ hash = "right" /\ Available(s, txs, peers)
Saved(s, txs) == [s EXCEPT !.wal = @ \cup {<<Tip(s) + 1, txs>>}]

\* ---- committing
Turn(s, n) == n = Tip(s) + 1
Held(s, n, v) == Txs(n, v) \subseteq s.pool \cup s.left \/ <<n, TxsOf(n, v)>> \in s.wal
Grown(s, v) ==
  LET n == Tip(s) + 1 IN
  [s EXCEPT !.chain = Append(@, v), !.proof = n, !.pool = @ \ Txs(n, v), !.left = {}, !.keys = SetAt(n + 1)]
Pruned(s, n) == [s EXCEPT !.wal = {w \in @ : w[1] > n}]
StopsAt(n, at) == (IF n = 0 THEN 0 ELSE n - 1) = at
Committed(s, n, v) == Pruned(Grown(s, v), n - 2)

\* ---- catching up: vs are the variants peers offer, of which number at (from the tip) is bad
BadFor(s, n, v, bad) ==
  LET t == TxsOf(n, v)
      miss == Els(t) \ s.pool IN
  CASE bad \in {"none", "again", "tx_order"} -> "no"
    [] bad = "hash_dropped" -> IF t = <<>> THEN "no" ELSE "yes"
    [] bad = "tx_missing" -> IF t = <<>> \/ t[Len(t)] \in s.pool THEN "no" ELSE "yes"
    [] bad \in {"tx_other", "tx_forged"} -> IF miss = {} THEN "no" ELSE IF t[Len(t)] \in s.pool THEN "either" ELSE "yes"
    [] OTHER -> "yes"
\* how many of the offered blocks are good
Good(s, vs, at, bad) ==
  IF at = 0 \/ at > Len(vs) THEN {Len(vs)}
  ELSE LET b == BadFor(s, Tip(s) + at, vs[at], bad) IN
       CASE b = "no" -> {Len(vs)} [] b = "yes" -> {at - 1} [] OTHER -> {at - 1, Len(vs)}
RECURSIVE Adopt(_, _)
Adopt(s, vs) == IF vs = <<>> THEN s ELSE Adopt(Grown(s, vs[1]), Tail(vs))
Wants(s, remote) == IF remote > Tip(s) THEN Min(remote - Tip(s), 50) ELSE 0
\* pairs <<the node afterwards, whether it reports success>>
Synced(s, remote, vs, at, bad, lock) ==
  IF Wants(s, remote) = 0 \/ lock THEN {<<s, TRUE>>}
  ELSE {<<Adopt(s, SubSeq(vs, 1, Min(g, Wants(s, remote)))), Wants(s, remote) <= g>> : g \in Good(s, vs, at, bad)}

\* ---- stopping and starting
Restarted(s) ==
  LET n == Tip(s) + 1 IN
  [s EXCEPT !.pool = UNION {Els(w[2]) : w \in {w \in s.wal : w[1] = n}}, !.keys = SetAt(n), !.stop = FALSE]
\* what can be on the disk when growing from s to t stops: any block between is whole or absent, the proof may be ahead by one,
\* and the transactions of the next may be stored
Between(s, t) ==
  LET at(m, p, l) == [s EXCEPT !.chain = SubSeq(t.chain, 1, m), !.proof = p, !.left = l]
      next(m) == {{}} \cup (IF m = Tip(s) THEN {s.left} ELSE {}) \cup (IF m < Tip(t) THEN {Txs(m + 1, t.chain[m + 1])} ELSE {})
      proofs(m) == (IF m = Tip(s) THEN {s.proof} ELSE {m}) \cup (IF m < Tip(t) THEN {m + 1} ELSE {}) IN
  UNION {UNION {{at(m, p, l) : p \in proofs(m)} : l \in next(m)} : m \in Tip(s)..Tip(t)}

\* ---- what others can ask it for
Serves(s, n) == IF n > s.proof \/ n > Tip(s) + 1 THEN {0}
                ELSE IF n = Tip(s) /\ s.proof # n THEN {0, n} ELSE {n}
=============================================================================
