------------------------------- MODULE Quorum -------------------------------
(***************************************************************************)
(* When a block with a commit proof is accepted.  Validators 1..n are      *)
(* numbered by their public keys; w[i] is the vote weight of i.  A proof   *)
(* marks validators with a bitmap and carries one aggregate signature.     *)
(* Hashes are abstract and injective: HashOf is the tuple of what is bound.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumOver(_, _)
SumOver(w, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN w[x] + SumOver(w, S \ {x})
Total(w) == SumOver(w, 1..Len(w))
Has2of3(w, S) == 3 * SumOver(w, S) > 2 * Total(w)

\* bits beyond the validators are padding and mean nothing; absent bits are not set
MarkedIn(marks, n) == {i \in 1..n : i <= Len(marks) /\ marks[i]}

PRECOMMIT == 2
PREVOTE == 1

\* fields the vote commits to, and those it does not
Committed == {"prev_hash", "proposer", "txs_root", "signed", "ts", "number", "gas_limit", "extra", "proof_number",
              "proof_round", "proof_hash", "proof_sig", "proof_bitmap", "scripts", "txs_drop", "txs_add", "txs_swap"}
Uncommitted == {"none", "state_root", "receipts_root", "bloom", "gas_used", "base_fee", "chain_id"}

Height == 7
NumberOf(alter) == IF alter = "number" THEN Height + 1 ELSE Height
\* the hash of the block as altered, on the state before it
HashOf(alter, prev) == <<IF alter \in Uncommitted THEN "none" ELSE alter, prev>>
Voted == HashOf("none", "same")
HashNamed(t, x) == CASE x = "voted" -> Voted [] x = "presented" -> HashOf(t.alter, t.prev) [] x = "other" -> <<"other", "other">>

\* t.w, t.marks, t.signers: who is marked and who signed; t.snum, t.sround, t.stype, t.shash: what they signed;
\* t.pnum, t.pround, t.phash: what the proof says; t.alter, t.prev: the block and state presented
SignatureFits(t) ==
  /\ {i \in 1..Len(t.w) : t.signers[i]} = MarkedIn(t.marks, Len(t.w))
  /\ MarkedIn(t.marks, Len(t.w)) # {}
  /\ <<t.snum, t.sround, t.stype, HashNamed(t, t.shash)>> = <<t.pnum, t.pround, PRECOMMIT, HashNamed(t, t.phash)>>
  /\ t.garble = "none"

Accepts(t) ==
  /\ t.pnum = NumberOf(t.alter)
  /\ HashNamed(t, t.phash) = HashOf(t.alter, t.prev)
  /\ Has2of3(t.w, MarkedIn(t.marks, Len(t.w)))
  /\ SignatureFits(t)
=============================================================================
