------------------------- MODULE MC_ValidatorCases --------------------------
(* Which single cases are tried: every alteration of a proposal and of a    *)
(* synchronized block, before, at and after the change of validators.       *)
EXTENDS Validator, TLC, Json
CONSTANT FOCUS
VARIABLES c, done
Alters == {"none", "number_up", "number_down", "number_both", "old", "prev_hash", "prev_grand", "prev_state", "txs_root", "signed_hash", "txs_swap", "txs_drop",
  "txs_swap_fit", "txs_drop_fit", "txs_twice", "txs_swap_half", "txs_swap_other", "ts_prev", "ts_before", "ts_now", "ts_after", "gas_less", "gas_more", "gas_none",
  "proof_number", "proof_older", "proof_round", "proof_hash", "proof_sig", "proof_bitmap", "proof_weak", "proof_others", "proof_again", "fork_same", "fork_other", "fork_garbage"}
Bads == {"again", "weak", "others", "proof_prev", "proof_number", "proof_round", "proof_hash", "proof_garbage", "wrong_number", "prev_hash", "proposer", "txs_root", "ts", "gas_limit",
  "extra", "scripts", "signed_hash", "hdr_proof", "state_root", "receipts_root", "bloom", "gas_used", "base_fee", "chain_id", "voted_prev_hash", "voted_hdr_proof", "voted_signed_hash",
  "hash_dropped", "hash_added", "tx_missing", "tx_other", "tx_forged", "tx_order"}
Cases ==
  CASE FOCUS = "A03" -> [l : 0..4, v : {1, 2}, fork : {0, 20}, give : {0, 1}, alter : Alters, hash : {"right"}]
                        \cup [l : {0, 3}, v : {1}, fork : {0}, give : {0, 1}, alter : {"none", "txs_swap"}, hash : {"wrong", "own"}]
    [] FOCUS = "A04" -> {x \in [l : {0, 2, 3}, k : {1, 3}, at : 1..3, give : {0, 1}, bad : Bads] : x.at <= x.k}
    [] FOCUS = "A05" -> [l : {0, 1, 2, 3, 4}, what : {"commit", "sync1", "sync2"}, v : {1, 2}, then : {"commit", "sync"}]
    [] OTHER -> {}
Init == c \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ PrintT("@@GEN " \o ToJson(c))
=============================================================================
