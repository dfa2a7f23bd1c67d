----------------------------- MODULE Admission -----------------------------
(* Which transactions the pool admits, by the state of the chain.           *)
(* t: [id, from, to, sig, chain, size, price, gas, nonce, spare]            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
PriceOK == {"1", "mid", "max-1"}
MINGAS == 21000
MAXGAS == 30000000
\* s: nonce of each account, committed transactions, height;  cfg: validators of the two epochs, last block of the first, size limit
Validators(cfg, h) == LET v == cfg.vals[IF h <= cfg.end THEN 1 ELSE 2] IN {v[i] : i \in 1..Len(v)}
SigOK(t) == t.sig \in {"good", "vm0"}
Admissible(s, cfg, t) ==
  /\ SigOK(t)
  /\ t.chain \in {"none", "own"}
  /\ t.size <= cfg.max
  /\ t.price \in PriceOK
  /\ t.gas >= MINGAS /\ t.gas <= MAXGAS
  /\ t.id \notin s.old
  /\ t.to # "reserved"
  /\ IF t.to = "sys" THEN t.from \in Validators(cfg, s.h + 1)
     ELSE t.nonce >= s.nonce[t.from] /\ t.spare >= 0
NewChain(nonces) == [nonce |-> nonces, old |-> {}, h |-> 0]
Commit(s, C, nonces, h) == [nonce |-> nonces, old |-> s.old \cup C, h |-> h]
=============================================================================
