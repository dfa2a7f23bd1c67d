------------------------------ MODULE Records -------------------------------
(***************************************************************************)
(* Chain records as values and their consensus encodings.  A block hash is *)
(* the digest of EncHeader, the voted hash that of EncProposal, the signed *)
(* message that of EncVote.                                                *)
(*                                                                         *)
(* Integers are minimal big-endian byte sequences, hashes 32 bytes.        *)
(***************************************************************************)
EXTENDS Rlp, Integers, FiniteSets, TLC

EncSeq(xs, Enc(_)) == EncList([i \in 1..Len(xs) |-> Enc(xs[i])])
EncVersion(v) == EncList(<<EncUint(NatBytes(v))>>)
EncExtra(x) == EncList(<<EncStr(x)>>)
EncHex(x) == EncList(<<EncStr(x)>>)

EncProof(p) == EncList(<<EncUint(p.number), EncUint(p.round), EncStr(p.hash), EncStr(p.sig), EncStr(p.bitmap)>>)

EncHeader(h) == EncList(<<
   EncVersion(h.version), EncStr(h.prev_hash), EncStr(h.proposer), EncStr(h.state_root), EncStr(h.txs_root),
   EncStr(h.signed), EncStr(h.receipts_root), EncStr(h.bloom), EncUint(h.ts), EncUint(h.number), EncUint(h.gas_used),
   EncUint(h.gas_limit), EncSeq(h.extra, EncExtra), EncUint(h.base_fee), EncProof(h.proof), EncUint(h.scripts),
   EncUint(h.chain_id) >>)
EncBlock(b) == EncList(<<EncHeader(b.header), EncSeq(b.txs, EncStr)>>)

\* the proposal: the header without the results of execution, on the state before it.
\* base fee and chain id are constants of the network and are not part of it
EncProposal(p) == EncList(<<
   EncVersion(p.version), EncStr(p.prev_hash), EncStr(p.proposer), EncStr(p.prev_state_root), EncStr(p.txs_root),
   EncStr(p.signed), EncUint(p.ts), EncUint(p.number), EncUint(p.gas_limit), EncSeq(p.extra, EncExtra),
   EncProof(p.proof), EncUint(p.scripts), EncSeq(p.txs, EncStr) >>)
EncVote(v) == EncList(<<EncUint(v.height), EncUint(v.round), EncUint(v.type), EncStr(v.hash)>>)

ProposalOf(b, prev_state) == LET h == b.header IN
  [version |-> h.version, prev_hash |-> h.prev_hash, proposer |-> h.proposer, prev_state_root |-> prev_state,
   txs_root |-> h.txs_root, signed |-> h.signed, ts |-> h.ts, number |-> h.number, gas_limit |-> h.gas_limit,
   extra |-> h.extra, base_fee |-> h.base_fee, proof |-> h.proof, chain_id |-> h.chain_id, scripts |-> h.scripts,
   txs |-> b.txs]
\* a proposal and the outcome of executing it make the block
BlockOf(p, x) ==
  [header |-> [version |-> p.version, prev_hash |-> p.prev_hash, proposer |-> p.proposer, state_root |-> x.state_root,
     txs_root |-> p.txs_root, signed |-> p.signed, receipts_root |-> x.receipts_root, bloom |-> x.bloom, ts |-> p.ts,
     number |-> p.number, gas_used |-> x.gas_used, gas_limit |-> p.gas_limit, extra |-> p.extra,
     base_fee |-> p.base_fee, proof |-> p.proof, scripts |-> p.scripts, chain_id |-> p.chain_id],
   txs |-> p.txs]

EncValidator(v) == EncList(<<EncHex(v.bls), EncHex(v.pk), EncStr(v.address), EncUint(v.pw), EncUint(v.vw)>>)
EncCount(c) == EncList(<<EncStr(c.address), EncUint(c.count)>>)
EncConfig(c) == EncList([i \in 1..Len(c) |-> EncUint(c[i])])
EncVersionRange(v) == EncList(<<EncUint(v.start), EncUint(v.end)>>)
EncMetadata(m) == EncList(<<EncVersionRange(m.version), EncUint(m.epoch), EncSeq(m.validators, EncValidator),
                            EncSeq(m.counter, EncCount), EncConfig(m.config)>>)
=============================================================================
