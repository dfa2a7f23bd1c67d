//! Chain records: encodings and hashes (E03), and what the verification library makes of them (F02).
use crate::*;
use axon_tools::types as tt;
use ethers_core::utils::keccak256;
use overlord::types::{Vote, VoteType};
use protocol::codec::ProtocolCodec;
use protocol::traits::MessageCodec;
use protocol::types::*;
use rlp::Encodable;

pub fn num(v: &Value) -> u64 {
    bytes_of(v).iter().fold(0u64, |a, x| (a << 8) | *x as u64)
}
pub fn be(x: u64) -> Value {
    jb(minimal(&x.to_be_bytes()))
}
fn h256(v: &Value) -> H256 {
    H256::from_slice(&bytes_of(v))
}
fn h160(v: &Value) -> H160 {
    H160::from_slice(&bytes_of(v))
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().unwrap().clone()
}

pub fn proof_of(v: &Value) -> Proof {
    Proof {
        number:     num(&v["number"]),
        round:      num(&v["round"]),
        block_hash: h256(&v["hash"]),
        signature:  bytes_of(&v["sig"]).into(),
        bitmap:     bytes_of(&v["bitmap"]).into(),
    }
}
pub fn proof_view(p: &Proof) -> Value {
    json!({"number": be(p.number), "round": be(p.round), "hash": jb(p.block_hash.as_bytes()), "sig": jb(&p.signature), "bitmap": jb(&p.bitmap)})
}
pub fn header_of(h: &Value) -> Header {
    Header {
        version:                  BlockVersion::V0,
        prev_hash:                h256(&h["prev_hash"]),
        proposer:                 h160(&h["proposer"]),
        state_root:               h256(&h["state_root"]),
        transactions_root:        h256(&h["txs_root"]),
        signed_txs_hash:          h256(&h["signed"]),
        receipts_root:            h256(&h["receipts_root"]),
        log_bloom:                Bloom::from_slice(&bytes_of(&h["bloom"])),
        timestamp:                num(&h["ts"]),
        number:                   num(&h["number"]),
        gas_used:                 num(&h["gas_used"]).into(),
        gas_limit:                num(&h["gas_limit"]).into(),
        extra_data:               arr(&h["extra"]).iter().map(|x| ExtraData { inner: bytes_of(x).into() }).collect(),
        base_fee_per_gas:         num(&h["base_fee"]).into(),
        proof:                    proof_of(&h["proof"]),
        call_system_script_count: num(&h["scripts"]) as u32,
        chain_id:                 num(&h["chain_id"]),
    }
}
pub fn header_view(h: &Header) -> Value {
    json!({
        "version": u8::from(h.version), "prev_hash": jb(h.prev_hash), "proposer": jb(h.proposer), "state_root": jb(h.state_root),
        "txs_root": jb(h.transactions_root), "signed": jb(h.signed_txs_hash), "receipts_root": jb(h.receipts_root),
        "bloom": jb(h.log_bloom.as_bytes()), "ts": be(h.timestamp), "number": be(h.number), "gas_used": be(h.gas_used.as_u64()),
        "gas_limit": be(h.gas_limit.as_u64()), "extra": h.extra_data.iter().map(|x| jb(&x.inner)).collect::<Vec<_>>(),
        "base_fee": be(h.base_fee_per_gas.as_u64()), "proof": proof_view(&h.proof), "scripts": be(h.call_system_script_count as u64),
        "chain_id": be(h.chain_id),
    })
}
pub fn block_of(b: &Value) -> Block {
    Block { header: header_of(&b["header"]), tx_hashes: arr(&b["txs"]).iter().map(h256).collect() }
}
fn hashes(t: &[H256]) -> Value {
    Value::Array(t.iter().map(|x| jb(x.as_bytes())).collect())
}
pub fn block_view(b: &Block) -> Value {
    json!({"header": header_view(&b.header), "txs": hashes(&b.tx_hashes)})
}
pub fn proposal_view(p: &Proposal) -> Value {
    json!({
        "version": u8::from(p.version), "prev_hash": jb(p.prev_hash), "proposer": jb(p.proposer), "prev_state_root": jb(p.prev_state_root),
        "txs_root": jb(p.transactions_root), "signed": jb(p.signed_txs_hash), "ts": be(p.timestamp), "number": be(p.number),
        "gas_limit": be(p.gas_limit.as_u64()), "extra": p.extra_data.iter().map(|x| jb(&x.inner)).collect::<Vec<_>>(),
        "base_fee": be(p.base_fee_per_gas.as_u64()), "proof": proof_view(&p.proof), "scripts": be(p.call_system_script_count as u64),
        "chain_id": be(p.chain_id), "txs": hashes(&p.tx_hashes),
    })
}
fn metadata_of(m: &Value) -> Metadata {
    let c: Vec<u64> = arr(&m["config"]).iter().map(num).collect();
    Metadata {
        version:          MetadataVersion { start: num(&m["version"]["start"]), end: num(&m["version"]["end"]) },
        epoch:            num(&m["epoch"]),
        verifier_list:    arr(&m["validators"])
            .iter()
            .map(|v| ValidatorExtend {
                bls_pub_key:    Hex::encode(bytes_of(&v["bls"])),
                pub_key:        Hex::encode(bytes_of(&v["pk"])),
                address:        h160(&v["address"]),
                propose_weight: num(&v["pw"]) as u32,
                vote_weight:    num(&v["vw"]) as u32,
            })
            .collect(),
        propose_counter:  arr(&m["counter"])
            .iter()
            .map(|v| ProposeCount { address: h160(&v["address"]), count: num(&v["count"]) })
            .collect(),
        consensus_config: ConsensusConfig {
            gas_limit:          c[0],
            interval:           c[1],
            propose_ratio:      c[2],
            prevote_ratio:      c[3],
            precommit_ratio:    c[4],
            brake_ratio:        c[5],
            tx_num_limit:       c[6],
            max_tx_size:        c[7],
            max_contract_limit: c[8],
        },
    }
}
fn metadata_view(m: &Metadata) -> Value {
    let c = &m.consensus_config;
    json!({
        "version": {"start": be(m.version.start), "end": be(m.version.end)}, "epoch": be(m.epoch),
        "validators": m.verifier_list.iter().map(|v| json!({"bls": jb(v.bls_pub_key.as_ref()), "pk": jb(v.pub_key.as_ref()),
            "address": jb(v.address), "pw": be(v.propose_weight as u64), "vw": be(v.vote_weight as u64)})).collect::<Vec<_>>(),
        "counter": m.propose_counter.iter().map(|v| json!({"address": jb(v.address), "count": be(v.count)})).collect::<Vec<_>>(),
        "config": [be(c.gas_limit), be(c.interval), be(c.propose_ratio), be(c.prevote_ratio), be(c.precommit_ratio),
            be(c.brake_ratio), be(c.tx_num_limit), be(c.max_tx_size), be(c.max_contract_limit)],
    })
}

// ---- the verification library's records
fn t_proof_view(p: &tt::Proof) -> Value {
    json!({"number": be(p.number), "round": be(p.round), "hash": jb(p.proposal_hash), "sig": jb(&p.signature), "bitmap": jb(&p.bitmap)})
}
fn t_header_view(h: &tt::Header) -> Value {
    json!({
        "version": u8::from(h.version), "prev_hash": jb(h.prev_hash), "proposer": jb(h.proposer), "state_root": jb(h.state_root),
        "txs_root": jb(h.transactions_root), "signed": jb(h.signed_txs_hash), "receipts_root": jb(h.receipts_root),
        "bloom": jb(h.log_bloom.as_bytes()), "ts": be(h.timestamp), "number": be(h.number), "gas_used": be(h.gas_used.as_u64()),
        "gas_limit": be(h.gas_limit.as_u64()), "extra": h.extra_data.iter().map(|x| jb(&x.inner)).collect::<Vec<_>>(),
        "base_fee": be(h.base_fee_per_gas.as_u64()), "proof": t_proof_view(&h.proof), "scripts": be(h.call_system_script_count as u64),
        "chain_id": be(h.chain_id),
    })
}
fn t_block_view(b: &tt::Block) -> Value {
    json!({"header": t_header_view(&b.header), "txs": hashes(&b.tx_hashes)})
}
pub fn t_proof(p: &Proof) -> tt::Proof {
    tt::Proof {
        number:        p.number,
        round:         p.round,
        proposal_hash: p.block_hash,
        signature:     p.signature.clone(),
        bitmap:        p.bitmap.clone(),
    }
}
pub fn t_header(h: &Header) -> tt::Header {
    tt::Header {
        version:                  tt::BlockVersion::V0,
        prev_hash:                h.prev_hash,
        proposer:                 h.proposer,
        state_root:               h.state_root,
        transactions_root:        h.transactions_root,
        signed_txs_hash:          h.signed_txs_hash,
        receipts_root:            h.receipts_root,
        log_bloom:                h.log_bloom,
        timestamp:                h.timestamp,
        number:                   h.number,
        gas_used:                 h.gas_used,
        gas_limit:                h.gas_limit,
        extra_data:               h.extra_data.iter().map(|x| tt::ExtraData { inner: x.inner.clone() }).collect(),
        base_fee_per_gas:         h.base_fee_per_gas,
        proof:                    t_proof(&h.proof),
        call_system_script_count: h.call_system_script_count,
        chain_id:                 h.chain_id,
    }
}
fn t_metadata_view(m: &tt::Metadata) -> Value {
    let c = &m.consensus_config;
    // every integer of the library's configuration, by name, through its own text form
    let cj = serde_json::to_value(c).unwrap();
    let g = |k: &str| match cj.get(k) {
        Some(Value::Number(n)) => be(n.as_u64().unwrap()),
        Some(Value::String(s)) => be(u64::from_str_radix(s.trim_start_matches("0x"), 16).unwrap_or(u64::MAX)),
        _ => json!("absent"),
    };
    let names = ["gas_limit", "interval", "propose_ratio", "prevote_ratio", "precommit_ratio", "brake_ratio", "tx_num_limit",
        "max_tx_size", "max_contract_limit"];
    let config = names.iter().map(|k| g(k)).filter(|v| v.is_array()).collect::<Vec<_>>();
    json!({
        "version": {"start": be(m.version.start), "end": be(m.version.end)}, "epoch": be(m.epoch),
        "validators": m.verifier_list.iter().map(|v| json!({"bls": jb(v.bls_pub_key.as_ref()), "pk": jb(v.pub_key.as_ref()),
            "address": jb(v.address), "pw": be(v.propose_weight as u64), "vw": be(v.vote_weight as u64)})).collect::<Vec<_>>(),
        "counter": m.propose_counter.iter().map(|v| json!({"address": jb(v.address), "count": be(v.count)})).collect::<Vec<_>>(),
        "config": config,
    })
}

/// runs f, recording an error or panic as such
fn obs(f: impl FnOnce() -> Result<Value, String>) -> Value {
    match guard(f) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => json!({"error": true}),
        Err(_) => json!({"panic": true}),
    }
}
fn enc(ev: &mut Vec<Value>, kind: &str, r: &Value, f: impl FnOnce() -> Vec<u8>) {
    ev.push(json!({"op": "encode", "kind": kind, "r": r, "out": obs(|| Ok(json!({"b": jb(f())})))}));
}
fn dec(ev: &mut Vec<Value>, kind: &str, r: &Value, f: impl FnOnce() -> Result<Value, String>) {
    ev.push(json!({"op": "decode", "kind": kind, "r": r, "out": obs(|| Ok(json!({"r": f()?})))}));
}
fn hsh(ev: &mut Vec<Value>, kind: &str, f: impl FnOnce() -> bool) {
    ev.push(json!({"op": "hash", "kind": kind, "out": obs(|| Ok(json!({"digest": f()})))}));
}
fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

fn node(kind: &str, r: &Value, ev: &mut Vec<Value>, rng: &mut Rng) {
    match kind {
        "proof" => {
            let p = proof_of(r);
            enc(ev, "proof", r, || rlp::encode(&p).to_vec());
            dec(ev, "proof", r, || Ok(proof_view(&Proof::decode(p.encode().map_err(es)?).map_err(es)?)));
        }
        "vote" => {
            let v = Vote {
                height:     num(&r["height"]),
                round:      num(&r["round"]),
                vote_type:  if num(&r["type"]) == 1 { VoteType::Prevote } else { VoteType::Precommit },
                block_hash: bytes_of(&r["hash"]).into(),
            };
            enc(ev, "vote", r, || rlp::encode(&v).to_vec());
        }
        "metadata" => {
            let m = metadata_of(r);
            enc(ev, "metadata", r, || rlp::encode(&m).to_vec());
            dec(ev, "metadata", r, || Ok(metadata_view(&Metadata::decode(m.encode().map_err(es)?).map_err(es)?)));
            let (inner, cfg) = m.clone().into_part();
            same(ev, "MetadataParts", || Metadata::from_parts(inner, cfg) == m);
        }
        "block" => {
            let b = block_of(r);
            enc(ev, "block", r, || rlp::encode(&b).to_vec());
            dec(ev, "block", r, || Ok(block_view(&Block::decode(b.encode().map_err(es)?).map_err(es)?)));
            enc(ev, "header", &r["header"], || rlp::encode(&b.header).to_vec());
            dec(ev, "header", &r["header"], || Ok(header_view(&Header::decode(b.header.encode().map_err(es)?).map_err(es)?)));
            hsh(ev, "header", || b.header.hash().0 == keccak256(rlp::encode(&b.header)) && b.hash() == b.header.hash());
            let prev = H256::from_slice(&rng.bytes(32));
            let p = Proposal::new_with_state_root(&b.header, prev, b.tx_hashes.clone());
            let pv = proposal_view(&p);
            ev.push(json!({"op": "propose", "block": r, "prev": jb(prev), "out": {"r": pv}}));
            enc(ev, "proposal", &pv, || rlp::encode(&p).to_vec());
            enc(ev, "proposal", &pv, || overlord::Codec::encode(&p).unwrap().to_vec());
            hsh(ev, "proposal", || p.hash().0 == keccak256(rlp::encode(&p)));
            // base fee and chain id come from the network's constants when decoded
            let mut want = pv.clone();
            want["base_fee"] = json!([]);
            want["chain_id"] = json!([]);
            dec(ev, "proposal", &want, || {
                let d = <Proposal as overlord::Codec>::decode(overlord::Codec::encode(&p).unwrap()).map_err(es)?;
                let mut v = proposal_view(&d);
                v["base_fee"] = json!([]);
                v["chain_id"] = json!([]);
                Ok(v)
            });
            let x = json!({"state_root": r["header"]["state_root"], "receipts_root": r["header"]["receipts_root"], "gas_used": r["header"]["gas_used"]});
            let resp = ExecResp {
                state_root:   b.header.state_root,
                receipt_root: b.header.receipts_root,
                gas_used:     b.header.gas_used.as_u64(),
                tx_resp:      vec![],
            };
            let built = Block::new(p, resp);
            let mut x2 = x.clone();
            x2["bloom"] = jb(built.header.log_bloom.as_bytes());
            ev.push(json!({"op": "build", "p": pv, "x": x2, "out": {"r": block_view(&built)}}));
        }
        _ => unreachable!(),
    }
}

fn same(ev: &mut Vec<Value>, kind: &str, f: impl FnOnce() -> bool) {
    ev.push(json!({"op": "same", "kind": kind, "out": obs(|| Ok(json!({"same": f()})))}));
}
fn rt<T: ProtocolCodec + PartialEq>(ev: &mut Vec<Value>, kind: &str, x: T) {
    same(ev, kind, || match x.encode().and_then(T::decode) {
        Ok(y) => x == y,
        Err(_) => false,
    })
}

fn rh(rng: &mut Rng) -> H256 {
    match rng.below(5) {
        0 => H256::zero(),
        1 => H256::from_low_u64_be(rng.below(300)),
        _ => H256::from_slice(&rng.bytes(32)),
    }
}
fn ru(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => 0,
        1 => rng.below(130),
        2 => 1 << rng.below(64),
        3 => u64::MAX,
        _ => { let sh = rng.below(64); rng.next() >> sh }
    }
}
fn rb(rng: &mut Rng) -> Bytes {
    let n = *rng.pick(&[0usize, 1, 1, 2, 20, 32, 33, 55, 56, 57, 96, 255, 256, 300]);
    if n == 1 { vec![rng.byte()].into() } else { rng.bytes(n).into() }
}
fn rlog(rng: &mut Rng) -> Log {
    Log {
        address: H160::from_slice(&rng.bytes(20)),
        topics:  (0..rng.below(5)).map(|_| rh(rng)).collect(),
        data:    rb(rng).to_vec(),
    }
}
fn rexit(rng: &mut Rng) -> ExitReason {
    match rng.below(9) {
        0 => ExitReason::Succeed(ExitSucceed::Stopped),
        1 => ExitReason::Succeed(ExitSucceed::Returned),
        2 => ExitReason::Succeed(ExitSucceed::Suicided),
        3 => ExitReason::Revert(ExitRevert::Reverted),
        4 => ExitReason::Error(ExitError::OutOfGas),
        5 => ExitReason::Error(ExitError::StackUnderflow),
        6 => ExitReason::Error(ExitError::Other("some reason".into())),
        7 => ExitReason::Error(ExitError::InvalidRange),
        _ => ExitReason::Fatal(protocol::types::executor::ExitFatal::NotSupported),
    }
}
fn ropt<T>(rng: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if rng.bool() { Some(f(rng)) } else { None }
}

/// records whose stored or transmitted form is the node's own business: they must only come back unchanged
fn own_forms(ev: &mut Vec<Value>, rng: &mut Rng) {
    let n = rng.below(4);
    rt(ev, "Receipt", Receipt {
        tx_hash:      rh(rng),
        block_number: ru(rng),
        block_hash:   rh(rng),
        tx_index:     ru(rng) as u32,
        state_root:   rh(rng),
        used_gas:     ru(rng).into(),
        logs_bloom:   Bloom::from_slice(&rng.bytes(256)),
        logs:         (0..n).map(|_| rlog(rng)).collect(),
        log_index:    ru(rng) as u32,
        code_address: ropt(rng, rh),
        sender:       H160::from_slice(&rng.bytes(20)),
        ret:          rexit(rng),
        removed:      rng.bool(),
    });
    rt(ev, "TxResp", TxResp {
        exit_reason:  rexit(rng),
        ret:          rb(rng).to_vec(),
        gas_used:     ru(rng),
        remain_gas:   ru(rng),
        fee_cost:     U256::from_big_endian(&rng.bytes(32)) >> rng.below(256),
        logs:         (0..n).map(|_| rlog(rng)).collect(),
        code_address: ropt(rng, rh),
        removed:      rng.bool(),
    });
    rt(ev, "ExecutorContext", ExecutorContext {
        block_number:           ru(rng).into(),
        block_coinbase:         H160::from_slice(&rng.bytes(20)),
        block_timestamp:        ru(rng).into(),
        chain_id:               ru(rng).into(),
        origin:                 H160::from_slice(&rng.bytes(20)),
        gas_price:              U256::from_big_endian(&rng.bytes(32)),
        block_gas_limit:        ru(rng).into(),
        block_base_fee_per_gas: ru(rng).into(),
        extra_data:             (0..n).map(|_| ExtraData { inner: rb(rng) }).collect(),
    });
    rt(ev, "HardforkInfo", HardforkInfo {
        inner: (0..n).map(|_| HardforkInfoInner { block_number: ru(rng), flags: rh(rng) }).collect(),
    });
    rt(ev, "CkbRelatedInfo", CkbRelatedInfo {
        metadata_type_id:     rh(rng),
        checkpoint_type_id:   rh(rng),
        xudt_args:            rh(rng),
        stake_smt_type_id:    rh(rng),
        delegate_smt_type_id: rh(rng),
        reward_smt_type_id:   rh(rng),
    });
    let c = ConsensusConfig {
        gas_limit:          ru(rng),
        interval:           ru(rng),
        propose_ratio:      ru(rng),
        prevote_ratio:      ru(rng),
        precommit_ratio:    ru(rng),
        brake_ratio:        ru(rng),
        tx_num_limit:       ru(rng),
        max_tx_size:        ru(rng),
        max_contract_limit: ru(rng),
    };
    let v0: ConsensusConfigV0 = c.clone().into();
    let mut back: ConsensusConfig = v0.clone().into();
    back.max_contract_limit = c.max_contract_limit;
    same(ev, "ConsensusConfigV0", || back == c);
    rt(ev, "ConsensusConfigV0", v0);
    rt(ev, "ConsensusConfig", c);
    rt(ev, "Script", Script { code_hash: rh(rng), args: rb(rng), hash_type: rng.next() as u8 });
    rt(ev, "CellWithData", CellWithData {
        type_script: ropt(rng, |r| Script { code_hash: rh(r), args: rb(r), hash_type: r.next() as u8 }),
        lock_script: Script { code_hash: rh(rng), args: rb(rng), hash_type: rng.next() as u8 },
        data:        rb(rng),
    });
    rt(ev, "OutPoint", OutPoint { tx_hash: rh(rng), index: ru(rng) as u32 });
    rt(ev, "DBBytes", DBBytes(rb(rng)));
    rt(ev, "Address", Address(H160::from_slice(&rng.bytes(20))));
    rt(ev, "Hex", Hex::encode(rb(rng)));
    rt(ev, "Validator", Validator {
        bls_pub_key:    Hex::encode(rb(rng)),
        pub_key:        Hex::encode(rb(rng)),
        propose_weight: ru(rng) as u32,
        vote_weight:    ru(rng) as u32,
    });
    rt(ev, "ConsensusValidator", ConsensusValidator {
        pub_key:        rb(rng),
        propose_weight: ru(rng) as u32,
        vote_weight:    ru(rng) as u32,
    });
    // network batches
    let txs: Vec<SignedTransaction> = (0..rng.below(5)).map(|_| rtx(rng)).collect();
    same(ev, "BatchSignedTxs", || {
        let mut b = BatchSignedTxs::new(txs.clone());
        BatchSignedTxs::decode_msg(b.encode_msg().unwrap()).map(|x| x.inner() == txs).unwrap_or(false)
    });
    for t in txs.into_iter().take(1) {
        rt(ev, "UnverifiedTransaction", t.transaction.clone());
        rt(ev, "SignedTransaction", t);
    }
    let blocks: Vec<Block> = (0..rng.below(4)).map(|_| rblock(rng)).collect();
    same(ev, "BatchBlocks", || {
        let mut b = BatchBlocks::new(blocks.clone());
        BatchBlocks::decode_msg(b.encode_msg().unwrap()).map(|x| x.inner() == blocks).unwrap_or(false)
    });
}

pub fn rtx(rng: &mut Rng) -> SignedTransaction {
    use ethers_core::k256::ecdsa::SigningKey;
    let action = if rng.bool() { TransactionAction::Create } else { TransactionAction::Call(H160::from_slice(&rng.bytes(20))) };
    let unsigned = match rng.below(3) {
        0 => UnsignedTransaction::Legacy(LegacyTransaction {
            nonce: ru(rng).into(), gas_price: ru(rng).into(), gas_limit: ru(rng).into(), action, value: ru(rng).into(), data: rb(rng),
        }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction {
            nonce: ru(rng).into(), gas_price: ru(rng).into(), gas_limit: ru(rng).into(), action, value: ru(rng).into(), data: rb(rng),
            access_list: vec![AccessListItem { address: H160::from_slice(&rng.bytes(20)), storage_keys: vec![rh(rng)] }],
        }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce: ru(rng).into(), max_priority_fee_per_gas: ru(rng).into(), gas_price: ru(rng).into(), gas_limit: ru(rng).into(),
            action, value: ru(rng).into(), data: rb(rng), access_list: vec![],
        }),
    };
    let mut utx = UnverifiedTransaction { unsigned, chain_id: Some(rng.below(1 << 40)), signature: None, hash: Default::default() };
    let d = utx.signature_hash(true);
    let sk = SigningKey::from_slice(&{ let mut b = rng.bytes(32); b[0] = 1; b }).unwrap();
    let (sig, rec) = sk.sign_prehash_recoverable(d.as_bytes()).unwrap();
    let b = sig.to_bytes();
    utx.signature = Some(SignatureComponents { r: b[..32].to_vec().into(), s: b[32..].to_vec().into(), standard_v: rec.to_byte() });
    SignedTransaction::from_unverified(utx.calc_hash()).unwrap()
}

pub fn rblock(rng: &mut Rng) -> Block {
    Block {
        header:    Header {
            version:                  BlockVersion::V0,
            prev_hash:                rh(rng),
            proposer:                 H160::from_slice(&rng.bytes(20)),
            state_root:               rh(rng),
            transactions_root:        rh(rng),
            signed_txs_hash:          rh(rng),
            receipts_root:            rh(rng),
            log_bloom:                Bloom::from_slice(&rng.bytes(256)),
            timestamp:                ru(rng),
            number:                   ru(rng),
            gas_used:                 ru(rng).into(),
            gas_limit:                ru(rng).into(),
            extra_data:               (0..rng.below(3)).map(|_| ExtraData { inner: rb(rng) }).collect(),
            base_fee_per_gas:         ru(rng).into(),
            proof:                    Proof { number: ru(rng), round: ru(rng), block_hash: rh(rng), signature: rb(rng), bitmap: rb(rng) },
            call_system_script_count: ru(rng) as u32,
            chain_id:                 ru(rng),
        },
        tx_hashes: (0..rng.below(6)).map(|_| rh(rng)).collect(),
    }
}

/// the hash moves with every bound field and with nothing else
fn binds(ev: &mut Vec<Value>, rng: &mut Rng) {
    let b = rblock(rng);
    let prev = rh(rng);
    type F = fn(&mut Block, &mut Rng);
    let bump = |x: u64, r: &mut Rng| x ^ (1 << r.below(64));
    let _ = bump;
    fn fl(h: &mut H256, r: &mut Rng) {
        let i = r.below(32) as usize;
        h.0[i] ^= 1 << r.below(8)
    }
    let muts: Vec<(&str, bool, F)> = vec![
        ("prev_hash", true, |b, r| fl(&mut b.header.prev_hash, r)),
        ("proposer", true, |b, r| b.header.proposer.0[r.below(20) as usize] ^= 1),
        ("transactions_root", true, |b, r| fl(&mut b.header.transactions_root, r)),
        ("signed_txs_hash", true, |b, r| fl(&mut b.header.signed_txs_hash, r)),
        ("timestamp", true, |b, r| b.header.timestamp ^= 1 << r.below(64)),
        ("number", true, |b, r| b.header.number ^= 1 << r.below(64)),
        ("gas_limit", true, |b, r| b.header.gas_limit = (b.header.gas_limit.as_u64() ^ (1 << r.below(64))).into()),
        ("extra_data", true, |b, r| b.header.extra_data.push(ExtraData { inner: rb(r) })),
        ("proof.number", true, |b, r| b.header.proof.number ^= 1 << r.below(64)),
        ("proof.round", true, |b, r| b.header.proof.round ^= 1 << r.below(64)),
        ("proof.hash", true, |b, r| fl(&mut b.header.proof.block_hash, r)),
        ("proof.signature", true, |b, _| b.header.proof.signature = [&b.header.proof.signature[..], &[7]].concat().into()),
        ("proof.bitmap", true, |b, _| b.header.proof.bitmap = [&b.header.proof.bitmap[..], &[7]].concat().into()),
        ("scripts", true, |b, r| b.header.call_system_script_count ^= 1 << r.below(32)),
        ("state_root", false, |b, r| fl(&mut b.header.state_root, r)),
        ("receipts_root", false, |b, r| fl(&mut b.header.receipts_root, r)),
        ("log_bloom", false, |b, r| b.header.log_bloom.0[r.below(256) as usize] ^= 1),
        ("gas_used", false, |b, r| b.header.gas_used = (b.header.gas_used.as_u64() ^ (1 << r.below(64))).into()),
        ("base_fee", false, |b, r| b.header.base_fee_per_gas = (b.header.base_fee_per_gas.as_u64() ^ (1 << r.below(64))).into()),
        ("chain_id", false, |b, r| b.header.chain_id ^= 1 << r.below(64)),
    ];
    let ph = |b: &Block| Proposal::new_with_state_root(&b.header, prev, b.tx_hashes.clone()).hash();
    for (f, in_proposal, m) in muts {
        let mut c = b.clone();
        m(&mut c, rng);
        ev.push(json!({"op": "differ", "kind": format!("header.{f}"), "out": obs(|| Ok(json!({"differ": c.hash() != b.hash() && c.header.hash() != b.header.hash()})))}));
        if in_proposal {
            ev.push(json!({"op": "differ", "kind": format!("proposal.{f}"), "out": obs(|| Ok(json!({"differ": ph(&c) != ph(&b)})))}));
        }
    }
    let mut c = b.clone();
    c.tx_hashes.push(rh(rng));
    ev.push(json!({"op": "differ", "kind": "proposal.tx_hashes", "out": {"differ": ph(&c) != ph(&b)}}));
    let p = Proposal::new_with_state_root(&b.header, prev, b.tx_hashes.clone());
    let mut q = p.clone();
    fl(&mut q.prev_state_root, rng);
    ev.push(json!({"op": "differ", "kind": "proposal.prev_state_root", "out": {"differ": p.hash() != q.hash()}}));
}

fn tools(kind: &str, r: &Value, ev: &mut Vec<Value>) {
    match kind {
        "proof" => {
            let p = proof_of(r);
            enc(ev, "proof", r, || rlp::encode(&t_proof(&p)).to_vec());
            dec(ev, "proof", r, || Ok(t_proof_view(&rlp::decode::<tt::Proof>(&rlp::encode(&p)).map_err(es)?)));
            dec(ev, "proof", r, || Ok(t_proof_view(&serde_json::from_str(&serde_json::to_string(&p).map_err(es)?).map_err(es)?)));
            dec(ev, "proof", r, || Ok(t_proof_view(&serde_json::from_str(&serde_json::to_string(&t_proof(&p)).map_err(es)?).map_err(es)?)));
        }
        "vote" => {
            let v = tt::Vote {
                height:        num(&r["height"]),
                round:         num(&r["round"]),
                vote_type:     num(&r["type"]) as u8,
                proposal_hash: bytes_of(&r["hash"]).into(),
            };
            enc(ev, "vote", r, || rlp::encode(&v).to_vec());
        }
        "block" => {
            let b = block_of(r);
            let t = tt::Block { header: t_header(&b.header), tx_hashes: b.tx_hashes.clone() };
            enc(ev, "block", r, || rlp::encode(&t).to_vec());
            dec(ev, "block", r, || Ok(t_block_view(&rlp::decode::<tt::Block>(&rlp::encode(&b)).map_err(es)?)));
            dec(ev, "block", r, || Ok(t_block_view(&serde_json::from_str(&serde_json::to_string(&b).map_err(es)?).map_err(es)?)));
            dec(ev, "block", r, || Ok(t_block_view(&serde_json::from_str(&serde_json::to_string(&t).map_err(es)?).map_err(es)?)));
            enc(ev, "header", &r["header"], || rlp::encode(&t.header).to_vec());
            dec(ev, "header", &r["header"], || Ok(t_header_view(&rlp::decode::<tt::Header>(&rlp::encode(&b.header)).map_err(es)?)));
            let p = Proposal::new_with_state_root(&b.header, b.header.prev_hash, b.tx_hashes.clone());
            let h = t.header.clone();
            let q = tt::Proposal {
                version:                  h.version,
                prev_hash:                h.prev_hash,
                proposer:                 h.proposer,
                prev_state_root:          h.prev_hash,
                transactions_root:        h.transactions_root,
                signed_txs_hash:          h.signed_txs_hash,
                timestamp:                h.timestamp,
                number:                   h.number,
                gas_limit:                h.gas_limit,
                extra_data:               h.extra_data,
                base_fee_per_gas:         h.base_fee_per_gas,
                proof:                    h.proof,
                chain_id:                 h.chain_id,
                call_system_script_count: h.call_system_script_count,
                tx_hashes:                t.tx_hashes.clone(),
            };
            enc(ev, "proposal", &proposal_view(&p), || rlp::encode(&q).to_vec());
            dec(ev, "proposal", &proposal_view(&p), || {
                let q: tt::Proposal = serde_json::from_str(&serde_json::to_string(&p).map_err(es)?).map_err(es)?;
                let mut v = proposal_view(&p);
                let o = t_header_view(&tt::Header {
                    version: q.version, prev_hash: q.prev_hash, proposer: q.proposer, state_root: q.prev_state_root,
                    transactions_root: q.transactions_root, signed_txs_hash: q.signed_txs_hash, receipts_root: Default::default(),
                    log_bloom: Default::default(), timestamp: q.timestamp, number: q.number, gas_used: 0.into(), gas_limit: q.gas_limit,
                    extra_data: q.extra_data, base_fee_per_gas: q.base_fee_per_gas, proof: q.proof,
                    call_system_script_count: q.call_system_script_count, chain_id: q.chain_id,
                });
                for k in ["version", "prev_hash", "proposer", "txs_root", "signed", "ts", "number", "gas_limit", "extra", "base_fee",
                          "proof", "scripts", "chain_id"] {
                    v[k] = o[k].clone();
                }
                v["prev_state_root"] = o["state_root"].clone();
                v["txs"] = hashes(&q.tx_hashes);
                Ok(v)
            });
            hsh(ev, "proposal", || axon_tools::keccak_256(&rlp::encode(&q)) == p.hash().0 && axon_tools::keccak_256(&rlp::encode(&t.header)) == b.hash().0);
        }
        "metadata" => {
            let m = metadata_of(r);
            let b = rlp::encode(&m).to_vec();
            // what the library reads from the node's bytes, and writes back
            dec(ev, "metadata", r, || Ok(t_metadata_view(&rlp::decode::<tt::Metadata>(&b).map_err(es)?)));
            enc(ev, "metadata", r, || rlp::decode::<tt::Metadata>(&b).map(|t| rlp::encode(&t).to_vec()).unwrap_or_default());
            let mut nocnt = r.clone();
            nocnt["counter"] = json!([]);
            dec(ev, "metadata", &nocnt, || {
                let t: tt::Metadata = serde_json::from_str(&serde_json::to_string(&m).map_err(es)?).map_err(es)?;
                let mut v = t_metadata_view(&t);
                v["counter"] = json!([]);
                Ok(v)
            });
            for (i, v) in m.verifier_list.iter().enumerate() {
                let t = tt::ValidatorExtend {
                    bls_pub_key:    v.bls_pub_key.as_ref().to_vec().into(),
                    pub_key:        v.pub_key.as_ref().to_vec().into(),
                    address:        v.address,
                    propose_weight: v.propose_weight,
                    vote_weight:    v.vote_weight,
                };
                enc(ev, "validator", &r["validators"][i], || rlp::encode(&t).to_vec());
            }
        }
        _ => unreachable!(),
    }
}

/// the library's trie proof check against the node's trie
fn trie(ev: &mut Vec<Value>, rng: &mut Rng) {
    use common_merkle::TrieMerkle;
    let n = rng.range(1, 40) as usize;
    let items: Vec<Bytes> = (0..n).map(|_| { let k = rng.range(1, 90) as usize; rng.bytes(k).into() }).collect();
    let mut t = TrieMerkle::from_receipts(&items);
    let root = t.root_hash().unwrap();
    for _ in 0..6 {
        let i = rng.below(n as u64) as usize;
        let key = rlp::encode(&i).to_vec();
        let proof = t.get_proof_by_index(i).unwrap();
        same(ev, "trie-present", || matches!(axon_tools::verify_trie_proof(root, &key, proof.clone()), Ok(Some(v)) if v == items[i].to_vec()));
        let j = (i + 1) % (n + 1);
        let other = rlp::encode(&j).to_vec();
        // a proof for one key never yields a value for another that is not there
        same(ev, "trie-other-key", || match axon_tools::verify_trie_proof(root, &other, proof.clone()) {
            Ok(Some(v)) => j < n && v == items[j].to_vec(),
            _ => true,
        });
        let mut bad = root;
        bad.0[3] ^= 1;
        same(ev, "trie-other-root", || axon_tools::verify_trie_proof(bad, &key, proof.clone()).is_err());
        let mut p2 = proof.clone();
        let a = rng.below(p2.len() as u64) as usize;
        let b = rng.below(p2[a].len() as u64) as usize;
        p2[a][b] ^= 1 << rng.below(8);
        same(ev, "trie-tampered", || !matches!(axon_tools::verify_trie_proof(root, &key, p2), Ok(Some(v)) if v != items[i].to_vec()));
    }
    same(ev, "trie-absent", || {
        let proof = t.get_proof_by_index(n).unwrap();
        matches!(axon_tools::verify_trie_proof(root, &rlp::encode(&n).to_vec(), proof), Ok(None))
    });
}

pub fn run(cases: &str, out_node: &str, out_tools: &str) {
    let mut rng = Rng::new(seed());
    let mut a = Out::create(out_node);
    let mut b = Out::create(out_tools);
    for (i, c) in read_ndjson(cases).iter().enumerate() {
        let k = c["kind"].as_str().unwrap();
        let mut ev = vec![];
        node(k, &c["r"], &mut ev, &mut rng);
        a.trace(&format!("{k}{i}"), json!(0), ev);
        let mut ev = vec![];
        tools(k, &c["r"], &mut ev);
        b.trace(&format!("{k}{i}"), json!(0), ev);
    }
    for i in 0..scale(60, 1500) {
        let mut ev = vec![];
        own_forms(&mut ev, &mut rng);
        a.trace(&format!("own{i}"), json!(0), ev);
        let mut ev = vec![];
        binds(&mut ev, &mut rng);
        a.trace(&format!("bind{i}"), json!(0), ev);
        // random blocks through both codecs
        let blk = block_view(&rblock(&mut rng));
        let mut ev = vec![];
        node("block", &blk, &mut ev, &mut rng);
        a.trace(&format!("rblock{i}"), json!(0), ev);
        let mut ev = vec![];
        tools("block", &blk, &mut ev);
        b.trace(&format!("rblock{i}"), json!(0), ev);
        let mut ev = vec![];
        trie(&mut ev, &mut rng);
        b.trace(&format!("trie{i}"), json!(0), ev);
    }
    a.finish();
    b.finish();
}
