//! The verification library's block verification over every case of Quorum.
use crate::records::{rblock, t_header, t_proof};
use crate::*;
use axon_tools::types as tt;
use blst::min_pk::{AggregateSignature, SecretKey, Signature};
use ethers_core::utils::keccak256;
use protocol::types::*;

const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";

pub struct Val {
    pub bls: SecretKey,
    pub pk:  Vec<u8>,
}

/// validators in the order of their public keys
pub fn validators(rng: &mut Rng, n: usize) -> Vec<Val> {
    let mut v: Vec<Val> = (0..n)
        .map(|_| {
            let mut pk = rng.bytes(33);
            pk[0] = 2 + (pk[0] & 1);
            Val { bls: SecretKey::key_gen(&rng.bytes(32), &[]).unwrap(), pk }
        })
        .collect();
    v.sort_by(|a, b| a.pk.cmp(&b.pk));
    v
}
pub fn bools(v: &Value) -> Vec<bool> {
    v.as_array().map(|a| a.iter().map(|x| x.as_bool().unwrap()).collect()).unwrap_or_default()
}
pub fn bitmap(marks: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; (marks.len() + 7) / 8];
    for (i, m) in marks.iter().enumerate() {
        if *m {
            out[i / 8] |= 0x80 >> (i % 8);
        }
    }
    out
}
pub fn alter(b: &mut Block, field: &str, rng: &mut Rng) {
    let h = &mut b.header;
    let bit = |x: &mut H256, r: &mut Rng| x.0[r.below(32) as usize] ^= 1 << r.below(8);
    match field {
        "none" => {}
        "prev_hash" => bit(&mut h.prev_hash, rng),
        "proposer" => h.proposer.0[rng.below(20) as usize] ^= 1,
        "txs_root" => bit(&mut h.transactions_root, rng),
        "signed" => bit(&mut h.signed_txs_hash, rng),
        "ts" => h.timestamp ^= 1 << rng.below(60),
        "number" => h.number += 1,
        "gas_limit" => h.gas_limit = (h.gas_limit.as_u64() ^ (1 << rng.below(60))).into(),
        "extra" => h.extra_data.push(ExtraData { inner: rng.bytes(3).into() }),
        "proof_number" => h.proof.number ^= 1 << rng.below(60),
        "proof_round" => h.proof.round ^= 1 << rng.below(60),
        "proof_hash" => bit(&mut h.proof.block_hash, rng),
        "proof_sig" => h.proof.signature = [&h.proof.signature[..], &[1]].concat().into(),
        "proof_bitmap" => h.proof.bitmap = [&h.proof.bitmap[..], &[0x80]].concat().into(),
        "scripts" => h.call_system_script_count ^= 1 << rng.below(30),
        "txs_drop" => {
            b.tx_hashes.pop();
        }
        "txs_add" => b.tx_hashes.push(H256::from_slice(&rng.bytes(32))),
        "txs_swap" => b.tx_hashes.swap(0, 1),
        "state_root" => bit(&mut h.state_root, rng),
        "receipts_root" => bit(&mut h.receipts_root, rng),
        "bloom" => h.log_bloom.0[rng.below(256) as usize] ^= 1,
        "gas_used" => h.gas_used = (h.gas_used.as_u64() ^ (1 << rng.below(60))).into(),
        "base_fee" => h.base_fee_per_gas = (h.base_fee_per_gas.as_u64() ^ (1 << rng.below(60))).into(),
        "chain_id" => h.chain_id ^= 1 << rng.below(60),
        x => panic!("no field {x}"),
    }
}

pub struct Story {
    pub block: Block,
    pub prev:  H256,
    pub proof: Proof,
    pub vals:  Vec<(Val, u32)>, // as listed
    pub bls:   Vec<Vec<u8>>,    // their keys, as listed
}

fn rlp_uint(x: u64) -> Vec<u8> {
    rlp::encode(&x).to_vec()
}
/// the digest of a vote, written out independently of both codecs
fn vote_digest(number: u64, round: u64, ty: u64, hash: &H256) -> [u8; 32] {
    let mut p = vec![];
    for x in [rlp_uint(number), rlp_uint(round), rlp_uint(ty)] {
        p.extend(x);
    }
    p.push(0xa0);
    p.extend(hash.as_bytes());
    let mut out = vec![0xc0 + p.len() as u8];
    out.extend(p);
    keccak256(out)
}

pub fn story(t: &Value, rng: &mut Rng) -> Story {
    let s = |k: &str| t[k].as_str().unwrap().to_string();
    let u = |k: &str| t[k].as_u64().unwrap();
    let w: Vec<u32> = t["w"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let vals = validators(rng, w.len());
    let mut b0 = rblock(rng);
    while b0.tx_hashes.len() < 2 || b0.tx_hashes[0] == b0.tx_hashes[1] {
        b0.tx_hashes.push(H256::from_slice(&rng.bytes(32)));
        b0.tx_hashes.rotate_right(1);
    }
    b0.header.number = 7;
    let p0 = H256::from_slice(&rng.bytes(32));
    let ph = |b: &Block, p: H256| Proposal::new_with_state_root(&b.header, p, b.tx_hashes.clone()).hash();
    let h0 = ph(&b0, p0);
    let mut b = b0.clone();
    alter(&mut b, &s("alter"), rng);
    let prev = if s("prev") == "same" { p0 } else { H256::from_slice(&rng.bytes(32)) };
    let h1 = ph(&b, prev);
    let other = H256::from_slice(&rng.bytes(32));
    let named = |x: String| match x.as_str() {
        "voted" => h0,
        "presented" => h1,
        _ => other,
    };
    let msg = vote_digest(u("snum"), u("sround"), u("stype"), &named(s("shash")));
    let signers = bools(&t["signers"]);
    let sigs: Vec<Signature> =
        vals.iter().zip(&signers).filter(|(_, s)| **s).map(|(v, _)| v.bls.sign(&msg, DST, &[])).collect();
    let mut sig = if sigs.is_empty() {
        vals[0].bls.sign(&[1], DST, &[]).to_bytes().to_vec()
    } else {
        let r: Vec<&Signature> = sigs.iter().collect();
        Signature::from_aggregate(&AggregateSignature::aggregate(&r, false).unwrap()).to_bytes().to_vec()
    };
    let mut bls: Vec<Vec<u8>> = vals.iter().map(|v| v.bls.sk_to_pk().to_bytes().to_vec()).collect();
    let mut bm = bitmap(&bools(&t["marks"]));
    match s("garble").as_str() {
        "none" => {}
        "sig_empty" => sig.clear(),
        "sig_short" => sig.truncate(95),
        "sig_flip" => sig[50] ^= 4,
        "sig_random" => sig = rng.bytes(96),
        "sig_infinity" => {
            sig = vec![0; 96];
            sig[0] = 0xc0
        }
        "key_empty" => bls[0].clear(),
        "key_short" => bls[0].truncate(47),
        "key_random" => bls[0] = rng.bytes(48),
        "key_infinity" => {
            bls[0] = vec![0; 48];
            bls[0][0] = 0xc0
        }
        "key_other" => bls[0] = SecretKey::key_gen(&rng.bytes(32), &[]).unwrap().sk_to_pk().to_bytes().to_vec(),
        "bitmap_empty" => bm.clear(),
        x => panic!("no garbling {x}"),
    }
    let proof = Proof {
        number:     u("pnum"),
        round:      u("pround"),
        block_hash: named(s("phash")),
        signature:  sig.into(),
        bitmap:     bm.into(),
    };
    let order: Vec<usize> = t["order"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
    let mut slots: Vec<Option<(Val, u32)>> = vals.into_iter().zip(w).map(Some).collect();
    let listed = order.iter().map(|i| slots[*i].take().unwrap()).collect();
    let bls = order.iter().map(|i| bls[*i].clone()).collect();
    Story { block: b, prev, proof, vals: listed, bls }
}

pub fn run(cases: &str, out: &str) {
    let mut rng = Rng::new(seed());
    let mut o = Out::create(out);
    for (i, t) in read_ndjson(cases).iter().enumerate() {
        let s = story(t, &mut rng);
        let mut list: Vec<tt::ValidatorExtend> = s
            .vals
            .iter()
            .zip(&s.bls)
            .map(|((v, w), bls)| tt::ValidatorExtend {
                bls_pub_key:    tt::Hex::encode(bls),
                pub_key:        tt::Hex::encode(&v.pk),
                address:        Default::default(),
                propose_weight: 1,
                vote_weight:    *w,
            })
            .collect();
        let b = tt::Block { header: t_header(&s.block.header), tx_hashes: s.block.tx_hashes.clone() };
        let r = match guard(|| axon_tools::verify_proof(b, s.prev, &mut list, t_proof(&s.proof)).is_ok()) {
            Ok(x) => json!({"accept": x}),
            Err(_) => json!({"panic": true}),
        };
        o.trace(&format!("case{i}"), json!(0), vec![json!({"op": "verify", "t": t, "out": r})]);
    }
    o.finish();
}
