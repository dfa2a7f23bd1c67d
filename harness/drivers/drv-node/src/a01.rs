//! Which proofs a node accepts: every case of Quorum against OverlordConsensusAdapter::verify_proof.
use crate::chain::*;
use crate::val::*;
use crate::*;
use common_crypto::{BlsPrivateKey, PublicKey, ToPublicKey, Secp256k1PrivateKey};
use core_consensus::engine::generate_new_crypto_map;
use core_consensus::util::OverlordCrypto;
use core_consensus::OverlordConsensusAdapter;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl};
use overlord::Crypto;
use protocol::traits::*;
use protocol::types::*;
use std::convert::TryFrom;
use std::sync::Arc;

fn bools(v: &Value) -> Vec<bool> { v.as_array().map(|a| a.iter().map(|x| x.as_bool().unwrap()).collect()).unwrap_or_default() }
fn named_key(i: u8) -> Key {
    let bls = blst::min_pk::SecretKey::key_gen(&[i; 32], &[]).unwrap();
    let k = Secp256k1PrivateKey::try_from([i; 32].as_ref()).unwrap();
    Key { raw: bls.to_bytes().to_vec(), bls, pk: k.pub_key().to_bytes(), address: Address::from_pubkey(&k.pub_key()).0 }
}
fn group(from: u8, n: usize) -> Vec<Key> { let mut v: Vec<Key> = (0..n as u8).map(|i| named_key(from + i)).collect(); v.sort_by(|a, b| a.pk.cmp(&b.pk)); v }
fn block(rng: &mut Rng) -> Block {
    let mut p = Proposal::default_at(7);
    let mut h = || H256::from_slice(&rng.bytes(32));
    p.prev_hash = h();
    p.transactions_root = h();
    p.signed_txs_hash = h();
    p.tx_hashes = vec![h(), h(), h()];
    p.proof = Proof { number: 6, round: 1, block_hash: h(), signature: vec![7u8; 96].into(), bitmap: vec![0xf0u8].into() };
    p.proposer = H160::from_slice(&rng.bytes(20));
    p.timestamp = rng.below(1 << 40);
    let resp = ExecResp { state_root: H256::from_slice(&rng.bytes(32)), receipt_root: H256::from_slice(&rng.bytes(32)), gas_used: 77, tx_resp: vec![] };
    Block::new(p, resp)
}
fn alter(b: &mut Block, field: &str, rng: &mut Rng) {
    let h = &mut b.header;
    let bit = |x: &mut H256, r: &mut Rng| x.0[r.below(32) as usize] ^= 1 << r.below(8);
    match field {
        "none" => {}
        "prev_hash" => bit(&mut h.prev_hash, rng),
        "proposer" => h.proposer.0[rng.below(20) as usize] ^= 1,
        "txs_root" => bit(&mut h.transactions_root, rng),
        "signed" => bit(&mut h.signed_txs_hash, rng),
        "ts" => h.timestamp ^= 1 << rng.below(60),
        "number" => h.number += 1,
        "gas_limit" => h.gas_limit = (h.gas_limit.as_u64() ^ (1 << rng.below(60))).into(),
        "extra" => h.extra_data.push(ExtraData { inner: rng.bytes(3).into() }),
        "proof_number" => h.proof.number ^= 1 << rng.below(60),
        "proof_round" => h.proof.round ^= 1 << rng.below(60),
        "proof_hash" => bit(&mut h.proof.block_hash, rng),
        "proof_sig" => h.proof.signature = [&h.proof.signature[..], &[1]].concat().into(),
        "proof_bitmap" => h.proof.bitmap = [&h.proof.bitmap[..], &[0x80]].concat().into(),
        "scripts" => h.call_system_script_count ^= 1 << rng.below(30),
        "txs_drop" => { b.tx_hashes.pop(); }
        "txs_add" => b.tx_hashes.push(H256::from_slice(&rng.bytes(32))),
        "txs_swap" => b.tx_hashes.swap(0, 1),
        "state_root" => bit(&mut h.state_root, rng),
        "receipts_root" => bit(&mut h.receipts_root, rng),
        "bloom" => h.log_bloom.0[rng.below(256) as usize] ^= 1,
        "gas_used" => h.gas_used = (h.gas_used.as_u64() ^ (1 << rng.below(60))).into(),
        "base_fee" => h.base_fee_per_gas = (h.base_fee_per_gas.as_u64() ^ (1 << rng.below(60))).into(),
        "chain_id" => h.chain_id ^= 1 << rng.below(60),
        x => panic!("no field {x}"),
    }
}
async fn one(t: &Value, path: &str, seed: u64) -> Vec<Value> {
    let mut rng = Rng::new(seed);
    let s = |k: &str| t[k].as_str().unwrap().to_string();
    let u = |k: &str| t[k].as_u64().unwrap();
    let w: Vec<u32> = t["w"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let max = *w.iter().max().unwrap();
    let by = if max > 0 && rng.bool() { u32::MAX / max } else { 1 };
    let voters = group(101, w.len());
    let others = group(151, w.len());
    let order: Vec<usize> = t["order"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
    let mut list: Vec<ValidatorExtend> = voters.iter().zip(&w).map(|(k, w)| extend(k, w * by)).collect();
    let garble = s("garble");
    match garble.as_str() {
        "key_empty" => list[0].bls_pub_key = Hex::encode([0u8; 0]),
        "key_short" => { let mut k = list[0].bls_pub_key.as_bytes().to_vec(); k.truncate(47); list[0].bls_pub_key = Hex::encode(k) }
        "key_random" => list[0].bls_pub_key = Hex::encode(rng.bytes(48)),
        "key_infinity" => { let mut k = vec![0u8; 48]; k[0] = 0xc0; list[0].bls_pub_key = Hex::encode(k) }
        "key_other" => list[0].bls_pub_key = Hex::encode(named_key(200).bls.sk_to_pk().to_bytes()),
        _ => {}
    }
    let list: Vec<ValidatorExtend> = order.iter().map(|i| list[*i].clone()).collect();
    let rest: Vec<ValidatorExtend> = others.iter().zip(&w).map(|(k, w)| extend(k, *w)).collect();
    // the voters are those of number 7, or of the epoch just before or after it
    let (first_end, sets) = match s("set").as_str() {
        "first" => (6, [rest, list]),
        "last" => (7, [list, rest]),
        "before" => (6, [list, rest]),
        "after" => (7, [rest, list]),
        x => panic!("no set {x}"),
    };
    let m = |epoch, start, end, v: &Vec<ValidatorExtend>| Metadata { version: MetadataVersion { start, end }, epoch, verifier_list: v.clone(), propose_counter: vec![], consensus_config: config(0x6000) };
    let chain = Chain::genesis(path, &[], &[m(0, 0, first_end, &sets[0]), m(1, first_end + 1, first_end * 2, &sets[1])], HardforkInfoInner { block_number: 0, flags: flags(&[0]) }, 2000);
    let c = Context::new;
    let resp = ExecResp { state_root: chain.root, receipt_root: RLP_NULL, gas_used: 0, tx_resp: vec![] };
    chain.storage.insert_block(c(), Block::new(Proposal::default_at(0), resp.clone())).await.unwrap();
    let net = VNet::default();
    let a = DefaultMemPoolAdapter::new(net.clone(), Arc::clone(&chain.storage), Arc::clone(&chain.trie), 5, 1 << 20, 10, 1_000_000);
    let pool: Arc<Pool> = Arc::new(MemPoolImpl::new(100, 50, a, vec![]).await);
    let map = |v: &[ValidatorExtend]| generate_new_crypto_map(m(0, 0, 9, &v.to_vec())).ok();
    let signing = map(if ["first", "after"].contains(&s("set").as_str()) { &sets[1] } else { &sets[0] });
    let me = BlsPrivateKey::try_from(voters[0].raw.as_ref()).unwrap();
    let crypto = Arc::new(OverlordCrypto::new(me, signing.clone().unwrap_or_default(), String::new()));
    let cad: Cad = OverlordConsensusAdapter::new(Arc::new(net.clone()), Arc::clone(&pool), Arc::clone(&chain.storage), Arc::clone(&chain.trie), Arc::clone(&crypto)).unwrap();

    let b0 = block(&mut rng);
    let p0 = H256::from_slice(&rng.bytes(32));
    let ph = |b: &Block, p: H256| Proposal::new_with_state_root(&b.header, p, b.tx_hashes.clone()).hash();
    let h0 = ph(&b0, p0);
    let mut b = b0.clone();
    alter(&mut b, &s("alter"), &mut rng);
    let prev = if s("prev") == "same" { p0 } else { H256::from_slice(&rng.bytes(32)) };
    // the block it has to be on top of, as this node stored it
    let mut under = Proposal::default_at(b.header.number - 1);
    under.timestamp = 3;
    chain.storage.set_block(c(), Block::new(under, ExecResp { state_root: prev, ..resp })).await.unwrap();
    let h1 = ph(&b, prev);
    let other = H256::from_slice(&rng.bytes(32));
    let named = |x: String| match x.as_str() { "voted" => h0, "presented" => h1, _ => other };
    let msg = vote_digest(u("snum"), u("sround"), u("stype"), &named(s("shash")));
    let signers = bools(&t["signers"]);
    let by: Vec<&blst::min_pk::SecretKey> = voters.iter().zip(&signers).filter(|(_, s)| **s).map(|(k, _)| &k.bls).collect();
    let mut sig = if by.is_empty() { aggregate(&[1], &[&voters[0].bls]) } else { aggregate(&msg, &by) };
    let marks = bools(&t["marks"]);
    let mut bm = bitmap(&marks);
    match garble.as_str() {
        "sig_empty" => sig.clear(),
        "sig_short" => sig.truncate(95),
        "sig_flip" => sig[50] ^= 4,
        "sig_random" => sig = rng.bytes(96),
        "sig_infinity" => { sig = vec![0; 96]; sig[0] = 0xc0 }
        "bitmap_empty" => bm.clear(),
        _ => {}
    }
    let proof = Proof { number: u("pnum"), round: u("pround"), block_hash: named(s("phash")), signature: sig.clone().into(), bitmap: bm.into() };
    let quiet = |r: Result<bool, Box<dyn std::any::Any + Send>>| match r { Ok(x) => json!({"accept": x}), Err(_) => json!({"panic": true}) };
    let r = futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(CommonConsensusAdapter::verify_proof(&cad, c(), b, proof))).await;
    let mut ev = vec![json!({"op": "verify", "t": t, "out": quiet(r.map(|x| x.is_ok()))})];
    // the same votes, as the consensus engine checks them while they come in
    if signing.is_some() {
        let who: Vec<Bytes> = voters.iter().zip(&marks).filter(|(_, m)| **m).map(|(k, _)| k.pk.clone()).collect();
        let want = Bytes::from(vote_digest(u("pnum"), u("pround"), 2, &named(s("phash"))).to_vec());
        let r = guard(|| crypto.verify_aggregated_signature(sig.clone().into(), want.clone(), who.clone()).is_ok());
        ev.push(json!({"op": "votes", "t": t, "out": match r { Ok(x) => json!({"accept": x}), Err(_) => json!({"panic": true}) }}));
        // and as it combines them
        if garble == "none" && !by.is_empty() {
            let names: Vec<Bytes> = voters.iter().zip(&signers).filter(|(_, m)| **m).map(|(k, _)| k.pk.clone()).collect();
            let each: Vec<Bytes> = by.iter().map(|k| aggregate(&msg, &[k]).into()).collect();
            let same = crypto.aggregate_signatures(each.clone(), names.clone()).map(|x| x[..] == sig[..]).unwrap_or(false);
            let mut odd = names.clone();
            odd.pop();
            let uneven = crypto.aggregate_signatures(each.clone(), odd).is_err();
            let each_ok = each.iter().zip(&names).all(|(s, n)| crypto.verify_signature(s.clone(), Bytes::from(msg.to_vec()), n.clone()).is_ok());
            let crossed = names.len() < 2 || crypto.verify_signature(each[0].clone(), Bytes::from(msg.to_vec()), names[1].clone()).is_err();
            let stranger = crypto.verify_signature(each[0].clone(), Bytes::from(msg.to_vec()), others[0].pk.clone()).is_err();
            ev.push(json!({"op": "combine", "out": {"same": same, "uneven": uneven, "each": each_ok, "crossed": crossed, "stranger": stranger}}));
        }
    }
    drop(cad);
    chain.close();
    ev
}
pub fn main(cases: &str, out: &str, dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let mut o = Out::create(out);
    let mut rng = Rng::new(seed());
    let jobs: Vec<(usize, Value, u64)> = read_ndjson(cases).into_iter().enumerate().map(|(i, t)| (i, t, rng.next())).collect();
    for (i, t, seed) in jobs {
        let path = format!("{dir}/{i}");
        let ev = std::thread::scope(|sc| sc.spawn(|| { let _g = rt().enter(); rt().block_on(one(&t, &path, seed)) }).join().unwrap());
        o.trace(&format!("case{i}"), json!(0), ev);
    }
    o.finish();
    let _ = std::fs::remove_dir_all(dir);
    std::process::exit(0);
}
