//! Roots, proofs and blooms of random and boundary lists (Commit).
use crate::records::{rblock, rtx};
use crate::*;
use common_merkle::{Merkle, TrieMerkle};
use ethers_core::utils::keccak256;
use protocol::types::*;
use std::collections::BTreeMap;

#[derive(Default)]
struct Table(BTreeMap<Vec<u8>, [u8; 32]>);
impl Table {
    fn add(&mut self, x: &[u8]) -> [u8; 32] {
        *self.0.entry(x.to_vec()).or_insert_with(|| keccak256(x))
    }
    fn view(&self) -> Value {
        json!({"tab": self.0.iter().map(|(p, d)| json!({"p": jb(p), "d": jb(d)})).collect::<Vec<_>>()})
    }
}
fn list(xs: &[Vec<u8>]) -> Value {
    json!(xs.iter().map(jb).collect::<Vec<_>>())
}
fn bits(b: &Bloom) -> Value {
    json!((0..2048usize).filter(|i| b.0[255 - i / 8] >> (i % 8) & 1 == 1).collect::<Vec<_>>())
}
fn logv(l: &Log) -> Value {
    json!({"address": jb(l.address), "topics": l.topics.iter().map(jb).collect::<Vec<_>>(), "data": jb(&l.data)})
}

fn trie_case(rng: &mut Rng, items: Vec<Vec<u8>>, probes: usize, hashes: bool) -> (Value, Vec<Value>) {
    let mut tab = Table::default();
    let mut ev = vec![];
    let n = items.len();
    let (mut t, stored) = if hashes {
        let hs: Vec<Hash> = items.iter().map(|x| H256::from_slice(x)).collect();
        (hs.iter().enumerate().collect::<TrieMerkle>(), hs.iter().map(|h| rlp::encode(h).to_vec()).collect::<Vec<_>>())
    } else {
        (TrieMerkle::from_receipts(&items.iter().map(|x| Bytes::from(x.clone())).collect::<Vec<_>>()), items)
    };
    let root = t.root_hash().unwrap();
    tab.add(&[0x80]);
    // every node of the trie is in the proof of some position
    let mut proofs = vec![];
    for i in 0..=n {
        let p = t.get_proof_by_index(i).unwrap();
        p.iter().for_each(|x| {
            tab.add(x);
        });
        proofs.push(p);
    }
    ev.push(json!({"op": "root", "items": list(&stored), "out": {"root": jb(root)}}));
    for k in 0..(if n == 0 { 0 } else { probes }) {
        let i = if k == 0 { n } else if k == 1 { n.saturating_sub(1) } else { rng.below(n as u64 + 1) as usize };
        ev.push(json!({"op": "proof", "items": list(&stored), "i": i, "out": {"nodes": list(&proofs[i])}}));
        for what in 0..7 {
            let (mut r, mut nodes, mut j) = (root, proofs[i].clone(), i);
            match what {
                0 => {}
                1 => j = rng.below(n as u64 + 2) as usize,
                2 => r.0[rng.below(32) as usize] ^= 1,
                3 => {
                    nodes.pop();
                }
                4 => {
                    let a = rng.below(nodes.len() as u64) as usize;
                    let b = rng.below(nodes[a].len() as u64) as usize;
                    nodes[a][b] ^= 1 << rng.below(8);
                }
                5 => {
                    // a node of another path in the place of the last
                    nodes.pop();
                    nodes.extend(proofs[rng.below(n as u64 + 1) as usize].iter().cloned());
                }
                _ => {
                    // the root of a self-made trie holding another value
                    let mut other = stored.clone();
                    if n > 0 {
                        other[i.min(n - 1)] = rng.bytes(5);
                    }
                    let t2 = TrieMerkle::from_receipts(&other.into_iter().map(Bytes::from).collect::<Vec<_>>());
                    nodes = { let mut t2 = t2; t2.root_hash().unwrap(); t2.get_proof_by_index(i).unwrap() };
                }
            }
            nodes.iter().for_each(|x| {
                tab.add(x);
            });
            let out = match guard(|| axon_tools::verify_trie_proof(r, &rlp::encode(&j), nodes.clone())) {
                Ok(Ok(Some(v))) => json!({"value": jb(v)}),
                Ok(Ok(None)) => json!({"none": true}),
                Ok(Err(_)) => json!({"error": true}),
                Err(_) => json!({"panic": true}),
            };
            ev.push(json!({"op": "verify", "root": jb(r), "nodes": list(&nodes), "i": j, "out": out}));
        }
    }
    (tab.view(), ev)
}

fn bin_case(rng: &mut Rng, n: usize) -> (Value, Vec<Value>) {
    let mut tab = Table::default();
    let mut xs: Vec<Hash> = (0..n).map(|_| H256::from_slice(&rng.bytes(32))).collect();
    if n > 2 && rng.bool() {
        xs[n - 1] = xs[0];
    }
    let items = list(&xs.iter().map(|h| h.0.to_vec()).collect::<Vec<_>>());
    let m = Merkle::from_hashes(xs.clone());
    let mut ev = vec![];
    let out = match m.get_root_hash() {
        None => json!({"none": true}),
        Some(r) => json!({"root": jb(r)}),
    };
    for i in 0..n {
        let out = match guard(|| m.get_proof_by_input_index(i)) {
            Err(_) => json!({"panic": true}),
            Ok(None) => json!({"none": true}),
            Ok(Some(p)) => {
                let mut h = xs[i].0;
                for s in &p {
                    let cat = if s.is_right { [h, s.hash.0].concat() } else { [s.hash.0, h].concat() };
                    h = tab.add(&cat);
                }
                json!({"proof": p.iter().map(|x| json!({"right": x.is_right, "hash": jb(x.hash)})).collect::<Vec<_>>()})
            }
        };
        ev.push(json!({"op": "binproof", "items": items, "i": i, "out": out}));
    }
    ev.insert(0, json!({"op": "binroot", "items": items, "out": out}));
    (tab.view(), ev)
}

fn rlogs(rng: &mut Rng, max: u64) -> Vec<Log> {
    (0..rng.below(max))
        .map(|_| Log {
            address: if rng.chance(1, 4) { H160::repeat_byte(7) } else { H160::from_slice(&rng.bytes(20)) },
            topics:  (0..rng.below(5)).map(|_| if rng.chance(1, 4) { H256::zero() } else { H256::from_slice(&rng.bytes(32)) }).collect(),
            data:    { let n = *rng.pick(&[0usize, 1, 5, 32, 60]); rng.bytes(n) },
        })
        .collect()
}

fn block_case(rng: &mut Rng, n: usize) -> (Value, Vec<Value>, Value, Vec<Value>) {
    let mut tab = Table::default();
    let mut ev = vec![];
    let txs: Vec<SignedTransaction> = (0..n).map(|_| rtx(rng)).collect();
    let resps: Vec<TxResp> = (0..n)
        .map(|_| TxResp {
            exit_reason:  match rng.below(4) {
                0 => ExitReason::Revert(ExitRevert::Reverted),
                1 => ExitReason::Error(ExitError::OutOfGas),
                2 => ExitReason::Succeed(ExitSucceed::Stopped),
                _ => ExitReason::Succeed(ExitSucceed::Returned),
            },
            ret:          rng.bytes(4),
            gas_used:     *rng.pick(&[0u64, 1, 127, 128, 21000, 1 << 40, u64::MAX]),
            remain_gas:   rng.below(1000),
            fee_cost:     U256::from(rng.below(1000)),
            logs:         rlogs(rng, 5),
            code_address: if rng.bool() { Some(H256::from_slice(&rng.bytes(32))) } else { None },
            removed:      false,
        })
        .collect();
    for r in &resps {
        for l in &r.logs {
            tab.add(l.address.as_bytes());
            l.topics.iter().for_each(|t| {
                tab.add(t.as_bytes());
            });
        }
    }
    let rv: Vec<Value> = resps
        .iter()
        .map(|r| {
            json!({"ok": matches!(r.exit_reason, ExitReason::Succeed(_)), "gas": jb(minimal(&r.gas_used.to_be_bytes())),
                "logs": r.logs.iter().map(logv).collect::<Vec<_>>(),
                "code": r.code_address.map(|x| vec![jb(x)]).unwrap_or_default()})
        })
        .collect();
    for (t, (r, v)) in txs.iter().zip(resps.iter().zip(&rv)) {
        let b = logs_bloom(r.logs.iter());
        ev.push(json!({"op": "bloom", "logs": v["logs"], "out": {"bits": bits(&b)}}));
        let ty = t.type_();
        ev.push(json!({"op": "receipt", "type": ty, "ok": v["ok"], "gas": v["gas"], "bloom": jb(b.0), "logs": v["logs"],
            "out": {"b": jb(t.encode_receipt(r, b))}}));
    }
    let exec = ExecResp { state_root: H256::from_slice(&rng.bytes(32)), receipt_root: H256::from_slice(&rng.bytes(32)), gas_used: 7, tx_resp: resps.clone() };
    let b0 = rblock(rng);
    let p = Proposal::new_with_state_root(&b0.header, b0.header.prev_hash, txs.iter().map(|t| t.transaction.hash).collect());
    let block = Block::new(p, exec.clone());
    let (receipts, logs) = block.generate_receipts_and_logs(&txs, &exec);
    let out: Vec<Value> = receipts
        .iter()
        .map(|r| {
            json!({"index": r.tx_index, "first": r.log_index, "gas": jb(minimal(&r.used_gas.as_u64().to_be_bytes())), "ok": r.status().as_u64() == 1,
                "tx": jb(r.tx_hash), "sender": jb(r.sender), "logs": r.logs.iter().map(logv).collect::<Vec<_>>(),
                "code": r.code_address.map(|x| vec![jb(x)]).unwrap_or_default(), "block": jb(r.block_hash), "number": jb(minimal(&r.block_number.to_be_bytes())),
                "state": jb(r.state_root)})
        })
        .collect();
    let tv: Vec<Value> = txs.iter().map(|t| json!({"hash": jb(t.transaction.hash), "sender": jb(t.sender)})).collect();
    ev.push(json!({"op": "receipts", "resps": rv, "txs": tv, "block": jb(keccak256(rlp::encode(&block.header))),
        "number": jb(minimal(&block.header.number.to_be_bytes())), "state": jb(exec.state_root), "out": {"r": out}}));
    for (r, l) in receipts.iter().zip(&logs) {
        ev.push(json!({"op": "bloom", "logs": l.iter().map(logv).collect::<Vec<_>>(), "out": {"bits": bits(&r.logs_bloom)}}));
    }
    // the header's bloom as it is computed today: of the list of the blooms of the encoded logs, each as one entry
    let per: Vec<Bloom> = resps.iter().map(|r| entry_bloom(&rlp::encode_list(&r.logs))).collect();
    let legacy = entry_bloom(&rlp::encode_list(&per));
    let hb = json!({"op": "headerbloom", "resps": rv, "rlp_of_blooms": block.header.log_bloom == legacy, "out": {"bits": bits(&block.header.log_bloom)}});
    (tab.view(), ev, tab.view(), vec![hb])
}
fn entry_bloom(x: &[u8]) -> Bloom {
    let d = keccak256(x);
    let mut b = Bloom::zero();
    for k in [0, 2, 4] {
        let i = (d[k] as usize * 256 + d[k + 1] as usize) % 2048;
        b.0[255 - i / 8] |= 1 << (i % 8);
    }
    b
}

pub fn run(out: &str) {
    let mut rng = Rng::new(seed());
    let mut o = Out::create(out);
    let mut k = 0;
    let mut sizes: Vec<usize> = (0..20).collect();
    sizes.extend([40, 128, 130, 259]);
    if thorough() {
        sizes.extend([257, 300, 520]);
        sizes.extend((0..60).map(|_| rng.below(40) as usize));
    }
    for n in sizes {
        for kind in 0..(if n < 20 { 3 } else { 2 }) {
            let items: Vec<Vec<u8>> = (0..n)
                .map(|i| match kind {
                    0 => rng.bytes(32),
                    1 => { let l = *rng.pick(&[1usize, 1, 2, 3, 31, 32, 33, 55, 56, 90]); rng.bytes(l) }
                    _ => vec![1 + (i % 3) as u8],
                })
                .collect();
            let (cfg, ev) = trie_case(&mut rng, items, if n < 20 { 4 } else { 2 }, kind == 0);
            o.trace(&format!("trie{k}"), cfg, ev);
            k += 1;
        }
    }
    // long lists: every position counts, and so does the order
    let mut ev = vec![];
    for n in [256usize, 257, 300, 1000, scale(3000, 70_000)] {
        let items: Vec<Vec<u8>> = (0..n).map(|i| (i as u32).to_be_bytes()[1..].to_vec()).collect();
        let root = |kind: usize, items: &[Vec<u8>]| {
            if kind == 0 {
                items.iter().map(|x| Hash::from_slice(&[&[7u8; 29][..], x].concat())).collect::<Vec<_>>().iter().enumerate().collect::<TrieMerkle>().root_hash().unwrap()
            } else if kind == 1 {
                TrieMerkle::from_receipts(&items.iter().map(|x| Bytes::from(x.clone())).collect::<Vec<_>>()).root_hash().unwrap()
            } else {
                Merkle::from_hashes(items.iter().map(|x| Hash::from_slice(&[&[7u8; 29][..], x].concat())).collect()).get_root_hash().unwrap()
            }
        };
        for kind in 0..3 {
            let r0 = root(kind, &items);
            for at in [0, 1, n / 2, n - 257.min(n), n - 1, rng.below(n as u64) as usize] {
                let mut other = items.clone();
                if at % 2 == 0 { other[at][0] ^= 1 } else { other.swap(at, at - 1) }
                ev.push(json!({"op": "differ", "kind": kind, "n": n, "at": at, "out": {"same": root(kind, &other) == r0}}));
            }
        }
    }
    o.trace("long", json!({"tab": [{"p": [], "d": []}]}), ev);
    for n in 0..scale(20, 70) {
        let (cfg, ev) = bin_case(&mut rng, n);
        o.trace(&format!("bin{n}"), cfg, ev);
    }
    for i in 0..scale(40, 600) {
        let (c, e, c2, e2) = block_case(&mut rng, i % 6);
        o.trace(&format!("block{i}"), c, e);
        o.trace(&format!("header{i}"), c2, e2);
    }
    o.finish();
}
