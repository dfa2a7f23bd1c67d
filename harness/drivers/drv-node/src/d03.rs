//! Epochs: calls to the metadata contract in blocks, and what every number and epoch is looked up as.
use crate::b01::addr;
use crate::chain::*;
use crate::d05::call;
use crate::*;
use core_executor::system_contract::METADATA_CONTRACT_ADDRESS;
use core_executor::MetadataHandle;
use ethers::abi::Token;
use protocol::codec::ProtocolCodec;
use Token::{Address, Array, Bytes as Raw, FixedBytes, Tuple, Uint};

pub const TOP: i64 = 2_000_000_000;
pub fn up(n: i64) -> u64 { if n > 1_000_000_000 { u64::MAX - (TOP - n) as u64 } else { n as u64 } }
pub fn down(n: u64) -> i64 { if n > u64::MAX - 1_000_000 { TOP - (u64::MAX - n) as i64 } else { n as i64 } }
pub fn cfg(c: u64) -> ConsensusConfig {
    ConsensusConfig { gas_limit: 4_000_000 + c, interval: 3000 + c, propose_ratio: 15 + c, prevote_ratio: 10 + c, precommit_ratio: 11 + c, brake_ratio: 12 + c, tx_num_limit: 20000 + c, max_tx_size: 409600 + c, max_contract_limit: 0x6000 + c }
}
fn ctoken(c: u64) -> Token {
    let k = cfg(c);
    Tuple([k.propose_ratio, k.prevote_ratio, k.precommit_ratio, k.brake_ratio, k.tx_num_limit, k.max_tx_size, k.gas_limit, k.interval, k.max_contract_limit].iter().map(|x| Uint((*x).into())).collect())
}
const CONFIG: &str = "(uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64)";
fn key(a: u64) -> u8 { a as u8 }
pub fn val(a: u64, w: u64) -> ValidatorExtend {
    ValidatorExtend { bls_pub_key: Hex::encode([a as u8; 48]), pub_key: Hex::encode([a as u8 + 100; 33]), address: addr(key(a)), propose_weight: (w * 3) as u32, vote_weight: w as u32 }
}
fn vtoken(a: u64, w: u64) -> Token { Tuple(vec![Raw(vec![a as u8; 48]), Raw(vec![a as u8 + 100; 33]), Address(addr(key(a))), Uint((w * 3).into()), Uint(w.into())]) }
fn vals(v: &Value) -> Vec<(u64, u64)> { v.as_array().unwrap().iter().map(|x| (x["a"].as_u64().unwrap(), x["w"].as_u64().unwrap())).collect() }
pub fn data(t: &Value) -> Vec<u8> {
    let c = || t["c"].as_u64().unwrap();
    match t["k"].as_str().unwrap() {
        "append" => {
            let u = |k: &str| Uint(up(t[k].as_i64().unwrap()).into());
            // what the caller says was proposed must not matter
            let said = vec![Tuple(vec![Address(addr(1)), Uint(77.into())])];
            call(&format!("appendMetadata(((uint64,uint64),uint64,(bytes,bytes,address,uint32,uint32)[],(address,uint64)[],{CONFIG}))"),
                &[Tuple(vec![Tuple(vec![u("start"), u("end")]), u("e"), Array(vals(&t["vals"]).iter().map(|(a, w)| vtoken(*a, *w)).collect()), Array(said), ctoken(c())])])
        }
        "config" => call(&format!("updateConsensusConfig({CONFIG})"), &[ctoken(c())]),
        "ckb" => call("setCkbRelatedInfo((bytes32,bytes32,bytes32,bytes32,bytes32,bytes32))", &[Tuple((0..6).map(|i| FixedBytes(vec![(c() * 6 + i) as u8; 32])).collect())]),
        _ => { let mut d = data(&t["of"]); match t["h"].as_u64().unwrap() { 0 => d.clear(), 1 => d.truncate(3), 2 => d[0] ^= 1, _ => { let n = d.len(); d.truncate(n - 32) } } d }
    }
}
pub fn look(root: H256, na: u64, more: &[u64]) -> Value {
    let m = MetadataHandle::new(root);
    let c = m.get_consensus_config().unwrap();
    let c = if c.gas_limit >= 4_000_000 && c == cfg(c.gas_limit - 4_000_000) { (c.gas_limit - 4_000_000) as i64 } else { -1 };
    let ckb = match m.get_ckb_related_info() {
        Err(_) => 0,
        Ok(i) => { let v = (1..40u64).find(|v| [i.metadata_type_id, i.checkpoint_type_id, i.xudt_args, i.stake_smt_type_id, i.delegate_smt_type_id, i.reward_smt_type_id].iter().enumerate().all(|(j, h)| *h == H256::repeat_byte((v * 6 + j as u64) as u8))); v.map(|v| v as i64).unwrap_or(-1) }
    };
    let mut eps = vec![];
    let mut versions = vec![];
    let mut nums: Vec<u64> = more.to_vec();
    for e in 0..1000u64 {
        let Ok(x) = m.get_metadata_by_epoch(e) else { break };
        let v: Vec<Value> = x.verifier_list.iter().map(|v| {
            let a = (1..=na).find(|a| addr(key(*a)) == v.address).unwrap_or(0);
            if *v == val(a, v.vote_weight as u64) { json!({"a": a, "w": v.vote_weight}) } else { json!({"a": -1, "w": 0}) }
        }).collect();
        let cnt: Vec<u64> = (1..=na).map(|a| x.propose_counter.iter().filter(|p| p.address == addr(key(a))).map(|p| p.count).sum()).collect();
        versions.push(x.version);
        nums.extend([x.version.start.saturating_sub(1), x.version.start, x.version.end, x.version.end.saturating_add(1)]);
        eps.push(json!({"e": x.epoch, "start": down(x.version.start), "end": down(x.version.end), "vals": v, "cnt": cnt, "counted": x.propose_counter.len()}));
    }
    nums.sort();
    nums.dedup();
    let at: Vec<Value> = nums.iter().map(|n| {
        let got = m.get_metadata_by_block_number(*n);
        json!({"n": down(*n), "e": got.map(|x| x.epoch as i64).unwrap_or(-1), "last": m.is_last_block_in_current_epoch(*n).unwrap(),
            "contains": versions.iter().map(|v| v.contains(*n)).collect::<Vec<_>>(),
            "valid": (1..=na).map(|a| m.is_validator(*n, addr(key(a))).unwrap_or(false)).collect::<Vec<_>>()})
    }).collect();
    json!({"cfg": c, "ckb": ckb, "eps": eps, "at": at})
}
struct Run { c: Chain, na: u64, nonce: Vec<u64>, ev: Vec<Value>, roots: Vec<H256>, ends: u64, vals: Vec<ValidatorExtend>, dead: bool }
impl Run {
    fn new(path: &str, na: u64, v: &[(u64, u64)], first: (u64, u64)) -> (Run, Value) {
        let vs: Vec<ValidatorExtend> = v.iter().map(|(a, w)| val(*a, *w)).collect();
        let m = |epoch, start, end| Metadata { version: MetadataVersion { start, end }, epoch, verifier_list: vs.clone(), propose_counter: vec![ProposeCount { address: addr(1), count: 9 }], consensus_config: cfg(0) };
        let meta = [m(0, 0, first.0), m(1, first.0 + 1, first.1)];
        let acc: Vec<(H160, U256)> = (1..=na).map(|a| (addr(key(a)), U256::from(10u64).pow(24.into()))).collect();
        let c = Chain::genesis(path, &acc, &meta, HardforkInfoInner { block_number: 0, flags: flags(&[192]) }, 50);
        let list: Vec<Value> = v.iter().map(|(a, w)| json!({"a": a, "w": w})).collect();
        let conf = json!({"na": na, "cfg": 0, "first": [{"start": 0, "end": first.0, "vals": list}, {"start": first.0 + 1, "end": first.1, "vals": list}]});
        MetadataHandle::new(c.metadata_root()).init_hardfork(0).unwrap();
        let l = look(c.metadata_root(), na, &[0, 1]);
        (Run { c, na, nonce: vec![0; na as usize + 1], ev: vec![json!({"op": "genesis", "look": l})], roots: vec![], ends: first.1, vals: vs, dead: false }, conf)
    }
    fn block(&mut self, txs: &[Value], proposer: u64) {
        let signed: Vec<SignedTransaction> = txs.iter().map(|t| {
            let w = t["who"].as_u64().unwrap();
            self.nonce[w as usize] += 1;
            let (to, d) = if t["k"] == "evm" { (H160::repeat_byte(0xee), vec![]) } else { (METADATA_CONTRACT_ADDRESS, data(t)) };
            sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: (self.nonce[w as usize] - 1).into(), gas_price: 1u64.into(), gas_limit: 1_000_000u64.into(), action: TransactionAction::Call(to), value: U256::zero(), data: d.into() }), 5, key(w))
        }).collect();
        let mut p = Proposal::default_at(0);
        p.proposer = addr(key(proposer));
        let vs = self.vals.clone();
        let made = guard(|| self.c.block(p, &signed, &vs));
        let Ok(resp) = made else {
            let txs: Vec<Value> = txs.iter().map(|t| { let mut t = t.clone(); t.as_object_mut().unwrap().remove("of"); t }).collect();
            self.ev.push(json!({"op": "crash", "txs": txs}));
            self.dead = true;
            return
        };
        let txs: Vec<Value> = txs.iter().zip(&resp.tx_resp).map(|(t, r)| {
            let mut t = t.clone();
            t["ok"] = json!(r.exit_reason.is_succeed());
            t.as_object_mut().unwrap().remove("of");
            t
        }).collect();
        let root = self.c.metadata_root();
        self.roots.push(root);
        let l = look(root, self.na, &[self.c.number, self.c.number + 1, 1_000_000]);
        self.ends = l["eps"].as_array().unwrap().last().unwrap()["end"].as_i64().map(up).unwrap();
        self.ev.push(json!({"op": "block", "proposer": proposer, "txs": txs, "look": l}));
    }
    fn epochs(&self) -> u64 { self.ev.iter().rev().find(|e| e["op"] == "block" || e["op"] == "genesis").unwrap()["look"]["eps"].as_array().unwrap().len() as u64 }
    /// an addition, mostly a right one
    fn append(&self, r: &mut Rng, good: bool) -> Value {
        let wrong = |r: &mut Rng| !good && r.below(6) == 0;
        let e = self.epochs() as i64 + if wrong(r) { r.below(4) as i64 - 2 } else { 0 };
        let end = down(self.ends);
        let start = end + 1 + if wrong(r) { r.below(5) as i64 - 2 } else { 0 };
        let stop = if wrong(r) { end + 1 - r.below(3) as i64 } else if !good && r.below(25) == 0 { TOP - r.below(2) as i64 } else { start + r.below(6) as i64 };
        let mut v: Vec<Value> = (1..=self.na).filter_map(|a| (r.below(2) == 0).then(|| json!({"a": a, "w": r.below(5)}))).collect();
        // account 1 always stays in, so that there is somebody to go on
        if !v.iter().any(|x| x["a"] == 1) { v.insert(r.below(v.len() as u64 + 1) as usize, json!({"a": 1, "w": 1})) }
        json!({"k": "append", "e": e.max(0), "start": start.min(TOP), "end": stop.min(TOP), "vals": v, "c": r.below(30)})
    }
    fn any(&self, r: &mut Rng) -> Value {
        let mut t = match r.below(9) {
            0..=3 => self.append(r, false),
            4 => json!({"k": "config", "c": r.below(30)}),
            5 => json!({"k": "ckb", "c": 1 + r.below(30)}),
            6 | 7 => json!({"k": "evm"}),
            _ => { let of = match r.below(3) { 0 => self.append(r, true), 1 => json!({"k": "config", "c": 3}), _ => json!({"k": "ckb", "c": 3}) }; json!({"k": "junk", "h": r.below(4), "of": of}) }
        };
        t["who"] = json!(if r.below(2) == 0 { 1 } else { 1 + r.below(self.na) });
        t
    }
    fn past(&mut self, r: &mut Rng) {
        if self.roots.is_empty() { return }
        let n = r.below(self.roots.len() as u64) as usize;
        let l = look(self.roots[n], self.na, &[n as u64]);
        self.ev.push(json!({"op": "past", "n": n + 1, "look": l}));
    }
}
fn alone<T: Send>(f: impl FnOnce() -> T + Send) -> T { std::thread::scope(|s| s.spawn(f).join().unwrap()) }
pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed() ^ 0xd03);
    let all = read_ndjson(cases);
    let step = (all.len() / scale(400, 6000) as usize).max(1);
    for (i, c) in all.into_iter().enumerate().skip(seed() as usize % step).step_by(step) {
        let (ev, conf) = alone(|| {
            let (mut x, conf) = Run::new(&format!("{base}/g{i}"), 2, &[(1, 1)], (6, 9));
            for t in c.as_array().unwrap() { if x.dead { break } x.block(&[t.clone()], t["who"].as_u64().unwrap()) }
            x.c.close();
            (x.ev, conf)
        });
        o.trace(&format!("adding:{i}"), conf, ev);
    }
    for i in 0..scale(60, 500) {
        let (ev, conf) = alone(|| {
            let na = 1 + r.below(4);
            let v: Vec<(u64, u64)> = (1..=na).filter_map(|a| (a == 1 || r.below(2) == 0).then(|| (a, 1 + r.below(4)))).collect();
            let first = 1 + r.below(3);
            let (mut x, conf) = Run::new(&format!("{base}/r{i}"), na, &v, (first, first + 1 + r.below(3)));
            for _ in 0..12 + r.below(10) {
                if x.dead { break }
                match r.below(12) {
                    0 => x.past(&mut r),
                    1 => { x.c.restart(*r.pick(&[1usize, 3, 50])); MetadataHandle::new(x.c.metadata_root()).init_hardfork(x.c.number).unwrap(); let l = look(x.c.metadata_root(), na, &[0]); x.ev.push(json!({"op": "restart", "look": l})) }
                    _ => {
                        let mut txs: Vec<Value> = (0..r.below(4)).map(|_| x.any(&mut r)).collect();
                        // the chain must not run out of epochs
                        if x.c.number + 2 >= x.ends { let mut t = x.append(&mut r, true); t["who"] = json!(1); txs.insert(0, t) }
                        let p = txs.last().map(|t| t["who"].as_u64().unwrap()).unwrap_or(1 + r.below(na));
                        x.block(&txs, p)
                    }
                }
            }
            for _ in 0..3 { x.past(&mut r) }
            x.c.close();
            (x.ev, conf)
        });
        o.trace(&format!("any:{i}"), conf, ev);
    }
    // blocks whose transactions are not their proposer's
    for i in 0..6u64 {
        let (ev, conf) = alone(|| {
            let (mut x, conf) = Run::new(&format!("{base}/p{i}"), 3, &[(1, 1), (2, 1)], (5, 9));
            x.block(&[json!({"k": "evm", "who": 1 + (i + 1) % 3})], 1 + i % 3);
            x.c.close();
            (x.ev, conf)
        });
        o.trace(&format!("proposed:{i}"), conf, ev);
    }
}
