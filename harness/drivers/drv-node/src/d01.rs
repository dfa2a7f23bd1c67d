//! Blocks of transfers, calls and creations: what they do to balances, nonces and storage (D01);
//! the same on another node, and with read-only calls in between (D02).
use crate::b01::addr;
use crate::chain::*;
use crate::*;
use core_executor::system_contract::*;
use core_executor::{AxonExecutor, AxonExecutorReadOnlyAdapter, MetadataHandle};
use protocol::traits::{Backend, Executor};
use std::sync::Arc;

const NA: usize = 22;
const CODE: [&[u8]; 8] = [
    &[0x00],
    &[0x60, 0, 0x60, 0, 0xfd],
    &[0xfe],
    &[0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x34, 0x60, 0, 0x35, 0x5a, 0xf1, 0x50, 0],
    &[0x60, 0, 0x35, 0xff],
    &[0x36, 0x60, 0x20, 0x14, 0x60, 0x1b, 0x57, 0x60, 0x20, 0x35, 0x60, 0, 0x35, 0x55, 0x60, 0x40, 0x35, 0x60, 0x15, 0x57, 0, 0x5b, 0x60, 0, 0x60, 0, 0xfd, 0x5b, 0x60, 0, 0x35, 0x54, 0x60, 0, 0x52, 0x60, 0x20, 0x60, 0, 0xf3],
    &[0x60, 0, 0x60, 0, 0xa0, 0x60, 0, 0x35, 0x60, 0x0c, 0x57, 0, 0x5b, 0x60, 0, 0x60, 0, 0xfd],
    // for calls only: the balance of the argument, and the block number
    &[0x60, 0, 0x35, 0x31, 0x60, 0, 0x52, 0x43, 0x60, 0x20, 0x52, 0x60, 0x40, 0x60, 0, 0xf3],
];
fn init(code: &[u8]) -> Vec<u8> { let mut v = vec![0x60, code.len() as u8, 0x80, 0x60, 0x0b, 0x60, 0, 0x39, 0x60, 0, 0xf3]; v.extend(code); v }
fn created(sender: H160, nonce: u64) -> H160 {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(&sender);
    s.append(&nonce);
    Hasher::digest(s.out()).into()
}
fn word(n: u64) -> Vec<u8> { let mut w = [0u8; 32]; U256::from(n).to_big_endian(&mut w); w.to_vec() }
fn aword(a: H160) -> Vec<u8> { let mut w = vec![0u8; 12]; w.extend(a.as_bytes()); w }

struct Run { c: Chain, twin: Option<Chain>, a: Vec<H160>, nonce: Vec<u64>, slots: usize, ev: Vec<Value>, roots: Vec<H256>, digests: Vec<H256>, dead: bool, conf: Value }
fn n_of(x: &Value, k: &str) -> i64 { x[k].as_i64().unwrap_or(0) }
impl Run {
    fn new(path: &str, r: &mut Rng, twin: bool) -> Run {
        let mut a: Vec<H160> = (1..=4u8).map(addr).collect();
        a.push(H160::repeat_byte(0xee));
        a.extend((0..7).map(|i| created(addr(9), i)));
        let rich = r.below(3);
        let mut acc: Vec<(H160, U256)> = (0..4).map(|i| (a[i], U256::from(match (rich + i as u64) % 4 { 0 => 100_000_000u64, 1 => 3_000_000, 2 => 300_000 + r.below(500_000), _ => 21_000 * (1 + r.below(20)) + r.below(3) }))).collect();
        acc.push((addr(9), U256::from(10u64).pow(24.into())));
        let v = validator(addr(9), 1);
        let fork = || HardforkInfoInner { block_number: 0, flags: flags(&[192]) };
        let mk = |p: &str, cache: usize| {
            let mut c = Chain::genesis(p, &acc, &metadata(1_000_000, &[v.clone()], 0x6000), fork(), cache);
            MetadataHandle::new(c.metadata_root()).init_hardfork(0).unwrap();
            let txs: Vec<SignedTransaction> = CODE.iter().enumerate().map(|(i, code)| sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: (i as u64).into(), gas_price: 0u64.into(), gas_limit: 1_000_000u64.into(), action: TransactionAction::Create, value: U256::zero(), data: init(code).into() }), 5, 9)).collect();
            c.block(Proposal::default_at(0), &txs, &[]);
            c
        };
        let t = if twin { let r = *r.pick(&[1usize, 2, 7, 500]); let t = alone(|| mk(&format!("{path}-twin"), r)); Some(t) } else { None };
        let c = mk(path, 50);
        let mut x = Run { c, twin: t, a, nonce: vec![0; 4], slots: 0, ev: vec![], roots: vec![], digests: vec![], dead: false, conf: json!(null) };
        x.roots.push(x.c.root);
        let s = x.see(x.c.root);
        let mut nonce: Vec<u64> = vec![0; NA];
        nonce[..4].copy_from_slice(&x.nonce);
        x.conf = json!({"bal": s["bal"], "nonce": nonce});
        x
    }
    fn at(&self, root: H256, number: u64) -> AxonExecutorReadOnlyAdapter<Store, core_executor::RocksTrieDB> {
        AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&self.c.trie), Arc::clone(&self.c.storage), Proposal::default_at(number).into()).unwrap()
    }
    fn see(&self, root: H256) -> Value {
        let b = self.at(root, 0);
        let small = |x: U256| if x > U256::from(2_000_000_000u64) { 2_000_000_000 } else { x.as_u64() };
        let bal: Vec<u64> = (0..NA).map(|i| self.a.get(i).map(|a| small(b.basic(*a).balance)).unwrap_or(0)).collect();
        let nonce: Vec<u64> = (0..5).map(|i| b.basic(self.a[i]).nonce.as_u64()).collect();
        let slot: Vec<u64> = (1..=3).map(|k| small(U256::from_big_endian(b.storage(self.a[10], H256::from_low_u64_be(k)).as_bytes()))).collect();
        json!({"bal": bal, "nonce": nonce, "slot": slot})
    }
    fn tx(&mut self, t: &mut Value) -> SignedTransaction {
        let (from, to, arg) = (n_of(t, "from") as usize, n_of(t, "to"), n_of(t, "arg"));
        let x = |t: &Value| aword(self.a[n_of(t, "x") as usize - 1]);
        let nonce = self.nonce[from - 1];
        self.nonce[from - 1] += 1;
        let (action, data) = match to {
            0 => {
                let data = if arg == 1 { CODE[1].to_vec() } else { init(CODE[0]) };
                self.slots += 1;
                t["slot"] = json!(12 + self.slots);
                self.a.push(created(self.a[from - 1], nonce));
                (TransactionAction::Create, data)
            }
            // system contracts: a good native issue, or something refused
            -1 => (TransactionAction::Call(NATIVE_TOKEN_CONTRACT_ADDRESS), if arg == 1 { vec![2; 21] } else { let mut d = vec![0]; d.extend(self.a[n_of(t, "x") as usize - 1].as_bytes()); d }),
            -2 => (TransactionAction::Call(CKB_LIGHT_CLIENT_CONTRACT_ADDRESS), if arg == 1 { vec![1, 2, 3, 4] } else { crate::d05::call("setState(bool)", &[ethers::abi::Token::Bool(true)]) }),
            n => {
                let data = match n { 9 | 10 => x(t), 11 => [word(n_of(t, "k") as u64), word(n_of(t, "v") as u64), word(arg as u64)].concat(), 12 => word(arg as u64), _ => vec![] };
                (TransactionAction::Call(self.a[n as usize - 1]), data)
            }
        };
        let (price, gas_limit, value, data) = (n_of(t, "price") as u64, U64::from(n_of(t, "limit") as u64), U256::from(n_of(t, "value") as u64), protocol::types::Bytes::from(data));
        let nonce = nonce.into();
        let u = match n_of(t, "type") {
            0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price: price.into(), gas_limit, action, value, data }),
            1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price: price.into(), gas_limit, action, value, data, access_list: vec![] }),
            k => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, gas_limit, action, value, data, access_list: vec![], gas_price: if k == 2 { 0.into() } else { price.into() }, max_priority_fee_per_gas: if k == 3 { 0.into() } else { price.into() } }),
        };
        sign(u, 5, from as u8)
    }
    fn id(&mut self, root: H256) -> usize { self.digests.iter().position(|x| *x == root).unwrap_or_else(|| { self.digests.push(root); self.digests.len() - 1 }) }
    fn block(&mut self, mut txs: Vec<Value>, vals: Vec<(usize, u32)>) {
        let signed: Vec<SignedTransaction> = txs.iter_mut().map(|t| self.tx(t)).collect();
        let vs: Vec<ValidatorExtend> = vals.iter().map(|(a, w)| validator(self.a[*a - 1], *w)).collect();
        let vj: Vec<Value> = vals.iter().map(|(a, w)| json!({"a": a, "w": w})).collect();
        let mut p = Proposal::default_at(0);
        p.proposer = H160::repeat_byte(0x77);
        let made = guard(|| self.c.block(p.clone(), &signed, &vs));
        let Ok(resp) = made else { self.ev.push(json!({"op": "crash", "txs": txs, "vals": vj})); self.dead = true; return };
        for ((t, r), s) in txs.iter_mut().zip(&resp.tx_resp).zip(&signed) {
            let good = if r.exit_reason.is_succeed() && t["to"] == 0 { r.code_address.map(H160::from) == Some(created(s.sender, s.transaction.unsigned.nonce().as_u64())) } else { r.code_address.is_none() };
            t["ok"] = json!(if good { r.exit_reason.is_succeed() } else { !r.exit_reason.is_succeed() });
            t["g"] = json!(r.gas_used);
            t["remain"] = json!(r.remain_gas);
            t["fee"] = json!(if r.fee_cost > U256::from(2_000_000_000u64) { 2_000_000_000 } else { r.fee_cost.as_u64() });
            t["logs"] = json!(r.logs.len());
        }
        self.roots.push(self.c.root);
        let after = self.see(self.c.root);
        let all = self.at(self.c.root, 0);
        let nonces: Vec<u64> = (0..4).map(|i| all.basic(self.a[i]).nonce.as_u64()).collect();
        let key = Hasher::digest([self.c.root.as_bytes(), resp.receipt_root.as_bytes()].concat());
        let id = self.id(key);
        self.ev.push(json!({"op": "block", "txs": txs, "vals": vj, "after": after, "gas": resp.gas_used, "root": id}));
        self.nonce = nonces;
        if let Some(mut t) = self.twin.take() {
            // a node of its own: in a thread of its own, from its own disk
            let (a, r) = alone(|| { t.restart(2); MetadataHandle::new(t.metadata_root()).init_hardfork(t.number).unwrap(); let r = guard(|| t.block(p, &signed, &vs)); (t, r) });
            self.twin = Some(a);
            match r {
                Ok(r) => { let same = r.tx_resp == resp.tx_resp && r.gas_used == resp.gas_used; let k = Hasher::digest([r.state_root.as_bytes(), r.receipt_root.as_bytes()].concat()); let id = if same { self.id(k) as i64 } else { -1 }; self.ev.push(json!({"op": "twin", "root": id})) }
                Err(_) => self.ev.push(json!({"op": "crash", "txs": [], "vals": []})),
            }
            // back to this one
            let mut b = self.c.backend(&Proposal::default_at(self.c.number));
            init_system_contract_db(self.c.adapter.inner_db(), &mut b);
        }
    }
    fn ask(&mut self, r: &mut Rng) {
        let n = r.below(self.roots.len() as u64) as usize;
        let (what, a) = *r.pick(&[("bal", 0u64), ("bal", 0), ("slot", 0), ("number", 0), ("nonce", 0)]);
        let a = match what { "bal" => 1 + r.below(12), "slot" => 1 + r.below(3), "nonce" => 1 + r.below(4), _ => a };
        let b = self.at(self.roots[n], n as u64 + 1);
        let x = match what {
            "slot" => AxonExecutor.call(&b, 1_000_000, None, Some(self.a[10]), U256::zero(), word(a), false).ret,
            "nonce" => word(b.basic(self.a[a as usize - 1]).nonce.as_u64()),
            _ => { let w = AxonExecutor.call(&b, 1_000_000, Some(addr(3)), Some(created(addr(9), 7)), U256::zero(), aword(self.a[a.max(1) as usize - 1]), r.below(2) == 0).ret; if what == "bal" { w[..32].to_vec() } else { w[32..].to_vec() } }
        };
        let got = U256::from_big_endian(&x);
        self.ev.push(json!({"op": "ask", "at": n + 1, "what": what, "a": a, "got": if got > 2_000_000_000u64.into() { -1 } else { got.as_u64() as i64 }}));
    }
    /// what would change things, were it a transaction
    fn attempt(&mut self, r: &mut Rng) {
        let n = r.below(self.roots.len() as u64) as usize;
        let b = self.at(self.roots[n], n as u64 + 1);
        let to = match r.below(9) { 0 => None, 1 => Some(NATIVE_TOKEN_CONTRACT_ADDRESS), 2 => Some(crate::d05::precompile(4)), _ => Some(self.a[r.below(12) as usize]) };
        let data = match to { None => init(CODE[0]), Some(a) if a == self.a[10] => [word(1 + r.below(3)), word(1 + r.below(1000)), word(0)].concat(), _ => aword(self.a[r.below(5) as usize]) };
        let from = self.a[r.below(4) as usize];
        let _ = guard(|| AxonExecutor.call(&b, 100_000 * (1 + r.below(3)), Some(from), to, U256::from(r.below(1000)), data, r.below(2) == 0));
        self.ev.push(json!({"op": "try"}));
    }
    fn back(&mut self, r: &mut Rng) {
        let n = r.below(self.roots.len() as u64) as usize;
        let s = self.see(self.roots[n]);
        self.ev.push(json!({"op": "see", "at": n + 1, "after": s}));
    }
    fn close(self) { if let Some(t) = self.twin { t.close() } self.c.close() }
}
/// what a sender may have, no less; `over`: more than it has
fn any(x: &Run, r: &mut Rng, over: bool) -> Value {
    let from = 1 + r.below(4) as usize;
    let to = *r.pick(&[1i64, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9, 9, 10, 11, 11, 11, 12, 12, 0, 0]);
    let mut price = *r.pick(&[0u64, 1, 1, 2, 3, 7]);
    let limit = *r.pick(&[200_000u64, 200_000, 150_000, 120_000, 20_000]);
    let bal = x.see(x.c.root)["bal"][from - 1].as_u64().unwrap();
    if !over && price * limit > bal { price = bal / limit }
    let left = bal.saturating_sub(price * limit);
    let value = if over { *r.pick(&[bal, bal / 2, left + 1, 1]) } else { match r.below(6) { 0 => 0, 1 => left, 2 => left / 2, 3 => left + 1, n => n.min(left) } };
    json!({"from": from, "to": to, "price": price, "limit": limit, "value": value, "arg": r.below(2), "x": *r.pick(&[1, 2, 3, 4, 5, 6, 7]), "k": 1 + r.below(3), "v": r.below(3), "type": r.below(5), "slot": 0})
}
fn fix(t: &mut Value, x: &Run) {
    // nobody destroys to what refuses; at most some creations
    if t["to"] == 10 && t["x"] == 7 { t["x"] = json!(5) }
    if t["to"] == 0 && x.slots >= NA - 13 { t["to"] = json!(5) }
    if t["to"] != 0 && t["to"] != 11 && t["to"] != 12 { t["arg"] = json!(0) }
}
fn vals(r: &mut Rng) -> Vec<(usize, u32)> {
    match r.below(5) { 0 => vec![(1, 1)], 1 => vec![(5, 3), (2, 4)], 2 => vec![(3, 1), (3, 2), (4, 0)], 3 => vec![(6, 10)], _ => vec![(5, 1), (1, 1), (2, 1)] }
}
fn alone<T: Send>(f: impl FnOnce() -> T + Send) -> T { std::thread::scope(|s| s.spawn(|| { let _g = rt().enter(); f() }).join().unwrap()) }
pub fn main(what: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed() ^ 0xd01);
    // the features in force are the process's: what sets them first is not part of a trace
    alone(|| Run::new(&format!("{base}/warm"), &mut Rng::new(1), false).close());
    let mut go = |id: String, twin: bool, f: &mut (dyn FnMut(&mut Run, &mut Rng) + Send)| {
        let (c, ev) = alone(|| { let mut x = Run::new(&format!("{base}/{}", id.replace(':', "-")), &mut r, twin); f(&mut x, &mut r); let (c, ev) = (x.conf.clone(), std::mem::take(&mut x.ev)); x.close(); (c, ev) });
        o.trace(&id, c, ev);
    };
    let calm = |x: &mut Run, r: &mut Rng, blocks: u64| for _ in 0..blocks {
        if x.dead { break }
        // one transaction of each sender: each can pay for its own
        let mut txs: Vec<Value> = vec![];
        for _ in 0..r.below(4) { let mut t = any(x, r, false); fix(&mut t, x); if txs.iter().all(|u| u["from"] != t["from"]) && txs.iter().filter(|u| u["to"] == 0).count() < 2 { txs.push(t) } }
        let v = vals(r);
        x.block(txs, v);
    };
    if what == "money" {
        for i in 0..scale(120, 1500) { go(format!("calm:{i}"), false, &mut |x, r| { let n = 4 + r.below(8); calm(x, r, n) }) }
        // storage that is cleared gives gas back
        for i in 0..12u64 {
            go(format!("cleared:{i}"), false, &mut |x, _r| {
                let t = |v: u64| json!({"from": 1 + i % 4, "to": 11, "price": 1 + i % 3, "limit": 200_000 / (1 + i % 2), "value": 0, "arg": 0, "x": 1, "k": 1, "v": v, "type": i % 5, "slot": 0});
                x.block(vec![t(5)], vec![(5, 1)]);
                x.block(vec![t(0)], vec![(5, 1)]);
            })
        }
        // several transactions that each could be paid for, but not all
        for i in 0..scale(30, 300) {
            go(format!("short:{i}"), false, &mut |x, r| for _ in 0..3 {
                if x.dead { break }
                let from = 1 + r.below(4);
                let txs = (0..2 + r.below(3)).map(|_| { let mut t = any(x, r, true); t["from"] = json!(from); fix(&mut t, x); if t["to"] == 0 { t["to"] = json!(5) } t }).collect();
                let v = vals(r);
                x.block(txs, v);
            })
        }
        // validators that have no weight at all, or more than fits
        for (i, v) in [vec![(5usize, 0u32)], vec![], vec![(5, u32::MAX), (3, 1)]].into_iter().enumerate() {
            go(format!("weights:{i}"), false, &mut |x, _r| {
                x.block(vec![json!({"from": 1, "to": 5, "price": 1, "limit": 21000, "value": 0, "arg": 0, "x": 1, "k": 1, "v": 1, "type": 0, "slot": 0})], v.clone().into_iter().map(|(a, w)| (a, w)).collect());
            })
        }
        for i in 0..4i64 {
            go(format!("system:{}", ["issue-own", "issue-other", "quiet", "refused"][i as usize]), false, &mut |x, _r| {
                let t = |to: i64, arg: i64, z: i64| json!({"from": 1, "to": to, "price": 1, "limit": 100_000, "value": 7, "arg": arg, "x": z, "k": 1, "v": 1, "type": 0, "slot": 0});
                x.block(vec![match i { 0 => t(-1, 0, 1), 1 => t(-1, 0, 2), 2 => t(-2, 0, 1), _ => t(-2, 1, 1) }], vec![(5, 1)]);
            })
        }
    } else {
        for i in 0..scale(40, 500) {
            go(format!("nodes:{i}"), true, &mut |x, r| for _ in 0..4 + r.below(6) {
                if x.dead { break }
                for _ in 0..r.below(4) { match r.below(4) { 0 => x.attempt(r), 1 => x.back(r), _ => x.ask(r) } }
                calm(x, r, 1);
                if r.below(4) == 0 { x.attempt(r) }
            })
        }
    }
}
