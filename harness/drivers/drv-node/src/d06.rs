//! Calls to all the system contracts, from anybody, and what is kept after.
use crate::b01::addr;
use crate::chain::*;
use crate::d03::{cfg, up, val, TOP};
use crate::*;
use core_executor::system_contract::*;
use core_executor::{AxonExecutorReadOnlyAdapter, MPTTrie, MetadataHandle};
use protocol::codec::ProtocolCodec;
use protocol::traits::Backend;
use protocol::trie::Trie;
use std::sync::Arc;

const NA: usize = 12;
const FORWARD: [u8; 16] = [0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x34, 0x60, 0, 0x35, 0x5a, 0xf1, 0x50, 0];
fn acc(i: u64) -> H160 {
    match i { 1..=4 => addr(i as u8), 5 => H160::repeat_byte(0xee), 6 => forward(), 12 => H160::zero(), n => { let mut a = H160::repeat_byte(0xff); a.0[19] = n as u8 - 7; a } }
}
fn forward() -> H160 { let mut s = rlp::RlpStream::new_list(2); s.append(&addr(9)); s.append(&0u64); Hasher::digest(s.out()).into() }
fn large(n: i64) -> U256 { if n > 1_000_000_000 { U256::max_value() - (TOP - n) as u64 } else { n.into() } }
fn small(x: U256) -> i64 { if x > U256::max_value() - 1_000_000u64 { TOP - (U256::max_value() - x).as_u64() as i64 } else if x < 1_000_000_000u64.into() { x.as_u64() as i64 } else { -1 } }
struct Run { c: Chain, nonce: Vec<u64>, ev: Vec<Value>, ids: [Vec<H256>; 4], dead: bool, ends: u64, eps: u64 }
impl Run {
    fn new(path: &str, v: &[(u64, u64)], first: (u64, u64)) -> (Run, Value) {
        let vs: Vec<ValidatorExtend> = v.iter().map(|(a, w)| val(*a, *w)).collect();
        let m = |epoch, start, end| Metadata { version: MetadataVersion { start, end }, epoch, verifier_list: vs.clone(), propose_counter: vec![], consensus_config: cfg(0) };
        let mut accounts: Vec<(H160, U256)> = [(1, 1000), (2, 5), (3, TOP - 3), (4, 50)].iter().map(|(a, b)| (acc(*a), large(*b))).collect();
        accounts.push((addr(9), U256::from(10u64).pow(24.into())));
        let mut c = Chain::genesis(path, &accounts, &[m(0, 0, first.0), m(1, first.0 + 1, first.1)], HardforkInfoInner { block_number: 0, flags: flags(&[192]) }, 50);
        MetadataHandle::new(c.metadata_root()).init_hardfork(0).unwrap();
        let mut code = vec![0x60, FORWARD.len() as u8, 0x80, 0x60, 0x0b, 0x60, 0, 0x39, 0x60, 0, 0xf3];
        code.extend(FORWARD);
        c.block(Proposal::default_at(0), &[sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: 0.into(), gas_price: 0.into(), gas_limit: 1_000_000.into(), action: TransactionAction::Create, value: 0.into(), data: code.into() }), 5, 9)], &[]);
        let list: Vec<Value> = v.iter().map(|(a, w)| json!({"a": a, "w": w})).collect();
        let mut x = Run { c, nonce: vec![0; 5], ev: vec![], ids: Default::default(), dead: false, ends: first.1, eps: 2 };
        let (bal, sys) = x.see();
        let conf = json!({"bal": bal, "sys": sys, "n": 1, "first": [{"start": 0, "end": first.0, "vals": list}, {"start": first.0 + 1, "end": first.1, "vals": list}]});
        (x, conf)
    }
    fn see(&mut self) -> (Vec<i64>, Vec<usize>) {
        let b = AxonExecutorReadOnlyAdapter::from_root(self.c.root, Arc::clone(&self.c.trie), Arc::clone(&self.c.storage), Proposal::default_at(self.c.number).into()).unwrap();
        let bal = (1..=NA as u64).map(|a| small(b.basic(acc(a)).balance)).collect();
        let t = MPTTrie::from_root(self.c.root, Arc::clone(&self.c.trie)).unwrap();
        let sys = (0..4).map(|i| {
            let a = acc(7 + i as u64);
            let kept = t.get(a.as_bytes()).unwrap().map(|r| Account::decode(r).unwrap());
            let (code, root) = kept.map(|k| (k.code_hash, k.storage_root)).unwrap_or_default();
            // of a tree never begun, and of one emptied
            let tree = if i < 2 { if root == RLP_NULL { H256::zero() } else { root } } else { let r = b.storage(a, *HEADER_CELL_ROOT_KEY); if r == RLP_NULL { H256::zero() } else { r } };
            let code = if code == protocol::types::NIL_DATA { H256::zero() } else { code };
            let k = Hasher::digest([code.0, tree.0].concat());
            self.ids[i].iter().position(|x| *x == k).unwrap_or_else(|| { self.ids[i].push(k); self.ids[i].len() - 1 })
        }).collect();
        (bal, sys)
    }
    fn tx(&mut self, t: &Value) -> SignedTransaction {
        let w = t["who"].as_u64().unwrap();
        self.nonce[w as usize] += 1;
        let mut value = U256::zero();
        let (to, data) = match t["to"].as_str().unwrap() {
            "native" => {
                value = large(t["value"].as_i64().unwrap());
                let mut d = vec![t["dir"].as_u64().unwrap() as u8];
                d.extend(acc(t["a"].as_u64().unwrap()).as_bytes());
                match t["h"].as_str().unwrap() { "short" => { d.pop(); } "long" => d.extend([1; 30]), _ => {} }
                (acc(7), d)
            }
            "send" => {
                value = large(t["value"].as_i64().unwrap());
                let a = acc(t["a"].as_u64().unwrap());
                if t["via"] == 1 { let mut d = vec![0; 12]; d.extend(a.as_bytes()); (acc(6), d) } else { (a, vec![]) }
            }
            "meta" => (acc(8), crate::d03::data(t)),
            _ => crate::d05::data(t),
        };
        sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: (self.nonce[w as usize] - 1).into(), gas_price: 0.into(), gas_limit: 500_000.into(), action: TransactionAction::Call(to), value, data: data.into() }), 5, w as u8)
    }
    fn block(&mut self, txs: &[Value]) {
        let mut txs = txs.to_vec();
        // the last is nobody's who could propose
        txs.push(json!({"to": "send", "who": 4, "a": 5, "value": 0, "via": 0}));
        let signed: Vec<SignedTransaction> = txs.iter().map(|t| self.tx(t)).collect();
        let mut p = Proposal::default_at(0);
        p.proposer = acc(5);
        let made = guard(|| self.c.block(p, &signed, &[]));
        for t in txs.iter_mut() { t.as_object_mut().unwrap().remove("of"); }
        let Ok(resp) = made else { self.ev.push(json!({"op": "crash", "txs": txs})); self.dead = true; return };
        for (t, r) in txs.iter_mut().zip(&resp.tx_resp) {
            t["ok"] = json!(r.exit_reason.is_succeed());
            if t["to"] == "meta" && t["k"] == "append" && t["ok"] == true { self.ends = up(t["end"].as_i64().unwrap()); self.eps += 1 }
        }
        let (bal, sys) = self.see();
        self.ev.push(json!({"op": "block", "txs": txs, "bal": bal, "sys": sys}));
    }
    fn any(&self, r: &mut Rng) -> Value {
        let value = |r: &mut Rng| *r.pick(&[0i64, 1, 2, 3, 4, 5, 6, 50, 1000, 1001, TOP - 1000, TOP - 3, TOP]);
        let mut t = match r.below(10) {
            0..=3 => json!({"to": "native", "dir": *r.pick(&[0, 0, 1, 1, 1, 2, 255]), "a": *r.pick(&[1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), "value": value(r), "h": *r.pick(&["ok", "ok", "ok", "short", "long"])}),
            4 => json!({"to": "send", "a": *r.pick(&[5, 7, 8, 9, 10, 11, 12]), "value": r.below(4), "via": r.below(2)}),
            5..=7 => {
                let e = self.eps as i64 - (r.below(4) == 0) as i64;
                let start = self.ends as i64 + 1 + (r.below(5) == 0) as i64;
                let vals: Vec<Value> = (1..=3).filter_map(|a| (r.below(2) == 0).then(|| json!({"a": a, "w": 1}))).collect();
                let a = json!({"to": "meta", "k": "append", "e": e, "start": start, "end": start + 4 + r.below(4) as i64, "vals": vals, "c": r.below(20)});
                match r.below(5) { 0 | 1 => a, 2 => json!({"to": "meta", "k": "config", "c": r.below(20)}), 3 => json!({"to": "meta", "k": "ckb", "c": 1 + r.below(20)}), _ => json!({"to": "meta", "k": "junk", "h": r.below(4), "of": a}) }
            }
            _ => loop { let mut t = crate::d05::any(r, 2, 2); if t["k"] != "ask" { t["to"] = json!("mirror"); break t } },
        };
        if t["to"] == "native" && t["a"].as_u64().unwrap() > 3 && t["value"].as_i64().unwrap() > 1_000_000 { t["value"] = json!(7) }
        t["who"] = json!(1 + r.below(3));
        t
    }
}
fn alone<T: Send>(f: impl FnOnce() -> T + Send) -> T { std::thread::scope(|s| s.spawn(|| { let _g = rt().enter(); f() }).join().unwrap()) }
pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed() ^ 0xd06);
    let all = read_ndjson(cases);
    let step = (all.len() / scale(500, 9000) as usize).max(1);
    for (i, c) in all.into_iter().enumerate().skip(seed() as usize % step).step_by(step) {
        let (ev, conf) = alone(|| {
            let (mut x, conf) = Run::new(&format!("{base}/g{i}"), &[(1, 1)], (3, 9));
            for t in c.as_array().unwrap() { if !x.dead { x.block(&[t.clone()]) } }
            x.c.close();
            (x.ev, conf)
        });
        o.trace(&format!("calls:{i}"), conf, ev);
    }
    for i in 0..scale(80, 900) {
        let (ev, conf) = alone(|| {
            let first = 1 + r.below(4);
            let (mut x, conf) = Run::new(&format!("{base}/r{i}"), &[(1, 1), (2, 1)], (first, first + 2 + r.below(4)));
            for _ in 0..8 + r.below(8) {
                if x.dead { break }
                let txs: Vec<Value> = (0..r.below(4)).map(|_| x.any(&mut r)).collect();
                // somebody must be in charge
                if x.c.number >= x.ends { break }
                x.block(&txs);
            }
            x.c.close();
            (x.ev, conf)
        });
        o.trace(&format!("any:{i}"), conf, ev);
    }
}
