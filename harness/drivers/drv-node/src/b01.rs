//! The transaction pool with its real adapter, on a chain that moves on.
use crate::node::*;
use crate::*;
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl, MsgPullTxs};
use core_executor::{system_contract::system_contract_address, RocksTrieDB};
use common_crypto::Secp256k1Recoverable;
use parking_lot::Mutex;
use protocol::traits::*;
use protocol::{async_trait, ProtocolResult};
use std::sync::Arc;
use std::collections::HashMap;

#[derive(Default)]
pub struct Wire { pub asked: Vec<H256>, pub reply: Option<Vec<SignedTransaction>>, pub gossiped: Vec<H256> }
#[derive(Clone, Default)]
pub struct Net(pub Arc<Mutex<Wire>>);
fn no<T>() -> ProtocolResult<T> {
    Err(protocol::ProtocolError::new(protocol::ProtocolErrorKind::Network, Box::new(core_network_err())))
}
fn core_network_err() -> std::io::Error { std::io::Error::new(std::io::ErrorKind::Other, "no answer") }
#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, _: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        let b = msg.encode_msg()?;
        let m: MsgPullTxs = rlp::decode(&b).unwrap();
        let mut w = self.0.lock();
        w.asked = m.hashes;
        match w.reply.take() { Some(v) => R::decode_msg(BatchSignedTxs(v).encode_msg()?), None => no() }
    }
    async fn response<M: MessageCodec>(&self, _: Context, _: &str, _: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> { Ok(()) }
}
impl PeerTrust for Net { fn report(&self, _: Context, _: TrustFeedback) {} }
#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
    async fn gossip<M: MessageCodec>(&self, _: Context, _: Option<usize>, _: &str, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
}
pub type Pool = MemPoolImpl<DefaultMemPoolAdapter<Secp256k1Recoverable, Net, crate::chain::Store, RocksTrieDB, InteroperationImpl>>;
pub fn addr(sk: u8) -> H160 {
    sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: 0.into(), gas_price: 1.into(), gas_limit: 1.into(), action: TransactionAction::Create, value: 0.into(), data: Default::default() }), 5, sk).sender
}
pub async fn pool(n: &Node, net: &Net, cap: usize, timeout: u64, first: Vec<SignedTransaction>) -> Pool {
    let a = DefaultMemPoolAdapter::new(net.clone(), Arc::clone(&n.chain.storage), Arc::clone(&n.chain.trie), 5, 1 << 20, 10, 1_000_000);
    MemPoolImpl::new(cap, timeout, a, first).await
}

#[derive(Clone, serde::Serialize)]
struct T { from: u64, nonce: u64, price: u64, gas: u64, sys: u64 }
const SK: [u8; 4] = [1, 2, 3, 9];
fn make(t: &T, i: usize) -> SignedTransaction {
    sign(UnsignedTransaction::Legacy(LegacyTransaction {
        nonce: t.nonce.into(), gas_price: t.price.into(), gas_limit: (t.gas + if t.sys > 0 { i as u64 } else { 0 }).into(),
        action: TransactionAction::Call(if t.sys > 0 { system_contract_address(0) } else { H160::repeat_byte(0xee) }),
        // what makes two transactions for the same thing different is only the price
        value: if t.sys > 0 { 0.into() } else { (i as u64).into() },
        data: if t.sys > 0 { vec![t.sys as u8; 3].into() } else { Default::default() },
    }), 5, SK[t.from as usize - 1])
}
struct Run { n: Node, p: Pool, net: Net, us: Vec<T>, txs: Vec<SignedTransaction>, ids: HashMap<H256, u64>, ev: Vec<Value>, cap: usize }
impl Run {
    fn id(&self, h: &H256) -> u64 { *self.ids.get(h).unwrap_or(&999) }
    fn ids(&self, v: &[H256]) -> Vec<u64> { v.iter().map(|h| self.id(h)).collect() }
    fn tx(&self, i: u64) -> SignedTransaction { self.txs[i as usize - 1].clone() }
    fn hashes(&self, q: &[u64]) -> Vec<H256> { q.iter().map(|i| self.tx(*i).transaction.hash).collect() }
    fn nonces(&self) -> Vec<u64> { use protocol::types::Backend; let b = self.n.chain.read(); SK.iter().map(|k| b.basic(addr(*k)).nonce.as_u64()).collect() }
    async fn insert(&mut self, i: u64) { let ok = self.p.insert(Context::new(), self.tx(i)).await.is_ok(); self.ev.push(json!({"op": "insert", "i": i, "ok": ok})); }
    async fn package(&mut self, limit: u64, gas: u64) -> (Vec<u64>, u64) {
        let r = self.p.package(Context::new(), gas.into(), limit).await.unwrap();
        let (out, k) = (self.ids(&r.hashes), r.call_system_script_count as u64);
        self.ev.push(json!({"op": "package", "limit": limit, "gas": gas, "out": out, "k": k}));
        (out, k)
    }
    async fn look(&mut self) {
        let mut has = vec![];
        let mut got = vec![];
        for i in 1..=self.txs.len() as u64 {
            let t = self.tx(i);
            if self.p.contains(Context::new(), &t.transaction.hash).await { has.push(i) }
            if let Some(x) = self.p.get_tx_from_mem(Context::new(), &t.transaction.hash) { got.push(if x == t { i } else { 0 }) }
        }
        self.ev.push(json!({"op": "look", "has": has, "got": got, "len": self.p.len()}));
    }
    async fn commit(&mut self, q: &[u64], sys: u64) {
        let txs: Vec<SignedTransaction> = q.iter().map(|i| self.tx(*i)).collect();
        let hashes = self.hashes(q);
        let h = self.n.chain.number + 1;
        let p = &self.p;
        self.n.commit(&txs, sys as u32, || futures::executor::block_on(p.flush(Context::new(), &hashes, h)).unwrap());
        self.p.set_args(Context::new(), self.n.chain.root, 30_000_000, 1 << 20);
        let nonces = self.nonces();
        self.ev.push(json!({"op": "commit", "q": q, "nonces": nonces, "h": h}));
    }
    async fn full(&mut self, q: &[u64], height: Option<u64>) -> bool {
        let hs = self.hashes(q);
        let r = self.p.get_full_txs(Context::new(), height, &hs).await;
        let out: Vec<i64> = match &r {
            Ok(v) => v.iter().map(|x| { let i = self.id(&x.transaction.hash); if i < 999 && self.tx(i) == *x { i as i64 } else { 0 } }).collect(),
            Err(_) => vec![-1],
        };
        self.ev.push(json!({"op": "full", "q": q, "out": out}));
        r.is_ok()
    }
    async fn ensure(&mut self, q: &[u64], reply: Option<Vec<u64>>, honest: bool) -> bool {
        let reply = if honest {
            let mut v = vec![];
            for i in q { if !self.p.contains(Context::new(), &self.tx(*i).transaction.hash).await { v.push(*i) } }
            Some(v)
        } else { reply };
        { let mut w = self.net.0.lock(); w.asked.clear(); w.reply = reply.as_ref().map(|v| v.iter().map(|i| self.tx(*i)).collect()); }
        let ok = self.p.ensure_order_txs(Context::new(), Some(self.n.chain.number + 1), &self.hashes(q)).await.is_ok();
        let asked = self.ids(&self.net.0.lock().asked.clone());
        self.ev.push(json!({"op": "ensure", "q": q, "asked": asked, "reply": reply.map(|v| json!(v)).unwrap_or(json!([-1])), "ok": ok}));
        ok
    }
}
async fn start(path: &str, us: Vec<T>, cap: usize, timeout: u64) -> Run {
    let v = crate::chain::validator(addr(9), 1);
    let rich: U256 = U256::from(10u64).pow(24.into());
    let n = Node::genesis(path, &SK.map(|k| (addr(k), rich)), &[v], 1000);
    let net = Net::default();
    let p = pool(&n, &net, cap, timeout, vec![]).await;
    let txs: Vec<SignedTransaction> = us.iter().enumerate().map(|(i, t)| make(t, i)).collect();
    let ids = txs.iter().enumerate().map(|(i, t)| (t.transaction.hash, i as u64 + 1)).collect();
    Run { n, p, net, us, txs, ids, ev: vec![], cap }
}
fn finish(o: &mut Out, id: &str, kind: &str, timeout: u64, r: Run) {
    o.trace(id, json!({"kind": kind, "txs": r.us, "cap": r.cap, "timeout": timeout, "nonces": [0, 0, 0, 0]}), r.ev);
    r.n.chain.close();
    // the broadcaster never rests again once its pool is gone, so the pool stays until the runtime has ended
    std::mem::forget(r.p);
}
const BIG: u64 = 2_000_000_000;

async fn given(o: &mut Out, id: &str, path: &str, steps: &Value) {
    let t = |from, nonce, price, sys| T { from, nonce, price, gas: 30000, sys };
    let us = vec![t(1, 0, 2, 0), t(1, 0, 3, 0), t(1, 1, 1, 0), t(2, 0, 2, 0), t(4, 0, 1, 1), t(4, 1, 1, 1)];
    let mut r = start(path, us, 4, 2).await;
    for (at, s) in steps.as_array().unwrap().iter().enumerate() {
        let i = s["i"].as_u64().unwrap();
        match s["op"].as_str().unwrap() {
            "insert" => r.insert(i).await,
            "commit" => { let (q, k) = r.package(i, BIG).await; r.commit(&q[k as usize..], 0).await }
            _ => { let (q, k) = r.package(0, BIG).await; r.commit(&q[..k as usize], k).await }
        }
        if at % 2 == 1 { r.package(100, BIG).await; }
        r.look().await;
    }
    r.package(100, BIG).await;
    finish(o, id, "pool", 2, r);
}
async fn random(o: &mut Out, id: &str, path: &str, g: &mut Rng, kind: &str) {
    let timeout = g.range(1, 4);
    let cap = if g.chance(1, 3) { g.range(3, 8) as usize } else { 200 };
    let n = g.range(6, 22);
    let tops = g.range(2, 6);
    let us: Vec<T> = (0..n).map(|_| {
        if g.chance(1, 5) { T { from: 4, nonce: g.below(3), price: g.range(1, 3), gas: 30000, sys: g.range(1, 2) } }
        else { T { from: g.range(1, 3), nonce: g.below(tops), price: g.range(1, 5), gas: *g.pick(&[21000, 30000, 5_000_000, 30_000_000]), sys: 0 } }
    }).collect();
    let mut r = start(path, us, cap, timeout).await;
    for _ in 0..g.range(6, 30) {
        match g.below(20) {
            0..=8 => { let i = g.range(1, n); r.insert(i).await }
            9 => {
                // at once, in no particular order
                let mut q: Vec<u64> = vec![];
                let mut slots = vec![];
                for i in 1..=n {
                    let t = &r.us[i as usize - 1];
                    let slot = if t.sys > 0 { (0, i) } else { (t.from, t.nonce) };
                    if g.chance(1, 3) && !slots.contains(&slot) { q.push(i); slots.push(slot) }
                }
                if q.len() + r.p.len() <= r.cap {
                    let p = &r.p;
                    let futs: Vec<_> = q.iter().map(|i| p.insert(Context::new(), r.tx(*i))).collect();
                    let pk = p.package(Context::new(), BIG.into(), 3);
                    let (oks, _) = futures::future::join(futures::future::join_all(futs), pk).await;
                    r.ev.push(json!({"op": "inserts", "q": q, "oks": oks.iter().map(|x| x.is_ok()).collect::<Vec<_>>()}));
                }
            }
            10 | 11 => { let l = g.below(6); let gas = *g.pick(&[0, 21000, 51000, 10_000_000, 30_000_000, BIG]); r.package(l, gas).await; }
            12 | 13 => { let l = g.below(4); let (q, k) = r.package(l, BIG).await; r.commit(&q, k).await }
            14 => r.commit(&[], 0).await,
            15 | 16 => {
                let mut q: Vec<u64> = (0..g.range(1, 4)).map(|_| g.range(1, n)).collect();
                if g.chance(9, 10) { q.dedup(); let mut seen = vec![]; q.retain(|x| { let f = !seen.contains(x); seen.push(*x); f }); }
                let mut reply = q.clone();
                let mut honest = false;
                match g.below(5) { 0 => { reply.pop(); } 1 => { let i = g.below(reply.len() as u64) as usize; reply[i] = g.range(1, n) } 2 => reply.reverse(), _ => honest = true }
                let reply = if !honest && g.chance(1, 5) { None } else { Some(reply) };
                if r.ensure(&q, reply, honest).await { r.full(&q, None).await; }
            }
            // another proposer's block
            17 if kind == "pool" => {
                let now = r.nonces();
                let mut next = now.clone();
                let mut q = vec![];
                for i in 1..=n { let t = &r.us[i as usize - 1]; if t.sys == 0 && t.nonce == next[t.from as usize - 1] && g.bool() { q.push(i); next[t.from as usize - 1] += 1 } }
                if !q.is_empty() && r.ensure(&q, None, true).await && r.full(&q, None).await { r.commit(&q, 0).await }
            }
            // a block that comes without the pool seeing its transactions first
            17 => {
                let mut next = r.nonces();
                let mut q = vec![];
                for i in 1..=n { let t = &r.us[i as usize - 1]; if t.sys == 0 && t.nonce == next[t.from as usize - 1] && g.chance(2, 3) { q.push(i); next[t.from as usize - 1] += 1 } }
                if !q.is_empty() { r.commit(&q, 0).await }
            }
            18 => { let q: Vec<u64> = (0..g.range(1, 5)).map(|_| g.range(1, n)).collect(); r.full(&q, None).await; }
            _ => if g.chance(1, 8) { protocol::tokio::time::sleep(std::time::Duration::from_millis(60)).await },
        }
        r.look().await;
    }
    r.package(100, BIG).await;
    finish(o, id, kind, timeout, r);
}
/// more than the pool holds of one sender
async fn many(o: &mut Out, id: &str, path: &str, g: &mut Rng) {
    let us: Vec<T> = (0..80).map(|i| T { from: 1, nonce: i, price: g.range(1, 5), gas: 21000, sys: 0 }).collect();
    let mut r = start(path, us, 200, 3).await;
    for i in 1..=80 { r.insert(i).await; if i % 40 == 0 { r.package(200, BIG).await; } }
    r.look().await;
    let (q, k) = r.package(10, BIG).await;
    r.commit(&q, k).await;
    r.look().await;
    r.package(200, BIG).await;
    finish(o, id, "many", 3, r);
}

/// a thread (the executor keeps roots in thread locals) and a runtime of its own, which end with the trace
pub fn alone(f: impl std::future::Future<Output = ()> + Send) {
    std::thread::scope(|s| { s.spawn(|| inside(f)).join().unwrap() })
}
fn inside(f: impl std::future::Future<Output = ()>) {
    let rt = protocol::tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    rt.block_on(f);
    rt.shutdown_background();
}
pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut g = Rng::new(seed());
    for (k, c) in read_ndjson(cases).iter().enumerate() {
        alone(given(&mut o, &format!("g{k}"), &format!("{base}/g{k}"), c));
    }
    for k in 0..scale(500, 6000) { alone(random(&mut o, &format!("r{k}"), &format!("{base}/r{k}"), &mut g, "pool")); }
    for k in 0..scale(60, 600) { alone(random(&mut o, &format!("f{k}"), &format!("{base}/f{k}"), &mut g, "foreign")); }
    for k in 0..2 { alone(many(&mut o, &format!("m{k}"), &format!("{base}/m{k}"), &mut g)); }
    o.finish();
}
