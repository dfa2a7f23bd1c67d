//! Which transactions the real pool admits.
use crate::b01::{addr, pool, Net, Pool};
use crate::node::*;
use crate::*;
use core_executor::system_contract::{system_contract_address, IMAGE_CELL_CONTRACT_ADDRESS};
use core_mempool::NewTxsHandler;
use protocol::{codec::ProtocolCodec, traits::*};
use std::sync::Arc;

/// a CKB-VM program that ends at once with this exit code
fn elf(code: u8) -> Vec<u8> {
    let li = |rd: u32, imm: u32| (imm << 20) | (rd << 7) | 0x13;
    let text: Vec<u8> = [li(10, code as u32), li(17, 93), 0x73u32].iter().flat_map(|w| w.to_le_bytes()).collect();
    let (base, off) = (0x10000u64, 0x1000u64);
    let mut f = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    f.extend(2u16.to_le_bytes());
    f.extend(243u16.to_le_bytes());
    f.extend(1u32.to_le_bytes());
    for x in [base, 64, 0] { f.extend(x.to_le_bytes()); }
    f.extend(0u32.to_le_bytes());
    for x in [64u16, 56, 1, 64, 0, 0] { f.extend(x.to_le_bytes()); }
    f.extend(1u32.to_le_bytes());
    f.extend(5u32.to_le_bytes());
    for x in [off, base, base, text.len() as u64, text.len() as u64, 0x1000] { f.extend(x.to_le_bytes()); }
    f.resize(off as usize, 0);
    f.extend(text);
    f
}
pub fn image_update(number: u64, cells: &[(H256, u32, Vec<u8>)], spent: &[(H256, u32)]) -> Vec<u8> {
    use ethers::abi::{encode, Token::*};
    let word = |h: &H256| FixedBytes(h.as_bytes().to_vec());
    let point = |h: &H256, i: u32| Tuple(vec![word(h), Uint(i.into())]);
    let script = || Tuple(vec![word(&H256::zero()), Uint(0.into()), Bytes(vec![])]);
    let outs = cells.iter().map(|(h, i, d)| Tuple(vec![point(h, *i), Tuple(vec![Uint(100.into()), script(), Array(vec![])]), Bytes(d.clone())])).collect();
    let block = Tuple(vec![Uint(number.into()), Array(spent.iter().map(|(h, i)| point(h, *i)).collect()), Array(outs)]);
    let mut v = vec![0xaf, 0xa7, 0x4e, 0x04];
    v.extend(encode(&[Array(vec![block])]));
    v
}
#[derive(Clone, Default)]
struct Want { from: usize, to: &'static str, sig: &'static str, chain: &'static str, size: i64, price: &'static str, split: u64, gas: u64, nonce: u64, spare: i64, kind: u64 }
const KEYS: [u8; 5] = [1, 2, 3, 9, 8];
const PUB: [u8; 33] = [7; 33];
const MAX: u64 = 900;
fn who(i: usize) -> H160 { if i == 6 { Hasher::digest(PUB).into() } else { addr(KEYS[i - 1]) } }
fn price(s: &str) -> u64 { match s { "0" => 0, "1" => 1, "mid" => 7_000_000_000, "max-1" => 499_999_999_999, "max" => 500_000_000_000, "max+1" => 500_000_000_001, _ => u64::MAX } }

struct Run { n: Node, p: Arc<Pool>, h: NewTxsHandler<Pool>, ev: Vec<Value>, id: u64, cells: H256, end: u64, made: Vec<(u64, SignedTransaction, Value)> }
impl Run {
    fn account(&self, i: usize) -> (u64, U256) { use protocol::types::Backend; let b = self.n.chain.read().basic(who(i)); (b.nonce.as_u64(), b.balance) }
    fn nonces(&self) -> Vec<u64> { (1..=6).map(|i| self.account(i).0).collect() }
    /// the transaction, and what the specification is told of it
    fn make(&mut self, w: &Want) -> (SignedTransaction, Value) {
        self.id += 1;
        let p = price(w.price);
        let (_, bal) = self.account(w.from);
        let fee = U256::from(p) * U256::from(w.gas);
        let value = match w.spare {
            -2 => U256::MAX,
            99 => U256::from(self.id),
            d => { let x = bal.saturating_sub(fee); if d < 0 { x + 1 } else { x.saturating_sub(U256::from(d as u64)) } }
        };
        let (cost, over) = fee.overflowing_add(value);
        let spare = if over || cost > bal { -1 } else if cost == bal { 0 } else { 1 };
        let action = match w.to {
            "create" => TransactionAction::Create,
            "sys" => TransactionAction::Call(system_contract_address((self.id % 4) as u8)),
            "reserved" => TransactionAction::Call(system_contract_address(4 + (self.id % 250) as u8)),
            _ => TransactionAction::Call(H160::repeat_byte(0xee)),
        };
        let build = |pad: usize| -> UnverifiedTransaction {
            let data: protocol::types::Bytes = { let mut d = self.id.to_be_bytes().to_vec(); d.resize(8 + pad, 1); d.into() };
            let (gas_limit, nonce, value) = (w.gas.into(), w.nonce.into(), value);
            let unsigned = match w.kind {
                0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price: p.into(), gas_limit, action: action.clone(), value, data }),
                1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price: p.into(), gas_limit, action: action.clone(), value, data, access_list: vec![] }),
                _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
                    nonce, gas_limit, action: action.clone(), value, data, access_list: vec![],
                    gas_price: if w.split == 1 { 0.into() } else { p.into() },
                    max_priority_fee_per_gas: if w.split == 2 { 0.into() } else { p.into() },
                }),
            };
            let chain_id = match w.chain { "none" => None, "own" => Some(5), _ => Some(6) };
            UnverifiedTransaction { unsigned, signature: None, chain_id, hash: H256::zero() }
        };
        let finish = |mut t: UnverifiedTransaction| -> SignedTransaction {
            use common_crypto::{Crypto, Secp256k1Recoverable, Signature};
            if w.sig.starts_with("vm") {
                let index = match w.sig { "vm0" => 0u32, "vm1" => 1, "vmjunk" => 2, _ => 3 };
                let r = CellDepWithPubKey { cell_dep: CellDep { tx_hash: self.cells, index, dep_type: 0 }, pub_key: PUB.to_vec().into() };
                let mut rb = vec![0u8];
                rb.extend(rlp::encode(&r));
                t.signature = Some(SignatureComponents { r: rb.into(), s: vec![1, 2, 3].into(), standard_v: 0 });
                return SignedTransaction::from_unverified(t.calc_hash()).unwrap();
            }
            let sig = Secp256k1Recoverable::sign_message(t.signature_hash(true).as_bytes(), &[KEYS[w.from - 1]; 32]).unwrap().to_bytes();
            t.signature = Some(sig.into());
            let mut s = SignedTransaction::from_unverified(t.calc_hash()).unwrap();
            match w.sig {
                "altered" => {
                    let c = s.transaction.signature.clone().unwrap();
                    let mut b = c.s.to_vec();
                    b[(self.id % 32) as usize] ^= 1;
                    s.transaction.signature = Some(SignatureComponents { s: b.into(), ..c });
                    s.transaction = s.transaction.clone().calc_hash();
                }
                "other" => {
                    // somebody else's signature
                    let sig = Secp256k1Recoverable::sign_message(s.transaction.signature_hash(true).as_bytes(), &[77; 32]).unwrap().to_bytes();
                    s.transaction.signature = Some(sig.into());
                    s.transaction = s.transaction.clone().calc_hash();
                }
                "missing" => s.transaction.signature = None,
                "nopublic" => s.public = None,
                _ => {}
            }
            s
        };
        let len = |s: &SignedTransaction| s.transaction.encode().map(|b| b.len() as i64).unwrap_or(0);
        let mut s = finish(build(300));
        if w.size != 99 {
            // lengths of signatures differ by the bytes that happen to be zero
            let mut pad = 300;
            for _ in 0..40 {
                let d = MAX as i64 + w.size - len(&s);
                if d == 0 { break }
                pad = (pad as i64 + d) as usize;
                s = finish(build(pad));
            }
        }
        let v = json!({"id": self.id, "from": w.from, "to": w.to, "sig": w.sig, "chain": w.chain, "size": len(&s), "price": w.price, "gas": w.gas.min(2_000_000_000), "nonce": w.nonce, "spare": spare});
        self.made.push((self.id, s.clone(), v.clone()));
        (s, v)
    }
    async fn ask(&mut self, s: SignedTransaction, v: Value, net: bool) {
        let hash = s.transaction.hash;
        let ok = if net {
            let m = BatchSignedTxs::decode_msg(BatchSignedTxs::new(vec![s]).encode_msg().unwrap()).unwrap();
            self.h.process(Context::new().with_value::<usize>("session_id", 3), m).await;
            self.p.contains(Context::new(), &hash).await
        } else { self.p.insert(Context::new(), s).await.is_ok() };
        let inn = self.p.contains(Context::new(), &hash).await;
        self.ev.push(json!({"op": "insert", "t": v, "ok": ok, "in": inn, "net": net}));
    }
    /// a block with these; `mid` is asked for when it has been executed but not yet stored
    async fn commit(&mut self, q: &[u64], sys: u32, mid: Option<(SignedTransaction, Value)>) {
        let txs: Vec<SignedTransaction> = q.iter().map(|i| self.made.iter().find(|m| m.0 == *i).unwrap().1.clone()).collect();
        let hashes: Vec<H256> = txs.iter().map(|t| t.transaction.hash).collect();
        let h = self.n.chain.number + 1;
        let p = Arc::clone(&self.p);
        let mut ok = None;
        self.n.commit(&txs, sys, || {
            futures::executor::block_on(p.flush(Context::new(), &hashes, h)).unwrap();
            if let Some((s, _)) = &mid { ok = Some(futures::executor::block_on(p.insert(Context::new(), s.clone())).is_ok()) }
        });
        self.p.set_args(Context::new(), self.n.chain.root, 30_000_000, MAX);
        let nonces = self.nonces();
        if let Some((s, v)) = mid {
            // what it can still pay after the block
            let mut after = v.clone();
            let from = v["from"].as_u64().unwrap() as usize;
            let u = &s.transaction.unsigned;
            let (cost, over) = (U256::from(u.gas_price().as_u64()) * U256::from(u.gas_limit().as_u64())).overflowing_add(*u.value());
            after["spare"] = json!(if over || cost > self.account(from).1 { -1 } else { 1 });
            self.ev.push(json!({"op": "during", "t": v, "tt": after, "ok": ok.unwrap(), "q": q, "nonces": nonces, "h": h}));
        }
        self.ev.push(json!({"op": "commit", "q": q, "nonces": nonces, "h": h}));
    }
    fn good(&self, from: usize) -> Want {
        Want { from, to: "user", sig: if from == 6 { "vm0" } else { "good" }, chain: "own", size: 99, price: "mid", split: 0, gas: 50_000, nonce: self.account(from).0, spare: 99, kind: 0 }
    }
}
async fn start(path: &str, end: u64) -> Run {
    let v = |sk| crate::chain::validator(addr(sk), 1);
    let meta = {
        let m = |epoch, start, end, vs: Vec<ValidatorExtend>| Metadata { version: MetadataVersion { start, end }, epoch, verifier_list: vs, propose_counter: vec![], consensus_config: crate::chain::config(0x6000) };
        [m(0, 0, end, vec![v(9)]), m(1, end + 1, 10_000, vec![v(8)])]
    };
    let rich: U256 = U256::from(10u64).pow(24.into());
    let accounts: Vec<(H160, U256)> = (1..=6).map(|i| (who(i), rich)).collect();
    let mut n = Node::genesis_with(path, &accounts, &[v(9)], &meta);
    // programs for the CKB-VM
    let cells = H256::repeat_byte(0x11);
    let data = image_update(1, &[(cells, 0, elf(0)), (cells, 1, elf(1)), (cells, 2, vec![1; 200])], &[]);
    let t = sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: 0.into(), gas_price: 1.into(), gas_limit: 50_000.into(), action: TransactionAction::Call(IMAGE_CELL_CONTRACT_ADDRESS), value: 0.into(), data: data.into() }), 5, 9);
    let r = n.commit(&[t], 1, || ());
    assert!(r.tx_resp[0].exit_reason.is_succeed());
    let p = Arc::new(pool(&n, &Net::default(), 5000, 50, vec![]).await);
    p.set_args(Context::new(), n.chain.root, 30_000_000, MAX);
    let mut x = Run { h: NewTxsHandler::new(Arc::clone(&p)), n, p, ev: vec![], id: 0, cells, end, made: vec![] };
    let nonces = x.nonces();
    x.ev.push(json!({"op": "commit", "q": [], "nonces": nonces, "h": 1}));
    x
}
fn finish(o: &mut Out, id: &str, r: Run) {
    o.trace(id, json!({"vals": [[4], [5]], "end": r.end, "max": MAX, "nonces": [0, 0, 0, 0, 0, 0]}), r.ev);
    r.n.chain.close();
    std::mem::forget(r.p);
}
async fn given(o: &mut Out, id: &str, path: &str, steps: &Value) {
    let mut r = start(path, 1000).await;
    let steps = steps.as_array().unwrap();
    let mut at = 0;
    while at < steps.len() {
        let s = &steps[at];
        match s["op"].as_str().unwrap() {
            "insert" => { let w = Want { nonce: s["n"].as_u64().unwrap(), ..r.good(1) }; let (t, v) = r.make(&w); r.ask(t, v, at % 2 == 1).await }
            _ => {
                let mid = steps.get(at + 1).filter(|x| x["op"] == "insert").map(|x| Want { nonce: x["n"].as_u64().unwrap(), ..r.good(1) });
                let mid = mid.map(|w| r.make(&w));
                let w = r.good(1);
                let (t, v) = r.make(&w);
                let id = v["id"].as_u64().unwrap();
                let _ = t;
                r.commit(&[id], 0, mid).await;
                while at + 1 < steps.len() && steps[at + 1]["op"] != "flush" && steps[at]["op"] != "save" { at += 1 }
            }
        }
        at += 1;
    }
    finish(o, id, r);
}
fn deviate(g: &mut Rng, w: &mut Want) {
    match g.below(12) {
        0 => w.to = *g.pick(&["create", "sys", "reserved", "sys"]),
        1 => if w.from == 6 { w.sig = *g.pick(&["vm1", "vmjunk", "vmmissing", "missing"]) } else { w.sig = *g.pick(&["altered", "other", "missing", "nopublic"]) },
        2 => w.chain = *g.pick(&["none", "wrong"]),
        3 | 4 => w.size = *g.pick(&[-1, 0, 1, 200]),
        5 | 6 => { w.price = *g.pick(&["0", "1", "max-1", "max", "max+1", "huge"]) }
        7 | 8 => w.gas = *g.pick(&[0, 20_999, 21_000, 30_000_000, 30_000_001, u64::MAX]),
        9 => w.nonce = g.range(w.nonce.saturating_sub(2), w.nonce + 3),
        10 => w.spare = *g.pick(&[-2, -1, 0, 1]),
        _ => w.kind = g.range(1, 2),
    }
    if w.sig == "missing" && w.from == 6 { w.sig = "vmmissing" }
}
async fn random(o: &mut Out, id: &str, path: &str, g: &mut Rng) {
    let end = g.range(1, 6);
    let mut r = start(path, end).await;
    for _ in 0..g.range(8, 40) {
        if g.chance(1, 8) {
            let mut q = vec![];
            if g.chance(1, 4) {
                // a transaction of the validator, with nothing for its contract
                let f = if r.n.chain.number + 1 <= r.end { 4 } else { 5 };
                let w = Want { to: "sys", ..r.good(f) };
                let (_, v) = r.make(&w);
                q.push(v["id"].as_u64().unwrap());
                r.commit(&q, 1, None).await;
            } else {
                let f = g.range(1, 3) as usize;
                let mut w = r.good(f);
                for _ in 0..g.below(3) { let (_, v) = r.make(&w); q.push(v["id"].as_u64().unwrap()); w.nonce += 1 }
                let mid = if g.bool() { let mut w = r.good(f); if g.bool() { deviate(g, &mut w) } Some(r.make(&w)) } else { None };
                let mid = mid.filter(|m| m.1["sig"] == "good");
                r.commit(&q, 0, mid).await;
            }
            continue;
        }
        if g.chance(1, 10) && !r.made.is_empty() {
            // one that was there already: committed or pooled
            let done: Vec<u64> = r.ev.iter().filter(|e| e["op"] == "commit").flat_map(|e| e["q"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>()).collect();
            if let Some(i) = done.last() {
                let (_, s, v) = r.made.iter().find(|m| m.0 == *i).unwrap().clone();
                r.ask(s, v, g.bool()).await;
            }
            continue;
        }
        let mut f = g.range(1, 6) as usize;
        let mut to = "user";
        if g.chance(1, 4) { to = "sys"; if g.chance(2, 3) { f = g.range(4, 5) as usize } }
        let mut w = Want { to, ..r.good(f) };
        w.kind = g.below(3);
        w.split = g.below(3);
        let n = g.below(5);
        for _ in 0..(if n == 4 { 2 } else if n == 0 { 0 } else { 1 }) { deviate(g, &mut w) }
        let (s, v) = r.make(&w);
        let whole = ["good", "vm0", "vm1", "vmjunk", "vmmissing"].contains(&w.sig) && w.chain != "none";
        r.ask(s, v, whole && g.bool()).await;
    }
    finish(o, id, r);
}
pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut g = Rng::new(seed());
    for (k, c) in read_ndjson(cases).iter().enumerate() { crate::b01::alone(given(&mut o, &format!("g{k}"), &format!("{base}/g{k}"), c)); }
    for k in 0..scale(400, 6000) { crate::b01::alone(random(&mut o, &format!("r{k}"), &format!("{base}/r{k}"), &mut g)); }
    o.finish();
}
