//! A chain of a toy contract's transactions, the real pool on it, and the real RPC service over both.
pub use crate::b01::{addr, Net, Pool};
use crate::chain::*;
use crate::node::*;
use crate::*;
use core_api::{jsonrpc::run_jsonrpc_server, DefaultAPIAdapter};
use jsonrpsee::server::ServerHandle;
use protocol::traits::*;
use protocol::{codec::ProtocolCodec, ProtocolResult};
use std::collections::HashMap;
use std::sync::Arc;

impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> { Ok(()) }
    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> { Ok(()) }
    fn tag_consensus(&self, _: Context, _: Vec<Bytes>) -> ProtocolResult<()> { Ok(()) }
    fn peer_count(&self, _: Context) -> ProtocolResult<usize> { Ok(7) }
}
pub const RANGE: u64 = 3; // blocks that one request for logs may span
const CONFIG: &str = r#"
net_privkey_file = "a"
bls_privkey_file = "b"
data_path = "/nonexistent"
[rpc]
http_listening_address = "127.0.0.1:8001"
ws_listening_address = "127.0.0.1:8011"
maxconn = 25000
max_payload_size = 10485760
[web3]
max_gas_cap = 50000000
log_filter_max_block_range = 3
[network]
listening_address = "/ip4/127.0.0.1/tcp/10001"
rpc_timeout = 10
[synchronization]
sync_txs_chunk_size = 5000
[mempool]
timeout_gap = 20
pool_size = 20000
broadcast_txs_size = 200
broadcast_txs_interval = 200
[executor]
triedb_cache_size = 200
"#;

// ---- the toy contract: its input is a list of records <<op, w1, .., w4>> ------------------------
pub type Rec = [u64; 5];
/// 0..4: a log with so many topics; 5: slot w1 := w2; 6: revert; 7: return slot w1; 8: revert if slot w1 is w2
fn code() -> Vec<u8> {
    let mut c: Vec<u8> = vec![];
    let mut fix: Vec<(usize, usize)> = vec![];
    let mut label: HashMap<usize, usize> = HashMap::new();
    const LOOP: usize = 100; const END: usize = 101; const NEXT: usize = 102; const FAIL: usize = 103;
    fn jump(c: &mut Vec<u8>, fix: &mut Vec<(usize, usize)>, l: usize, op: u8) { c.push(0x61); fix.push((c.len(), l)); c.extend([0, 0, op]) }
    // pushes word w of the record; above the place of the record are d other words
    fn word(c: &mut Vec<u8>, w: u8, d: u8) { c.extend([0x80 + d, 0x60, 32 * w, 0x01, 0x35]) }
    c.extend([0x60, 0]);
    label.insert(LOOP, c.len()); c.push(0x5b);
    c.extend([0x80, 0x36, 0x14]); jump(&mut c, &mut fix, END, 0x57);
    c.extend([0x80, 0x60, 0, 0x52, 0x80, 0x35]);
    for k in 0..=8u8 { c.extend([0x80, 0x60, k, 0x14]); jump(&mut c, &mut fix, k as usize, 0x57) }
    c.push(0);
    for k in 0..=8u8 {
        label.insert(k as usize, c.len());
        c.extend([0x5b, 0x50]);
        match k {
            0..=4 => { for (d, w) in (1..=k).rev().enumerate() { word(&mut c, w, d as u8) } c.extend([0x60, 32, 0x60, 0, 0xa0 + k]) }
            5 => { word(&mut c, 2, 0); word(&mut c, 1, 1); c.push(0x55) }
            6 => { jump(&mut c, &mut fix, FAIL, 0x56) }
            7 => { word(&mut c, 1, 0); c.extend([0x54, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3]) }
            _ => { word(&mut c, 1, 0); c.push(0x54); word(&mut c, 2, 1); c.push(0x14); jump(&mut c, &mut fix, FAIL, 0x57) }
        }
        jump(&mut c, &mut fix, NEXT, 0x56);
    }
    label.insert(NEXT, c.len()); c.extend([0x5b, 0x60, 160, 0x01]); jump(&mut c, &mut fix, LOOP, 0x56);
    label.insert(FAIL, c.len()); c.extend([0x5b, 0x60, 0, 0x60, 0, 0xfd]);
    label.insert(END, c.len()); c.extend([0x5b, 0]);
    for (at, l) in fix { let x = label[&l] as u16; c[at] = (x >> 8) as u8; c[at + 1] = x as u8 }
    c
}
pub fn runtime_code() -> Vec<u8> { code() }
fn deploy() -> Vec<u8> {
    let c = code();
    let (h, l) = ((c.len() >> 8) as u8, c.len() as u8);
    let mut d = vec![0x61, h, l, 0x60, 15, 0x60, 0, 0x39, 0x61, h, l, 0x60, 0, 0xf3, 0];
    d.extend(c);
    d
}
pub fn input(recs: &[Rec]) -> Vec<u8> {
    let mut v = vec![];
    for r in recs { for w in r { v.extend(H256::from_low_u64_be(*w).as_bytes()) } }
    v
}

// ---- places in the chain -----------------------------------------------------------------------
/// none, latest, pending, earliest; num n; hash of the block with number n, or of no block (-1)
#[derive(Clone, Debug)]
pub struct At(pub &'static str, pub i64);
impl At {
    pub fn spec(&self) -> Value { json!({"t": self.0, "n": self.1}) }
}
pub struct Tx { pub stx: SignedTransaction, pub from: u64, pub to: u64, pub recs: Vec<Rec> }
pub const ABSENT: u64 = 20;
pub const EOAS: u64 = 3;

pub struct Api {
    pub n:      Node,
    pub pool:   Arc<Pool>,
    pub h:      ServerHandle,
    pub txs:    Vec<Tx>,
    pub made:   Vec<H160>,
    pub blocks: Vec<Block>,
    pub resp:   Vec<ExecResp>,
    pub nonce:  [u64; 3],
    pub ev:     Vec<Value>,
    pub path:   String,
}
impl Api {
    pub async fn start(path: &str) -> Api {
        protocol::lazy::CHAIN_ID.store(Arc::new(5));
        let rich: U256 = U256::from(10u64).pow(24.into());
        let accounts: Vec<(H160, U256)> = (1..=EOAS).map(|i| (addr(i as u8), rich + i)).collect();
        let n = Node::genesis(path, &accounts, &[validator(addr(9), 1)], 1_000_000);
        let h = core_executor::system_contract::metadata::MetadataHandle::new(n.chain.metadata_root());
        h.init_hardfork(0).unwrap();
        let net = Net::default();
        let pool = Arc::new(crate::b01::pool(&n, &net, 1000, 50, vec![]).await);
        pool.set_args(Context::new(), n.chain.root, 30_000_000, 1 << 20);
        // the pool stays: its broadcaster does not end with it
        std::mem::forget(Arc::clone(&pool));
        let a = DefaultAPIAdapter::new(Arc::clone(&pool), Arc::clone(&n.chain.storage), Arc::clone(&n.chain.trie), Arc::new(net));
        let c = toml::from_str(CONFIG).unwrap();
        let (http, ws) = run_jsonrpc_server("v".into(), c, Arc::new(a)).await.unwrap();
        assert!(http.is_some());
        let blocks = vec![n.block.clone()];
        settle().await;
        let mut r = Api { n, pool, h: ws.unwrap(), txs: vec![], made: vec![], blocks, resp: vec![], nonce: [0; 3], ev: vec![], path: path.into() };
        let acc = r.balances();
        r.ev.push(json!({"op": "commit", "txs": [], "bal": acc}));
        r
    }
    pub fn account(&self, a: u64) -> H160 {
        if a <= EOAS { addr(a as u8) } else if a > 10 && (a - 11) < self.made.len() as u64 { self.made[a as usize - 11] } else { H160::repeat_byte(a as u8) }
    }
    pub fn account_id(&self, h: &H160) -> i64 {
        for i in (1..=EOAS).chain(11..11 + self.made.len() as u64) { if self.account(i) == *h { return i as i64 } }
        -1
    }
    pub fn tip(&self) -> i64 { self.blocks.len() as i64 - 1 }
    /// in the order of EOAs, three contracts, one nobody has heard of
    fn balances(&self) -> Vec<String> {
        use protocol::types::Backend;
        let b = self.n.chain.read();
        (1..=3).chain(11..=13).chain([ABSENT]).map(|a| b.basic(self.account(a)).balance.to_string()).collect()
    }
    /// a transaction of this account; to = 0 makes a contract
    pub fn tx(&mut self, from: u64, to: u64, recs: Vec<Rec>, kind: u64) -> u64 {
        let nonce = self.nonce[from as usize - 1];
        self.nonce[from as usize - 1] += 1;
        let value: U256 = if to <= 3 && to > 0 { (self.txs.len() as u64 + 1).into() } else { 0.into() };
        let action = if to == 0 { TransactionAction::Create } else { TransactionAction::Call(self.account(to)) };
        let data: Bytes = if to == 0 { deploy() } else { input(&recs) }.into();
        let (nonce, gas_limit) = (nonce.into(), 2_000_000u64.into());
        let u = match kind {
            0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price: 5.into(), gas_limit, action, value, data }),
            1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price: 6.into(), gas_limit, action, value, data, access_list: vec![] }),
            _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, gas_price: 9.into(), max_priority_fee_per_gas: 7.into(), gas_limit, action, value, data, access_list: vec![] }),
        };
        let stx = sign(u, 5, from as u8);
        self.txs.push(Tx { stx, from, to, recs });
        self.txs.len() as u64
    }
    pub fn tx_spec(&self, i: u64) -> Value {
        let t = &self.txs[i as usize - 1];
        json!({"id": i, "from": t.from, "to": t.to, "recs": t.recs.iter().map(|r| json!({"op": r[0], "w": &r[1..]})).collect::<Vec<_>>()})
    }
    pub fn commit(&mut self, q: &[u64]) {
        let txs: Vec<SignedTransaction> = q.iter().map(|i| self.txs[*i as usize - 1].stx.clone()).collect();
        let hashes: Vec<H256> = txs.iter().map(|t| t.transaction.hash).collect();
        let number = self.n.chain.number + 1;
        let p = Arc::clone(&self.pool);
        let resp = self.n.commit(&txs, 0, || futures::executor::block_on(p.flush(Context::new(), &hashes, number)).unwrap());
        self.pool.set_args(Context::new(), self.n.chain.root, 30_000_000, 1 << 20);
        for (i, r) in q.iter().zip(&resp.tx_resp) { if self.txs[*i as usize - 1].to == 0 { self.made.push(r.code_address.unwrap().into()) } }
        self.blocks.push(self.n.block.clone());
        self.resp.push(resp);
        let v = json!({"op": "commit", "txs": q.iter().map(|i| self.tx_spec(*i)).collect::<Vec<_>>(), "bal": self.balances()});
        self.ev.push(v);
    }
    // ---- asking -----------------------------------------------------------------------------------
    /// (how it ended, the answer)
    pub async fn ask(&self, m: &str, p: Vec<Value>) -> (&'static str, Value) {
        let h = self.h.clone();
        let m = m.to_string();
        let t = protocol::tokio::spawn(async move { h.call(&m, p).await });
        for _ in 0..50 { if t.is_finished() { break } settle().await }
        if !t.is_finished() {
            // some methods wait a little
            AHEAD.fetch_add(1, SeqCst);
            for _ in 0..50 { if t.is_finished() { break } settle().await }
        }
        if !t.is_finished() { t.abort(); return ("stuck", Value::Null) }
        match t.await {
            Err(_) => ("panic", Value::Null),
            Ok(None) => ("nomethod", Value::Null),
            Ok(Some(Err(e))) => ("err", Value::String(e.to_string())),
            Ok(Some(Ok(Value::Null))) => ("null", Value::Null),
            Ok(Some(Ok(v))) => ("ok", v),
        }
    }
    pub fn at(&self, a: &At) -> Value {
        match a.0 {
            "none" => Value::Null,
            "num" => json!(format!("0x{:x}", a.1)),
            "numobj" => json!({"blockNumber": format!("0x{:x}", a.1)}),
            "hash" => json!({"blockHash": self.hash(a.1)}),
            x => json!(x),
        }
    }
    pub fn hash(&self, n: i64) -> String { if n >= 0 { format!("{:?}", self.blocks[n as usize].hash()) } else { format!("{:?}", H256::repeat_byte(0x77)) } }
    pub fn hash_id(&self, v: &Value) -> i64 {
        let h: Option<H256> = serde_json::from_value(v.clone()).ok();
        h.and_then(|h| self.blocks.iter().position(|b| b.hash() == h)).map(|x| x as i64).unwrap_or(-1)
    }
    pub fn tx_id(&self, v: &Value) -> i64 {
        let h: Option<H256> = serde_json::from_value(v.clone()).ok();
        h.and_then(|h| self.txs.iter().position(|t| t.stx.transaction.hash == h)).map(|x| x as i64 + 1).unwrap_or(-1)
    }
    pub fn log(&self, v: &Value) -> Value {
        let topics: Vec<u64> = v["topics"].as_array().map(|a| a.iter().map(|x| quantity(x) as u64).collect()).unwrap_or_default();
        let d = { let b = bytes(v["data"].as_str().unwrap_or("")); if b.len() == 32 { U256::from_big_endian(&b).low_u64() as i64 } else { -1 } };
        let a: Option<H160> = serde_json::from_value(v["address"].clone()).ok();
        json!({"a": a.map(|a| self.account_id(&a)).unwrap_or(-1), "t": topics, "d": if d >= 0 && d % 160 == 0 { d / 160 } else { -1 }, "b": quantity(&v["blockNumber"]), "h": self.hash_id(&v["blockHash"]),
            "tx": self.tx_id(&v["transactionHash"]), "ti": quantity(&v["transactionIndex"]), "li": quantity(&v["logIndex"])})
    }
    pub fn logs(&self, v: &Value) -> Vec<Value> { v.as_array().map(|a| a.iter().map(|l| self.log(l)).collect()).unwrap_or_default() }
    pub fn finish(self, o: &mut Out, id: &str) {
        o.trace(id, json!({"range": RANGE}), self.ev);
        let p = self.path.clone();
        drop((self.h, self.pool));
        rocksdb::sim::drop_db(&p);
        let _ = std::fs::remove_dir_all(&p);
    }
}
pub fn bytes(s: &str) -> Vec<u8> { unhex(s.strip_prefix("0x").unwrap_or(s)) }
/// a small number in hex; -1 if it is none
pub fn quantity(v: &Value) -> i64 {
    let s = v.as_str().unwrap_or("");
    if !s.starts_with("0x") { return -1 }
    let t = s[2..].trim_start_matches('0');
    if t.len() > 7 { return 1 << 30 }
    if t.is_empty() { 0 } else { i64::from_str_radix(t, 16).unwrap_or(-1) }
}
// ---- which logs ----------------------------------------------------------------------------------
#[derive(Clone, Default)]
pub struct Want { pub addr: Vec<u64>, pub topics: Vec<Option<Vec<u64>>> }
impl Want {
    pub fn random(a: &Api, g: &mut Rng) -> Want {
        // 19 is nobody: a contract that is yet to be made has no address to ask for
        let addr = (0..*g.pick(&[0, 0, 0, 1, 1, 2])).map(|_| *g.pick(&[11, 12, 12, 13, 1])).map(|x| if x > 10 + a.made.len() as u64 { 19 } else { x }).collect();
        // easily matched or hardly
        let easy = g.bool();
        let topics = (0..*g.pick(&[0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4])).map(|_| if g.chance(1, if easy { 2 } else { 4 }) { None } else { Some((0..*g.pick(if easy { &[1, 2, 2, 3] } else { &[1, 1, 1, 2] })).map(|_| if g.chance(1, 12) { 0 } else { g.range(1, 3) }).collect()) }).collect();
        Want { addr, topics }
    }
    pub fn spec(&self) -> Value {
        json!({"addr": self.addr, "topics": self.topics.iter().map(|t| json!({"any": t.is_none(), "alts": t.clone().unwrap_or_default()})).collect::<Vec<_>>()})
    }
    /// the same in JSON, in any of the forms there are for it
    pub fn write(&self, a: &Api, g: &mut Rng, o: &mut serde_json::Map<String, Value>) {
        let addr: Vec<Value> = self.addr.iter().map(|x| json!(a.account(*x))).collect();
        match addr.len() { 0 if g.bool() => {} 0 => { o.insert("address".into(), if g.bool() { Value::Null } else { json!([]) }); } 1 if g.bool() => { o.insert("address".into(), addr[0].clone()); } _ => { o.insert("address".into(), json!(addr)); } }
        let word = |x: u64| if x == 0 { Value::Null } else { json!(H256::from_low_u64_be(x)) };
        let topics: Vec<Value> = self.topics.iter().map(|t| match t { None => Value::Null, Some(v) if v.len() == 1 && v[0] != 0 && g.bool() => word(v[0]), Some(v) => v.iter().map(|x| word(*x)).collect() }).collect();
        if !topics.is_empty() || g.bool() { o.insert("topics".into(), json!(topics)); }
    }
}
pub fn recs(g: &mut Rng) -> Vec<Rec> {
    (0..*g.pick(&[0, 1, 1, 2, 2, 3, 4])).map(|_| {
        let op = *g.pick(&[0u64, 1, 1, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5, 6, 7, 8]);
        // a revert late or seldom, or there would be nothing to see
        let op = if op >= 6 && g.bool() { 1 } else { op };
        if op < 5 { [op, g.range(1, 3), g.range(1, 3), g.range(1, 3), g.range(1, 3)] } else { [op, g.range(1, 3), g.below(4), 0, 0] }
    }).collect()
}
/// some more transactions and a block of them
pub fn grow(a: &mut Api, g: &mut Rng) {
    let k = *g.pick(&[0, 1, 1, 2, 2, 3]);
    let mut q = vec![];
    let mut new = 0;
    for _ in 0..k {
        let from = g.range(1, 3);
        let have = a.made.len() as u64;
        let to = if have + new < 3 && (have == 0 || g.chance(1, 6)) { 0 } else if g.chance(1, 6) || have == 0 { g.range(1, 3) } else { g.range(11, 10 + have) };
        if to == 0 { new += 1 }
        let r = if to > 10 { recs(g) } else { vec![] };
        let kind = g.below(3);
        q.push(a.tx(from, to, r, kind));
    }
    a.commit(&q);
}
