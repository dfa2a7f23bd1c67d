//! The chain database: histories of stores, lookups and restarts.
use crate::*;
use core_storage::ImplStorage;
use protocol::traits::{Context, ReadOnlyStorage, Storage, StorageAdapter};
use std::collections::HashMap;
use std::sync::Arc;

/// the numbers blocks really have; their order is not that of the indices
const HEIGHTS: &[u64] = &[0, 1, 2, 255, 256, 257, 65535, 65536, 1 << 32, (1 << 32) + 1, u64::MAX - 1, u64::MAX, 1 << 56, 511, 512];

pub struct World {
    heights: Vec<u64>,
    blocks:  Vec<Block>,           // 1..
    txs:     Vec<Vec<SignedTransaction>>, // by block
    rcpts:   Vec<Vec<Receipt>>,
    hashes:  HashMap<Hash, u64>, // every hash has a number
    proofs:  Vec<Proof>,
    codes:   Vec<(H256, Hash, bytes::Bytes)>, // address, hash, code; ids 2001.., 3001.., 1..
    forks:   Vec<HardforkInfoInner>,
}
fn tx(r: &mut Rng) -> SignedTransaction {
    let raw = LegacyTransaction { nonce: r.below(9).into(), gas_price: r.below(99).into(), gas_limit: 21000.into(), action: TransactionAction::Create, value: r.below(99).into(), data: { let n = r.below(40) as usize; r.bytes(n).into() } };
    let raw = match r.below(3) {
        0 => UnsignedTransaction::Legacy(raw),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce: raw.nonce, gas_price: raw.gas_price, gas_limit: raw.gas_limit, action: TransactionAction::Call(H160::from_slice(&r.bytes(20))), value: raw.value, data: raw.data, access_list: vec![] }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce: raw.nonce, max_priority_fee_per_gas: raw.gas_price, gas_price: raw.gas_price, gas_limit: raw.gas_limit, action: raw.action, value: raw.value, data: raw.data, access_list: vec![] }),
    };
    sign(raw, 5, r.range(1, 9) as u8)
}
fn receipt(r: &mut Rng, h: Hash, n: u64, i: u32) -> Receipt {
    Receipt { tx_hash: h, block_number: n, tx_index: i, used_gas: r.below(1 << 40).into(), log_index: r.below(9) as u32, sender: H160::from_slice(&r.bytes(20)),
        logs: (0..r.below(3)).map(|_| protocol::types::Log { address: H160::from_slice(&r.bytes(20)), topics: vec![H256::from_slice(&r.bytes(32))], data: r.bytes(5) }).collect(), ..Default::default() }
}
impl World {
    fn new(r: &mut Rng, nblocks: usize, sizes: &[usize]) -> World {
        let mut hs = HEIGHTS.to_vec();
        for i in (1..hs.len()).rev() {
            hs.swap(i, r.below(i as u64 + 1) as usize);
        }
        let mut w = World { heights: vec![], blocks: vec![], txs: vec![], rcpts: vec![], hashes: HashMap::new(), proofs: vec![], codes: vec![], forks: vec![] };
        let mut id = 10_000;
        for b in 0..nblocks {
            let n = hs[b];
            let txs: Vec<_> = (0..sizes[b % sizes.len()]).map(|_| tx(r)).collect();
            let rs: Vec<_> = txs.iter().enumerate().map(|(i, t)| receipt(r, t.transaction.hash, n, i as u32)).collect();
            let mut h = Header { number: n, timestamp: r.next() >> 8, prev_hash: H256::from_slice(&r.bytes(32)), ..Default::default() };
            h.extra_data = vec![ExtraData { inner: r.bytes(3).into() }];
            let blk = Block { header: h, tx_hashes: txs.iter().map(|t| t.transaction.hash).collect() };
            w.hashes.insert(blk.hash(), 1000 + b as u64 + 1);
            for t in &txs {
                id += 1;
                w.hashes.insert(t.transaction.hash, id);
            }
            w.heights.push(n);
            w.blocks.push(blk);
            w.txs.push(txs);
            w.rcpts.push(rs);
        }
        for i in 0..3u64 {
            w.proofs.push(Proof { number: i, round: r.next(), block_hash: H256::from_slice(&r.bytes(32)), signature: r.bytes(96).into(), bitmap: r.bytes(1).into() });
            w.forks.push(HardforkInfoInner { block_number: i, flags: H256::from_slice(&r.bytes(32)) });
        }
        for i in 0..4u64 {
            // two addresses may share their code
            let code: bytes::Bytes = if i == 3 { w.codes[0].2.clone() } else { let n = r.range(1, 60) as usize; r.bytes(n).into() };
            w.codes.push((H256::from_slice(&r.bytes(32)), Hasher::digest(&code), code));
        }
        w
    }
    fn xs(&self, b: usize) -> Value {
        json!(self.txs[b].iter().map(|t| { let h = self.hashes[&t.transaction.hash]; json!({"h": h, "v": h}) }).collect::<Vec<_>>())
    }
    fn bid(&self, b: &Block) -> u64 {
        self.blocks.iter().position(|x| x == b).map(|i| i as u64 + 1).unwrap_or(9999)
    }
    fn hid(&self, h: &Header) -> u64 {
        self.blocks.iter().position(|x| x.header == *h).map(|i| i as u64 + 1).unwrap_or(9999)
    }
    fn tid(&self, t: &SignedTransaction) -> u64 {
        self.txs.iter().flatten().find(|x| *x == t).map(|x| self.hashes[&x.transaction.hash]).unwrap_or(9999)
    }
    fn rid(&self, t: &Receipt) -> u64 {
        self.rcpts.iter().flatten().find(|x| *x == t).map(|x| self.hashes[&x.tx_hash]).unwrap_or(9999)
    }
    fn any_hash(&self, r: &mut Rng) -> (Hash, u64) {
        let b = r.below(self.blocks.len() as u64) as usize;
        match r.below(6) {
            0 => (H256::from_slice(&r.bytes(32)), 9000),
            1 | 2 => (self.blocks[b].hash(), 1001 + b as u64),
            3 if r.chance(1, 6) => (H256::zero(), 9000),
            _ => {
                if self.txs[b].is_empty() {
                    return (self.blocks[b].hash(), 1001 + b as u64);
                }
                let t = r.pick(&self.txs[b]).transaction.hash;
                (t, self.hashes[&t])
            }
        }
    }
}

fn flat<T, E: std::fmt::Display>(r: Result<Result<Option<T>, E>, String>, f: impl Fn(&T) -> u64) -> u64 {
    match r {
        Ok(Ok(Some(x))) => f(&x),
        Ok(Ok(None)) => 0,
        Ok(Err(e)) => { if std::env::var("LOUD").is_ok() { eprintln!("{e}"); } 9997 }
        Err(_) => 9998,
    }
}

pub struct Db<A: StorageAdapter> {
    adapter: Arc<A>,
    s:       ImplStorage<A>,
    cache:   usize,
}
impl<A: StorageAdapter + 'static> Db<A> {
    fn reopen(&mut self, a: Arc<A>) {
        self.adapter = Arc::clone(&a);
        self.s = ImplStorage::new(a, self.cache);
    }
    fn query(&self, w: &World, r: &mut Rng, kind: u64, b: usize) -> Value {
        let c = Context::new;
        let (n, idx) = if b < w.heights.len() { (w.heights[b], b as u64 + 1) } else { (77_777, 99) };
        let (h, hid) = w.any_hash(r);
        let hash_of = |b: usize| if b < w.blocks.len() { (w.blocks[b].hash(), 1001 + b as u64) } else { (h, hid) };
        match kind {
            0 => json!({"op": "block", "n": idx, "out": flat(guard(|| run(self.s.get_block(c(), n))), |x| w.bid(x))}),
            1 => json!({"op": "header", "n": idx, "out": flat(guard(|| run(self.s.get_block_header(c(), n))), |x| w.hid(x))}),
            2 => {
                let (h, hid) = if r.bool() { hash_of(b) } else { (h, hid) };
                json!({"op": "block_by_hash", "h": hid, "out": flat(guard(|| run(self.s.get_block_by_hash(c(), &h))), |x| w.bid(x))})
            }
            3 => {
                let (h, hid) = if r.bool() { hash_of(b) } else { (h, hid) };
                json!({"op": "number_by_hash", "h": hid, "out": flat(guard(|| run(ReadOnlyStorage::get_block_number_by_hash(&self.s, c(), &h))), |x| w.heights.iter().position(|y| y == x).map(|i| i as u64 + 1).unwrap_or(9999))})
            }
            4 => json!({"op": "tx", "h": hid, "out": flat(guard(|| run(self.s.get_transaction_by_hash(c(), &h))), |x| w.tid(x))}),
            5 => json!({"op": "receipt", "h": hid, "out": flat(guard(|| run(self.s.get_receipt_by_hash(c(), &h))), |x| w.rid(x))}),
            6 | 7 => {
                // mostly those of the block, in another order, with gaps, strangers and repetitions
                let mut hs: Vec<(Hash, u64)> = vec![];
                if b < w.txs.len() {
                    for t in &w.txs[b] {
                        if !r.chance(1, 5) {
                            hs.push((t.transaction.hash, w.hashes[&t.transaction.hash]));
                        }
                    }
                }
                for _ in 0..r.below(3) {
                    let x = w.any_hash(r);
                    let at = r.below(hs.len() as u64 + 1) as usize;
                    hs.insert(at, x);
                }
                if hs.len() > 1 && r.chance(1, 3) {
                    let x = hs[r.below(hs.len() as u64) as usize];
                    hs.push(x);
                }
                for i in (1..hs.len()).rev() {
                    hs.swap(i, r.below(i as u64 + 1) as usize);
                }
                let q: Vec<Hash> = hs.iter().map(|x| x.0).collect();
                let ids: Vec<u64> = hs.iter().map(|x| x.1).collect();
                let out: Value = if kind == 6 {
                    match guard(|| run(self.s.get_transactions(c(), n, &q))) {
                        Ok(Ok(v)) => json!(v.iter().map(|x| x.as_ref().map(|t| w.tid(t)).unwrap_or(0)).collect::<Vec<_>>()),
                        _ => json!([9998]),
                    }
                } else {
                    match guard(|| run(self.s.get_receipts(c(), n, &q))) {
                        Ok(Ok(v)) => json!(v.iter().map(|x| x.as_ref().map(|t| w.rid(t)).unwrap_or(0)).collect::<Vec<_>>()),
                        _ => json!([9998]),
                    }
                };
                json!({"op": if kind == 6 { "txs" } else { "receipts" }, "n": idx, "hs": ids, "out": out})
            }
            8 => json!({"op": "latest", "out": guard(|| run(self.s.get_latest_block(c()))).unwrap().map(|x| w.bid(&x)).unwrap_or(0)}),
            9 => json!({"op": "latest_header", "out": guard(|| run(self.s.get_latest_block_header(c()))).unwrap().map(|x| w.hid(&x)).unwrap_or(0)}),
            10 => json!({"op": "latest_proof", "out": guard(|| run(self.s.get_latest_proof(c()))).unwrap().map(|x| w.proofs.iter().position(|p| *p == x).map(|i| i + 1).unwrap_or(9999)).unwrap_or(0)}),
            11 => {
                let i = r.below(5) as usize;
                let (h, id) = if i < 4 { (w.codes[i].1, w.code_hash_id(i)) } else { (h, hid) };
                json!({"op": "code", "h": id, "out": flat(guard(|| run(self.s.get_code_by_hash(c(), &h))), |x| w.code_id(x))})
            }
            12 => {
                let i = r.below(5) as usize;
                let (h, id) = if i < 4 { (w.codes[i].0, i as u64 + 2001) } else { (h, hid) };
                json!({"op": "code_at", "a": id, "out": flat(guard(|| run(self.s.get_code_by_address(c(), &h))), |x| w.code_id(x))})
            }
            _ => json!({"op": "fork_proposal", "out": flat(guard(|| run(self.s.hardfork_proposal(c()))), |x| w.forks.iter().position(|p| p == x).map(|i| i as u64 + 1).unwrap_or(9999))}),
        }
    }
    fn change(&self, w: &World, r: &mut Rng, op: &str, b: usize) -> Value {
        let c = Context::new;
        let n = w.heights[b];
        let okay = |x: Result<Result<(), protocol::ProtocolError>, String>| if matches!(x, Ok(Ok(()))) { 0 } else { 9998 };
        let blk = w.blocks[b].clone();
        let base = json!({"op": op, "n": b + 1, "h": 1001 + b, "v": b + 1});
        let mut e = base;
        e["out"] = json!(match op {
            "set_block" => okay(guard(|| run(self.s.set_block(c(), blk)))),
            "insert_block" => okay(guard(|| run(self.s.insert_block(c(), blk)))),
            "set_latest" => okay(guard(|| run(self.s.set_latest_block(c(), blk)))),
            "insert_txs" => {
                e = json!({"op": op, "n": b + 1, "xs": w.xs(b)});
                okay(guard(|| run(self.s.insert_transactions(c(), n, w.txs[b].clone()))))
            }
            "insert_receipts" => {
                e = json!({"op": op, "n": b + 1, "xs": w.xs(b)});
                okay(guard(|| run(self.s.insert_receipts(c(), n, w.rcpts[b].clone()))))
            }
            "insert_code" => {
                let a = r.below(4) as usize;
                // an address may be given the code of another
                let k = if r.chance(1, 3) { r.below(4) as usize } else { a };
                e = json!({"op": op, "a": 2001 + a, "h": w.code_hash_id(k), "v": w.code_id(&w.codes[k].2)});
                okay(guard(|| run(self.s.insert_code(c(), w.codes[a].0, w.codes[k].1, w.codes[k].2.clone()))))
            }
            "proof" => {
                let i = r.below(3) as usize;
                e = json!({"op": op, "v": i + 1});
                okay(guard(|| run(self.s.update_latest_proof(c(), w.proofs[i].clone()))))
            }
            "fork" => {
                let i = r.below(4) as usize;
                e = json!({"op": op, "v": i});
                if i == 0 { okay(guard(|| run(self.s.remove_hardfork_proposal(c())))) } else { okay(guard(|| run(self.s.set_hardfork_proposal(c(), w.forks[i - 1].clone())))) }
            }
            x => panic!("{x}"),
        });
        e
    }
}
impl World {
    fn code_id(&self, c: &bytes::Bytes) -> u64 {
        self.codes.iter().position(|x| x.2 == *c).map(|i| i as u64 + 1).unwrap_or(9999)
    }
    fn code_hash_id(&self, i: usize) -> u64 {
        3000 + self.code_id(&self.codes[i].2)
    }
}

/// how a history ends: everything is looked up, before and after a restart
fn sweep<A: StorageAdapter + 'static>(db: &Db<A>, w: &World, r: &mut Rng, ev: &mut Vec<Value>) {
    for b in 0..=w.blocks.len() {
        for k in 0..8 {
            ev.push(db.query(w, r, k, b));
        }
    }
    for k in 8..14 {
        ev.push(db.query(w, r, k, 0));
    }
}

fn rocks(path: &str) -> Arc<core_db::RocksAdapter> {
    Arc::new(core_db::RocksAdapter::new(path, Default::default()).unwrap())
}

fn history(o: &mut Out, id: &str, steps: &[(String, usize)], w: &World, r: &mut Rng, base: &str) {
    let cache = *r.pick(&[1usize, 1, 2, 3, 100]);
    let memory = r.chance(1, 4);
    let mut ev = vec![];
    macro_rules! go {
        ($db:expr, $fresh:expr) => {{
            let mut db = $db;
            for (op, b) in steps {
                match op.as_str() {
                    "reopen" => {
                        let a = $fresh(&db);
                        db.reopen(a);
                        ev.push(json!({"op": "reopen", "out": 0}));
                    }
                    "q" => {
                        let k = r.below(14);
                        ev.push(db.query(w, r, k, *b));
                    }
                    "block" => ev.push(db.query(w, r, 0, *b)),
                    "block_by_hash" => ev.push(db.query(w, r, 2, *b)),
                    "latest" => ev.push(db.query(w, r, 8, *b)),
                    x => ev.push(db.change(w, r, x, *b)),
                }
            }
            sweep(&db, w, r, &mut ev);
            let a = $fresh(&db);
            db.reopen(a);
            sweep(&db, w, r, &mut ev);
        }};
    }
    if memory {
        let a = Arc::new(core_db::MemoryAdapter::new());
        let s = ImplStorage::new(Arc::clone(&a), cache);
        go!(Db { adapter: a, s, cache }, |db: &Db<core_db::MemoryAdapter>| Arc::clone(&db.adapter));
    } else {
        let p = format!("{base}/{id}");
        let a = rocks(&p);
        let s = ImplStorage::new(Arc::clone(&a), cache);
        go!(Db { adapter: a, s, cache }, |_: &Db<core_db::RocksAdapter>| rocks(&p));
        rocksdb::sim::drop_db(&p);
        let _ = std::fs::remove_dir_all(&p);
    }
    o.trace(id, json!({"memory": memory, "cache": cache}), ev);
}

pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed());
    for (i, c) in read_ndjson(cases).iter().enumerate() {
        if i % 8 == 0 || i == 0 {}
        let w = World::new(&mut r, 2, &[2, 3]);
        let steps: Vec<(String, usize)> = c.as_array().unwrap().iter().map(|e| (e["op"].as_str().unwrap().to_string(), e["n"].as_u64().unwrap() as usize - 1)).collect();
        history(&mut o, &format!("case{i}"), &steps, &w, &mut r, base);
    }
    for i in 0..scale(60, 800) {
        let nb = r.range(2, 10) as usize;
        let sizes = [r.below(6) as usize, r.below(4) as usize, 0, 1];
        let w = World::new(&mut r, nb, &sizes);
        let steps: Vec<(String, usize)> = (0..r.range(5, 40)).map(|_| {
            let op = *r.pick(&["set_block", "insert_block", "insert_txs", "insert_txs", "insert_receipts", "insert_receipts", "set_latest", "insert_code", "insert_code", "proof", "fork", "q", "q", "q", "q", "q", "q", "reopen"]);
            (op.to_string(), r.below(nb as u64) as usize)
        }).collect();
        history(&mut o, &format!("random{i}"), &steps, &w, &mut r, base);
    }
    // a block with more transactions than are decoded at once, between two small ones
    for (i, n) in [999usize, 1000, 1001, 2003].iter().enumerate() {
        if i > 2 && !thorough() {
            break;
        }
        let w = World::new(&mut r, 3, &[2, *n, 1]);
        let steps: Vec<(String, usize)> = [("insert_txs", 1), ("insert_receipts", 1), ("insert_txs", 0), ("insert_txs", 2), ("insert_receipts", 2), ("insert_receipts", 0)].iter().map(|x| (x.0.to_string(), x.1)).collect();
        history(&mut o, &format!("large{i}"), &steps, &w, &mut r, base);
    }
    o.finish();
}
