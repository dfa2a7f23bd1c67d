//! Mirrored CKB headers and cells: calls to the two contracts in blocks, and what can be read after.
use crate::chain::*;
use crate::*;
use ckb_types::core::cell::{CellProvider, CellStatus};
use ckb_types::prelude::*;
use core_executor::system_contract::{CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, HEADER_CELL_ROOT_KEY, IMAGE_CELL_CONTRACT_ADDRESS};
use core_executor::{AxonExecutor, AxonExecutorReadOnlyAdapter, DataProvider, MPTTrie, RocksTrieDB};
use ethers::abi::{encode, Token};
use protocol::traits::{Backend, Executor};
use protocol::trie::Trie;
use std::sync::Arc;
use Token::{Array, Bytes as Raw, FixedBytes, Tuple, Uint};

pub fn selector(sig: &str) -> Vec<u8> { Hasher::digest(sig).0[..4].to_vec() }
pub fn call(sig: &str, args: &[Token]) -> Vec<u8> { let mut v = selector(sig); v.extend(encode(args)); v }
const HEADER: &str = "(uint32,uint32,uint64,uint64,uint64,bytes32,bytes32,bytes32,bytes32,bytes32,uint128,bytes,bytes32)";
const POINT: &str = "(bytes32,uint32)";
const CELL: &str = "((bytes32,uint32),(uint64,(bytes32,uint8,bytes),(bytes32,uint8,bytes)[]),bytes)";
fn w(b: u8) -> Token { FixedBytes(vec![b; 32]) }
fn hash(h: u64) -> H256 { if h == 1 { H256::zero() } else { H256::repeat_byte(h as u8) } }
/// a well-formed CKB epoch
fn epoch(v: u64) -> u64 { 1000 << 40 | v << 24 | v * 7 }
fn header(h: u64, v: u64) -> Token {
    let b = v as u8;
    let big = v * 0x0101_0101_0101_0101;
    Tuple(vec![Uint(v.into()), Uint((v * 3).into()), Uint(big.into()), Uint((u64::MAX - v).into()), Uint(epoch(v).into()), w(b + 1), w(b + 2), w(b + 3), w(b + 4), w(b + 5),
        Uint(U256::from(u128::MAX - v as u128)), Raw(vec![b; (v - 1) as usize]), FixedBytes(hash(h).0.to_vec())])
}
/// outpoints that differ in one part only
fn point(p: u64) -> (H256, u32) { match p { 1 => (H256::repeat_byte(9), 0), 2 => (H256::repeat_byte(9), 1), 3 => (H256::repeat_byte(8), 0), 4 => (H256::repeat_byte(9), 256), n => (H256::repeat_byte(n as u8), u32::MAX) } }
fn ptoken(p: u64) -> Token { let (h, i) = point(p); Tuple(vec![FixedBytes(h.0.to_vec()), Uint(i.into())]) }
fn script(b: u8) -> Token { Tuple(vec![w(b), Uint((b % 3).into()), Raw(vec![b; b as usize % 40])]) }
fn cell(p: u64, v: u64) -> Token {
    let b = v as u8;
    let ty = if v % 2 == 0 { vec![script(b + 100)] } else { vec![] };
    Tuple(vec![ptoken(p), Tuple(vec![Uint((u64::MAX - v).into()), script(b), Array(ty)]), Raw(vec![b; (v - 1) as usize])])
}
fn pack(b: u8) -> ckb_types::packed::Script {
    ckb_types::packed::Script::new_builder().code_hash([b; 32].pack()).hash_type((b % 3).into()).args(vec![b; b as usize % 40].pack()).build()
}
fn nums(v: &Value) -> Vec<u64> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect() }
pub fn data(t: &Value) -> (H160, Vec<u8>) {
    let l = t["l"].as_array().cloned().unwrap_or_default();
    match t["k"].as_str().unwrap() {
        "hup" => (CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, call(&format!("update({HEADER}[])"), &[Array(l.iter().map(|x| header(x["h"].as_u64().unwrap(), x["v"].as_u64().unwrap())).collect())])),
        "hrb" => (CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, call("rollback(bytes32[])", &[Array(l.iter().map(|x| FixedBytes(hash(x.as_u64().unwrap()).0.to_vec())).collect())])),
        "cup" => (IMAGE_CELL_CONTRACT_ADDRESS, call(&format!("update((uint64,{POINT}[],{CELL}[])[])"), &[Array(l.iter().map(|b| Tuple(vec![
            Uint(b["n"].as_u64().unwrap().into()), Array(nums(&b["ins"]).into_iter().map(ptoken).collect()),
            Array(b["outs"].as_array().unwrap().iter().map(|o| cell(o["p"].as_u64().unwrap(), o["v"].as_u64().unwrap())).collect())])).collect())])),
        "crb" => (IMAGE_CELL_CONTRACT_ADDRESS, call(&format!("rollback(({POINT}[],{POINT}[])[])"), &[Array(l.iter().map(|b| Tuple(vec![
            Array(nums(&b["ins"]).into_iter().map(ptoken).collect()), Array(nums(&b["outs"]).into_iter().map(ptoken).collect())])).collect())])),
        "flag" => (if t["h"] == 0 { CKB_LIGHT_CLIENT_CONTRACT_ADDRESS } else { IMAGE_CELL_CONTRACT_ADDRESS }, call("setState(bool)", &[Token::Bool(t["h"] == 1)])),
        "ask" => (precompile(2), encode(&[FixedBytes(hash(t["h"].as_u64().unwrap()).0.to_vec())])),
        _ => {
            // a good call cut short, with another selector, or nothing
            let (a, mut d) = data(&t["of"]);
            match t["h"].as_u64().unwrap() { 0 => d.clear(), 1 => d.truncate(3), 2 => d[0] ^= 1, _ => { let n = d.len(); d.truncate(n - 32) } }
            (a, d)
        }
    }
}
pub fn precompile(n: u8) -> H160 { let mut a = H160::zero(); a.0[18] = 1; a.0[19] = n; a }

fn live(root: H256, nh: u64, nc: u64) -> Value {
    let d = DataProvider::new(root);
    use ckb_traits::{CellDataProvider, ExtensionProvider, HeaderProvider};
    let hdr: Vec<i64> = (1..=nh).map(|h| {
        let k = hash(h).0.pack();
        let (g, x) = (d.get_header(&k), d.get_block_extension(&k));
        let Some(g) = g else { return if x.is_none() { 0 } else { -1 } };
        let v = g.version() as u64;
        if v == 0 || v > 200 { return -1 }
        let b = v as u8;
        let good = g.compact_target() as u64 == v * 3 && g.timestamp() == v * 0x0101_0101_0101_0101 && g.number() == u64::MAX - v && Unpack::<u64>::unpack(&g.data().raw().epoch()) == epoch(v)
            && g.parent_hash() == [b + 1; 32].pack() && g.transactions_root() == [b + 2; 32].pack() && g.proposals_hash() == [b + 3; 32].pack() && g.extra_hash() == [b + 4; 32].pack()
            && g.dao() == [b + 5; 32].pack() && g.nonce() == u128::MAX - v as u128 && x == Some(vec![b; (v - 1) as usize].pack());
        if good { v as i64 } else { -1 }
    }).collect();
    let cell: Vec<Value> = (1..=nc).map(|p| {
        let (h, i) = point(p);
        let op = ckb_types::packed::OutPoint::new(h.0.pack(), i);
        let raw = MPTTrie::from_root_or_new(root).get(&key(p)).unwrap();
        let (bytes, hash) = (d.get_cell_data(&op), d.get_cell_data_hash(&op));
        let CellStatus::Live(m) = d.cell(&op, true) else {
            return json!({"v": if raw.is_none() && bytes.is_none() && hash.is_none() { 0 } else { -1 }, "made": -1, "used": -1})
        };
        let v = u64::MAX - Unpack::<u64>::unpack(&m.cell_output.capacity());
        let b = v as u8;
        let want = vec![b; v as usize - 1];
        let sum = if want.is_empty() { ckb_types::packed::Byte32::zero() } else { protocol::ckb_blake2b_256(&want).pack() };
        let good = v < 200 && m.cell_output.lock() == pack(b) && m.cell_output.type_().to_opt() == (if v % 2 == 0 { Some(pack(b + 100)) } else { None })
            && bytes.as_deref() == Some(&want[..]) && hash == Some(sum.clone()) && m.mem_cell_data.as_deref() == Some(&want[..]) && m.mem_cell_data_hash == Some(sum) && m.data_bytes == v - 1 && m.out_point == op;
        let raw = raw.unwrap();
        let r = rlp::Rlp::new(&raw);
        let made: u64 = r.val_at(2).unwrap();
        let used = r.at(3).unwrap();
        let used = if used.is_list() && used.item_count().unwrap() == 0 { -1 } else { used.val_at::<u64>(0).unwrap() as i64 };
        json!({"v": if good { v as i64 } else { -1 }, "made": made, "used": used})
    }).collect();
    json!({"hdr": hdr, "cell": cell})
}
fn key(p: u64) -> Vec<u8> { let (h, i) = point(p); let mut k = h.0.to_vec(); k.extend(i.to_le_bytes()); k }
trait FromRootOrNew { fn from_root_or_new(root: H256) -> MPTTrie<RocksTrieDB>; }
thread_local! { static DISK: std::cell::RefCell<Option<Arc<RocksTrieDB>>> = Default::default(); }
impl FromRootOrNew for MPTTrie<RocksTrieDB> {
    /// by a cache of its own
    fn from_root_or_new(root: H256) -> MPTTrie<RocksTrieDB> {
        let db = DISK.with(|d| d.borrow().clone().unwrap());
        if root.is_zero() || root == RLP_NULL { MPTTrie::new(db) } else { MPTTrie::from_root(root, db).unwrap_or_else(|e| panic!("{root:?} {e}")) }
    }
}
/// the content on disk, read with nothing in memory
fn disk(root: H256, nh: u64, nc: u64, seen: &Value) -> Value {
    // decoding is checked by `live`; here: is the same there without any cache
    let t = MPTTrie::from_root_or_new(root);
    let hdr: Vec<Value> = (1..=nh).map(|h| if t.get(hash(h).as_bytes()).unwrap().is_some() { seen["hdr"][h as usize - 1].clone() } else { json!(0) }).collect();
    let cell: Vec<Value> = (1..=nc).map(|p| if t.get(&key(p)).unwrap().is_some() { seen["cell"][p as usize - 1].clone() } else { json!({"v": 0, "made": -1, "used": -1}) }).collect();
    json!({"hdr": hdr, "cell": cell})
}
struct Run { c: Chain, roots: Vec<H256>, digests: Vec<H256>, ev: Vec<Value>, nonce: u64, nh: u64, nc: u64, dead: bool }
impl Run {
    fn mirror(&self, state: H256) -> H256 {
        let b = AxonExecutorReadOnlyAdapter::from_root(state, Arc::clone(&self.c.trie), Arc::clone(&self.c.storage), Proposal::default_at(self.c.number).into()).unwrap();
        let (x, y) = (b.storage(CKB_LIGHT_CLIENT_CONTRACT_ADDRESS, *HEADER_CELL_ROOT_KEY), b.get_image_cell_root());
        if x == y { x } else { H256::repeat_byte(0xbb) }
    }
    fn look(&self, state: H256) -> (Value, Value, H256) {
        DISK.with(|d| *d.borrow_mut() = Some(Arc::new(RocksTrieDB::new_ckb_light_client(self.c.adapter.inner_db(), 50))));
        let root = self.mirror(state);
        let l = live(root, self.nh, self.nc);
        let d = disk(root, self.nh, self.nc, &l);
        (l, d, root)
    }
    fn content(ret: &[u8], h: u64) -> i64 {
        (1..200u64).find(|v| ret == encode(&[header(h, *v)])).map(|v| v as i64).unwrap_or(-1)
    }
    fn block(&mut self, txs: &[Value]) {
        let signed: Vec<SignedTransaction> = txs.iter().map(|t| {
            let (to, d) = data(t);
            self.nonce += 1;
            sign(UnsignedTransaction::Legacy(LegacyTransaction { nonce: (self.nonce - 1).into(), gas_price: 1u64.into(), gas_limit: 1_000_000u64.into(), action: TransactionAction::Call(to), value: U256::zero(), data: d.into() }), 5, 1)
        }).collect();
        let before = self.c.metadata_root();
        let made = guard(|| self.c.block(Proposal::default_at(0), &signed, &[validator(H160::repeat_byte(7), 1)]));
        let Ok(resp) = made else { self.ev.push(json!({"op": "crash", "txs": txs.iter().map(|t| json!({"k": t["k"]})).collect::<Vec<_>>()})); self.dead = true; return };
        let txs: Vec<Value> = txs.iter().zip(&resp.tx_resp).map(|(t, r)| {
            let mut t = t.clone();
            t["ok"] = json!(r.exit_reason.is_succeed());
            if t["k"] == "ask" { t["got"] = json!(if r.exit_reason.is_succeed() { Run::content(&r.ret, t["h"].as_u64().unwrap()) } else { 0 }) }
            t.as_object_mut().unwrap().remove("of");
            t
        }).collect();
        self.roots.push(self.c.root);
        let (l, d, root) = self.look(self.c.root);
        // nothing mirrored has two digests: of a tree never begun, and of one emptied
        let root = if root == RLP_NULL { H256::zero() } else { root };
        let id = self.digests.iter().position(|x| *x == root).unwrap_or_else(|| { self.digests.push(root); self.digests.len() - 1 });
        self.ev.push(json!({"op": "block", "txs": txs, "live": l, "disk": d, "root": id, "metadata": before == self.c.metadata_root()}));
    }
    fn past(&mut self, r: &mut Rng) {
        let n = r.below(self.roots.len() as u64) as usize;
        let (l, d, _) = self.look(self.roots[n]);
        let h = 1 + r.below(self.nh);
        let b = AxonExecutorReadOnlyAdapter::from_root(self.roots[n], Arc::clone(&self.c.trie), Arc::clone(&self.c.storage), Proposal::default_at(n as u64 + 1).into()).unwrap();
        let x = AxonExecutor.call(&b, 1_000_000, None, Some(precompile(2)), U256::zero(), encode(&[FixedBytes(hash(h).0.to_vec())]), false);
        let call = if x.exit_reason.is_succeed() { Run::content(&x.ret, h) } else { 0 };
        self.ev.push(json!({"op": "past", "n": n + 1, "live": l, "disk": d, "h": h, "call": call}));
    }
    fn restart(&mut self, r: &mut Rng) {
        self.c.restart(*r.pick(&[1usize, 3, 50]));
        let (l, _, _) = self.look(self.c.root);
        self.ev.push(json!({"op": "restart", "live": l}));
    }
}
fn start(path: &str, nh: u64, nc: u64) -> Run {
    let acc = [(crate::b01::addr(1), U256::from(10u64).pow(24.into()))];
    let c = Chain::genesis(path, &acc, &metadata(1_000_000, &[validator(H160::repeat_byte(7), 1)], 0x6000), HardforkInfoInner { block_number: 0, flags: flags(&[0]) }, 50);
    Run { c, roots: vec![], digests: vec![], ev: vec![], nonce: 0, nh, nc, dead: false }
}
/// a call of any kind, mostly one that fits what is there
pub fn any(r: &mut Rng, nh: u64, nc: u64) -> Value {
    let block = |r: &mut Rng, back: bool| {
        let ins: Vec<u64> = (0..r.below(3)).map(|_| 1 + r.below(nc)).collect();
        let outs: Vec<u64> = (0..r.below(3)).map(|_| 1 + r.below(nc)).collect();
        if back { json!({"outs": outs, "ins": ins}) } else { json!({"n": r.below(100), "outs": outs.iter().map(|p| json!({"p": p, "v": 1 + r.below(40)})).collect::<Vec<_>>(), "ins": ins}) }
    };
    match r.below(12) {
        0..=2 => json!({"k": "hup", "l": (0..r.below(4)).map(|_| json!({"h": 1 + r.below(nh), "v": 1 + r.below(40)})).collect::<Vec<_>>()}),
        3 => json!({"k": "hrb", "l": (0..r.below(3)).map(|_| 1 + r.below(nh)).collect::<Vec<_>>()}),
        4..=6 => json!({"k": "cup", "l": (0..1 + r.below(2)).map(|_| block(r, false)).collect::<Vec<_>>()}),
        7 | 8 => json!({"k": "crb", "l": (0..1 + r.below(2)).map(|_| block(r, true)).collect::<Vec<_>>()}),
        9 => json!({"k": "flag", "h": r.below(2)}),
        10 => { let mut of = any(r, nh, nc); while of["k"] == "junk" || of["k"] == "ask" || of["k"] == "flag" { of = any(r, nh, nc) } json!({"k": "junk", "h": r.below(4), "of": of}) }
        _ => json!({"k": "ask", "h": 1 + r.below(nh)}),
    }
}
pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut r = Rng::new(seed() ^ 0xd05);
    // each chain in a thread of its own, as the executor keeps roots by thread
    for (i, c) in read_ndjson(cases).into_iter().enumerate() {
        let ev = std::thread::scope(|s| s.spawn(|| {
            let mut x = start(&format!("{base}/g{i}"), 1, 3);
            for t in c.as_array().unwrap() { if x.dead { break } x.block(&[t.clone()]); }
            if !x.dead { x.past(&mut r) }
            x.c.close();
            x.ev
        }).join().unwrap());
        o.trace(&format!("reorg:{i}"), json!({"nh": 1, "nc": 3}), ev);
    }
    for i in 0..scale(60, 600) {
        let (nh, nc) = (2 + r.below(5), 2 + r.below(5));
        let ev = std::thread::scope(|s| s.spawn(|| {
            let mut x = start(&format!("{base}/r{i}"), nh, nc);
            for _ in 0..10 + r.below(10) {
                if x.dead { break }
                match r.below(8) {
                    0 if !x.roots.is_empty() => x.past(&mut r),
                    1 if r.below(3) == 0 => x.restart(&mut r),
                    _ => { let txs: Vec<Value> = (0..r.below(4)).map(|_| any(&mut r, nh, nc)).collect(); x.block(&txs) }
                }
            }
            for _ in 0..3 { if !x.dead { x.past(&mut r) } }
            x.c.close();
            x.ev
        }).join().unwrap());
        o.trace(&format!("any:{i}"), json!({"nh": nh, "nc": nc}), ev);
    }
}
