//! Chain queries.
use crate::api::*;
use crate::*;
use protocol::trie::Trie;
use protocol::{codec::ProtocolCodec, types::*};
use std::sync::Arc;

pub fn random_at(a: &Api, g: &mut Rng, hash: bool) -> At {
    match g.below(if hash { 10 } else { 7 }) {
        0 => At("latest", 0), 1 => At("pending", 0), 2 => At("earliest", 0), 3..=5 => At("num", g.below(a.tip() as u64 + 3) as i64), 6 => At("numobj", g.below(a.tip() as u64 + 3) as i64),
        7 | 8 => At("hash", g.below(a.tip() as u64 + 1) as i64), _ => At("hash", -1),
    }
}
impl Api {
    fn same(&self, v: &Value, n: i64) -> Vec<String> {
        let h = &self.blocks[n as usize].header;
        let mut bad = vec![];
        let mut eq = |k: &str, w: Value| if v[k] != w { bad.push(k.to_string()) };
        eq("stateRoot", json!(h.state_root)); eq("transactionsRoot", json!(h.transactions_root)); eq("receiptsRoot", json!(h.receipts_root));
        eq("gasUsed", json!(h.gas_used)); eq("gasLimit", json!(h.gas_limit)); eq("logsBloom", json!(h.log_bloom)); eq("timestamp", json!(U256::from(h.timestamp)));
        eq("miner", json!(h.proposer)); eq("author", json!(h.proposer)); eq("baseFeePerGas", json!(h.base_fee_per_gas));
        bad
    }
    /// what of a transaction's fields is not as it was sent
    fn same_tx(&self, v: &Value, id: i64) -> Vec<String> {
        if id < 1 { return vec!["hash".into()] }
        let t = &self.txs[id as usize - 1].stx;
        let u = &t.transaction.unsigned;
        let s = t.transaction.signature.clone().unwrap();
        let mut bad = vec![];
        let mut eq = |k: &str, w: Value| if v[k] != w { bad.push(k.to_string()) };
        eq("from", json!(t.sender)); eq("to", json!(u.to())); eq("nonce", json!(u.nonce())); eq("value", json!(u.value())); eq("gas", json!(u.gas_limit())); eq("input", json!(Hex::encode(u.data())));
        eq("type", json!(U64::from(match u { UnsignedTransaction::Legacy(_) => 0u64, UnsignedTransaction::Eip2930(_) => 1, _ => 2 })));
        eq("chainId", json!("0x5")); eq("raw", json!(Hex::encode(t.transaction.encode().unwrap()))); eq("r", json!(U256::from(&s.r[..]))); eq("s", json!(U256::from(&s.s[..])));
        bad
    }
    fn place(&self, v: &Value) -> Value {
        let id = self.tx_id(&v["hash"]);
        json!({"id": id, "b": quantity(&v["blockNumber"]), "h": self.hash_id(&v["blockHash"]), "i": quantity(&v["transactionIndex"]), "bad": self.same_tx(v, id)})
    }
    pub async fn q_number(&mut self) { let (r, v) = self.ask("eth_blockNumber", vec![]).await; self.ev.push(json!({"op": "number", "r": r, "n": quantity(&v)})) }
    pub async fn q_block(&mut self, at: &At, rich: bool) {
        let byhash = at.0 == "byhash";
        let (r, v) = if byhash { self.ask("eth_getBlockByHash", vec![json!(self.hash(at.1)), json!(rich)]).await } else { self.ask("eth_getBlockByNumber", vec![self.at(at), json!(rich)]).await };
        let n = quantity(&v["number"]);
        let bad = if n >= 0 && n <= self.tip() { self.same(&v, n) } else { vec![] };
        let txs: Vec<Value> = v["transactions"].as_array().map(|t| t.iter().map(|x| if rich { self.place(x) } else { json!({"id": self.tx_id(x), "b": -1, "h": -1, "i": -1, "bad": []}) }).collect()).unwrap_or_default();
        self.ev.push(json!({"op": "block", "at": at.spec(), "rich": rich, "r": r, "n": n, "h": self.hash_id(&v["hash"]), "parent": self.hash_id(&v["parentHash"]), "txs": txs, "bad": bad}));
    }
    pub async fn q_count(&mut self, at: &At) {
        let (r, v) = if at.0 == "byhash" { self.ask("eth_getBlockTransactionCountByHash", vec![json!(self.hash(at.1))]).await } else { self.ask("eth_getBlockTransactionCountByNumber", vec![self.at(at)]).await };
        self.ev.push(json!({"op": "count", "at": at.spec(), "r": r, "k": quantity(&v)}));
    }
    pub async fn q_tx(&mut self, id: i64) {
        let h = if id > 0 { self.txs[id as usize - 1].stx.transaction.hash } else { H256::repeat_byte(0x66) };
        let (r, v) = self.ask("eth_getTransactionByHash", vec![json!(h)]).await;
        self.ev.push(json!({"op": "tx", "id": id, "r": r, "got": self.place(&v)}));
    }
    /// pos below zero: so large a position that no block has it
    pub async fn q_txat(&mut self, at: &At, pos: i64) {
        let p = match pos { -1 => json!("0xffffffff"), -2 => json!("0xffffffffffffffff"), -3 => json!("0x10000000000000000"), -4 => json!(U256::MAX), -5 => json!("0x100000000"), x => json!(format!("0x{x:x}")) };
        let (r, v) = if at.0 == "byhash" { self.ask("eth_getTransactionByBlockHashAndIndex", vec![json!(self.hash(at.1)), p]).await } else { self.ask("eth_getTransactionByBlockNumberAndIndex", vec![self.at(at), p]).await };
        self.ev.push(json!({"op": "txat", "at": at.spec(), "pos": pos, "r": r, "got": self.place(&v)}));
    }
    pub async fn q_receipt(&mut self, id: i64) {
        let h = if id > 0 { self.txs[id as usize - 1].stx.transaction.hash } else { H256::repeat_byte(0x66) };
        let (r, v) = self.ask("eth_getTransactionReceipt", vec![json!(h)]).await;
        let mut bad = vec![];
        let b = quantity(&v["blockNumber"]);
        if r == "ok" && id > 0 && b > 0 && b <= self.tip() {
            let blk = &self.blocks[b as usize];
            if let Some(i) = blk.tx_hashes.iter().position(|x| *x == h) {
                let x = &self.resp[b as usize - 1].tx_resp[i];
                let bloom = Bloom::from(protocol::types::BloomInput::Raw(&[])); // shape only
                let _ = bloom;
                let mut eq = |k: &str, w: Value| if v[k] != w { bad.push(k.to_string()) };
                eq("gasUsed", json!(U64::from(x.gas_used))); eq("from", json!(self.txs[id as usize - 1].stx.sender)); eq("to", json!(self.txs[id as usize - 1].stx.get_to()));
            }
        }
        let c: Option<H160> = serde_json::from_value(v["contractAddress"].clone()).ok();
        self.ev.push(json!({"op": "receipt", "id": id, "r": r, "tx": self.tx_id(&v["transactionHash"]), "b": b, "h": self.hash_id(&v["blockHash"]), "i": quantity(&v["transactionIndex"]), "st": quantity(&v["status"]),
            "new": c.map(|c| self.account_id(&c)).unwrap_or(0), "logs": self.logs(&v["logs"]), "bad": bad}));
    }
    pub async fn q_logs(&mut self, from: &At, to: &At, hash: Option<i64>, w: &Want, g: &mut Rng) {
        let mut o = serde_json::Map::new();
        if from.0 != "none" || g.bool() { o.insert("fromBlock".into(), self.at(from)); }
        if to.0 != "none" || g.bool() { o.insert("toBlock".into(), self.at(to)); }
        if let Some(n) = hash { o.insert("blockHash".into(), json!(self.hash(n))); }
        w.write(self, g, &mut o);
        let (r, v) = self.ask("eth_getLogs", vec![Value::Object(o)]).await;
        self.ev.push(json!({"op": "logs", "from": from.spec(), "to": to.spec(), "only": hash.is_some(), "hash": hash.unwrap_or(-1), "want": w.spec(), "r": r, "logs": self.logs(&v)}));
    }
    pub async fn q_account(&mut self, what: &str, at: &At, a: u64) {
        let m = match what { "bal" => "eth_getBalance", "nonce" => "eth_getTransactionCount", _ => "eth_getCode" };
        let (r, v) = self.ask(m, vec![json!(self.account(a)), self.at(at)]).await;
        let s = if r == "ok" { v.as_str().unwrap_or("").to_string() } else { String::new() };
        let got = match what {
            "bal" => serde_json::from_value::<U256>(v).map(|x| x.to_string()).unwrap_or_default(),
            "nonce" => quantity(&v).to_string(),
            _ => if bytes(&s) == runtime_code() { "toy".into() } else if s == "0x" || s.is_empty() { "none".into() } else { "other".to_string() },
        };
        self.ev.push(json!({"op": what, "at": at.spec(), "a": a, "r": r, "got": got}));
    }
    pub async fn q_slot(&mut self, at: &At, a: u64, s: u64) {
        let (r, v) = self.ask("eth_getStorageAt", vec![json!(self.account(a)), json!(format!("0x{s:x}")), self.at(at)]).await;
        self.ev.push(json!({"op": "slot", "at": at.spec(), "a": a, "s": s, "r": r, "got": quantity(&v)}));
    }
    pub async fn q_call(&mut self, at: &At, a: u64, recs: &[Rec], estimate: bool) {
        let req = json!({"from": addr(1), "to": self.account(a), "data": Hex::encode(input(recs))});
        let (r, v) = self.ask(if estimate { "eth_estimateGas" } else { "eth_call" }, vec![req, self.at(at)]).await;
        let got = if estimate { (quantity(&v) >= 21000) as i64 } else if v == "0x" { -1 } else { quantity(&v) };
        self.ev.push(json!({"op": if estimate { "estimate" } else { "call" }, "at": at.spec(), "a": a, "recs": recs.iter().map(|r| json!({"op": r[0], "w": &r[1..]})).collect::<Vec<_>>(), "r": r, "got": got}));
    }
    pub async fn q_proof(&mut self, at: &At, a: u64, s: u64) {
        let (r, v) = self.ask("eth_getProof", vec![json!(self.account(a)), json!([format!("0x{s:x}")]), self.at(at)]).await;
        let mut good = false;
        if let Ok(p) = serde_json::from_value::<EthAccountProof>(v.clone()) {
            let list = |x: &[Hex]| x.iter().map(|h| h.as_bytes().to_vec()).collect::<Vec<_>>();
            let t = core_executor::MPTTrie::new(Arc::new(protocol::trie::MemoryDB::new(false)));
            let n = match at.0 { "num" | "numobj" | "hash" => at.1, "earliest" => 0, _ => self.tip() };
            let root = self.blocks.get(n.max(0) as usize).map(|b| b.header.state_root).unwrap_or_default();
            good = match t.verify_proof(root.as_bytes(), self.account(a).as_bytes(), list(&p.account_proof)) {
                Ok(Some(b)) => {
                    let acc = Account::decode(b).unwrap();
                    let mut ok = acc.balance == p.balance && acc.nonce == p.nonce && acc.code_hash == p.code_hash && acc.storage_root == p.storage_hash;
                    for sp in &p.storage_proof {
                        let key: H256 = BigEndianHash::from_uint(&sp.key);
                        let got = if acc.storage_root == RLP_NULL { Ok(None) } else { t.verify_proof(acc.storage_root.as_bytes(), key.as_bytes(), list(&sp.proof)) };
                        ok &= match got { Ok(Some(b)) => U256::decode(b).unwrap() == sp.value, Ok(None) => sp.value.is_zero(), Err(_) => false };
                    }
                    ok
                }
                Ok(None) => p.balance.is_zero() && p.nonce.is_zero() && p.storage_proof.iter().all(|x| x.value.is_zero()),
                Err(_) => false,
            };
        }
        self.ev.push(json!({"op": "proof", "at": at.spec(), "a": a, "s": s, "r": r, "good": good, "nonce": quantity(&v["nonce"]), "slot": quantity(&v["storageProof"][0]["value"])}));
    }
    /// puts a transaction into the pool as a client does
    pub async fn q_send(&mut self, id: u64) {
        let raw = self.txs[id as usize - 1].stx.transaction.encode().unwrap();
        let (r, v) = self.ask("eth_sendRawTransaction", vec![json!(Hex::encode(raw))]).await;
        self.ev.push(json!({"op": "send", "tx": self.tx_spec(id), "r": r, "got": self.tx_id(&v)}));
    }
    /// a call of code that gives up with these bytes: what the caller is told
    pub async fn q_revert(&mut self, g: &mut Rng) {
        let text: String = (0..*g.pick(&[0, 1, 5, 31, 32, 33, 100])).map(|_| (b'a' + g.below(26) as u8) as char).collect();
        let mut p: Vec<u8> = vec![0x08, 0xc3, 0x79, 0xa0];
        p.extend(H256::from_low_u64_be(32).as_bytes());
        let form = *g.pick(&["text", "text", "text", "long", "huge", "short", "noise", "none"]);
        let len = match form { "long" => H256::from_low_u64_be(text.len() as u64 + g.range(1, 40)), "huge" => *g.pick(&[H256::repeat_byte(255), H256::from_low_u64_be(u64::MAX), H256::from_low_u64_be(1 << 32)]), _ => H256::from_low_u64_be(text.len() as u64) };
        p.extend(len.as_bytes());
        p.extend(text.as_bytes());
        if form == "text" { p.extend(vec![0; (32 - text.len() % 32) % 32]) }
        match form { "short" => p.truncate(g.below(70) as usize), "noise" => { let n = *g.pick(&[1, 4, 36, 67, 68, 69, 200]); p = (0..n).map(|_| g.below(256) as u8).collect() } "none" => p.clear(), _ => {} }
        let (h, l) = ((p.len() >> 8) as u8, p.len() as u8);
        let mut c = vec![0x61, h, l, 0x60, 14, 0x60, 0, 0x39, 0x61, h, l, 0x60, 0, 0xfd];
        c.extend(&p);
        let m = *g.pick(&["eth_call", "eth_estimateGas"]);
        let (r, v) = self.ask(m, vec![json!({"from": addr(1), "data": Hex::encode(c)}), json!("latest")]).await;
        let said = v.as_str().unwrap_or("");
        self.ev.push(json!({"op": "revert", "m": m, "form": form, "r": r, "says": said.contains(&text)}));
    }
    /// a transaction that may not be put into the pool
    pub async fn q_sendbad(&mut self, g: &mut Rng) {
        let what = *g.pick(&["price 0", "gas 20999", "gas 50000001", "chain 6", "price high", "cut", "poor"]);
        let from = g.range(1, 3);
        let n = |w: &str, x: u64| if what.starts_with(w) { what[w.len() + 1..].parse().unwrap_or(x) } else { x };
        let price = if what == "price high" { u64::MAX } else { n("price", 5) };
        let u = UnsignedTransaction::Legacy(LegacyTransaction { nonce: self.nonce[from as usize - 1].into(), gas_price: price.into(), gas_limit: n("gas", 100_000).into(), action: TransactionAction::Call(addr(1)), value: if what == "poor" { U256::MAX / 2 } else { 1.into() }, data: Default::default() });
        let t = sign(u, n("chain", 5), from as u8);
        let mut raw = t.transaction.encode().unwrap().to_vec();
        if what == "cut" { raw.pop(); }
        let (r, _) = self.ask("eth_sendRawTransaction", vec![json!(Hex::encode(raw))]).await;
        let (q, v) = self.ask("eth_getTransactionByHash", vec![json!(t.transaction.hash)]).await;
        self.ev.push(json!({"op": "sendbad", "what": what, "r": r, "there": q == "ok" && !v.is_null()}));
    }
    /// a block as the chain has it
    pub async fn q_axblock(&mut self, at: &At) {
        let (r, v) = self.ask("axon_getBlockById", vec![self.at(at)]).await;
        let n = self.blocks.iter().position(|x| json!(x) == v).map(|x| x as i64).unwrap_or(-1);
        let b = if n >= 0 { Some(&self.blocks[n as usize]) } else { None };
        let parent = b.and_then(|b| self.blocks.iter().position(|x| x.hash() == b.header.prev_hash)).map(|x| x as i64).unwrap_or(-1);
        let txs: Vec<Value> = b.iter().flat_map(|b| b.tx_hashes.iter()).map(|x| json!({"id": self.tx_id(&json!(x)), "b": -1, "h": -1, "i": -1, "bad": []})).collect();
        let v = json!({"op": "block", "at": at.spec(), "rich": false, "r": r, "n": n, "h": n, "parent": parent, "txs": txs, "bad": []});
        self.ev.push(v);
    }
    /// something that makes no sense; `r` must not say that it went well
    pub async fn q_junk(&mut self, m: &str, p: Vec<Value>) {
        let what = format!("{m} {}", Value::from(p.clone()));
        let (r, _) = self.ask(m, p).await;
        self.ev.push(json!({"op": "junk", "what": what, "r": r}));
    }
}
const JUNK: &[&str] = &["null", "\"\"", "\"0x\"", "\"0x10000000000000000\"", "\"0xzz\"", "\"17\"", "17", "-1", "1e400", "{}", "{\"blockHash\":\"0x12\"}", "{\"blockNumber\":\"12\"}", "{\"blockHash\":null}", "[]", "[[]]", "true", "\"finalized\"", "\"LATEST\"",
    "\"0x00000000000000000000000000000000000000000000000000000000000000000000\""];
const METHODS: &[(&str, usize)] = &[("eth_getBlockByNumber", 2), ("eth_getBlockByHash", 2), ("eth_getTransactionByHash", 1), ("eth_getTransactionReceipt", 1), ("eth_getBalance", 2), ("eth_getTransactionCount", 2), ("eth_getCode", 2),
    ("eth_getStorageAt", 3), ("eth_call", 2), ("eth_estimateGas", 2), ("eth_getLogs", 1), ("eth_feeHistory", 3), ("eth_getBlockTransactionCountByHash", 1), ("eth_getBlockTransactionCountByNumber", 1),
    ("eth_getTransactionByBlockHashAndIndex", 2), ("eth_getTransactionByBlockNumberAndIndex", 2), ("eth_getProof", 3), ("eth_sendRawTransaction", 1), ("axon_getBlockById", 1), ("axon_getProofById", 1), ("axon_getMetadataByNumber", 1), ("axon_getProposalByNumber", 1),
    ("eth_newFilter", 1), ("eth_getFilterChanges", 1), ("eth_getFilterLogs", 1), ("eth_uninstallFilter", 1), ("web3_sha3", 1), ("eth_getUncleByBlockNumberAndIndex", 2)];
/// values that are odd but may be allowed: the service must only survive them
const ODD: &[&str] = &["\"0x0\"", "\"0xffffffffffffffff\"", "\"0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff\"", "\"latest\"", "\"pending\"", "\"earliest\"", "{\"fromBlock\":\"0x0\",\"toBlock\":\"0xffffffffffffffff\"}", "{\"fromBlock\":\"0xffffffffffffffff\"}",
    "{\"topics\":[[],null,[null]]}", "{\"topics\":[null,null,null,null,null,null]}", "\"0x7777777777777777777777777777777777777777777777777777777777777777\"", "\"0x00000000000000000000000000000000000000ee\"", "\"0xffffffffffffffffffffffffffffffffffffff00\"",
    "[10,5]", "[1.5,99.9]", "[-1]", "[200]", "[0,100]", "[]", "[\"0x1\"]", "5", "0", "18446744073709551615", "true", "false", "{\"from\":\"0x00000000000000000000000000000000000000ee\"}", "{\"to\":\"0x00000000000000000000000000000000000000ee\",\"gas\":\"0x0\"}",
    "{\"data\":\"0xfe\"}", "{\"from\":\"0x00000000000000000000000000000000000000ee\",\"data\":\"0xfe\",\"value\":\"0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff\"}", "{\"to\":\"0x0000000000000000000000000000000000000001\",\"data\":\"0x00\"}", "{\"to\":\"0x0000000000000000000000000000000000000005\",\"data\":\"0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff\"}",
    "{\"to\":\"0x0000000000000000000000000000000000000102\",\"data\":\"0x00\"}", "{\"to\":\"0x0000000000000000000000000000000000000103\",\"data\":\"0x00\"}", "{\"to\":\"0x00000000000000000000000000000000000000f0\",\"data\":\"0x1234567890\"}", "{\"to\":\"0x00000000000000000000000000000000000000f1\"}", "\"0xc0\"", "\"0x02c0\"", "\"0x01c3808080\"", "\"0xf800\""];

async fn everything(a: &mut Api, cases: &[Value], g: &mut Rng) {
    for c in cases {
        let tip = a.tip();
        // the specification's places are relative to the tip
        let at = |x: &Value| -> At {
            let n = x["n"].as_i64().unwrap();
            let n = match x["k"].as_str().unwrap() { "back" => tip - n, _ => n };
            match x["t"].as_str().unwrap() { "num" => At("num", n.max(0)), "numobj" => At("numobj", n.max(0)), "hash" => At("hash", if n > tip { -1 } else { n.max(-1) }), "byhash" => At("byhash", if n > tip { -1 } else { n.max(-1) }),
                "none" => At("none", 0), "latest" => At("latest", 0), "pending" => At("pending", 0), _ => At("earliest", 0) }
        };
        let x = at(&c["at"]);
        let who = *g.pick(&[1u64, 2, 3, 11, 12, 13, ABSENT]);
        let con = *g.pick(&[11u64, 11, 12, 13]);
        match c["m"].as_str().unwrap() {
            "block" => a.q_block(&x, g.bool()).await,
            "axblock" => a.q_axblock(&x).await,
            "count" => a.q_count(&x).await,
            "txat" => { let p = *g.pick(&[0, 0, 1, 1, 2, 3, -1, -2, -3, -4, -5]); a.q_txat(&x, p).await }
            "bal" => a.q_account("bal", &x, who).await,
            "nonce" => a.q_account("nonce", &x, who).await,
            "code" => a.q_account("code", &x, who).await,
            "slot" => a.q_slot(&x, con, g.range(1, 3)).await,
            "call" => a.q_call(&x, con, &[[7, g.range(1, 3), 0, 0, 0]], false).await,
            "estimate" => a.q_call(&x, con, &[[8, g.range(1, 3), g.below(3), 0, 0]], true).await,
            "proof" => { let w = if g.bool() { con } else { who }; a.q_proof(&x, w, g.range(1, 3)).await }
            "logs" => { let w = Want::random(a, g); let to = at(&c["to"]); a.q_logs(&x, &to, None, &w, g).await }
            m => panic!("{m}"),
        }
    }
}
async fn scenario(o: &mut Out, id: &str, path: &str, g: &mut Rng, cases: &[Value]) {
    let mut a = Api::start(path).await;
    let blocks = g.range(3, 7);
    let mut pend: Vec<u64> = vec![];
    for b in 0..=blocks {
        // some of what there is to ask, at every height
        let some: Vec<Value> = (0..if b == blocks { 60 } else { 12 }).map(|_| g.pick(cases).clone()).collect();
        everything(&mut a, &some, g).await;
        a.q_number().await;
        a.q_revert(g).await;
        a.q_sendbad(g).await;
        for _ in 0..4 {
            let i = g.below(a.txs.len() as u64 + 1) as i64;
            a.q_tx(i).await;
            let i = g.below(a.txs.len() as u64 + 1) as i64;
            a.q_receipt(i).await;
            let w = Want::random(&a, g);
            let h = if g.chance(1, 8) { -1 } else { g.below(a.tip() as u64 + 1) as i64 };
            a.q_logs(&At("none", 0), &At("none", 0), Some(h), &w, g).await;
        }
        if b == blocks { break }
        // what is in the pool goes into the next block
        if g.chance(1, 3) {
            for _ in 0..g.range(1, 2) {
                let have = a.made.len() as u64;
                let from = g.range(1, 3);
                let (to, r) = if have > 0 { (g.range(11, 10 + have), recs(g)) } else { (g.range(1, 3), vec![]) };
                let i = a.tx(from, to, r, g.below(3));
                a.q_send(i).await;
                a.q_tx(i as i64).await;
                a.q_receipt(i as i64).await;
                pend.push(i);
                for at in ["pending", "latest"] { a.q_account("nonce", &At(at, 0), from).await }
            }
        }
        if !pend.is_empty() { let q: Vec<u64> = pend.drain(..).collect(); a.commit(&q); } else { grow(&mut a, g) }
    }
    a.finish(o, id);
}
async fn junk(o: &mut Out, id: &str, path: &str, g: &mut Rng) {
    let mut a = Api::start(path).await;
    for _ in 0..3 { grow(&mut a, g) }
    let h = json!(a.hash(1));
    let parse = |s: &str| serde_json::from_str::<Value>(s).unwrap_or(Value::Null);
    for (m, k) in METHODS {
        for _ in 0..6 {
            let p: Vec<Value> = (0..*k).map(|_| match g.below(8) { 0 => h.clone(), 1 => json!(addr(1)), 2 => parse(*g.pick(JUNK)), _ => parse(*g.pick(ODD)) }).collect();
            a.q_junk(m, p).await;
        }
    }
    for _ in 0..20 { a.q_revert(g).await }
    // the service is as it was
    let w = Want::default();
    a.q_number().await;
    a.q_logs(&At("num", 1), &At("latest", 0), None, &w, g).await;
    for i in 1..=a.txs.len() as i64 { a.q_receipt(i).await }
    a.finish(o, id);
}
pub fn main(cases: &str, out: &str, base: &str) {
    let mut o = Out::create(out);
    let mut g = Rng::new(seed());
    let cases = read_ndjson(cases);
    for k in 0..scale(36, 600) { run(scenario(&mut o, &format!("s{k}"), &format!("{base}/s{k}"), &mut g, &cases)) }
    for k in 0..scale(6, 120) { run(junk(&mut o, &format!("j{k}"), &format!("{base}/j{k}"), &mut g)) }
    o.finish();
}
