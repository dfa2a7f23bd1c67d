//! One validating node through sequences of proposals, votes, commits, synchronizations and crashes.
use crate::val::*;
use crate::node::txs_root;
use crate::*;
use core_consensus::types::PullTxsRequest;
use core_consensus::util::digest_signed_transactions;
use core_mempool::MsgPullTxs;
use overlord::Consensus as Engine;
use protocol::codec::ProtocolCodec;
use protocol::constants::endpoints::*;
use protocol::traits::*;
use protocol::types::*;
use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

fn copy(a: &str, b: &str) {
    let _ = std::fs::remove_dir_all(b);
    fn go(a: &Path, b: &Path) {
        std::fs::create_dir_all(b).unwrap();
        for e in std::fs::read_dir(a).unwrap().flatten() {
            let to = b.join(e.file_name());
            if e.path().is_dir() { go(&e.path(), &to) } else { std::fs::copy(e.path(), to).unwrap(); }
        }
    }
    go(Path::new(a), Path::new(b))
}
fn clock(secs: u64) { crash::CLOCK.store(secs as i64 * 1000, std::sync::atomic::Ordering::SeqCst) }

struct Run<'a> { w: &'a mut World, v: Val, chain: Vec<u64>, ev: Vec<Value>, path: String, gen: usize, own: Option<Proposal>, kept: Option<Proposal>, rng: Rng, stop: Option<u64>, total: usize, done: bool, fate: Vec<u64> }

fn flip(h: &mut H256) { h.0[3] ^= 4 }
pub fn bend(w: &mut World, chain: &[u64], q: &mut Proposal, alter: &str, now: u64, fork: u64, rng: &mut Rng) {
    let parent = w.get(chain);
    let n = chain.len() as u64 + 1;
    let refit = |q: &mut Proposal, w: &World| {
        q.transactions_root = txs_root(&q.tx_hashes);
        q.signed_txs_hash = digest_signed_transactions(&q.tx_hashes.iter().map(|h| tx(w.ids[h])).collect::<Vec<_>>());
    };
    match alter {
        "none" => {}
        "number_up" => q.number += 1,
        "number_down" => q.number -= 1,
        "number_both" => { q.number += 1; q.proof.number += 1 }
        "old" => if n > 1 { let mut p = chain.to_vec(); let v = p.pop().unwrap(); p.push(3 - v); *q = w.proposal(&p).0 }, // another block for the number of the tip
        "prev_hash" => flip(&mut q.prev_hash),
        "prev_grand" => q.prev_hash = parent.block.header.prev_hash,
        "prev_state" => flip(&mut q.prev_state_root),
        "txs_root" => flip(&mut q.transactions_root),
        "signed_hash" => flip(&mut q.signed_txs_hash),
        "txs_swap" => q.tx_hashes.swap(0, 1),
        "txs_drop" => { q.tx_hashes.pop(); }
        "txs_swap_fit" => { q.tx_hashes.swap(0, 1); refit(q, w) }
        "txs_drop_fit" => { q.tx_hashes.pop(); refit(q, w) }
        "txs_twice" => { let h = q.tx_hashes[0]; q.tx_hashes.push(h); refit(q, w) }
        "txs_swap_half" => { q.tx_hashes.swap(0, 1); q.transactions_root = txs_root(&q.tx_hashes) }
        "txs_swap_other" => { q.tx_hashes.swap(0, 1); let r = q.transactions_root; refit(q, w); q.transactions_root = r }
        "ts_prev" => q.timestamp = parent.block.header.timestamp,
        "ts_before" => q.timestamp = parent.block.header.timestamp - 1,
        "ts_now" => q.timestamp = now,
        "ts_after" => q.timestamp = now + 1,
        "gas_less" => q.gas_limit = (q.gas_limit.as_u64() - 1).into(),
        "gas_more" => q.gas_limit = (q.gas_limit.as_u64() + 1).into(),
        "gas_none" => q.gas_limit = 0.into(),
        "proof_number" => q.proof.number += 1,
        "proof_older" => q.proof = parent.block.header.proof.clone(),
        "proof_round" => q.proof.round += 1,
        "proof_hash" => flip(&mut q.proof.block_hash),
        "proof_sig" => { let mut s = q.proof.signature.to_vec(); let i = rng.below(s.len().max(1) as u64) as usize; if s.is_empty() { s.push(1) } else { s[i] ^= 1 } q.proof.signature = s.into() }
        "proof_bitmap" => { let mut s = q.proof.bitmap.to_vec(); if s.is_empty() { s.push(0x80) } else { s[0] ^= 0x40 } q.proof.bitmap = s.into() }
        "proof_weak" => { let k = &w.sets[set_at(n - 1)]; let m: Vec<bool> = (0..k.len()).map(|i| i < 2).collect(); q.proof = prove(k, &m, n - 1, 0, parent.proposal.hash()) }
        "proof_others" => { let k = &w.sets[1 - set_at(n - 1)]; q.proof = prove(k, &vec![true; k.len()], n - 1, 0, parent.proposal.hash()) }
        "proof_again" => { let k = &w.sets[set_at(n - 1)]; q.proof = prove(k, &vec![true; k.len()], n - 1, 7, parent.proposal.hash()) } // another quorum, as good
        "fork_same" => q.extra_data = vec![ExtraData { inner: HardforkInfoInner { block_number: fork, flags: flag() }.encode().unwrap() }],
        "fork_other" => q.extra_data = vec![ExtraData { inner: HardforkInfoInner { block_number: fork + 1, flags: flag() }.encode().unwrap() }],
        "fork_garbage" => q.extra_data = vec![ExtraData { inner: vec![1u8, 2, 3].into() }],
        x => panic!("no change {x}"),
    }
}
fn flag() -> H256 { crate::chain::flags(&[9]) }

impl<'a> Run<'a> {
    async fn start(w: &'a mut World, path: &str, fork: u64, stop: Option<u64>, seed: u64) -> Run<'a> {
        rocksdb::sim::fork(&w.chain.path, path, w.first);
        let wal = format!("{path}.wal");
        std::fs::create_dir_all(format!("{path}.wal.votes")).unwrap();
        if fork > 0 {
            let (_, s, _) = crate::chain::open(path, 20, 100);
            s.set_hardfork_proposal(Context::new(), HardforkInfoInner { block_number: fork, flags: flag() }).await.unwrap();
        }
        let v = { let k = &w.sets[0][1]; Val::start(path, &wal, k, stop).await };
        Run { w, v, chain: vec![], ev: vec![], path: path.into(), gen: 0, own: None, kept: None, rng: Rng::new(seed), stop, total: 0, done: false, fate: vec![] }
    }
    async fn restart_on(&mut self, path: String, wal: String) {
        std::fs::create_dir_all(format!("{wal}.votes")).unwrap();
        let v = { let k = &self.w.sets[0][1]; Val::start(&path, &wal, k, self.stop).await };
        let old = std::mem::replace(&mut self.v, v);
        std::mem::forget(old);
        self.kept = self.own.take();
    }
    /// the world executes blocks too: the shared tables have to be this node's again afterwards
    fn here(&self) {
        let (db, s, t) = crate::chain::open(&self.v.path, 20, 2000);
        let root = futures::executor::block_on(s.get_latest_block(Context::new())).unwrap().header.state_root;
        let mut b = core_executor::AxonExecutorApplyAdapter::from_root(root, t, s, Proposal::default_at_0().into()).unwrap();
        core_executor::system_contract::init_system_contract_db(db.inner_db(), &mut b);
    }
    async fn push(&mut self, mut e: Value) {
        let now = self.v.look(self.w).await;
        self.chain = now["chain"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        e["now"] = now;
        self.ev.push(e);
        if self.chain.contains(&0) { self.done = true }
    }
    fn peers(&self, yes: bool) {
        let by: HashMap<H256, SignedTransaction> = if yes { (1..=TXS).map(|i| (tx(i).transaction.hash, tx(i))).collect() } else { HashMap::new() };
        self.v.net.0.lock().serve = Some(Box::new(move |end, b| {
            if end != RPC_PULL_TXS { return None }
            let m: MsgPullTxs = rlp::decode(&b).ok()?;
            let v: Vec<SignedTransaction> = m.hashes.iter().filter_map(|h| by.get(h).cloned()).collect();
            if v.is_empty() { None } else { BatchSignedTxs(v).encode_msg().ok() }
        }));
    }
    fn step<'b>(&'b mut self, o: &'b Value) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + 'b>> { Box::pin(self.do_step(o)) }
    async fn do_step(&mut self, o: &Value) {
        let c = Context::new;
        let s = |k: &str, d: &str| o[k].as_str().unwrap_or(d).to_string();
        let u = |k: &str, d: u64| o[k].as_u64().unwrap_or(d);
        let n = self.chain.len() as u64 + 1;
        if n >= LAST { return }
        match s("op", "").as_str() {
            "give" => {
                let ids: Vec<u64> = o["txs"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_else(|| txs_of(n, u("v", 1)));
                let mut ok = vec![];
                for i in &ids { ok.push(self.v.pool.insert(c(), tx(*i)).await.is_ok()) }
                self.push(json!({"op": "give", "txs": ids, "ok": ok})).await
            }
            "propose" => {
                let now = when(n, 5);
                clock(now);
                let r = self.v.engine.get_block(c(), n).await;
                let out = match r {
                    Err(_) => json!({"ok": false}),
                    Ok((q, h)) => {
                        let ids: Vec<u64> = q.tx_hashes.iter().map(|h| *self.w.ids.get(h).unwrap_or(&99)).collect();
                        let me = self.w.sets[0][1].address;
                        let parent = self.w.get(&self.chain);
                        let txs: Vec<SignedTransaction> = ids.iter().filter(|i| **i < 99).map(|i| tx(*i)).collect();
                        let fork = q.extra_data.len() == 1 && q.extra_data[0].inner == HardforkInfoInner { block_number: self.v_fork(&q), flags: flag() }.encode().unwrap();
                        let good = q.number == n && self.w.proves(&self.chain, &q.proof) && q.proposer == me && q.prev_state_root == parent.block.header.state_root && q.signed_txs_hash == digest_signed_transactions(&txs)
                            && q.transactions_root == txs_root(&q.tx_hashes) && q.timestamp == now && q.gas_limit.as_u64() == 30_000_000 && q.chain_id == 5 && q.base_fee_per_gas.as_u64() == 1337
                            && h == q.hash().as_bytes() && q.version == BlockVersion::V0 && (fork || q.extra_data.is_empty()) && q.call_system_script_count == 0;
                        let prev = self.w.named(&q.prev_hash).map(|p| p == self.chain).unwrap_or(false);
                        let mut sorted = ids.clone();
                        sorted.sort();
                        self.own = Some(q);
                        json!({"ok": true, "txs": sorted, "prev": prev, "good": good, "fork": fork})
                    }
                };
                self.push(json!({"op": "propose", "out": out})).await
            }
            "check" => {
                let alter = s("alter", "none");
                let now = when(n, 5);
                clock(now);
                let mut p = self.chain.clone();
                p.push(u("v", 1));
                let own = s("what", "") == "own";
                let kept = s("what", "") == "kept";
                let alter = match &self.kept { Some(q) if kept && !q.extra_data.is_empty() => "fork_same".to_string(), _ => alter };
                let mut q = if kept { match &self.kept { Some(q) if q.number == n && ["none", "fork_same"].contains(&alter.as_str()) => q.clone(), _ => return } } else if own { match &self.own { Some(q) if q.number == n => q.clone(), _ => return } } else { self.w.proposal(&p).0 };
                self.here();
                let (w, ch) = (&mut *self.w, self.chain.clone());
                if ["txs_swap", "txs_swap_fit", "txs_swap_half", "txs_swap_other"].contains(&alter.as_str()) && q.tx_hashes.len() < 2 { return }
                if alter.starts_with("txs_") && q.tx_hashes.is_empty() && !["txs_root"].contains(&alter.as_str()) { return }
                if alter == "old" && n == 1 { return }
                if alter == "proof_older" && n <= 1 { return }
                if alter == "prev_grand" && n <= 1 { return }
                let fork = u("fork", 0);
                if !kept { bend(w, &ch, &mut q, &alter, now, fork, &mut self.rng) }
                self.here();
                let hash: Vec<u8> = match s("hash", "right").as_str() {
                    "right" => q.hash().as_bytes().to_vec(),
                    "own" => match &self.own { Some(x) if x.hash() != q.hash() => x.hash().as_bytes().to_vec(), _ => return },
                    _ => self.rng.bytes(32),
                };
                self.peers(u("peers", 0) == 1);
                // as it comes over the wire
                let q = match Proposal::decode(q.encode().unwrap()) { Ok(x) => x, Err(_) => return };
                let r = {
                    let e = Arc::clone(&self.v.engine);
                    let q2 = q.clone();
                    let h = Bytes::from(hash);
                    match futures::FutureExt::catch_unwind(std::panic::AssertUnwindSafe(e.check_block(c(), n, h, q2))).await { Ok(Ok(())) => 1, Ok(Err(e)) => { if std::env::var("WHY").is_ok() { eprintln!("check {o} {e:?}") } 0 } Err(_) => 2 }
                };
                let wal: Vec<u64> = match self.v.wal.load(n, q.transactions_root) { Ok(v) => v.iter().map(|t| *self.w.ids.get(&t.transaction.hash).unwrap_or(&99)).collect(), Err(_) => vec![0] };
                let txs: Vec<u64> = q.tx_hashes.iter().map(|h| *self.w.ids.get(h).unwrap_or(&99)).collect();
                let root: Vec<u64> = if q.transactions_root == txs_root(&q.tx_hashes) { txs.clone() } else if alter == "txs_root" { vec![98] } else { self.w.proposal(&p).0.tx_hashes.iter().map(|h| self.w.ids[h]).collect() };
                self.here();
                self.push(json!({"op": "check", "own": own, "alter": alter, "hash": s("hash", "right"), "peers": u("peers", 0) == 1, "fork": fork, "txs": txs, "root": root, "ok": r, "wal": wal})).await
            }
            "commit" => {
                let d = o["d"].as_i64().unwrap_or(1);
                let at = self.chain.len() as i64 + d;
                if at < 0 { return }
                let v = self.agreed(at as usize, u("v", 1));
                // what is committed is for its number, on this chain as far as it goes
                let mut p: Vec<u64> = self.chain.iter().cloned().take((at - 1).max(0) as usize).collect();
                while (p.len() as i64) < at { p.push(if p.len() as i64 == at - 1 { v } else { self.agreed(p.len() + 1, 1) }) }
                let m = self.w.get(&p);
                self.here();
                let held = if u("lock", 0) == 1 { Some(Arc::clone(&self.v.lock).try_lock_owned().unwrap()) } else { None };
                self.peers(false);
                self.v.net.0.lock().heard.clear();
                let r = self.v.engine.commit(c(), at as u64, commit_of(&m)).await;
                drop(held);
                let out = match r {
                    Err(e) => { if std::env::var("WHY").is_ok() { eprintln!("commit {o} {e:?}") } json!({"ok": false}) }
                    Ok(st) => {
                        let set = (0..2).find(|i| st.authority_list.iter().map(|x| x.address.clone()).collect::<Vec<_>>() == self.w.sets[*i].iter().map(|k| k.pk.clone()).collect::<Vec<_>>()).map(|x| x as i64).unwrap_or(-1);
                        json!({"ok": true, "next": st.height, "set": set})
                    }
                };
                let heard = self.v.net.0.lock().heard.clone();
                self.push(json!({"op": "commit", "n": at, "v": v, "lock": u("lock", 0) == 1, "out": out, "heard": heard})).await
            }
            "sync" => {
                let vs: Vec<u64> = o["vs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                let mut p = self.chain.clone();
                for v in vs { let v = self.agreed(p.len() + 1, v); p.push(v) }
                p.truncate(LAST as usize - 1);
                let (at, bad) = (u("at", 0), s("bad", "none"));
                if bad == "voted_hdr_proof" && self.chain.len() as u64 + at == 1 { return } // the genesis has no proof
                let table = self.table(&p, self.chain.len() + at as usize, &bad);
                self.here();
                self.v.net.0.lock().serve = Some(table);
                let held = if u("lock", 0) == 1 { Some(Arc::clone(&self.v.lock).try_lock_owned().unwrap()) } else { None };
                let remote = (self.chain.len() as i64 + o["up"].as_i64().unwrap_or(o["vs"].as_array().unwrap().len() as i64)).clamp(0, LAST as i64 - 1);
                let r = self.v.sync.receive_remote_block(c(), remote as u64).await;
                drop(held);
                if let (Err(e), Ok(_)) = (&r, std::env::var("WHY")) { eprintln!("sync {o} {e:?}") }
                let vs: Vec<u64> = p[self.chain.len()..].to_vec();
                self.push(json!({"op": "sync", "remote": remote, "vs": vs, "at": at, "bad": bad, "lock": u("lock", 0) == 1, "ok": r.is_ok()})).await
            }
            "restart" => {
                let (p, w) = (self.v.path.clone(), self.v.wal_dir.clone());
                self.restart_on(p, w).await;
                self.push(json!({"op": "restart"})).await
            }
            "crash" => {
                let inner = &o["inner"];
                let (from, wal0) = (rocksdb::sim::writes(&self.v.path), self.v.wal_dir.clone());
                self.gen += 1;
                let saved = format!("{}.{}.wal", self.path, self.gen);
                copy(&wal0, &saved);
                let before = self.ev.len();
                self.step(inner).await;
                if self.ev.len() == before { return }
                // what the others agreed on stays so, even when this node forgets it
                if self.chain.len() > self.fate.len() { self.fate = self.chain.clone() }
                let mut e = self.ev.pop().unwrap();
                let to = rocksdb::sim::writes(&self.v.path);
                self.total = to - from;
                let k = match o["k"].as_u64() { Some(k) => from + (k as usize).min(self.total), None => from + self.total * u("q", 2) as usize / 4 };
                let fork = format!("{}.{}", self.path, self.gen);
                rocksdb::sim::fork(&self.v.path, &fork, k);
                if k == to { copy(&wal0, &saved) }
                if k < to { rocksdb::sim::drop_db(&self.v.path) }
                self.restart_on(fork, saved).await;
                e.as_object_mut().unwrap().remove("now");
                let all = k == to;
                self.push(json!({"op": "crash", "inner": e, "k": k - from, "all": all})).await
            }
            x => panic!("no operation {x}"),
        }
    }
    fn v_fork(&self, q: &Proposal) -> u64 { HardforkInfoInner::decode(&q.extra_data[0].inner).map(|x| x.block_number).unwrap_or(0) }
    fn agreed(&self, n: usize, v: u64) -> u64 { if n > 0 { self.fate.get(n - 1).cloned().unwrap_or(v) } else { v } }
    /// what the peers answer: the chain p, except for number `at`
    fn table(&mut self, p: &[u64], at: usize, bad: &str) -> Box<dyn Fn(&str, Bytes) -> Option<Bytes> + Send> {
        let mut blocks = HashMap::new();
        let mut proofs = HashMap::new();
        let mut txs: HashMap<u64, Vec<SignedTransaction>> = HashMap::new();
        for i in 1..=p.len() {
            let m = self.w.get(&p[..i]);
            let n = i as u64;
            let (mut b, mut proof, mut t) = (m.block.clone(), m.proof.clone(), m.txs.clone());
            if i == at {
                let k = &self.w.sets[set_at(n)];
                let all = vec![true; k.len()];
                let parent = self.w.get(&p[..i - 1]);
                let k = &self.w.sets[set_at(n)];
                let resign = |b: &Block| prove(k, &all, n, 0, Proposal::new_with_state_root(&b.header, parent.block.header.state_root, b.tx_hashes.clone()).hash());
                let h = &mut b.header;
                match bad {
                    "none" => {}
                    "again" => { proof = prove(k, &all, n, 5, m.proposal.hash()); self.w.also.push((p[..i].to_vec(), proof.clone())) }
                    "weak" => proof = prove(k, &(0..k.len()).map(|i| i < 2).collect::<Vec<_>>(), n, 0, m.proposal.hash()),
                    "others" => { let k = &self.w.sets[1 - set_at(n)]; proof = prove(k, &vec![true; k.len()], n, 0, m.proposal.hash()) }
                    "proof_prev" => proof = h.proof.clone(),
                    "proof_number" => proof.number += 1,
                    "proof_round" => proof.round += 1,
                    "proof_hash" => flip(&mut proof.block_hash),
                    "proof_garbage" => { let mut s = proof.signature.to_vec(); s[40] ^= 8; proof.signature = s.into() }
                    "wrong_number" => b = parent.block.clone(),
                    "prev_hash" => flip(&mut h.prev_hash),
                    "proposer" => h.proposer.0[0] ^= 1,
                    "txs_root" => flip(&mut h.transactions_root),
                    "ts" => h.timestamp += 1,
                    "gas_limit" => h.gas_limit = (h.gas_limit.as_u64() - 1).into(),
                    "extra" => h.extra_data.push(ExtraData { inner: vec![1u8].into() }),
                    "scripts" => h.call_system_script_count += 1,
                    "signed_hash" => flip(&mut h.signed_txs_hash),
                    "hdr_proof" => h.proof.round += 1,
                    "state_root" => flip(&mut h.state_root),
                    "receipts_root" => flip(&mut h.receipts_root),
                    "bloom" => h.log_bloom.0[9] ^= 1,
                    "gas_used" => h.gas_used = (h.gas_used.as_u64() + 1).into(),
                    "base_fee" => h.base_fee_per_gas = (h.base_fee_per_gas.as_u64() + 1).into(),
                    "chain_id" => h.chain_id += 1,
                    "voted_prev_hash" => { flip(&mut h.prev_hash); proof = resign(&b) }
                    "voted_hdr_proof" => { h.proof.signature = vec![1u8; 96].into(); proof = resign(&b) }
                    "voted_signed_hash" => { flip(&mut h.signed_txs_hash); proof = resign(&b) }
                    "hash_dropped" => { b.tx_hashes.pop(); t.pop(); }
                    "hash_added" => { b.tx_hashes.push(tx(29).transaction.hash); t.push(tx(29)) }
                    "tx_missing" => { t.pop(); }
                    "tx_other" => { t.pop(); t.push(tx(29)) }
                    "tx_forged" => { if let Some(x) = t.last_mut() { x.transaction.unsigned = match x.transaction.unsigned.clone() { UnsignedTransaction::Legacy(mut l) => { l.value = 77.into(); UnsignedTransaction::Legacy(l) } o => o } } }
                    "tx_order" => t.reverse(),
                    x => panic!("no harm {x}"),
                }
            }
            blocks.insert(n, b);
            proofs.insert(n, proof);
            txs.insert(n, t);
        }
        let forged = bad == "tx_forged";
        let reverse = bad == "tx_order";
        let other = bad == "tx_other";
        let at = at as u64;
        Box::new(move |end, m| {
            match end {
                RPC_SYNC_PULL_BLOCK => blocks.get(&u64::decode_msg(m).ok()?).map(|b| b.clone().encode_msg().unwrap()),
                RPC_SYNC_PULL_PROOF => proofs.get(&u64::decode_msg(m).ok()?).map(|p| p.clone().encode_msg().unwrap()),
                RPC_SYNC_PULL_TXS => {
                    let q = PullTxsRequest::decode_msg(m).ok()?;
                    let here = txs.get(&q.height)?;
                    let mut v: Vec<SignedTransaction> = if (forged || other) && q.height == at { here.clone() } else { here.iter().filter(|t| q.inner.contains(&t.transaction.hash)).cloned().collect() };
                    if forged && q.height == at { v = here.iter().zip(0..).map(|(t, _)| t.clone()).collect() }
                    if reverse { v.reverse() }
                    BatchSignedTxs(v).encode_msg().ok()
                }
                _ => None,
            }
        })
    }
}
pub trait At0 { fn default_at_0() -> Proposal; }
impl At0 for Proposal { fn default_at_0() -> Proposal { use crate::chain::DefaultAt; Proposal::default_at(0) } }

fn clean(path: &str) {
    for i in 0..20 { rocksdb::sim::drop_db(if i == 0 { path.to_string() } else { format!("{path}.{i}") }) }
}
async fn one(w: &mut World, o: &mut Out, id: &str, path: &str, c: &Value, seed: u64) -> usize {
    let (fork, stop) = (c["fork"].as_u64().unwrap_or(0), c["stop"].as_u64());
    let mut r = Run::start(w, path, fork, stop, seed).await;
    for s in c["ops"].as_array().unwrap() {
        let mut s = s.clone();
        if s["op"] == "check" { s["fork"] = json!(fork) }
        r.step(&s).await;
        if r.done { break }
    }
    o.trace(id, json!({"fork": fork, "stop": stop.map(|x| x as i64).unwrap_or(-1)}), r.ev.clone());
    let t = r.total;
    std::mem::forget(r.v);
    clean(path);
    t
}
pub const ALTERS: [&str; 37] = ["none", "number_up", "number_down", "number_both", "old", "prev_hash", "prev_grand", "prev_state", "txs_root", "signed_hash", "txs_swap", "txs_drop", "txs_swap_fit", "txs_drop_fit", "txs_twice",
    "txs_swap_half", "txs_swap_other", "ts_prev", "ts_before", "ts_now", "ts_after", "gas_less", "gas_more", "gas_none", "proof_number", "proof_older", "proof_round", "proof_hash", "proof_sig", "proof_bitmap", "proof_weak",
    "proof_others", "proof_again", "fork_same", "fork_other", "fork_garbage", "none"];
pub const BADS: [&str; 35] = ["none", "again", "weak", "others", "proof_prev", "proof_number", "proof_round", "proof_hash", "proof_garbage", "wrong_number", "prev_hash", "proposer", "txs_root", "ts", "gas_limit", "extra", "scripts",
    "signed_hash", "hdr_proof", "state_root", "receipts_root", "bloom", "gas_used", "base_fee", "chain_id", "voted_prev_hash", "voted_hdr_proof", "voted_signed_hash", "hash_dropped", "hash_added", "tx_missing", "tx_other",
    "tx_forged", "tx_order", "none"];
fn random(rng: &mut Rng, focus: &str) -> Value {
    let mut ops = vec![];
    let len = 5 + rng.below(8);
    for _ in 0..len {
        let v = 1 + (rng.below(4) == 0) as u64;
        let commit = |rng: &mut Rng| json!({"op": "commit", "d": *rng.pick(&[1i64, 1, 1, 1, 0, 2, -1]), "v": v, "lock": (rng.below(12) == 0) as u64});
        let sync = |rng: &mut Rng| { let k = 1 + rng.below(3); let good = rng.bool(); json!({"op": "sync", "vs": (0..k).map(|_| 1 + (rng.below(4) == 0) as u64).collect::<Vec<_>>(), "up": *rng.pick(&[k as i64, k as i64, 1, 0, -1, k as i64 + 1]), "at": 1 + rng.below(k), "bad": if good { "none" } else { *rng.pick(&BADS) }, "lock": (rng.below(12) == 0) as u64}) };
        let pick = match (focus, rng.below(12)) { ("A02", 0..=5) => 2, ("A03", 0..=7) => 1, ("A04", 0..=6) => 3, ("A05", 0..=5) => 4, (_, x) => x };
        match pick {
            0 | 8 => ops.push(json!({"op": "give", "v": v})),
            1 | 9 => { let good = rng.below(3) == 0; ops.push(json!({"op": "check", "v": *rng.pick(&[1u64, 1, 2, 3]), "alter": if good { "none" } else { *rng.pick(&ALTERS) }, "hash": *rng.pick(&["right", "right", "right", "right", "right", "wrong", "own"]), "peers": (rng.below(4) > 0) as u64, "what": *rng.pick(&["", "", "", "", "", "", "own", "kept"])})) }
            2 | 10 => { if rng.bool() { ops.push(json!({"op": "check", "v": v, "peers": 1})) } ops.push(commit(rng)) }
            3 => ops.push(sync(rng)),
            4 | 5 => { let inner = if rng.bool() { ops.push(json!({"op": "check", "v": v, "peers": 1})); json!({"op": "commit", "d": 1, "v": v}) } else { sync(rng) }; ops.push(json!({"op": "crash", "inner": inner, "q": rng.below(5)})); if rng.bool() { ops.push(json!({"op": "commit", "d": 1, "v": v})) } }
            6 => ops.push(json!({"op": "restart"})),
            _ => ops.push(json!({"op": "propose"})),
        }
    }
    json!({"fork": *rng.pick(&[0u64, 0, 2, 4, 20]), "stop": if rng.below(12) == 0 { json!(rng.below(4)) } else { Value::Null }, "ops": ops})
}
pub fn main(focus: &str, cases: &str, out: &str, dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let mut o = Out::create(out);
    let mut rng = Rng::new(seed());
    let mut given: Vec<Value> = read_ndjson(cases);
    let max = scale(260, 4000);
    while given.len() > max { let i = rng.below(given.len() as u64) as usize; given.swap_remove(i); }
    let many = scale(60, 1500);
    let mut plans: Vec<(String, Value)> = given.into_iter().enumerate().map(|(i, g)| (format!("given{i}"), g)).collect();
    for i in 0..many { plans.push((format!("random{i}"), random(&mut rng, focus))) }
    std::thread::scope(|t| {
        t.spawn(|| {
            let _g = rt().enter();
            let mut w = World::new(&format!("{dir}/world"));
            for (id, p) in &plans {
                let path = format!("{dir}/{id}");
                let seed = rng.next();
                // a crash "at every write" is one trace for each
                let every = p["ops"].as_array().unwrap().iter().any(|o| o["k"] == "every");
                if !every { rt().block_on(one(&mut w, &mut o, id, &path, p, seed)); continue }
                let mut k = 0;
                loop {
                    let mut q = p.clone();
                    for s in q["ops"].as_array_mut().unwrap() { if s["k"] == "every" { s["k"] = json!(k) } }
                    let path = format!("{path}.{k}");
                    let total = rt().block_on(one(&mut w, &mut o, &format!("{id}.{k}"), &path, &q, seed));
                    k += 1;
                    if k > total { break }
                }
            }
        });
    });
    o.finish();
    let _ = std::fs::remove_dir_all(dir);
    std::process::exit(0);
}
