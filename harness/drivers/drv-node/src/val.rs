//! A validating node: engine, synchronization, pool, storage and logs put together as a node does it.
use crate::b01::addr;
use crate::chain::*;
use crate::node::txs_root;
use crate::*;
use blst::min_pk::{AggregateSignature, SecretKey, Signature};
use common_crypto::{BlsPrivateKey, PublicKey, ToPublicKey, Secp256k1PrivateKey, Secp256k1Recoverable};
use core_consensus::engine::{generate_new_crypto_map, ConsensusEngine};
use core_consensus::message::{PullBlockRpcHandler, PullProofRpcHandler, PullTxsRpcHandler};
use core_consensus::status::{CurrentStatus, StatusAgent};
use core_consensus::stop_signal::StopSignal;
use core_consensus::types::PullTxsRequest;
use core_consensus::util::{digest_signed_transactions, OverlordCrypto};
use core_consensus::{ConsensusWal, OverlordConsensus, OverlordConsensusAdapter, OverlordSynchronization, SignedTxsWAL};
use core_executor::system_contract::{self, metadata::MetadataHandle, system_contract_address};
use core_executor::{AxonExecutor, RocksTrieDB};
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl};
use ethers_core::utils::keccak256;
use overlord::types as ot;
use overlord::{Consensus as Engine, Crypto};
use parking_lot::Mutex;
use protocol::codec::ProtocolCodec;
use protocol::tokio::sync::Mutex as AsyncMutex;
use protocol::traits::*;
use protocol::types::*;
use protocol::{async_trait, ProtocolResult};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::sync::Arc;

const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";
pub const EDGE: u64 = 3; // the last number of the first epoch
pub const LAST: u64 = 8; // the last number of the second

pub struct Key { pub bls: SecretKey, pub raw: Vec<u8>, pub pk: Bytes, pub address: H160 }
pub fn keys(from: u8, n: u8) -> Vec<Key> {
    let mut v: Vec<Key> = (from..from + n).map(|i| {
        let bls = SecretKey::key_gen(&[i; 32], &[]).unwrap();
        let k = Secp256k1PrivateKey::try_from([i; 32].as_ref()).unwrap();
        Key { raw: bls.to_bytes().to_vec(), bls, pk: k.pub_key().to_bytes(), address: Address::from_pubkey(&k.pub_key()).0 }
    }).collect();
    v.sort_by(|a, b| a.pk.cmp(&b.pk));
    v
}
pub fn extend(k: &Key, weight: u32) -> ValidatorExtend {
    ValidatorExtend { bls_pub_key: Hex::encode(k.bls.sk_to_pk().to_bytes()), pub_key: Hex::encode(&k.pk), address: k.address, propose_weight: 1, vote_weight: weight }
}
pub fn vote_digest(number: u64, round: u64, ty: u64, hash: &H256) -> [u8; 32] {
    let mut p = vec![];
    for x in [number, round, ty] { p.extend(rlp::encode(&x).to_vec()) }
    p.push(0xa0);
    p.extend(hash.as_bytes());
    let mut out = vec![0xc0 + p.len() as u8];
    out.extend(p);
    keccak256(out)
}
pub fn aggregate(msg: &[u8], ks: &[&SecretKey]) -> Vec<u8> {
    let sigs: Vec<Signature> = ks.iter().map(|k| k.sign(msg, DST, &[])).collect();
    let r: Vec<&Signature> = sigs.iter().collect();
    if r.is_empty() { return vec![0xc0]; }
    Signature::from_aggregate(&AggregateSignature::aggregate(&r, false).unwrap()).to_bytes().to_vec()
}
pub fn bitmap(marks: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; (marks.len() + 7) / 8];
    for (i, m) in marks.iter().enumerate() { if *m { out[i / 8] |= 0x80 >> (i % 8) } }
    out
}
/// a proof by those of ks that are marked
pub fn prove(ks: &[Key], marks: &[bool], number: u64, round: u64, hash: H256) -> Proof {
    let by: Vec<&SecretKey> = ks.iter().zip(marks).filter(|(_, m)| **m).map(|(k, _)| &k.bls).collect();
    Proof { number, round, block_hash: hash, signature: aggregate(&vote_digest(number, round, 2, &hash), &by).into(), bitmap: bitmap(marks).into() }
}

// ---- what there is outside the node -------------------------------------------------------------
#[derive(Default)]
pub struct Wire { pub serve: Option<Box<dyn Fn(&str, Bytes) -> Option<Bytes> + Send>>, pub replies: Vec<Option<Bytes>>, pub heard: Vec<u64>, pub tagged: Vec<Vec<Bytes>> }
#[derive(Clone, Default)]
pub struct VNet(pub Arc<Mutex<Wire>>);
impl std::fmt::Debug for VNet { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "net") } }
fn no<T>() -> ProtocolResult<T> {
    Err(protocol::ProtocolError::new(protocol::ProtocolErrorKind::Network, Box::new(std::io::Error::new(std::io::ErrorKind::Other, "no answer"))))
}
#[async_trait]
impl Rpc for VNet {
    async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
        let b = msg.encode_msg()?;
        let r = self.0.lock().serve.as_ref().and_then(|f| f(end, b));
        match r { Some(x) => R::decode_msg(x), None => no() }
    }
    async fn response<M: MessageCodec>(&self, _: Context, _: &str, r: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> {
        let b = r.ok().and_then(|mut m| m.encode_msg().ok());
        self.0.lock().replies.push(b);
        Ok(())
    }
}
impl PeerTrust for VNet { fn report(&self, _: Context, _: TrustFeedback) {} }
impl Network for VNet {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> { Ok(()) }
    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> { Ok(()) }
    fn tag_consensus(&self, _: Context, ids: Vec<Bytes>) -> ProtocolResult<()> { self.0.lock().tagged.push(ids); Ok(()) }
    fn peer_count(&self, _: Context) -> ProtocolResult<usize> { Ok(1) }
}
#[async_trait]
impl Gossip for VNet {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut m: M, _: Priority) -> ProtocolResult<()> {
        if end == protocol::constants::endpoints::BROADCAST_HEIGHT { self.0.lock().heard.push(u64::decode_msg(m.encode_msg()?)?) }
        Ok(())
    }
    async fn gossip<M: MessageCodec>(&self, _: Context, _: Option<usize>, _: &str, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
    async fn multicast<'a, M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> { Ok(()) }
}

// ---- the chains there could be ----------------------------------------------------------------
#[derive(Clone)]
pub struct Made { pub proposal: Proposal, pub block: Block, pub proof: Proof, pub txs: Vec<SignedTransaction>, pub resp: ExecResp }
pub struct World { pub chain: Chain, pub first: usize, made: HashMap<Vec<u64>, Made>, pub sets: [Vec<Key>; 2], pub ids: HashMap<H256, u64>, by_hash: HashMap<H256, Vec<u64>>, pub also: Vec<(Vec<u64>, Proof)> }

/// which transactions a block has: variant 1 is the main one
pub fn txs_of(n: u64, v: u64) -> Vec<u64> {
    match v { 1 => if n == 3 { vec![] } else { vec![2 * n - 1, 2 * n] }, 2 => vec![20 + n], _ => vec![] }
}
pub const TXS: u64 = 30;
pub fn tx(i: u64) -> SignedTransaction {
    thread_local!(static MADE: std::cell::RefCell<HashMap<u64, SignedTransaction>> = Default::default());
    MADE.with(|m| m.borrow_mut().entry(i).or_insert_with(|| sign(UnsignedTransaction::Legacy(LegacyTransaction {
        nonce: 0.into(), gas_price: 1.into(), gas_limit: 30_000u64.into(), action: TransactionAction::Call(H160::repeat_byte(0xee)), value: i.into(), data: Default::default() }), 5, i as u8)).clone())
}
pub fn when(n: u64, v: u64) -> u64 { 1000 + 10 * n + v }
pub fn set_at(n: u64) -> usize { (n > EDGE) as usize }

impl World {
    pub fn new(path: &str) -> World {
        protocol::lazy::CHAIN_ID.store(Arc::new(5));
        let sets = [keys(101, 4), keys(111, 3)];
        let vs = |i: usize| sets[i].iter().map(|k| extend(k, 1)).collect::<Vec<_>>();
        let mut c = config(0x6000);
        c.interval = 1;
        let m = |epoch, start, end, i| Metadata { version: MetadataVersion { start, end }, epoch, verifier_list: vs(i), propose_counter: vec![], consensus_config: c.clone() };
        let rich: U256 = U256::from(10u64).pow(24.into());
        let accounts: Vec<(H160, U256)> = (1..=TXS).map(|i| (addr(i as u8), rich)).collect();
        let chain = Chain::genesis(path, &accounts, &[m(0, 0, EDGE, 0), m(1, EDGE + 1, LAST, 1)], HardforkInfoInner { block_number: 0, flags: flags(&[0]) }, 2000);
        let mut p = Proposal::default_at(0);
        p.timestamp = 1000;
        let resp = ExecResp { state_root: chain.root, receipt_root: RLP_NULL, gas_used: 0, tx_resp: vec![] };
        let block = Block::new(p.clone(), resp.clone());
        let genesis = Made { proposal: p, block: block.clone(), proof: Proof::default(), txs: vec![], resp };
        let s = Arc::clone(&chain.storage);
        futures::executor::block_on(async { s.update_latest_proof(Context::new(), Proof::default()).await.unwrap(); s.insert_block(Context::new(), block.clone()).await.unwrap(); });
        let first = rocksdb::sim::writes(path);
        let ids = (1..=TXS).map(|i| (tx(i).transaction.hash, i)).collect();
        let by_hash = [(block.hash(), vec![])].into_iter().collect();
        World { chain, first, made: [(vec![], genesis)].into_iter().collect(), sets, ids, by_hash, also: vec![] }
    }
    /// is it a proof of that block that somebody made
    pub fn proves(&mut self, path: &[u64], p: &Proof) -> bool { self.get(path).proof == *p || self.also.iter().any(|(q, x)| q == path && x == p) }
    pub fn proposal(&mut self, p: &[u64]) -> (Proposal, Vec<SignedTransaction>) {
        let (v, par) = p.split_last().unwrap();
        let parent = self.get(par);
        let n = p.len() as u64;
        let txs: Vec<SignedTransaction> = txs_of(n, *v).into_iter().map(tx).collect();
        let mut q = Proposal::default_at(n);
        q.prev_hash = parent.block.hash();
        q.prev_state_root = parent.block.header.state_root;
        q.proposer = self.sets[set_at(n)][n as usize % 3].address;
        q.tx_hashes = txs.iter().map(|t| t.transaction.hash).collect();
        q.transactions_root = txs_root(&q.tx_hashes);
        q.signed_txs_hash = digest_signed_transactions(&txs);
        q.timestamp = when(n, *v);
        q.proof = parent.proof;
        (q, txs)
    }
    pub fn get(&mut self, p: &[u64]) -> Made {
        if let Some(m) = self.made.get(p) { return m.clone() }
        let (q, txs) = self.proposal(p);
        let parent = self.get(&p[..p.len() - 1]);
        let n = p.len() as u64;
        let mut b = self.chain.backend(&Proposal::default_at(0));
        system_contract::init_system_contract_db(self.chain.adapter.inner_db(), &mut b);
        drop(b);
        self.chain.root = parent.block.header.state_root;
        self.chain.number = n - 1;
        let vs: Vec<ValidatorExtend> = self.sets[set_at(n)].iter().map(|k| extend(k, 1)).collect();
        let resp = { let mut b = self.chain.backend(&q); AxonExecutor.exec(&mut b, &txs, &vs) };
        let block = Block::new(q.clone(), resp.clone());
        let marks: Vec<bool> = self.sets[set_at(n)].iter().enumerate().map(|(i, _)| set_at(n) == 1 || i as u64 != n % 4).collect();
        let proof = prove(&self.sets[set_at(n)], &marks, n, n % 2, q.hash());
        self.by_hash.insert(block.hash(), p.to_vec());
        let m = Made { proposal: q, block, proof, txs, resp };
        self.made.insert(p.to_vec(), m.clone());
        m
    }
    pub fn named(&self, h: &H256) -> Option<Vec<u64>> { self.by_hash.get(h).cloned() }
}

// ---- the node ---------------------------------------------------------------------------------
pub type Pool = MemPoolImpl<DefaultMemPoolAdapter<Secp256k1Recoverable, VNet, Store, RocksTrieDB, InteroperationImpl>>;
pub type Cad = OverlordConsensusAdapter<Pool, VNet, Store, RocksTrieDB>;
pub struct Val {
    pub path:    String,
    pub wal_dir: String,
    pub storage: Arc<Store>,
    pub net:     VNet,
    pub pool:    Arc<Pool>,
    pub cad:     Arc<Cad>,
    pub engine:  Arc<ConsensusEngine<Cad>>,
    pub sync:    OverlordSynchronization<Cad>,
    pub crypto:  Arc<OverlordCrypto>,
    pub wal:     Arc<SignedTxsWAL>,
    pub lock:    Arc<AsyncMutex<()>>,
    pub fork:    Arc<std::sync::RwLock<Option<HardforkInfoInner>>>,
    _overlord:   OverlordConsensus<Cad>,
    _stop:       protocol::tokio::sync::oneshot::Receiver<()>,
}
impl Val {
    /// starts a node on what is on the disk at `path`
    pub async fn start(path: &str, wal_dir: &str, me: &Key, stop: Option<u64>) -> Val {
        let c = Context::new;
        let (db, storage, trie) = open(path, 20, 2000);
        let net = VNet::default();
        let now = storage.get_latest_block(c()).await.unwrap();
        let wal = Arc::new(SignedTxsWAL::new(wal_dir));
        let root = now.header.state_root;
        let mut b = core_executor::AxonExecutorApplyAdapter::from_root(root, Arc::clone(&trie), Arc::clone(&storage), Proposal::new_without_state_root(&now.header).into()).unwrap();
        system_contract::init_system_contract_db(db.inner_db(), &mut b);
        let first = wal.load_by_number(now.header.number + 1);
        let a = DefaultMemPoolAdapter::new(net.clone(), Arc::clone(&storage), Arc::clone(&trie), 5, 1 << 20, 10, 1_000_000);
        let pool = Arc::new(MemPoolImpl::new(100, 50, a, first).await);
        let meta_root = core_executor::AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&trie), Arc::clone(&storage), Proposal::new_without_state_root(&now.header).into()).unwrap().get_metadata_root();
        let h = MetadataHandle::new(meta_root);
        h.init_hardfork(now.header.number).unwrap();
        let meta = h.get_metadata_by_block_number(now.header.number).unwrap();
        pool.set_args(c(), root, meta.consensus_config.gas_limit, meta.consensus_config.max_tx_size);
        let lock = Arc::new(AsyncMutex::new(()));
        // those who vote on the next number
        let voters = h.get_metadata_by_block_number(now.header.number + 1).unwrap();
        let crypto = Arc::new(OverlordCrypto::new(BlsPrivateKey::try_from(me.raw.as_ref()).unwrap(), generate_new_crypto_map(voters).unwrap(), String::new()));
        let cad = Arc::new(OverlordConsensusAdapter::new(Arc::new(net.clone()), Arc::clone(&pool), Arc::clone(&storage), Arc::clone(&trie), Arc::clone(&crypto)).unwrap());
        let status = StatusAgent::new(CurrentStatus { prev_hash: now.hash(), last_number: now.header.number, max_tx_size: meta.consensus_config.max_tx_size.into(), tx_num_limit: meta.consensus_config.tx_num_limit,
            proof: storage.get_latest_proof(c()).await.unwrap(), last_state_root: root });
        let fork = storage.hardfork_proposal(c()).await.unwrap();
        let sk = (1..=255u8).map(|i| Secp256k1PrivateKey::try_from([i; 32].as_ref()).unwrap()).find(|k| k.pub_key().to_bytes() == me.pk).unwrap();
        let info = NodeInfo::new(5, sk.pub_key(), fork);
        let signal = |stop: Option<u64>| { let (t, r) = protocol::tokio::sync::oneshot::channel(); (match stop { Some(h) => StopSignal::with_stop_at(t, h), None => StopSignal::new(t) }, r) };
        let cw = Arc::new(ConsensusWal::new(format!("{wal_dir}.votes")));
        let (sig, _stop) = signal(stop);
        let engine = Arc::new(ConsensusEngine::new(status.clone(), info.clone(), Arc::clone(&wal), Arc::clone(&cad), Arc::clone(&crypto), Arc::clone(&lock), Arc::clone(&cw), sig));
        let fork = Arc::clone(&info.hardfork_proposals);
        let _overlord = OverlordConsensus::new(status.clone(), info, Arc::clone(&crypto), Arc::clone(&wal), Arc::clone(&cad), Arc::clone(&lock), cw, signal(None).0).await;
        cad.set_overlord_handler(_overlord.get_overlord_handler());
        let sync = OverlordSynchronization::new(2, Arc::clone(&cad), status, Arc::clone(&lock));
        Val { path: path.into(), wal_dir: wal_dir.into(), storage, net, pool, cad, engine, sync, crypto, wal, lock, fork, _overlord, _stop }
    }
    async fn ask<F: std::future::Future<Output = TrustFeedback>>(&self, f: F) -> Option<Bytes> {
        self.net.0.lock().replies.clear();
        f.await;
        self.net.0.lock().replies.pop().flatten()
    }
    pub async fn pull_block(&self, n: u64) -> Option<Block> {
        let h = PullBlockRpcHandler::new(Arc::new(self.net.clone()), Arc::clone(&self.storage));
        self.ask(h.process(Context::new(), n)).await.and_then(|b| Block::decode_msg(b).ok())
    }
    pub async fn pull_proof(&self, n: u64) -> Option<Proof> {
        let h = PullProofRpcHandler::new(Arc::new(self.net.clone()), Arc::clone(&self.storage));
        self.ask(h.process(Context::new(), n)).await.and_then(|b| Proof::decode_msg(b).ok())
    }
    pub async fn pull_txs(&self, n: u64, hashes: &[H256]) -> Vec<SignedTransaction> {
        let h = PullTxsRpcHandler::new(Arc::new(self.net.clone()), Arc::clone(&self.storage));
        self.ask(h.process(Context::new(), PullTxsRequest::new(n, hashes.to_vec()))).await.and_then(|b| BatchSignedTxs::decode_msg(b).ok()).map(|x| x.0).unwrap_or_default()
    }
    /// everything that can be seen of the node
    pub async fn look(&self, w: &mut World) -> Value {
        let c = Context::new;
        let tip = self.storage.get_latest_block(c()).await.unwrap();
        let mut chain: Vec<u64> = vec![];
        let mut serve: Vec<i64> = vec![];
        for n in 1..=tip.header.number {
            let at = self.pull_block(n).await;
            let v = match at.as_ref().and_then(|b| w.named(&b.hash()).map(|p| (b, p))) {
                Some((b, p)) if p.len() as u64 == n && p[..n as usize - 1] == chain[..] => {
                    let m = w.get(&p);
                    let mut good = *b == m.block && self.storage.get_block_by_hash(c(), &b.hash()).await.unwrap().as_ref() == Some(b);
                    good &= self.storage.get_block_header(c(), n).await.unwrap().as_ref() == Some(&b.header);
                    good &= self.pull_txs(n, &b.tx_hashes).await == m.txs;
                    let want = m.block.generate_receipts_and_logs(&m.txs, &m.resp).0;
                    let got: Vec<Receipt> = self.storage.get_receipts(c(), n, &b.tx_hashes).await.unwrap().into_iter().flatten().collect();
                    good &= got == want;
                    // the state is there
                    good &= core_executor::AxonExecutorReadOnlyAdapter::from_root(b.header.state_root, Arc::clone(&open(&self.path, 20, 100).2), Arc::clone(&self.storage), m.proposal.clone().into()).map(|r| {
                        use protocol::types::Backend;
                        m.txs.iter().all(|t| r.basic(t.sender).nonce == 1.into())
                    }).unwrap_or(false);
                    if good { p[n as usize - 1] } else { 0 }
                }
                _ => 0,
            };
            chain.push(v);
        }
        if tip != self.pull_block(tip.header.number).await.unwrap_or_default() { chain.push(0) }
        let beyond = self.pull_block(tip.header.number + 1).await.is_some();
        let canonical = |w: &mut World, p: &Proof| -> i64 {
            let n = p.number as usize;
            if *p == Proof::default() { return 0 }
            // the only proof of number n that anyone made for a block on this chain, or on top of it
            let mut paths = vec![];
            if n <= chain.len() { paths.push(chain[..n].to_vec()) }
            if n == chain.len() + 1 { for v in [1, 2] { let mut q = chain.clone(); q.push(v); paths.push(q) } }
            for q in paths { if !q.contains(&0) && w.proves(&q, p) { return n as i64 } }
            -1
        };
        let stored = self.storage.get_latest_proof(c()).await.unwrap();
        let proof = canonical(w, &stored);
        for n in 1..=tip.header.number + 1 {
            serve.push(match self.pull_proof(n).await { None => 0, Some(p) => canonical(w, &p) });
        }
        let st = self.engine.status();
        let whole = !chain.contains(&0);
        let status = if whole && st.last_number == chain.len() as u64 && st.prev_hash == w.get(&chain).block.hash() && st.last_state_root == w.get(&chain).block.header.state_root { canonical(w, &st.proof) } else { -1 };
        let mut known = vec![];
        for (i, s) in w.sets.iter().enumerate() {
            let msg = Bytes::from(vec![7u8; 32]);
            if s.iter().all(|k| self.crypto.verify_signature(aggregate(&msg, &[&k.bls]).into(), msg.clone(), k.pk.clone()).is_ok()) { known.push(i) }
        }
        let mut pool = vec![];
        for i in 1..=TXS { if self.pool.contains(c(), &tx(i).transaction.hash).await { pool.push(i) } }
        let fork = self.storage.hardfork_proposal(c()).await.unwrap().map(|f| f.block_number).unwrap_or(0);
        let mem = self.fork.read().unwrap().as_ref().map(|f| f.block_number).unwrap_or(0);
        json!({"chain": chain, "beyond": beyond, "proof": proof, "serve": serve, "status": status, "keys": known, "pool": pool, "fork": [fork, mem]})
    }
}
pub fn commit_of(m: &Made) -> ot::Commit<Proposal> {
    ot::Commit { height: m.proof.number, content: m.proposal.clone(), proof: ot::Proof { height: m.proof.number, round: m.proof.round, block_hash: Bytes::from(m.proof.block_hash.as_bytes().to_vec()),
        signature: ot::AggregatedSignature { signature: m.proof.signature.clone(), address_bitmap: m.proof.bitmap.clone() } } }
}
pub fn reserved() -> H160 { system_contract_address(0) }
