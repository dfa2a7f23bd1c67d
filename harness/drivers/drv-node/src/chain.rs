//! A chain state outside a node: genesis as `axon init` makes it, then blocks through AxonExecutor.
use crate::*;
use core_db::RocksAdapter;
use core_executor::system_contract;
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, MPTTrie, RocksTrieDB};
use core_storage::ImplStorage;
use protocol::traits::Executor;
use protocol::trie::Trie;
use protocol::{codec::ProtocolCodec, types::*};
use std::sync::Arc;

pub type Store = ImplStorage<RocksAdapter>;
pub type Apply = AxonExecutorApplyAdapter<Store, RocksTrieDB>;

pub struct Chain {
    pub path:    String,
    pub adapter: Arc<RocksAdapter>,
    pub storage: Arc<Store>,
    pub trie:    Arc<RocksTrieDB>,
    pub root:    H256,
    pub number:  u64,
}

pub fn config(limit: u64) -> ConsensusConfig {
    ConsensusConfig { gas_limit: 4294967295, interval: 3000, propose_ratio: 15, prevote_ratio: 10, precommit_ratio: 10, brake_ratio: 10, tx_num_limit: 20000, max_tx_size: 409600000, max_contract_limit: limit }
}
pub fn validator(addr: H160, weight: u32) -> ValidatorExtend {
    ValidatorExtend { bls_pub_key: Hex::encode([1u8; 48]), pub_key: Hex::encode([2u8; 33]), address: addr, propose_weight: 1, vote_weight: weight }
}
/// the two first epochs, as the genesis has them
pub fn metadata(first_end: u64, vs: &[ValidatorExtend], limit: u64) -> [Metadata; 2] {
    let m = |epoch, start, end| Metadata { version: MetadataVersion { start, end }, epoch, verifier_list: vs.to_vec(), propose_counter: vec![], consensus_config: config(limit) };
    [m(0, 0, first_end), m(1, first_end + 1, first_end * 2)]
}
pub fn flags(bits: &[u64]) -> H256 {
    let mut h = H256::zero();
    for b in bits {
        h.0[(b / 8) as usize] |= 1 << (b % 8);
    }
    h
}
pub fn bits(h: &H256) -> Vec<u64> {
    (0..256u64).filter(|b| h.0[(b / 8) as usize] >> (b % 8) & 1 == 1).collect()
}

pub fn open(path: &str, cache: usize, trie_cache: usize) -> (Arc<RocksAdapter>, Arc<Store>, Arc<RocksTrieDB>) {
    let adapter = Arc::new(RocksAdapter::new(path, Default::default()).unwrap());
    let storage = Arc::new(ImplStorage::new(Arc::clone(&adapter), cache));
    let trie = Arc::new(RocksTrieDB::new_evm(adapter.inner_db(), trie_cache));
    (adapter, storage, trie)
}
pub fn header(number: u64, root: H256, r: &Proposal) -> Proposal {
    let mut p = r.clone();
    p.number = number;
    p.prev_state_root = root;
    p
}

impl Chain {
    pub fn genesis(path: &str, accounts: &[(H160, U256)], meta: &[Metadata; 2], fork: HardforkInfoInner, trie_cache: usize) -> Chain {
        let (adapter, storage, trie) = open(path, 20, trie_cache);
        let mut t = MPTTrie::new(Arc::clone(&trie));
        for (a, b) in accounts {
            let raw = Account { nonce: U256::zero(), balance: *b, storage_root: RLP_NULL, code_hash: NIL_DATA };
            t.insert(a.as_bytes().to_vec(), raw.encode().unwrap().to_vec()).unwrap();
        }
        let root = t.commit().unwrap();
        let mut c = Chain { path: path.into(), adapter, storage, trie, root, number: 0 };
        let mut b = c.backend(&Proposal::default_at(0));
        system_contract::init(c.adapter.inner_db(), &mut b, meta, fork).unwrap();
        let resp = AxonExecutor.exec(&mut b, &[], &[]);
        c.root = resp.state_root;
        c
    }
    pub fn backend(&self, p: &Proposal) -> Apply {
        AxonExecutorApplyAdapter::from_root(self.root, Arc::clone(&self.trie), Arc::clone(&self.storage), p.clone().into()).unwrap()
    }
    pub fn read(&self) -> AxonExecutorReadOnlyAdapter<Store, RocksTrieDB> {
        AxonExecutorReadOnlyAdapter::from_root(self.root, Arc::clone(&self.trie), Arc::clone(&self.storage), Proposal::default_at(self.number).into()).unwrap()
    }
    /// executes the next block on top and keeps it
    pub fn block(&mut self, mut p: Proposal, txs: &[SignedTransaction], vs: &[ValidatorExtend]) -> ExecResp {
        p.number = self.number + 1;
        let mut b = self.backend(&p);
        let resp = AxonExecutor.exec(&mut b, txs, vs);
        self.root = resp.state_root;
        self.number += 1;
        resp
    }
    pub fn metadata_root(&self) -> H256 {
        self.read().get_metadata_root()
    }
    /// another process takes over the same disk
    pub fn restart(&mut self, trie_cache: usize) {
        let (a, s, t) = open(&self.path, 20, trie_cache);
        self.adapter = a;
        self.storage = s;
        self.trie = t;
        let mut b = self.backend(&Proposal::default_at(self.number));
        system_contract::init_system_contract_db(self.adapter.inner_db(), &mut b);
    }
    pub fn close(self) {
        rocksdb::sim::drop_db(&self.path);
        let _ = std::fs::remove_dir_all(&self.path);
    }
}
pub trait DefaultAt {
    fn default_at(n: u64) -> Proposal;
}
impl DefaultAt for Proposal {
    fn default_at(n: u64) -> Proposal {
        Proposal { version: BlockVersion::V0, prev_hash: H256::zero(), proposer: H160::zero(), prev_state_root: H256::zero(), transactions_root: RLP_NULL, signed_txs_hash: RLP_EMPTY_LIST, timestamp: n, number: n,
            gas_limit: 30_000_000u64.into(), extra_data: vec![], base_fee_per_gas: 1337u64.into(), proof: Proof::default(), chain_id: 5, call_system_script_count: 0, tx_hashes: vec![] }
    }
}
