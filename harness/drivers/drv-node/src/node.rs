//! A chain with its blocks kept in storage, as a node keeps them.
use crate::chain::*;
use crate::*;
use core_executor::AxonExecutor;
use protocol::traits::{Context, Executor, Storage};
use protocol::types::*;
use std::sync::Arc;

pub struct Node {
    pub chain:      Chain,
    pub block:      Block,
    pub validators: Vec<ValidatorExtend>,
}
pub fn txs_root(hashes: &[H256]) -> H256 {
    if hashes.is_empty() { RLP_NULL } else { common_merkle::TrieMerkle::from_iter(hashes.iter().enumerate()).root_hash().unwrap() }
}
impl Node {
    pub fn genesis(path: &str, accounts: &[(H160, U256)], vs: &[ValidatorExtend], first_end: u64) -> Node {
        Node::genesis_with(path, accounts, vs, &metadata(first_end, vs, 0x6000))
    }
    pub fn genesis_with(path: &str, accounts: &[(H160, U256)], vs: &[ValidatorExtend], meta: &[Metadata; 2]) -> Node {
        let chain = Chain::genesis(path, accounts, meta, HardforkInfoInner { block_number: 0, flags: flags(&[0]) }, 2000);
        let p = Proposal::default_at(0);
        let block = Block::new(p, ExecResp { state_root: chain.root, receipt_root: RLP_NULL, gas_used: 0, tx_resp: vec![] });
        let mut n = Node { chain, block: block.clone(), validators: vs.to_vec() };
        n.save(block, vec![], &ExecResp { state_root: RLP_NULL, receipt_root: RLP_NULL, gas_used: 0, tx_resp: vec![] }, Proof::default());
        n
    }
    pub fn save(&mut self, block: Block, txs: Vec<SignedTransaction>, resp: &ExecResp, proof: Proof) {
        let s = Arc::clone(&self.chain.storage);
        let (receipts, _) = block.generate_receipts_and_logs(&txs, resp);
        let number = block.header.number;
        self.block = block.clone();
        futures::executor::block_on(async move {
            let c = Context::new;
            s.update_latest_proof(c(), proof).await.unwrap();
            s.insert_transactions(c(), number, txs).await.unwrap();
            s.insert_receipts(c(), number, receipts).await.unwrap();
            s.insert_block(c(), block).await.unwrap();
        });
    }
    pub fn proposal(&self, txs: &[SignedTransaction], sys: u32) -> Proposal {
        let mut p = Proposal::default_at(self.chain.number + 1);
        p.prev_hash = self.block.hash();
        p.prev_state_root = self.chain.root;
        p.tx_hashes = txs.iter().map(|t| t.transaction.hash).collect();
        p.transactions_root = txs_root(&p.tx_hashes);
        p.call_system_script_count = sys;
        p.proof.number = self.chain.number;
        p.proof.block_hash = p.prev_hash;
        p
    }
    /// executes and keeps the next block; `before_save` runs between the two
    pub fn commit(&mut self, txs: &[SignedTransaction], sys: u32, before_save: impl FnOnce()) -> ExecResp {
        let p = self.proposal(txs, sys);
        let vs = self.validators.clone();
        let resp = {
            let mut b = self.chain.backend(&p);
            AxonExecutor.exec(&mut b, txs, &vs)
        };
        before_save();
        self.chain.root = resp.state_root;
        self.chain.number += 1;
        let block = Block::new(p, resp.clone());
        let proof = Proof { number: block.header.number, block_hash: block.hash(), ..Default::default() };
        self.save(block, txs.to_vec(), &resp, proof);
        resp
    }
}
