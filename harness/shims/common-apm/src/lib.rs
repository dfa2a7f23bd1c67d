//! Stand-in for /repo/common/apm: same names, no prometheus / jaeger behind them.
pub use common_apm_derive::{metrics_rpc, trace_span};
pub use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TraceId { pub high: u64, pub low: u64 }
impl std::fmt::Display for TraceId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.high == 0 { write!(f, "{:x}", self.low) } else { write!(f, "{:x}{:016x}", self.high, self.low) }
    }
}

pub mod tracing {
    use std::{borrow::Cow, sync::Arc};
    use arc_swap::ArcSwap;
    use protocol::traits::Context;
    pub use crate::TraceId;

    lazy_static::lazy_static! {
        pub static ref TRACER: ArcSwap<AxonTracer> = ArcSwap::new(Arc::new(AxonTracer::default()));
    }
    #[derive(Clone, Debug)]
    pub struct Tag;
    impl Tag { pub fn new<N, V>(_n: N, _v: V) -> Self { Tag } }
    #[derive(Clone, Debug)]
    pub struct LogField;
    impl LogField { pub fn new<N, V>(_n: N, _v: V) -> Self { LogField } }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct SpanContextState { pub trace: (u64, u64), pub span: u64 }
    impl SpanContextState {
        pub fn trace_id(&self) -> TraceId { TraceId { high: self.trace.0, low: self.trace.1 } }
        pub fn span_id(&self) -> u64 { self.span }
    }
    #[derive(Clone, Debug)]
    pub struct SpanContext(pub SpanContextState);
    impl SpanContext { pub fn state(&self) -> &SpanContextState { &self.0 } }
    pub struct LogBuilder;
    impl LogBuilder {
        pub fn field(&mut self, _f: LogField) -> &mut Self { self }
        pub fn time<T>(&mut self, _t: T) -> &mut Self { self }
    }
    pub struct Span(SpanContext);
    impl Span {
        pub fn set_tag<F: FnOnce() -> Tag>(&mut self, _f: F) {}
        pub fn log<F: FnOnce(&mut LogBuilder)>(&mut self, f: F) { f(&mut LogBuilder) }
        pub fn context(&self) -> Option<&SpanContext> { Some(&self.0) }
    }
    #[derive(Default)]
    pub struct AxonTracer;
    impl AxonTracer {
        pub fn child_of_span<N: Into<Cow<'static, str>>>(&self, _n: N, p: SpanContext, _t: Vec<Tag>) -> Option<Span> { Some(Span(p)) }
        pub fn span<N: Into<Cow<'static, str>>>(&self, _n: N, _t: Vec<Tag>) -> Option<Span> { Some(Span(SpanContext(SpanContextState::default()))) }
        pub fn new_state(trace_id: TraceId, span: u64) -> SpanContextState { SpanContextState { trace: (trace_id.high, trace_id.low), span } }
        pub fn str_to_trace(s: &str) -> Result<TraceId, String> {
            let hex = |x: &str| u64::from_str_radix(x, 16).map_err(|e| e.to_string());
            if s.len() <= 16 {
                Ok(TraceId { high: 0, low: hex(s)? })
            } else if s.len() <= 32 && s.is_char_boundary(s.len() - 16) {
                let (h, l) = s.split_at(s.len() - 16);
                Ok(TraceId { high: hex(h)?, low: hex(l)? })
            } else {
                Err("invalid".into())
            }
        }
        pub fn span_state(ctx: &Context) -> Option<SpanContextState> {
            if let Some(Some(p)) = ctx.get::<Option<SpanContext>>("parent_span_ctx") { Some(p.state().to_owned()) } else { None }
        }
        pub fn inject_span_state(ctx: Context, s: SpanContextState) -> Context {
            ctx.with_value::<Option<SpanContext>>("parent_span_ctx", Some(SpanContext(s)))
        }
    }
}

pub mod metrics {
    use std::time::Duration;
    pub fn duration_to_sec(d: Duration) -> f64 { d.as_secs_f64() }
    pub struct M;
    impl M {
        pub fn inc(&self) {}
        pub fn dec(&self) {}
        pub fn set(&self, _v: i64) {}
        pub fn inc_by<T>(&self, _v: T) {}
        pub fn observe(&self, _v: f64) {}
        pub fn with_label_values(&self, _l: &[&str]) -> &M { self }
    }
    pub struct R { pub success: M, pub failure: M, pub timeout: M }
    pub const RR: R = R { success: M, failure: M, timeout: M };
    pub mod consensus {
        use super::*;
        pub struct A { pub get_block_from_remote: R }
        pub static CONSENSUS_RESULT_COUNTER_VEC_STATIC: A = A { get_block_from_remote: RR };
        pub struct B { pub commit: M, pub exec: M, pub block: M }
        pub static CONSENSUS_TIME_HISTOGRAM_VEC_STATIC: B = B { commit: M, exec: M, block: M };
        pub struct C { pub check_block_cost: M, pub get_txs_cost: M, pub write_wal_cost: M }
        pub static CONSENSUS_CHECK_BLOCK_HISTOGRAM_VEC_STATIC: C = C { check_block_cost: M, get_txs_cost: M, write_wal_cost: M };
        pub static ENGINE_ROUND_GAUGE: M = M;
        pub static ENGINE_HEIGHT_GAUGE: M = M;
        pub static ENGINE_EXECUTING_BLOCK_GAUGE: M = M;
        pub static ENGINE_COMMITTED_TX_COUNTER: M = M;
        pub static ENGINE_ORDER_TX_GAUGE: M = M;
        pub static ENGINE_SYNC_TX_GAUGE: M = M;
        pub static ENGINE_SYNC_BLOCK_COUNTER: M = M;
        pub static ENGINE_SYNC_BLOCK_HISTOGRAM: M = M;
        pub static ENGINE_CONSENSUS_COST_TIME: M = M;
    }
    pub mod mempool {
        use super::*;
        pub struct A { pub insert_tx_from_p2p: M, pub package: M, pub current_size: M }
        pub static MEMPOOL_COUNTER_STATIC: A = A { insert_tx_from_p2p: M, package: M, current_size: M };
        pub static MEMPOOL_TIME_STATIC: A = A { insert_tx_from_p2p: M, package: M, current_size: M };
        pub static MEMPOOL_PACKAGE_SIZE_VEC_STATIC: A = A { insert_tx_from_p2p: M, package: M, current_size: M };
        pub static MEMPOOL_CURRENT_SIZE_VEC_STATIC: A = A { insert_tx_from_p2p: M, package: M, current_size: M };
        pub struct B { pub insert_tx_from_p2p: R, pub package: R, pub current_size: R }
        pub static MEMPOOL_RESULT_COUNTER_STATIC: B = B { insert_tx_from_p2p: RR, package: RR, current_size: RR };
        pub static MEMPOOL_LEN_GAUGE: M = M;
        pub static MEMPOOL_CO_QUEUE_LEN: M = M;
    }
    pub mod storage {
        use super::*;
        use protocol::traits::StorageCategory;
        pub fn on_storage_get_state(_d: Duration, _k: f64) {}
        pub fn on_storage_put_state(_d: Duration, _k: f64) {}
        pub fn on_storage_get_cf(_c: StorageCategory, _d: Duration, _k: f64) {}
        pub fn on_storage_put_cf(_c: StorageCategory, _d: Duration, _k: f64) {}
    }
    pub mod network {
        use super::*;
        pub struct A { pub success: M, pub timeout: M }
        pub static NETWORK_RPC_RESULT_COUNT_VEC_STATIC: A = A { success: M, timeout: M };
        pub struct B { pub rpc: M }
        pub static NETWORK_PROTOCOL_TIME_HISTOGRAM_VEC_STATIC: B = B { rpc: M };
        pub static NETWORK_SAVED_PEER_COUNT: M = M;
        pub static NETWORK_CONNECTED_PEERS: M = M;
        pub static NETWORK_CONNECTED_CONSENSUS_PEERS: M = M;
        pub static NETWORK_PEER_ID_DISCONNECTED_COUNT_VEC: M = M;
        pub static NETWORK_RECEIVED_MESSAGE_IN_PROCESSING_GUAGE: M = M;
        pub static NETWORK_RECEIVED_PEER_ID_MESSAGE_IN_PROCESSING_GUAGE_VEC: M = M;
        pub fn on_network_message_sent<S: AsRef<str>>(_u: S) {}
        pub fn on_network_message_sent_all_target<S: AsRef<str>>(_u: S) {}
        pub fn on_network_message_sent_multi_target<S: AsRef<str>>(_u: S, _n: f64) {}
        pub fn on_network_message_received<S: AsRef<str>>(_u: S) {}
    }
    #[allow(non_snake_case, non_camel_case_types)]
    pub mod api {
        use super::*;
        macro_rules! kinds { ($($k:ident),*) => {
            pub struct A { $(pub $k: R),* }
            pub struct B { $(pub $k: M),* }
            pub static API_REQUEST_RESULT_COUNTER_VEC_STATIC: A = A { $($k: RR),* };
            pub static API_REQUEST_TIME_HISTOGRAM_STATIC: B = B { $($k: M),* };
        } }
        kinds!(eth_sendRawTransaction, eth_getTransactionByHash, eth_getBlockByNumber, eth_blockNumber,
            eth_getBlockByHash, eth_getTransactionCount, eth_getBlockTransactionCountByNumber, eth_getBalance,
            eth_call, eth_estimateGas, eth_chainId, net_version, eth_getCode, eth_getTransactionReceipt,
            net_peerCount, net_listening, eth_gasPrice, eth_syncing, eth_getLogs, get_block, eth_mining,
            eth_feeHistory, web3_clientVersion, eth_accounts, web3_sha3, eth_getBlockTransactionCountByHash,
            eth_getTransactionByBlockHashAndIndex, eth_getTransactionByBlockNumberAndIndex, eth_getStorageAt,
            eth_protocolVersion, eth_getUncleByBlockHashAndIndex, eth_getUncleByBlockNumberAndIndex,
            eth_getUncleCountByBlockHash, eth_getUncleCountByBlockNumber, eth_getProof);
    }
}
