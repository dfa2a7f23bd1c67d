//! What core-api uses of jsonrpsee, without sockets: real types and errors; calls by name; subscriptions into a queue.
pub use jsonrpsee_types as types;
pub use serde_json::Value;
use types::{ErrorObjectOwned, SubscriptionId};
pub mod core {
    pub use async_trait::async_trait;
    pub type RpcResult<T> = Result<T, crate::types::ErrorObjectOwned>;
    pub type SubscriptionResult = Result<(), StringError>;
    #[derive(Debug)]
    pub struct StringError(pub String);
    impl<T: ToString> From<T> for StringError { fn from(t: T) -> Self { StringError(t.to_string()) } }
}
pub mod proc_macros { pub use jsonrpsee_rpc::rpc; }
pub fn read<T: serde::de::DeserializeOwned>(v: Option<Value>) -> Result<T, ErrorObjectOwned> {
    serde_json::from_value(v.unwrap_or(Value::Null)).map_err(|e| types::error::ErrorObject::owned(types::error::INVALID_PARAMS_CODE, e.to_string(), None::<()>))
}
pub fn write<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).expect("an answer is JSON") }

pub mod server {
    use super::*;
    use parking_lot::Mutex;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;

    pub trait IdProvider: Send + Sync + std::fmt::Debug { fn next_id(&self) -> SubscriptionId<'static>; }
    pub trait IntoSubscriptionCloseResponse {}
    impl IntoSubscriptionCloseResponse for core::SubscriptionResult {}
    impl IntoSubscriptionCloseResponse for () {}
    #[derive(Clone, Debug)]
    pub struct SubscriptionMessage(pub Value);
    impl SubscriptionMessage { pub fn from_json<T: serde::Serialize>(t: &T) -> Result<Self, serde_json::Error> { serde_json::to_value(t).map(SubscriptionMessage) } }
    #[derive(Debug)]
    pub struct DisconnectError(pub SubscriptionMessage);
    impl std::fmt::Display for DisconnectError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "disconnected") } }
    #[derive(Debug)]
    pub struct PendingSubscriptionAcceptError;
    impl std::fmt::Display for PendingSubscriptionAcceptError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "not accepted") } }
    /// the client's end
    #[derive(Default, Debug)]
    pub struct Client { pub got: Mutex<Vec<Value>>, pub closed: AtomicBool, pub refused: Mutex<Option<ErrorObjectOwned>> }
    #[derive(Clone, Debug)]
    pub struct SubscriptionSink(pub Arc<Client>);
    impl SubscriptionSink {
        pub fn is_closed(&self) -> bool { self.0.closed.load(Ordering::SeqCst) }
        pub async fn send(&self, m: SubscriptionMessage) -> Result<(), DisconnectError> { if self.is_closed() { Err(DisconnectError(m)) } else { self.0.got.lock().push(m.0); Ok(()) } }
        pub fn try_send(&mut self, m: SubscriptionMessage) -> Result<(), DisconnectError> { if self.is_closed() { Err(DisconnectError(m)) } else { self.0.got.lock().push(m.0); Ok(()) } }
        pub async fn closed(&self) { while !self.is_closed() { std::future::pending::<()>().await } }
    }
    pub struct PendingSubscriptionSink(pub Arc<Client>);
    impl PendingSubscriptionSink {
        pub async fn accept(self) -> Result<SubscriptionSink, PendingSubscriptionAcceptError> { if self.0.closed.load(Ordering::SeqCst) { Err(PendingSubscriptionAcceptError) } else { Ok(SubscriptionSink(self.0)) } }
        pub async fn reject(self, e: impl Into<ErrorObjectOwned>) { *self.0.refused.lock() = Some(e.into()) }
    }
    type Sub = Arc<dyn Fn(String, Arc<Client>) -> Pin<Box<dyn Future<Output = ()> + Send>> + Send + Sync>;
    pub type Answer = Result<Value, ErrorObjectOwned>;
    pub type Answering = Pin<Box<dyn Future<Output = Option<Answer>> + Send>>;
    type Call = Arc<dyn Fn(String, Vec<Value>) -> Answering + Send + Sync>;
    pub struct RpcModule<C> { pub ctx: Arc<C>, pub subs: Vec<Sub>, pub calls: Vec<Call> }
    impl<C> Clone for RpcModule<C> { fn clone(&self) -> Self { RpcModule { ctx: Arc::clone(&self.ctx), subs: self.subs.clone(), calls: self.calls.clone() } } }
    impl<C: Send + Sync + 'static> RpcModule<C> {
        pub fn new(c: C) -> Self { RpcModule { ctx: Arc::new(c), subs: vec![], calls: vec![] } }
        pub fn with_calls(c: C, f: fn(Arc<C>, String, Vec<Value>) -> Answering) -> Self {
            let mut m = RpcModule::new(c);
            let ctx = Arc::clone(&m.ctx);
            m.calls.push(Arc::new(move |n, p| f(Arc::clone(&ctx), n, p)));
            m
        }
        pub fn merge<D>(&mut self, o: RpcModule<D>) -> Result<(), core::StringError> { self.subs.extend(o.subs); self.calls.extend(o.calls); Ok(()) }
        pub fn register_subscription<R, F, Fut>(&mut self, _: &'static str, _: &'static str, _: &'static str, f: F) -> Result<(), core::StringError>
        where F: Fn(types::Params<'static>, PendingSubscriptionSink, Arc<C>) -> Fut + Send + Sync + Clone + 'static, Fut: Future<Output = R> + Send + 'static, R: IntoSubscriptionCloseResponse + Send {
            let ctx = Arc::clone(&self.ctx);
            self.subs.push(Arc::new(move |p, c| {
                let (f, ctx) = (f.clone(), Arc::clone(&ctx));
                Box::pin(async move { let _ = f(types::Params::new(Some(&p)).into_owned(), PendingSubscriptionSink(c), ctx).await; })
            }));
            Ok(())
        }
    }
    /// a running server: what its clients can do
    #[derive(Clone)]
    pub struct ServerHandle { subs: Vec<Sub>, calls: Vec<Call> }
    impl ServerHandle {
        pub fn stop(&self) -> Result<(), core::StringError> { Ok(()) }
        pub async fn stopped(self) {}
        /// calls a method; none if there is no such method
        pub async fn call(&self, method: &str, params: Vec<Value>) -> Option<Answer> {
            for c in &self.calls { if let Some(r) = c(method.into(), params.clone()).await { return Some(r) } }
            None
        }
        /// subscribes with these parameters
        pub async fn subscribe(&self, params: &str) -> Arc<Client> {
            let c = Arc::new(Client::default());
            (self.subs[0])(params.into(), Arc::clone(&c)).await;
            c
        }
    }
    pub struct Server;
    impl Server { pub fn start<C>(self, m: RpcModule<C>) -> ServerHandle { ServerHandle { subs: m.subs, calls: m.calls } } }
    #[derive(Default)]
    pub struct ServerBuilder;
    impl ServerBuilder {
        pub fn new() -> Self { ServerBuilder }
        pub fn http_only(self) -> Self { self }
        pub fn ws_only(self) -> Self { self }
        pub fn max_request_body_size(self, _: u32) -> Self { self }
        pub fn max_response_body_size(self, _: u32) -> Self { self }
        pub fn max_connections(self, _: u32) -> Self { self }
        pub fn set_middleware<T>(self, _: T) -> Self { self }
        pub fn set_id_provider<T: IdProvider>(self, _: T) -> Self { self }
        pub async fn build<T>(self, _: T) -> Result<Server, std::io::Error> { Ok(Server) }
    }
}
