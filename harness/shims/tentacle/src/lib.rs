//! Stand-in for the tentacle p2p framework: the same names, no sockets. A service hands its parts
//! to the harness (`take_parts`), which plays the transport: it opens and closes sessions, delivers
//! messages, and reads what the node under test asked for (`Cmd`).
pub use async_trait::async_trait;
pub use bytes;
pub use tentacle_multiaddr as multiaddr;

macro_rules! id { ($n:ident) => {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct $n(usize);
    impl $n { pub const fn new(n: usize) -> Self { $n(n) } pub const fn value(self) -> usize { self.0 } }
    impl From<usize> for $n { fn from(n: usize) -> Self { $n(n) } }
    impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}({})", stringify!($n), self.0) } }
} }
id!(SessionId);
id!(ProtocolId);

pub mod secio {
    use sha2::{Digest, Sha256};
    use std::fmt;
    use std::str::FromStr;
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct PeerId { inner: Vec<u8> }
    impl PeerId {
        pub fn from_public_key(k: &PublicKey) -> Self {
            let mut inner = vec![0x12, 0x20];
            inner.extend_from_slice(&Sha256::digest(&k.0));
            PeerId { inner }
        }
        pub fn from_bytes(b: Vec<u8>) -> Result<Self, PeerIdError> {
            if b.len() < 2 { return Err(PeerIdError::Empty); }
            if b[0] != 0x12 { return Err(PeerIdError::InvalidHashCode); }
            if b.len() != 34 || b[1] != 32 { return Err(PeerIdError::InvalidLength); }
            Ok(PeerId { inner: b })
        }
        pub fn random() -> Self {
            let mut inner = vec![0x12, 0x20];
            inner.extend((0..32).map(|_| rand::random::<u8>()));
            PeerId { inner }
        }
        pub fn as_bytes(&self) -> &[u8] { &self.inner }
        pub fn into_bytes(self) -> Vec<u8> { self.inner }
        pub fn to_base58(&self) -> String { bs58::encode(&self.inner).into_string() }
    }
    impl fmt::Debug for PeerId { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "PeerId({})", self.to_base58()) } }
    impl From<PublicKey> for PeerId { fn from(k: PublicKey) -> Self { PeerId::from_public_key(&k) } }
    impl FromStr for PeerId {
        type Err = PeerIdError;
        fn from_str(s: &str) -> Result<Self, PeerIdError> { PeerId::from_bytes(bs58::decode(s).into_vec().map_err(|_| PeerIdError::InvalidData)?) }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum PeerIdError { Empty, InvalidHashCode, InvalidLength, InvalidData }
    impl fmt::Display for PeerIdError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for PeerIdError {}
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct PublicKey(pub(crate) Vec<u8>);
    impl PublicKey {
        pub fn from_raw_key(k: Vec<u8>) -> Self { PublicKey(k) }
        pub fn inner_ref(&self) -> &Vec<u8> { &self.0 }
        pub fn inner(self) -> Vec<u8> { self.0 }
        pub fn peer_id(&self) -> PeerId { PeerId::from_public_key(self) }
    }
    #[derive(Clone, Debug)]
    pub struct SecioKeyPair(Vec<u8>);
    impl SecioKeyPair {
        pub fn secp256k1_generated() -> Self { SecioKeyPair((0..32).map(|_| rand::random::<u8>()).collect()) }
        pub fn secp256k1_raw_key<K: AsRef<[u8]>>(k: K) -> Result<Self, error::SecioError> {
            if k.as_ref().len() != 32 { return Err(error::SecioError::SecretGenerationFailed); }
            Ok(SecioKeyPair(k.as_ref().to_vec()))
        }
        pub fn public_key(&self) -> PublicKey { PublicKey(Sha256::digest(&self.0).to_vec()) }
        pub fn peer_id(&self) -> PeerId { self.public_key().peer_id() }
    }
    pub trait KeyProvider: Clone + Send + Sync + 'static { fn pubkey(&self) -> Vec<u8>; }
    impl KeyProvider for SecioKeyPair { fn pubkey(&self) -> Vec<u8> { self.public_key().0 } }
    pub mod error {
        #[derive(Debug)]
        pub enum SecioError { IoError(std::io::Error), ConnectSelf, SecretGenerationFailed, HandshakeParsingFailure }
        impl std::fmt::Display for SecioError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
        impl std::error::Error for SecioError {}
    }
}

pub mod error {
    use super::*;
    use std::fmt;
    macro_rules! show { ($($n:ident),*) => { $(
        impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
        impl std::error::Error for $n {}
    )* } }
    #[derive(Debug)]
    pub enum TransportErrorKind { Io(std::io::Error), NotSupported(multiaddr::Multiaddr), DnsResolverError(multiaddr::Multiaddr, std::io::Error) }
    #[derive(Debug)]
    pub enum HandshakeErrorKind { Timeout(String), SecioError(secio::error::SecioError) }
    #[derive(Debug)]
    pub enum DialerErrorKind { HandshakeError(HandshakeErrorKind), TransportError(TransportErrorKind), RepeatedConnection(SessionId), PeerIdNotMatch, IoError(std::io::Error) }
    #[derive(Debug)]
    pub enum ProtocolHandleErrorKind { AbnormallyClosed(Option<SessionId>) }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum SendErrorKind { BrokenPipe, WouldBlock }
    #[derive(Debug)]
    pub enum ListenErrorKind { IoError(std::io::Error) }
    show!(TransportErrorKind, HandshakeErrorKind, DialerErrorKind, ProtocolHandleErrorKind, SendErrorKind, ListenErrorKind);
}

pub mod runtime { pub use tokio::{spawn, task::JoinHandle}; }
pub mod yamux {
    #[derive(Clone, Debug, Default)]
    pub struct Config { pub max_stream_count: usize, pub max_stream_window_size: u32, pub enable_keepalive: bool }
}

pub mod utils {
    use crate::multiaddr::{Multiaddr, Protocol};
    use crate::secio::PeerId;
    use std::net::{IpAddr, SocketAddr};
    pub fn multiaddr_to_socketaddr(a: &Multiaddr) -> Option<SocketAddr> {
        let mut iter = a.iter().peekable();
        while let Some(p) = iter.next() {
            let ip: IpAddr = match p { Protocol::Ip4(i) => i.into(), Protocol::Ip6(i) => i.into(), _ => continue };
            if let Some(Protocol::Tcp(port)) = iter.peek() { return Some(SocketAddr::new(ip, *port)); }
        }
        None
    }
    pub fn extract_peer_id(a: &Multiaddr) -> Option<PeerId> {
        a.iter().find_map(|p| match p { Protocol::P2P(b) => PeerId::from_bytes(b.to_vec()).ok(), _ => None })
    }
    pub fn is_reachable(ip: IpAddr) -> bool {
        match ip {
            IpAddr::V4(i) => !i.is_unspecified() && !i.is_private() && !i.is_loopback() && !i.is_link_local() && !i.is_broadcast() && !i.is_documentation() && !i.is_multicast(),
            IpAddr::V6(i) => !(i.is_unspecified() || i.is_loopback() || i.is_multicast() || (i.segments()[0] & 0xfe00) == 0xfc00 || (i.segments()[0] & 0xffc0) == 0xfe80),
        }
    }
    pub mod dns {
        use crate::multiaddr::Multiaddr;
        use std::{future::Future, pin::Pin, task::{Context, Poll}};
        pub struct DnsResolver;
        impl DnsResolver { pub fn new(_a: Multiaddr) -> Option<Self> { None } }
        impl Future for DnsResolver {
            type Output = Result<Multiaddr, (Multiaddr, std::io::Error)>;
            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { Poll::Pending }
        }
    }
}

pub mod service {
    use super::*;
    use crate::context::{ServiceContext, SessionContext};
    use crate::error::*;
    use crate::multiaddr::Multiaddr;
    use bytes::Bytes;
    use std::any::Any;
    use std::sync::{Arc, Mutex};
    use std::time::Duration;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum SessionType { Outbound, Inbound }
    impl SessionType { pub fn is_outbound(self) -> bool { self == SessionType::Outbound } pub fn is_inbound(self) -> bool { self == SessionType::Inbound } }
    pub enum TargetSession {
        All,
        Filter(Box<dyn FnMut(&SessionId) -> bool + Send + 'static>),
        Multi(Box<dyn Iterator<Item = SessionId> + Send + 'static>),
        Single(SessionId),
    }
    pub enum TargetProtocol { All, Filter(Box<dyn Fn(&ProtocolId) -> bool + Sync + Send + 'static>), Single(ProtocolId) }
    pub enum ProtocolHandle<T> { Callback(T), None }
    pub enum HandshakeType<T> { Secio(T), Noop }
    pub struct TcpSocket(tokio::net::TcpSocket);
    impl std::os::unix::io::AsRawFd for TcpSocket { fn as_raw_fd(&self) -> std::os::unix::io::RawFd { std::os::unix::io::AsRawFd::as_raw_fd(&self.0) } }
    impl std::os::unix::io::AsFd for TcpSocket {
        fn as_fd(&self) -> std::os::unix::io::BorrowedFd<'_> { unsafe { std::os::unix::io::BorrowedFd::borrow_raw(std::os::unix::io::AsRawFd::as_raw_fd(&self.0)) } }
    }
    pub type Callback = Box<dyn crate::traits::ServiceProtocol + Send + 'static + Unpin>;
    pub struct ProtocolMeta {
        pub id: ProtocolId,
        pub name: String,
        pub handle: Option<Callback>,
        pub before_send: Option<Box<dyn Fn(Bytes) -> Bytes + Send + 'static>>,
        pub before_receive: Option<Box<dyn Fn(bytes::BytesMut) -> Result<Bytes, std::io::Error> + Send + 'static>>,
    }
    #[derive(Debug)]
    pub enum ServiceError {
        DialerError { address: Multiaddr, error: DialerErrorKind },
        ListenError { address: Multiaddr, error: ListenErrorKind },
        ProtocolSelectError { proto_name: Option<String>, session_context: Arc<SessionContext> },
        ProtocolError { id: SessionId, proto_id: ProtocolId, error: std::io::Error },
        SessionTimeout { session_context: Arc<SessionContext> },
        MuxerError { session_context: Arc<SessionContext>, error: std::io::Error },
        SessionBlocked { session_context: Arc<SessionContext> },
        ProtocolHandleError { proto_id: ProtocolId, error: ProtocolHandleErrorKind },
    }
    #[derive(Debug)]
    pub enum ServiceEvent {
        ListenClose { address: Multiaddr },
        ListenStarted { address: Multiaddr },
        SessionClose { session_context: Arc<SessionContext> },
        SessionOpen { session_context: Arc<SessionContext> },
    }
    /// What the node asked the transport to do.
    pub enum Cmd {
        Send { to: TargetSession, proto: ProtocolId, data: Bytes, quick: bool },
        Dial { addr: Multiaddr, proto: Option<ProtocolId> },
        Disconnect(SessionId),
        Open { session: SessionId, target: TargetProtocol },
        Notify { proto: ProtocolId, every: Duration, token: u64 },
        Shutdown,
    }
    #[derive(Default)]
    pub struct Line { pub cmds: Vec<Cmd>, pub broken: bool }
    #[derive(Clone, Default)]
    pub struct ServiceAsyncControl(pub Arc<Mutex<Line>>);
    type R = Result<(), SendErrorKind>;
    impl ServiceAsyncControl {
        fn put(&self, c: Cmd) -> R {
            let mut l = self.0.lock().unwrap();
            if l.broken { return Err(SendErrorKind::BrokenPipe); }
            l.cmds.push(c);
            Ok(())
        }
        pub fn drain(&self) -> Vec<Cmd> { std::mem::take(&mut self.0.lock().unwrap().cmds) }
        pub async fn send_message_to(&self, s: SessionId, proto: ProtocolId, data: Bytes) -> R { self.put(Cmd::Send { to: TargetSession::Single(s), proto, data, quick: false }) }
        pub async fn quick_send_message_to(&self, s: SessionId, proto: ProtocolId, data: Bytes) -> R { self.put(Cmd::Send { to: TargetSession::Single(s), proto, data, quick: true }) }
        pub async fn filter_broadcast(&self, to: TargetSession, proto: ProtocolId, data: Bytes) -> R { self.put(Cmd::Send { to, proto, data, quick: false }) }
        pub async fn quick_filter_broadcast(&self, to: TargetSession, proto: ProtocolId, data: Bytes) -> R { self.put(Cmd::Send { to, proto, data, quick: true }) }
        pub async fn dial(&self, addr: Multiaddr, t: TargetProtocol) -> R {
            self.put(Cmd::Dial { addr, proto: if let TargetProtocol::Single(p) = t { Some(p) } else { None } })
        }
        pub async fn disconnect(&self, s: SessionId) -> R { self.put(Cmd::Disconnect(s)) }
        pub async fn open_protocols(&self, session: SessionId, target: TargetProtocol) -> R { self.put(Cmd::Open { session, target }) }
        pub async fn set_service_notify(&self, proto: ProtocolId, every: Duration, token: u64) -> R { self.put(Cmd::Notify { proto, every, token }) }
        pub async fn shutdown(&self) -> R { self.put(Cmd::Shutdown) }
        pub async fn close(&self) -> R { self.put(Cmd::Shutdown) }
    }
    pub struct Service<H, K> { pub(crate) control: ServiceAsyncControl, pub(crate) _p: std::marker::PhantomData<fn() -> (H, K)> }
    impl<H, K> Service<H, K> {
        pub fn control(&self) -> &ServiceAsyncControl { &self.control }
        pub async fn listen(&mut self, a: Multiaddr) -> Result<Multiaddr, TransportErrorKind> { Ok(a) }
        pub async fn run(&mut self) { std::future::pending::<()>().await }
    }
    /// The parts of the last service built on this thread.
    pub struct Parts { pub control: ServiceAsyncControl, pub handler: Box<dyn Any + Send>, pub protocols: Vec<ProtocolMeta>, pub max_connections: usize }
    thread_local! { pub(crate) static PARTS: std::cell::RefCell<Option<Parts>> = Default::default(); }
    pub fn take_parts() -> Option<Parts> { PARTS.with(|p| p.borrow_mut().take()) }
    pub fn context(control: &ServiceAsyncControl) -> ServiceContext { ServiceContext::new(control.clone()) }
}

pub mod context {
    use super::*;
    use crate::multiaddr::Multiaddr;
    use crate::service::{ServiceAsyncControl, SessionType};
    use bytes::Bytes;
    use std::ops::{Deref, DerefMut};
    type R = Result<(), error::SendErrorKind>;
    #[derive(Clone, Debug)]
    pub struct SessionContext { pub id: SessionId, pub address: Multiaddr, pub ty: SessionType, pub remote_pubkey: Option<secio::PublicKey> }
    pub struct ServiceContext { control: ServiceAsyncControl, pub listens: Vec<Multiaddr> }
    impl ServiceContext {
        pub fn new(control: ServiceAsyncControl) -> Self { ServiceContext { control, listens: vec![] } }
        pub fn control(&self) -> &ServiceAsyncControl { &self.control }
        pub fn listens(&self) -> &[Multiaddr] { &self.listens }
    }
    impl Deref for ServiceContext { type Target = ServiceAsyncControl; fn deref(&self) -> &ServiceAsyncControl { &self.control } }
    pub struct ProtocolContext { inner: ServiceContext, pub proto_id: ProtocolId }
    impl ProtocolContext {
        pub fn new(inner: ServiceContext, proto_id: ProtocolId) -> Self { ProtocolContext { inner, proto_id } }
        pub fn as_mut<'a>(&'a mut self, session: &'a SessionContext) -> ProtocolContextMutRef<'a> { ProtocolContextMutRef { inner: self, session } }
    }
    impl Deref for ProtocolContext { type Target = ServiceContext; fn deref(&self) -> &ServiceContext { &self.inner } }
    impl DerefMut for ProtocolContext { fn deref_mut(&mut self) -> &mut ServiceContext { &mut self.inner } }
    pub struct ProtocolContextMutRef<'a> { inner: &'a mut ProtocolContext, pub session: &'a SessionContext }
    impl ProtocolContextMutRef<'_> {
        pub async fn send_message(&self, data: Bytes) -> R { self.inner.send_message_to(self.session.id, self.inner.proto_id, data).await }
        pub async fn quick_send_message(&self, data: Bytes) -> R { self.inner.quick_send_message_to(self.session.id, self.inner.proto_id, data).await }
        pub fn proto_id(&self) -> ProtocolId { self.inner.proto_id }
    }
    impl Deref for ProtocolContextMutRef<'_> { type Target = ProtocolContext; fn deref(&self) -> &ProtocolContext { self.inner } }
    impl DerefMut for ProtocolContextMutRef<'_> { fn deref_mut(&mut self) -> &mut ProtocolContext { self.inner } }
}

pub mod traits {
    use super::*;
    use crate::context::*;
    use crate::service::{ServiceError, ServiceEvent};
    #[async_trait]
    pub trait ServiceHandle: Send {
        async fn handle_error(&mut self, _c: &mut ServiceContext, _e: ServiceError) {}
        async fn handle_event(&mut self, _c: &mut ServiceContext, _e: ServiceEvent) {}
    }
    #[async_trait]
    pub trait ServiceProtocol: Send {
        async fn init(&mut self, context: &mut ProtocolContext);
        async fn connected(&mut self, _c: ProtocolContextMutRef<'_>, _version: &str) {}
        async fn disconnected(&mut self, _c: ProtocolContextMutRef<'_>) {}
        async fn received(&mut self, _c: ProtocolContextMutRef<'_>, _data: bytes::Bytes) {}
        async fn notify(&mut self, _c: &mut ProtocolContext, _token: u64) {}
    }
}

pub mod builder {
    use super::*;
    use crate::service::*;
    use bytes::Bytes;
    use std::time::Duration;
    pub struct MetaBuilder { meta: ProtocolMeta, name: Box<dyn Fn(ProtocolId) -> String> }
    impl Default for MetaBuilder {
        fn default() -> Self {
            MetaBuilder { meta: ProtocolMeta { id: 0.into(), name: String::new(), handle: None, before_send: None, before_receive: None }, name: Box::new(|i| format!("/p2p/{}", i.value())) }
        }
    }
    impl MetaBuilder {
        pub fn id(mut self, id: ProtocolId) -> Self { self.meta.id = id; self }
        pub fn name<F: Fn(ProtocolId) -> String + 'static>(mut self, f: F) -> Self { self.name = Box::new(f); self }
        pub fn support_versions(self, _v: Vec<String>) -> Self { self }
        pub fn codec<T, F: Fn() -> Box<T>>(self, _f: F) -> Self { self }
        pub fn before_send<F: Fn(Bytes) -> Bytes + Send + 'static>(mut self, f: F) -> Self { self.meta.before_send = Some(Box::new(f)); self }
        pub fn before_receive<F: Fn() -> Option<Box<dyn Fn(bytes::BytesMut) -> Result<Bytes, std::io::Error> + Send + 'static>>>(mut self, f: F) -> Self { self.meta.before_receive = f(); self }
        pub fn service_handle<F: FnOnce() -> ProtocolHandle<Callback>>(mut self, f: F) -> Self {
            if let ProtocolHandle::Callback(c) = f() { self.meta.handle = Some(c) }
            self
        }
        pub fn build(mut self) -> ProtocolMeta { self.meta.name = (self.name)(self.meta.id); self.meta }
    }
    pub struct ServiceBuilder<K> { protocols: Vec<ProtocolMeta>, max: usize, _k: std::marker::PhantomData<fn() -> K> }
    impl<K> Default for ServiceBuilder<K> { fn default() -> Self { Self::new() } }
    impl<K> ServiceBuilder<K> {
        pub fn new() -> Self { ServiceBuilder { protocols: vec![], max: 0, _k: Default::default() } }
        pub fn insert_protocol(mut self, m: ProtocolMeta) -> Self { self.protocols.push(m); self }
        pub fn handshake_type(self, _h: HandshakeType<K>) -> Self { self }
        pub fn yamux_config(self, _c: yamux::Config) -> Self { self }
        pub fn forever(self, _f: bool) -> Self { self }
        pub fn max_connection_number(mut self, n: usize) -> Self { self.max = n; self }
        pub fn set_send_buffer_size(self, _n: usize) -> Self { self }
        pub fn set_recv_buffer_size(self, _n: usize) -> Self { self }
        pub fn set_channel_size(self, _n: usize) -> Self { self }
        pub fn timeout(self, _d: Duration) -> Self { self }
        pub fn tcp_config<F: Fn(TcpSocket) -> Result<TcpSocket, std::io::Error> + Send + Sync + 'static>(self, _f: F) -> Self { self }
        pub fn build<H: Send + 'static>(self, handler: H) -> Service<H, K> {
            let control = ServiceAsyncControl::default();
            PARTS.with(|p| *p.borrow_mut() = Some(Parts { control: control.clone(), handler: Box::new(handler), protocols: self.protocols, max_connections: self.max }));
            Service { control, _p: Default::default() }
        }
    }
}
