//! A node with its real network service, and the transport below it played by the harness.
use core_network::{NetworkConfig, NetworkService, NetworkServiceHandle, PeerManager, ServiceHandler};
use protocol::types::Bytes;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::Arc;
use tentacle::context::{ProtocolContext, ServiceContext, SessionContext};
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::{PublicKey, SecioKeyPair};
use tentacle::service::*;
use tentacle::traits::ServiceHandle;
use tentacle::{ProtocolId, SessionId};

pub const PING: usize = 1;
pub const IDENTIFY: usize = 2;
pub const DISCOVERY: usize = 3;
pub const TRANSMITTER: usize = 4;
pub const FEELER: usize = 5;

#[derive(prost::Message)]
pub struct NetMsg {
    #[prost(map = "string, bytes", tag = "1")]
    pub headers: HashMap<String, Vec<u8>>,
    #[prost(string, tag = "2")]
    pub url: String,
    #[prost(bytes, tag = "3")]
    pub content: Vec<u8>,
}
impl NetMsg {
    pub fn bytes(url: &str, content: Vec<u8>) -> Bytes {
        prost::Message::encode_to_vec(&NetMsg { headers: HashMap::new(), url: url.into(), content }).into()
    }
}

pub struct Proto { meta: ProtocolMeta, cx: ProtocolContext }
pub struct World {
    pub service: Option<NetworkService<SecioKeyPair>>,
    pub handle: NetworkServiceHandle,
    pub ctl: ServiceAsyncControl,
    pub handler: Box<ServiceHandler>,
    pub pm: Arc<PeerManager>,
    pub protos: BTreeMap<usize, Proto>,
    pub sessions: BTreeMap<usize, (Arc<SessionContext>, Vec<usize>)>,
    sctx: ServiceContext,
}
/// One thing sent to a session.
pub struct Sent { pub to: usize, pub proto: usize, pub data: Bytes }

pub fn key(peer: usize) -> PublicKey { PublicKey::from_raw_key(vec![peer as u8; 33]) }
pub fn addr(ip: &str, port: usize, peer: usize) -> Multiaddr {
    let v = if ip.contains(':') { "ip6" } else { "ip4" };
    format!("/{v}/{ip}/tcp/{port}/p2p/{}", key(peer).peer_id().to_base58()).parse().unwrap()
}
pub fn config(dir: &Path, chain: u64) -> NetworkConfig {
    let mut c = NetworkConfig::new().secio_keypair(&[9u8; 32]).unwrap().chain_id(chain);
    c.peer_store_path = dir.to_path_buf();
    c
}
impl World {
    pub fn new(c: NetworkConfig, set: impl FnOnce(&mut NetworkService<SecioKeyPair>)) -> Self {
        let k = c.secio_keypair.clone();
        let mut service = NetworkService::new(c, k);
        set(&mut service);
        let p = take_parts().unwrap();
        let handler = p.handler.downcast::<ServiceHandler>().expect("the service handler");
        let protos = p.protocols.into_iter().map(|m| (m.id.value(), Proto { cx: ProtocolContext::new(ServiceContext::new(p.control.clone()), m.id), meta: m })).collect();
        World { handle: service.handle(), service: Some(service), pm: Arc::clone(&handler.peer_store), handler, protos, sessions: BTreeMap::new(), sctx: ServiceContext::new(p.control.clone()), ctl: p.control }
    }
    pub async fn init(&mut self) {
        for p in self.protos.values_mut() { p.meta.handle.as_mut().unwrap().init(&mut p.cx).await }
    }
    pub async fn open(&mut self, sid: usize, a: &Multiaddr, peer: usize, outbound: bool) {
        let s = Arc::new(SessionContext { id: SessionId::new(sid), address: a.clone(), ty: if outbound { SessionType::Outbound } else { SessionType::Inbound }, remote_pubkey: Some(key(peer)) });
        self.sessions.insert(sid, (Arc::clone(&s), vec![]));
        self.handler.handle_event(&mut self.sctx, ServiceEvent::SessionOpen { session_context: s }).await;
    }
    pub async fn protocol(&mut self, sid: usize, proto: usize) {
        let (s, open) = self.sessions.get_mut(&sid).unwrap();
        open.push(proto);
        let p = self.protos.get_mut(&proto).unwrap();
        p.meta.handle.as_mut().unwrap().connected(p.cx.as_mut(s), "1").await;
    }
    pub async fn close(&mut self, sid: usize) {
        let (s, open) = self.sessions.remove(&sid).unwrap();
        for proto in open {
            let p = self.protos.get_mut(&proto).unwrap();
            p.meta.handle.as_mut().unwrap().disconnected(p.cx.as_mut(&s)).await;
        }
        self.handler.handle_event(&mut self.sctx, ServiceEvent::SessionClose { session_context: s }).await;
    }
    pub async fn error(&mut self, e: ServiceError) { self.handler.handle_error(&mut self.sctx, e).await }
    pub async fn notify(&mut self, proto: usize, token: u64) {
        let p = self.protos.get_mut(&proto).unwrap();
        p.meta.handle.as_mut().unwrap().notify(&mut p.cx, token).await;
    }
    /// What a peer sends arrives in the framing of the protocol; None: it cannot be read.
    fn frame(&self, proto: usize, data: Bytes) -> Option<Bytes> {
        let m = &self.protos[&proto].meta;
        let wire = match &m.before_send { Some(f) => f(data), None => data };
        match &m.before_receive { Some(f) => f(wire.as_ref().into()).ok(), None => Some(wire) }
    }
    pub async fn deliver(&mut self, sid: usize, proto: usize, data: Bytes) {
        let Some(data) = self.frame(proto, data) else { return };
        let s = self.sessions[&sid].0.clone();
        let p = self.protos.get_mut(&proto).unwrap();
        p.meta.handle.as_mut().unwrap().received(p.cx.as_mut(&s), data).await;
    }
    /// Everything asked of the transport since the last time, messages by the session they go to.
    pub fn drain(&mut self) -> (Vec<Sent>, Vec<Cmd>) {
        let (mut sent, mut rest) = (vec![], vec![]);
        for c in self.ctl.drain() {
            match c {
                Cmd::Send { to, proto, data, .. } => {
                    let open: Vec<usize> = self.sessions.iter().filter(|(_, s)| s.1.contains(&proto.value())).map(|(i, _)| *i).collect();
                    let to: Vec<usize> = match to {
                        TargetSession::All => open,
                        TargetSession::Filter(mut f) => open.into_iter().filter(|i| f(&SessionId::new(*i))).collect(),
                        TargetSession::Multi(i) => i.map(|s| s.value()).collect(),
                        TargetSession::Single(s) => vec![s.value()],
                    };
                    let data = self.frame(proto.value(), data).unwrap_or_default();
                    sent.extend(to.into_iter().map(|to| Sent { to, proto: proto.value(), data: data.clone() }));
                }
                c => rest.push(c),
            }
        }
        (sent, rest)
    }
}
pub fn pid(n: usize) -> ProtocolId { ProtocolId::new(n) }
/// lets everything go on that can
pub async fn settle() {
    for _ in 0..40 { protocol::tokio::task::yield_now().await }
}
/// the same after time went by
pub async fn settle_timers() {
    for _ in 0..2 {
        settle().await;
        protocol::tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    }
    settle().await
}
