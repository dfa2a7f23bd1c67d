//! Stand-in for what core-consensus and core-mempool import from core-network.
use protocol::traits::Context;
use protocol::types::{Bytes, Hasher};
use protocol::{ProtocolError, ProtocolErrorKind};
#[derive(Debug)]
pub struct NetworkError;
impl std::fmt::Display for NetworkError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "network") } }
impl std::error::Error for NetworkError {}
impl From<NetworkError> for ProtocolError { fn from(e: NetworkError) -> Self { ProtocolError::new(ProtocolErrorKind::Network, Box::new(e)) } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PeerId(pub Vec<u8>);
pub trait PeerIdExt {
    fn from_pubkey_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> { Ok(PeerId(Hasher::digest(bytes.as_ref()).as_bytes().to_vec())) }
    fn into_bytes_ext(self) -> Bytes;
}
impl PeerIdExt for PeerId { fn into_bytes_ext(self) -> Bytes { Bytes::from(self.0) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct SessionId(usize);
impl SessionId { pub fn value(&self) -> usize { self.0 } }
pub trait NetworkContext: Sized {
    fn session_id(&self) -> Result<SessionId, NetworkError>;
    fn set_session_id(&mut self, sid: usize) -> Self;
}
impl NetworkContext for Context {
    fn session_id(&self) -> Result<SessionId, NetworkError> { self.get::<usize>("session_id").map(|s| SessionId(*s)).ok_or(NetworkError) }
    fn set_session_id(&mut self, sid: usize) -> Self { self.with_value::<usize>("session_id", sid) }
}
