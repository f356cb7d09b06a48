//! What the memory pool and the consensus use of core/network, which cannot be built offline (tentacle is
//! not available): who sent a message, and the identity of a peer.

use protocol::traits::Context;
use protocol::types::Bytes;
use protocol::{ProtocolError, ProtocolErrorKind};

#[derive(Debug)]
pub struct NetworkError(pub String);

impl std::fmt::Display for NetworkError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for NetworkError {}

impl From<NetworkError> for ProtocolError {
    fn from(e: NetworkError) -> Self {
        ProtocolError::new(ProtocolErrorKind::Network, Box::new(e))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct SessionId(usize);

impl SessionId {
    pub const fn new(n: usize) -> Self {
        SessionId(n)
    }

    pub const fn value(self) -> usize {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PeerId(Vec<u8>);

impl PeerId {
    pub fn to_base58(&self) -> String {
        self.0.iter().map(|b| format!("{b:02x}")).collect()
    }
}

pub trait PeerIdExt {
    fn from_pubkey_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> {
        Ok(PeerId(bytes.as_ref().to_vec()))
    }

    fn from_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> {
        Ok(PeerId(bytes.as_ref().to_vec()))
    }

    fn to_string(&self) -> String;

    fn into_bytes_ext(self) -> Bytes;
}

impl PeerIdExt for PeerId {
    fn into_bytes_ext(self) -> Bytes {
        Bytes::from(self.0)
    }

    fn to_string(&self) -> String {
        self.to_base58()
    }
}

pub trait NetworkContext: Sized {
    fn session_id(&self) -> Result<SessionId, NetworkError>;
    fn set_session_id(&mut self, sid: SessionId) -> Self;
    fn remote_peer_id(&self) -> Result<PeerId, NetworkError>;
    fn set_remote_peer_id(&mut self, pid: PeerId) -> Self;
}

impl NetworkContext for Context {
    fn session_id(&self) -> Result<SessionId, NetworkError> {
        self.get::<usize>("session_id")
            .map(|s| SessionId(*s))
            .ok_or_else(|| NetworkError("no session id".into()))
    }

    fn set_session_id(&mut self, sid: SessionId) -> Self {
        self.with_value::<usize>("session_id", sid.value())
    }

    fn remote_peer_id(&self) -> Result<PeerId, NetworkError> {
        self.get::<PeerId>("remote_peer_id")
            .cloned()
            .ok_or_else(|| NetworkError("no remote peer id".into()))
    }

    fn set_remote_peer_id(&mut self, pid: PeerId) -> Self {
        self.with_value::<PeerId>("remote_peer_id", pid)
    }
}
