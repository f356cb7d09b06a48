//! One real network service, with the p2p framework below it played by the harness.
use core_network::multiaddr::{Multiaddr, Protocol};
use core_network::{NetworkConfig, NetworkService, NetworkServiceHandle, PeerId, PeerManager, SecioKeyPair, ServiceHandler};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use tentacle::bytes::Bytes;
use tentacle::context::SessionContext;
use tentacle::service::{ServiceEvent, SessionType, TargetProtocol, TargetSession};
use tentacle::sim::{self, Command};
use tentacle::{ProtocolId, SessionId};

pub const PING: usize = 1;
pub const IDENTIFY: usize = 2;
pub const DISCOVERY: usize = 3;
pub const TRANSMITTER: usize = 4;
pub const FEELER: usize = 5;
pub const CHAIN: u64 = 2022;
pub const ME: u8 = 200;

pub fn proto(i: usize) -> ProtocolId {
    ProtocolId::new(i)
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}

pub fn key(i: u8) -> SecioKeyPair {
    SecioKeyPair::secp256k1_raw_key([i; 32]).unwrap()
}

pub fn id(i: u8) -> PeerId {
    key(i).peer_id()
}

/// Public address number `ip` of peer `p`.
pub fn addr(ip: u8, port: u16, p: u8) -> Multiaddr {
    with_id(&format!("/ip4/47.{}.3.7/tcp/{}", ip, port), p)
}

pub fn with_id(text: &str, p: u8) -> Multiaddr {
    let mut a: Multiaddr = text.parse().unwrap();
    a.push(Protocol::P2P(id(p).into_bytes().into()));
    a
}

thread_local!(static SHIFT: Cell<Option<u64>> = const { Cell::new(None) });

#[repr(C)]
pub struct Timespec {
    sec:  i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// The monotonic clock of a thread that asked for it stands still and moves only by [`Clock::advance`].
///
/// # Safety
/// Called by the standard library with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if id == 1 {
        if let Ok(Some(ms)) = SHIFT.try_with(|s| s.get()) {
            (*ts).sec = (ms / 1000) as i64;
            (*ts).nsec = (ms % 1000 * 1_000_000) as i64;
            return 0;
        }
    }
    syscall(228, id, ts) as i32
}

/// While it lives, the clocks of this thread (monotonic, and that of the peer store) are the harness's.
pub struct Clock;

pub const START: u64 = 1_000_000_000;
pub const UNIX: u64 = 1_700_000_000_000;

impl Clock {
    pub fn start() -> Clock {
        SHIFT.with(|s| s.set(Some(START)));
        faketime::set(UNIX);
        Clock
    }

    pub fn advance(&self, ms: u64) {
        SHIFT.with(|s| s.set(Some(s.get().unwrap() + ms)));
        faketime::advance(ms);
    }
}

impl Drop for Clock {
    fn drop(&mut self) {
        SHIFT.with(|s| s.set(None));
    }
}

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A directory of its own, removed at the end.
pub struct Dir(pub std::path::PathBuf);

impl Dir {
    pub fn new() -> Dir {
        let base = std::path::Path::new("/dev/shm");
        let base = if base.is_dir() { base.to_owned() } else { std::env::temp_dir() };
        Dir(base.join(format!("axon-net-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed))))
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Session {
    pub ctx:  Arc<SessionContext>,
    pub peer: u8,
    pub open: BTreeSet<usize>,
}

/// What the node asked of the framework, in plain words.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Did {
    Send { to: Vec<usize>, proto: usize, data: Bytes, quick: bool },
    Dial { addr: String, protos: Vec<usize> },
    Disconnect(usize),
    Open { id: usize, protos: Vec<usize> },
    Notify { proto: usize, secs: u64, token: u64 },
    Listen(String),
    Shutdown,
}

fn protos(t: TargetProtocol) -> Vec<usize> {
    match t {
        TargetProtocol::All => (1..=5).collect(),
        TargetProtocol::Single(i) => vec![i.value()],
        TargetProtocol::Filter(f) => (1..=5).filter(|i| f(&proto(*i))).collect(),
    }
}

pub struct Net {
    pub node:     sim::Node,
    pub handle:   NetworkServiceHandle,
    pub service:  Option<NetworkService<SecioKeyPair>>,
    pub peers:    Arc<PeerManager>,
    pub sessions: BTreeMap<usize, Session>,
    next:         usize,
    pub dir:      Dir,
}

impl Net {
    pub fn new(me: u8, f: impl FnOnce(&mut NetworkConfig)) -> Net {
        let dir = Dir::new();
        let mut config = NetworkConfig::new().peer_store_dir(dir.0.clone()).chain_id(CHAIN);
        config.secio_keypair = key(me);
        f(&mut config);
        let service = NetworkService::new(config, key(me));
        let node = sim::take();
        let peers = Arc::clone(&node.handle.any().downcast_ref::<ServiceHandler>().unwrap().peer_store);
        Net { node, handle: service.handle(), service: Some(service), peers, sessions: BTreeMap::new(), next: 1, dir }
    }

    /// Everything the node asked for since the last call, resolved for the sessions there are.
    pub fn did(&mut self) -> Vec<Did> {
        let mut out = vec![];
        while let Some(c) = self.node.queue().pop() {
            out.push(match c {
                Command::Send { to, proto, data, quick } => {
                    let p = proto.value();
                    let all = || self.sessions.iter().filter(|(_, s)| s.open.contains(&p)).map(|(i, _)| *i);
                    let to: Vec<usize> = match to {
                        TargetSession::All => all().collect(),
                        TargetSession::Single(i) => vec![i.value()],
                        TargetSession::Multi(it) => it.map(|i| i.value()).collect(),
                        TargetSession::Filter(mut f) => {
                            // the framework asks about every session it has
                            let yes: Vec<usize> =
                                self.sessions.keys().copied().filter(|i| f(&SessionId::new(*i))).collect();
                            yes.into_iter().filter(|i| self.sessions[i].open.contains(&p)).collect()
                        }
                    };
                    Did::Send { to, proto: p, data, quick }
                }
                Command::Dial { addr, target } => Did::Dial { addr: addr.to_string(), protos: protos(target) },
                Command::Disconnect(i) => Did::Disconnect(i.value()),
                Command::Open { id, target } => Did::Open { id: id.value(), protos: protos(target) },
                Command::Notify { proto, interval, token } => {
                    Did::Notify { proto: proto.value(), secs: interval.as_secs(), token }
                }
                Command::Listen(a) => Did::Listen(a.to_string()),
                Command::Shutdown => Did::Shutdown,
            });
        }
        out
    }

    /// A new session, after the handshake: its number.
    pub async fn open(&mut self, peer: u8, address: Multiaddr, ty: SessionType) -> usize {
        let n = self.next;
        self.next += 1;
        let ctx = Arc::new(SessionContext {
            id: SessionId::new(n),
            address,
            ty,
            remote_pubkey: Some(key(peer).public_key()),
        });
        self.sessions.insert(n, Session { ctx: Arc::clone(&ctx), peer, open: BTreeSet::new() });
        self.node.event(ServiceEvent::SessionOpen { session_context: ctx }).await;
        n
    }

    pub fn ctx(&self, s: usize) -> Arc<SessionContext> {
        Arc::clone(&self.sessions[&s].ctx)
    }

    pub async fn connect(&mut self, s: usize, p: usize) {
        let ctx = self.ctx(s);
        if self.sessions.get_mut(&s).unwrap().open.insert(p) {
            self.node.connected(proto(p), &ctx).await;
        }
    }

    pub async fn receive(&mut self, s: usize, p: usize, data: Bytes) {
        let ctx = self.ctx(s);
        self.node.received(proto(p), &ctx, data).await;
    }

    /// The session ends: its protocols are closed first.
    pub async fn close(&mut self, s: usize) {
        let Some(x) = self.sessions.remove(&s) else { return };
        for p in &x.open {
            self.node.disconnected(proto(*p), &x.ctx).await;
        }
        self.node.event(ServiceEvent::SessionClose { session_context: x.ctx }).await;
    }

    /// A session with all protocols, as after a successful identification.
    pub async fn join(&mut self, peer: u8, ip: u8, ty: SessionType) -> usize {
        let s = self.open(peer, addr(ip, 1000, peer), ty).await;
        self.connect(s, IDENTIFY).await;
        for p in [PING, DISCOVERY, TRANSMITTER] {
            self.connect(s, p).await;
        }
        s
    }

    pub fn store(&self, what: impl FnOnce(&mut core_network::peer_manager::PeerStore)) {
        self.peers.with_peer_store_mut(what)
    }
}

/// Lets the spawned tasks run until none can go on.
pub async fn settle() {
    for _ in 0..20 {
        tokio::task::yield_now().await;
    }
}

/// Fields of a protobuf message.
pub mod pb {
    use prost::wire;

    #[derive(Default, Clone)]
    pub struct M(pub Vec<u8>);

    impl M {
        pub fn b(mut self, tag: u32, v: &[u8]) -> M {
            wire::put_bytes(&mut self.0, tag, v);
            self
        }

        pub fn n(mut self, tag: u32, v: u64) -> M {
            wire::put_varint(&mut self.0, tag, v);
            self
        }

        pub fn m(self, tag: u32, v: M) -> M {
            self.b(tag, &v.0)
        }
    }

    pub fn bytes_of(data: &[u8], tag: u32) -> Vec<Vec<u8>> {
        let mut out = vec![];
        let mut d = data;
        wire::each(&mut d, |t, v| {
            if t == tag {
                out.push(wire::bytes(v)?.to_vec());
            }
            Ok(())
        })
        .unwrap();
        out
    }

    pub fn number_of(data: &[u8], tag: u32) -> Option<u64> {
        let mut out = None;
        let mut d = data;
        wire::each(&mut d, |t, v| {
            if t == tag {
                out = Some(wire::number(v)?);
            }
            Ok(())
        })
        .unwrap();
        out
    }
}

/// A message of the transmitter as other nodes send it.
pub fn message(url: &str, content: &[u8], headers: &[(&str, &[u8])]) -> Bytes {
    let mut m = pb::M::default();
    for (k, v) in headers {
        m = m.m(1, pb::M::default().b(1, k.as_bytes()).b(2, v));
    }
    m = m.b(2, url.as_bytes());
    Bytes::from(m.b(3, content).0)
}

pub fn url_of(data: &[u8]) -> String {
    pb::bytes_of(data, 2).last().map(|v| String::from_utf8(v.clone()).unwrap()).unwrap_or_default()
}

pub fn content_of(data: &[u8]) -> Vec<u8> {
    pb::bytes_of(data, 3).last().cloned().unwrap_or_default()
}
