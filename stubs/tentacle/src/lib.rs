//! Stand-in for the p2p framework: the types the node uses, with every request of the node
//! recorded in a queue, and a built service handed over to the harness, which plays the framework.
pub use async_trait::async_trait;
pub use bytes;
pub use tentacle_multiaddr as multiaddr;

pub mod secio;
pub mod sim;

macro_rules! id {
    ($name:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
        pub struct $name(usize);

        impl $name {
            pub const fn new(i: usize) -> Self {
                $name(i)
            }

            pub const fn value(self) -> usize {
                self.0
            }
        }

        impl From<usize> for $name {
            fn from(i: usize) -> Self {
                $name(i)
            }
        }

        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, concat!(stringify!($name), "({})"), self.0)
            }
        }
    };
}

id!(ProtocolId);
id!(SessionId);

pub mod runtime {
    pub use tokio::spawn;
}

pub mod yamux {
    #[derive(Debug, Clone, Copy)]
    pub struct Config {
        pub max_stream_count:       usize,
        pub max_stream_window_size: u32,
        pub accept_backlog:         u32,
    }

    impl Default for Config {
        fn default() -> Self {
            Config { max_stream_count: 65535, max_stream_window_size: 256 * 1024, accept_backlog: 256 }
        }
    }
}

pub mod error {
    use crate::secio::error::SecioError;
    use crate::SessionId;

    #[derive(Debug)]
    pub enum TransportErrorKind {
        Io(std::io::Error),
        NotSupported,
    }

    impl std::fmt::Display for TransportErrorKind {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }

    #[derive(Debug)]
    pub enum SendErrorKind {
        BrokenPipe,
        WouldBlock,
    }

    impl std::fmt::Display for SendErrorKind {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }

    #[derive(Debug)]
    pub enum HandshakeErrorKind {
        Timeout(String),
        SecioError(SecioError),
    }

    #[derive(Debug)]
    pub enum DialerErrorKind {
        IoError(std::io::Error),
        PeerIdNotMatch,
        RepeatedConnection(SessionId),
        HandshakeError(HandshakeErrorKind),
        TransportError(TransportErrorKind),
    }

    #[derive(Debug)]
    pub enum ProtocolHandleErrorKind {
        AbnormallyClosed(Option<SessionId>),
    }
}

pub mod utils {
    use crate::multiaddr::{Multiaddr, Protocol};
    use crate::secio::PeerId;
    use std::net::{IpAddr, SocketAddr};

    pub fn extract_peer_id(addr: &Multiaddr) -> Option<PeerId> {
        let mut found = None;
        for p in addr.iter() {
            if let Protocol::P2P(id) = p {
                found = PeerId::from_bytes(id.to_vec()).ok();
            }
        }
        found
    }

    pub fn multiaddr_to_socketaddr(addr: &Multiaddr) -> Option<SocketAddr> {
        let mut iter = addr.iter().peekable();
        while iter.peek().is_some() {
            match iter.peek() {
                Some(Protocol::Ip4(_)) | Some(Protocol::Ip6(_)) => (),
                _ => {
                    let _ = iter.next();
                    continue;
                }
            }
            let proto1 = iter.next()?;
            let proto2 = iter.next()?;
            match (proto1, proto2) {
                (Protocol::Ip4(ip), Protocol::Tcp(port)) => return Some(SocketAddr::new(ip.into(), port)),
                (Protocol::Ip6(ip), Protocol::Tcp(port)) => return Some(SocketAddr::new(ip.into(), port)),
                _ => (),
            }
        }
        None
    }

    /// Whether an address can be reached over the public network.
    pub fn is_reachable(addr: IpAddr) -> bool {
        match addr {
            IpAddr::V4(a) => {
                let shared = a.octets()[0] == 100 && a.octets()[1] & 0b1100_0000 == 0b0100_0000;
                !(a.is_private()
                    || a.is_loopback()
                    || a.is_link_local()
                    || a.is_broadcast()
                    || a.is_documentation()
                    || a.is_unspecified()
                    || a.is_multicast()
                    || shared
                    || a.octets()[0] & 240 == 240)
            }
            IpAddr::V6(a) => {
                !(a.is_loopback()
                    || a.is_unspecified()
                    || a.is_multicast()
                    || a.segments()[0] & 0xfe00 == 0xfc00
                    || a.segments()[0] & 0xffc0 == 0xfe80)
            }
        }
    }

    pub mod dns {
        use super::*;
        use std::future::{ready, Ready};

        pub struct DnsResolver;

        impl DnsResolver {
            /// No names are resolved here.
            pub fn new(addr: Multiaddr) -> Option<Ready<Result<Multiaddr, Multiaddr>>> {
                addr.iter()
                    .any(|p| matches!(p, Protocol::Dns4(_) | Protocol::Dns6(_)))
                    .then(|| ready(Err(addr.clone())))
            }
        }
    }
}

pub mod service {
    use crate::error::*;
    use crate::multiaddr::Multiaddr;
    use crate::sim::{Command, Queue};
    use crate::{ProtocolId, SessionId};
    use bytes::Bytes;
    use std::sync::Arc;

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum SessionType {
        Outbound,
        Inbound,
    }

    impl SessionType {
        pub fn is_inbound(self) -> bool {
            self == SessionType::Inbound
        }

        pub fn is_outbound(self) -> bool {
            self == SessionType::Outbound
        }
    }

    pub enum TargetSession {
        All,
        Filter(Box<dyn FnMut(&SessionId) -> bool + Send + 'static>),
        Multi(Box<dyn Iterator<Item = SessionId> + Send + 'static>),
        Single(SessionId),
    }

    pub enum TargetProtocol {
        All,
        Filter(Box<dyn Fn(&ProtocolId) -> bool + Sync + Send + 'static>),
        Single(ProtocolId),
    }

    impl From<ProtocolId> for TargetProtocol {
        fn from(id: ProtocolId) -> Self {
            TargetProtocol::Single(id)
        }
    }

    pub enum HandshakeType<K> {
        Secio(K),
        Noop,
    }

    pub enum ProtocolHandle<T> {
        None,
        Callback(T),
    }

    pub struct TcpSocket(pub(crate) std::net::TcpStream);

    impl std::os::fd::AsRawFd for TcpSocket {
        fn as_raw_fd(&self) -> std::os::fd::RawFd {
            self.0.as_raw_fd()
        }
    }

    pub type Handler = Box<dyn crate::traits::ServiceProtocol + Send + 'static + Unpin>;

    pub struct ProtocolMeta {
        pub(crate) id:      ProtocolId,
        pub(crate) name:    String,
        pub(crate) send:    Box<dyn Fn(Bytes) -> Bytes + Send>,
        pub(crate) receive: crate::builder::Receive,
        pub(crate) handle:  ProtocolHandle<Handler>,
    }

    #[derive(Clone)]
    pub struct ServiceAsyncControl(pub(crate) Queue);

    type Sent = Result<(), SendErrorKind>;

    impl ServiceAsyncControl {
        fn put(&self, c: Command) -> Sent {
            self.0.put(c)
        }

        pub async fn filter_broadcast(&self, to: TargetSession, proto: ProtocolId, data: Bytes) -> Sent {
            self.put(Command::Send { to, proto, data, quick: false })
        }

        pub async fn quick_filter_broadcast(&self, to: TargetSession, proto: ProtocolId, data: Bytes) -> Sent {
            self.put(Command::Send { to, proto, data, quick: true })
        }

        pub async fn send_message_to(&self, id: SessionId, proto: ProtocolId, data: Bytes) -> Sent {
            self.put(Command::Send { to: TargetSession::Single(id), proto, data, quick: false })
        }

        pub async fn quick_send_message_to(&self, id: SessionId, proto: ProtocolId, data: Bytes) -> Sent {
            self.put(Command::Send { to: TargetSession::Single(id), proto, data, quick: true })
        }

        pub async fn dial(&self, addr: Multiaddr, target: TargetProtocol) -> Sent {
            self.put(Command::Dial { addr, target })
        }

        pub async fn disconnect(&self, id: SessionId) -> Sent {
            self.put(Command::Disconnect(id))
        }

        pub async fn open_protocols(&self, id: SessionId, target: TargetProtocol) -> Sent {
            self.put(Command::Open { id, target })
        }

        pub async fn set_service_notify(
            &self,
            proto: ProtocolId,
            interval: std::time::Duration,
            token: u64,
        ) -> Sent {
            self.put(Command::Notify { proto, interval, token })
        }

        pub async fn shutdown(&self) -> Sent {
            self.put(Command::Shutdown)
        }
    }

    pub struct Service<T, K> {
        pub(crate) control: ServiceAsyncControl,
        pub(crate) _t:      std::marker::PhantomData<fn() -> (T, K)>,
    }

    impl<T, K> Service<T, K> {
        pub fn control(&self) -> &ServiceAsyncControl {
            &self.control
        }

        pub async fn listen(&mut self, addr: Multiaddr) -> Result<Multiaddr, TransportErrorKind> {
            let _ = self.control.put(Command::Listen(addr.clone()));
            Ok(addr)
        }

        pub async fn run(&mut self) {
            std::future::pending::<()>().await
        }
    }

    #[derive(Debug)]
    pub enum ServiceError {
        DialerError { address: Multiaddr, error: DialerErrorKind },
        ListenError { address: Multiaddr, error: DialerErrorKind },
        ProtocolError { id: SessionId, proto_id: ProtocolId, error: std::io::Error },
        SessionTimeout { session_context: Arc<crate::context::SessionContext> },
        MuxerError { session_context: Arc<crate::context::SessionContext>, error: std::io::Error },
        ProtocolSelectError { proto_name: Option<String>, session_context: Arc<crate::context::SessionContext> },
        SessionBlocked { session_context: Arc<crate::context::SessionContext> },
        ProtocolHandleError { proto_id: ProtocolId, error: ProtocolHandleErrorKind },
    }

    #[derive(Debug)]
    pub enum ServiceEvent {
        SessionOpen { session_context: Arc<crate::context::SessionContext> },
        SessionClose { session_context: Arc<crate::context::SessionContext> },
        ListenStarted { address: Multiaddr },
        ListenClose { address: Multiaddr },
    }
}

pub mod context {
    use crate::error::SendErrorKind;
    use crate::multiaddr::Multiaddr;
    use crate::secio::PublicKey;
    use crate::service::*;
    use crate::{ProtocolId, SessionId};
    use bytes::Bytes;
    use std::ops::{Deref, DerefMut};
    use std::time::Duration;

    #[derive(Clone, Debug)]
    pub struct SessionContext {
        pub id:            SessionId,
        pub address:       Multiaddr,
        pub ty:            SessionType,
        pub remote_pubkey: Option<PublicKey>,
    }

    type Sent = Result<(), SendErrorKind>;

    pub struct ServiceContext {
        pub(crate) control: ServiceAsyncControl,
        pub(crate) listens: Vec<Multiaddr>,
    }

    impl ServiceContext {
        pub fn control(&self) -> &ServiceAsyncControl {
            &self.control
        }

        pub fn listens(&self) -> &[Multiaddr] {
            &self.listens
        }
    }

    impl Deref for ServiceContext {
        type Target = ServiceAsyncControl;

        fn deref(&self) -> &ServiceAsyncControl {
            &self.control
        }
    }

    pub struct ProtocolContext {
        pub(crate) inner: ServiceContext,
        pub proto_id:     ProtocolId,
    }

    impl ProtocolContext {
        pub async fn set_service_notify(&self, proto: ProtocolId, interval: Duration, token: u64) -> Sent {
            self.inner.control.set_service_notify(proto, interval, token).await
        }
    }

    impl Deref for ProtocolContext {
        type Target = ServiceContext;

        fn deref(&self) -> &ServiceContext {
            &self.inner
        }
    }

    impl DerefMut for ProtocolContext {
        fn deref_mut(&mut self) -> &mut ServiceContext {
            &mut self.inner
        }
    }

    pub struct ProtocolContextMutRef<'a> {
        pub(crate) inner: &'a mut ProtocolContext,
        pub session:      &'a SessionContext,
    }

    impl<'a> ProtocolContextMutRef<'a> {
        pub async fn send_message(&self, data: Bytes) -> Sent {
            let proto = self.inner.proto_id;
            self.inner.send_message_to(self.session.id, proto, data).await
        }

        pub async fn quick_send_message(&self, data: Bytes) -> Sent {
            let proto = self.inner.proto_id;
            self.inner.quick_send_message_to(self.session.id, proto, data).await
        }

        pub fn proto_id(&self) -> ProtocolId {
            self.inner.proto_id
        }
    }

    impl<'a> Deref for ProtocolContextMutRef<'a> {
        type Target = ProtocolContext;

        fn deref(&self) -> &ProtocolContext {
            self.inner
        }
    }

    impl<'a> DerefMut for ProtocolContextMutRef<'a> {
        fn deref_mut(&mut self) -> &mut ProtocolContext {
            self.inner
        }
    }
}

pub mod traits {
    use crate::context::*;
    use crate::service::{ServiceError, ServiceEvent};
    use bytes::Bytes;

    #[async_trait::async_trait]
    pub trait ServiceHandle: Send {
        async fn handle_error(&mut self, _control: &mut ServiceContext, _error: ServiceError) {}
        async fn handle_event(&mut self, _control: &mut ServiceContext, _event: ServiceEvent) {}
    }

    #[async_trait::async_trait]
    pub trait ServiceProtocol: Send {
        async fn init(&mut self, context: &mut ProtocolContext);
        async fn connected(&mut self, _context: ProtocolContextMutRef<'_>, _version: &str) {}
        async fn disconnected(&mut self, _context: ProtocolContextMutRef<'_>) {}
        async fn received(&mut self, _context: ProtocolContextMutRef<'_>, _data: Bytes) {}
        async fn notify(&mut self, _context: &mut ProtocolContext, _token: u64) {}
    }
}

pub mod builder {
    use crate::multiaddr::Multiaddr;
    use crate::secio::KeyProvider;
    use crate::service::*;
    use crate::sim::{self, Queue};
    use crate::traits::ServiceHandle;
    use crate::ProtocolId;
    use bytes::{Bytes, BytesMut};
    use std::marker::PhantomData;
    use std::time::Duration;

    pub trait Codec: Send {}

    impl Codec for tokio_util::codec::LengthDelimitedCodec {}

    pub(crate) type Receive = Box<dyn Fn() -> Option<Box<dyn Fn(BytesMut) -> Result<Bytes, std::io::Error> + Send>> + Send>;

    pub struct MetaBuilder(ProtocolMeta);

    impl Default for MetaBuilder {
        fn default() -> Self {
            MetaBuilder(ProtocolMeta {
                id:      ProtocolId::new(0),
                name:    String::new(),
                send:    Box::new(|b| b),
                receive: Box::new(|| None),
                handle:  ProtocolHandle::None,
            })
        }
    }

    impl MetaBuilder {
        pub fn id(mut self, id: ProtocolId) -> Self {
            self.0.id = id;
            self
        }

        pub fn support_versions(self, _: Vec<String>) -> Self {
            self
        }

        pub fn name<F: Fn(ProtocolId) -> String>(mut self, f: F) -> Self {
            self.0.name = f(self.0.id);
            self
        }

        pub fn before_send<F: Fn(Bytes) -> Bytes + Send + 'static>(mut self, f: F) -> Self {
            self.0.send = Box::new(f);
            self
        }

        pub fn before_receive<F>(mut self, f: F) -> Self
        where
            F: Fn() -> Option<Box<dyn Fn(BytesMut) -> Result<Bytes, std::io::Error> + Send>> + Send + 'static,
        {
            self.0.receive = Box::new(f);
            self
        }

        pub fn codec<F: Fn() -> Box<dyn Codec> + Send + 'static>(self, _: F) -> Self {
            self
        }

        pub fn service_handle<F>(mut self, f: F) -> Self
        where
            F: FnOnce() -> ProtocolHandle<Handler>,
        {
            self.0.handle = f();
            self
        }

        pub fn build(self) -> ProtocolMeta {
            self.0
        }
    }

    pub struct ServiceBuilder<K> {
        metas: Vec<ProtocolMeta>,
        max:   usize,
        _k:    PhantomData<fn() -> K>,
    }

    impl<K> Default for ServiceBuilder<K> {
        fn default() -> Self {
            Self::new()
        }
    }

    impl<K> ServiceBuilder<K> {
        pub fn new() -> Self {
            ServiceBuilder { metas: vec![], max: 65535, _k: PhantomData }
        }

        pub fn insert_protocol(mut self, m: ProtocolMeta) -> Self {
            self.metas.push(m);
            self
        }

        pub fn handshake_type(self, _: HandshakeType<K>) -> Self {
            self
        }

        pub fn yamux_config(self, _: crate::yamux::Config) -> Self {
            self
        }

        pub fn forever(self, _: bool) -> Self {
            self
        }

        pub fn max_connection_number(mut self, n: usize) -> Self {
            self.max = n;
            self
        }

        pub fn set_send_buffer_size(self, _: usize) -> Self {
            self
        }

        pub fn set_recv_buffer_size(self, _: usize) -> Self {
            self
        }

        pub fn set_channel_size(self, _: usize) -> Self {
            self
        }

        pub fn timeout(self, _: Duration) -> Self {
            self
        }

        pub fn tcp_config<F>(self, _: F) -> Self
        where
            F: Fn(TcpSocket) -> Result<TcpSocket, std::io::Error> + Send + Sync + 'static,
        {
            self
        }

        pub fn build<T>(self, handle: T) -> Service<T, K>
        where
            T: ServiceHandle + 'static,
            K: KeyProvider,
        {
            let queue = Queue::default();
            let control = ServiceAsyncControl(queue.clone());
            sim::BUILT.with(|b| *b.borrow_mut() = Some(sim::Node::new(self.metas, Box::new(handle), self.max, control.clone())));
            Service { control, _t: PhantomData }
        }
    }

    pub type Listens = Vec<Multiaddr>;
}
