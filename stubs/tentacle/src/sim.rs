//! What the harness needs to play the framework for one node.
use crate::builder::Receive;
use crate::context::*;
use crate::error::SendErrorKind;
use crate::multiaddr::Multiaddr;
use crate::service::*;
use crate::traits::ServiceHandle;
use crate::{ProtocolId, SessionId};
use bytes::{Bytes, BytesMut};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;

thread_local!(pub(crate) static BUILT: RefCell<Option<Node>> = RefCell::new(None));

/// The node whose service was built last on this thread.
pub fn take() -> Node {
    BUILT.with(|b| b.borrow_mut().take()).expect("a service was built")
}

pub enum Command {
    Send { to: TargetSession, proto: ProtocolId, data: Bytes, quick: bool },
    Dial { addr: Multiaddr, target: TargetProtocol },
    Disconnect(SessionId),
    Open { id: SessionId, target: TargetProtocol },
    Notify { proto: ProtocolId, interval: Duration, token: u64 },
    Listen(Multiaddr),
    Shutdown,
}

#[derive(Default)]
struct Inner {
    queue:  VecDeque<Command>,
    closed: bool,
}

#[derive(Clone, Default)]
pub struct Queue(Arc<Mutex<Inner>>);

impl Queue {
    pub(crate) fn put(&self, c: Command) -> Result<(), SendErrorKind> {
        let mut q = self.0.lock().unwrap();
        if q.closed {
            return Err(SendErrorKind::BrokenPipe);
        }
        q.queue.push_back(c);
        Ok(())
    }

    pub fn pop(&self) -> Option<Command> {
        self.0.lock().unwrap().queue.pop_front()
    }

    pub fn len(&self) -> usize {
        self.0.lock().unwrap().queue.len()
    }

    pub fn close(&self) {
        self.0.lock().unwrap().closed = true
    }
}

pub struct Proto {
    pub id:      ProtocolId,
    pub name:    String,
    pub handler: Handler,
    send:        Box<dyn Fn(Bytes) -> Bytes + Send>,
    receive:     Receive,
}

pub trait AnyHandle: ServiceHandle {
    fn any(&self) -> &dyn std::any::Any;
}

impl<T: ServiceHandle + 'static> AnyHandle for T {
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

pub struct Node {
    pub protos:  BTreeMap<ProtocolId, Proto>,
    pub handle:  Box<dyn AnyHandle>,
    pub max:     usize,
    pub control: ServiceAsyncControl,
    pub listens: Vec<Multiaddr>,
}

impl Node {
    pub(crate) fn new(
        metas: Vec<ProtocolMeta>,
        handle: Box<dyn AnyHandle>,
        max: usize,
        control: ServiceAsyncControl,
    ) -> Self {
        let mut protos = BTreeMap::new();
        for m in metas {
            if let ProtocolHandle::Callback(handler) = m.handle {
                protos.insert(m.id, Proto { id: m.id, name: m.name, handler, send: m.send, receive: m.receive });
            }
        }
        Node { protos, handle, max, control, listens: vec![] }
    }

    pub fn queue(&self) -> &Queue {
        &self.control.0
    }

    fn service(&self) -> ServiceContext {
        ServiceContext { control: self.control.clone(), listens: self.listens.clone() }
    }

    fn context(&self, proto: ProtocolId) -> ProtocolContext {
        ProtocolContext { inner: self.service(), proto_id: proto }
    }

    pub async fn event(&mut self, e: ServiceEvent) {
        let mut c = self.service();
        self.handle.handle_event(&mut c, e).await
    }

    pub async fn error(&mut self, e: ServiceError) {
        let mut c = self.service();
        self.handle.handle_error(&mut c, e).await
    }

    pub async fn init(&mut self) {
        let ids: Vec<_> = self.protos.keys().copied().collect();
        for id in ids {
            let mut c = self.context(id);
            self.protos.get_mut(&id).unwrap().handler.init(&mut c).await;
        }
    }

    pub async fn connected(&mut self, proto: ProtocolId, s: &SessionContext) {
        let mut c = self.context(proto);
        let c = ProtocolContextMutRef { inner: &mut c, session: s };
        self.protos.get_mut(&proto).unwrap().handler.connected(c, "1").await
    }

    pub async fn disconnected(&mut self, proto: ProtocolId, s: &SessionContext) {
        let mut c = self.context(proto);
        let c = ProtocolContextMutRef { inner: &mut c, session: s };
        self.protos.get_mut(&proto).unwrap().handler.disconnected(c).await
    }

    pub async fn received(&mut self, proto: ProtocolId, s: &SessionContext, data: Bytes) {
        let mut c = self.context(proto);
        let c = ProtocolContextMutRef { inner: &mut c, session: s };
        self.protos.get_mut(&proto).unwrap().handler.received(c, data).await
    }

    pub async fn notify(&mut self, proto: ProtocolId, token: u64) {
        let mut c = self.context(proto);
        self.protos.get_mut(&proto).unwrap().handler.notify(&mut c, token).await
    }

    /// What a message of a protocol looks like on the wire.
    pub fn wire(&self, proto: ProtocolId, data: Bytes) -> Bytes {
        (self.protos[&proto].send)(data)
    }

    /// What is handed to the protocol for bytes from the wire.
    pub fn unwire(&self, proto: ProtocolId, data: &[u8]) -> Result<Bytes, std::io::Error> {
        match (self.protos[&proto].receive)() {
            Some(f) => f(BytesMut::from(data)),
            None => Ok(Bytes::copy_from_slice(data)),
        }
    }
}
