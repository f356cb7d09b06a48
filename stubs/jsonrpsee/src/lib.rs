//! Stand-in for jsonrpsee's server: the macro that reads the RPC traits and the protocol's types are the real ones; the transport is
//! replaced by [`server::ServerHandle::call`], which hands a method name and the text of its parameters to the registered method, as the real
//! server does with what it read from a socket. `SubscriptionSink::send` is asynchronous with a bounded buffer, as in the real one.

pub use jsonrpsee_proc_macros as proc_macros;
pub use jsonrpsee_types as types;
pub use server::{IntoResponse, IntoSubscriptionCloseResponse, PendingSubscriptionSink, RpcModule, SubscriptionCloseResponse, SubscriptionMessage, SubscriptionSink};
pub use tokio;
pub use tracing;

pub mod core {
    pub type RpcResult<T> = Result<T, jsonrpsee_types::ErrorObjectOwned>;

    #[derive(Debug)]
    pub struct StringError(pub String);

    impl<T: ToString> From<T> for StringError {
        fn from(e: T) -> Self {
            StringError(e.to_string())
        }
    }

    pub type SubscriptionResult = Result<(), StringError>;

    pub mod __reexports {
        pub use async_trait::async_trait;
        pub use serde;
    }
}

pub mod server {
    use std::collections::HashMap;
    use std::future::Future;
    use std::net::SocketAddr;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::{Arc, Mutex};

    use jsonrpsee_types::error::ErrorCode;
    use jsonrpsee_types::{ErrorObjectOwned, Params, ResponsePayload, SubscriptionId};
    use serde::Serialize;
    use serde_json::Value;
    use tokio::sync::{mpsc, oneshot};

    pub trait IntoResponse {
        type Output: Serialize + Clone + 'static;
        fn into_response(self) -> ResponsePayload<'static, Self::Output>;
    }

    impl<T: Serialize + Clone + 'static, E: Into<ErrorObjectOwned>> IntoResponse for Result<T, E> {
        type Output = T;

        fn into_response(self) -> ResponsePayload<'static, T> {
            match self {
                Ok(v) => ResponsePayload::result(v),
                Err(e) => ResponsePayload::Error(e.into()),
            }
        }
    }

    impl<T: Serialize + Clone + 'static> IntoResponse for ResponsePayload<'static, T> {
        type Output = T;

        fn into_response(self) -> ResponsePayload<'static, T> {
            self
        }
    }

    /// An answer as the client reads it: the text of the JSON value.
    pub type Answer = Result<String, ErrorObjectOwned>;

    fn answer<R: IntoResponse>(r: R) -> Answer {
        match r.into_response() {
            ResponsePayload::Result(v) => serde_json::to_string(&*v).map_err(|_| ErrorCode::InternalError.into()),
            ResponsePayload::Error(e) => Err(e.into_owned()),
        }
    }

    type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send>>;
    type Callback = Arc<dyn Fn(Params<'static>, Option<Connection>) -> Boxed<Answer> + Send + Sync>;

    #[derive(Clone, Default)]
    pub struct Methods {
        map: HashMap<&'static str, Callback>,
    }

    #[derive(Debug)]
    pub struct RegisterMethodError(pub String);

    impl Methods {
        fn add(&mut self, name: &'static str, callback: Callback) -> Result<(), RegisterMethodError> {
            if self.map.contains_key(name) {
                return Err(RegisterMethodError(name.to_string()));
            }
            self.map.insert(name, callback);
            Ok(())
        }

        pub fn names(&self) -> Vec<&'static str> {
            let mut names: Vec<_> = self.map.keys().copied().collect();
            names.sort_unstable();
            names
        }
    }

    pub struct RpcModule<Ctx> {
        ctx:     Arc<Ctx>,
        methods: Methods,
    }

    impl<Ctx> Clone for RpcModule<Ctx> {
        fn clone(&self) -> Self {
            RpcModule { ctx: Arc::clone(&self.ctx), methods: self.methods.clone() }
        }
    }

    impl<Ctx> From<RpcModule<Ctx>> for Methods {
        fn from(m: RpcModule<Ctx>) -> Methods {
            m.methods
        }
    }

    impl<Ctx: Send + Sync + 'static> RpcModule<Ctx> {
        pub fn new(ctx: Ctx) -> Self {
            RpcModule { ctx: Arc::new(ctx), methods: Methods::default() }
        }

        pub fn merge(&mut self, other: impl Into<Methods>) -> Result<(), RegisterMethodError> {
            let other = other.into();
            if let Some(name) = other.map.keys().find(|n| self.methods.map.contains_key(*n)) {
                return Err(RegisterMethodError(name.to_string()));
            }
            self.methods.map.extend(other.map);
            Ok(())
        }

        pub fn register_async_method<R, F, Fut>(&mut self, name: &'static str, f: F) -> Result<(), RegisterMethodError>
        where
            R: IntoResponse + 'static,
            Fut: Future<Output = R> + Send,
            F: (Fn(Params<'static>, Arc<Ctx>) -> Fut) + Clone + Send + Sync + 'static,
        {
            let ctx = Arc::clone(&self.ctx);
            self.methods.add(
                name,
                Arc::new(move |params, _| {
                    let (ctx, f) = (Arc::clone(&ctx), f.clone());
                    Box::pin(async move { answer(f(params, ctx).await) })
                }),
            )
        }

        pub fn register_method<R, F>(&mut self, name: &'static str, f: F) -> Result<(), RegisterMethodError>
        where
            R: IntoResponse + 'static,
            F: Fn(Params, &Ctx) -> R + Send + Sync + 'static,
        {
            let ctx = Arc::clone(&self.ctx);
            self.methods.add(
                name,
                Arc::new(move |params, _| {
                    let a = answer(f(params, &*ctx));
                    Box::pin(async move { a })
                }),
            )
        }

        pub fn register_subscription<R, F, Fut>(
            &mut self,
            subscribe: &'static str,
            notification: &'static str,
            unsubscribe: &'static str,
            f: F,
        ) -> Result<(), RegisterMethodError>
        where
            R: IntoSubscriptionCloseResponse + Send,
            Fut: Future<Output = R> + Send + 'static,
            F: (Fn(Params<'static>, PendingSubscriptionSink, Arc<Ctx>) -> Fut) + Clone + Send + Sync + 'static,
        {
            let ctx = Arc::clone(&self.ctx);
            self.methods.add(
                subscribe,
                Arc::new(move |params, conn| {
                    let (ctx, f) = (Arc::clone(&ctx), f.clone());
                    Box::pin(async move {
                        let conn = conn.ok_or_else(|| ErrorObjectOwned::from(ErrorCode::MethodNotFound))?;
                        let (tx, rx) = oneshot::channel();
                        let id = conn.ids.next_id();
                        let sink = PendingSubscriptionSink { id, notification, conn, answer: tx };
                        let fut = f(params, sink, ctx);
                        tokio::spawn(async move {
                            let _ = fut.await.into_response();
                        });
                        rx.await.unwrap_or_else(|_| Err(ErrorCode::InvalidParams.into()))
                    })
                }),
            )?;
            self.methods.add(
                unsubscribe,
                Arc::new(move |params, conn| {
                    Box::pin(async move {
                        let conn = conn.ok_or_else(|| ErrorObjectOwned::from(ErrorCode::MethodNotFound))?;
                        let id: SubscriptionId = params.one()?;
                        let open = conn.open.lock().unwrap().remove(&serde_json::to_string(&id).unwrap());
                        Ok(open.map(|flag| flag.store(true, Ordering::SeqCst)).is_some().to_string())
                    })
                }),
            )
        }
    }

    pub enum SubscriptionCloseResponse {
        None,
        Notif(SubscriptionMessage),
        NotifErr(SubscriptionMessage),
    }

    pub trait IntoSubscriptionCloseResponse {
        fn into_response(self) -> SubscriptionCloseResponse;
    }

    impl IntoSubscriptionCloseResponse for SubscriptionCloseResponse {
        fn into_response(self) -> SubscriptionCloseResponse {
            self
        }
    }

    impl IntoSubscriptionCloseResponse for () {
        fn into_response(self) -> SubscriptionCloseResponse {
            SubscriptionCloseResponse::None
        }
    }

    impl IntoSubscriptionCloseResponse for Result<(), crate::core::StringError> {
        fn into_response(self) -> SubscriptionCloseResponse {
            match self {
                Ok(()) => SubscriptionCloseResponse::None,
                Err(e) => SubscriptionCloseResponse::NotifErr(SubscriptionMessage(Value::String(e.0))),
            }
        }
    }

    #[derive(Debug)]
    pub struct PendingSubscriptionAcceptError;

    impl std::fmt::Display for PendingSubscriptionAcceptError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("The remote peer closed the connection or called the unsubscribe method")
        }
    }

    pub struct PendingSubscriptionSink {
        id:           SubscriptionId<'static>,
        notification: &'static str,
        conn:         Connection,
        answer:       oneshot::Sender<Answer>,
    }

    impl PendingSubscriptionSink {
        pub async fn accept(self) -> Result<SubscriptionSink, PendingSubscriptionAcceptError> {
            let id = serde_json::to_string(&self.id).unwrap();
            let closed = Arc::new(AtomicBool::new(false));
            self.conn.open.lock().unwrap().insert(id.clone(), Arc::clone(&closed));
            self.answer.send(Ok(id.clone())).map_err(|_| PendingSubscriptionAcceptError)?;
            Ok(SubscriptionSink { id, notification: self.notification, out: self.conn.out.clone(), closed })
        }

        pub async fn reject(self, err: impl Into<ErrorObjectOwned>) {
            let _ = self.answer.send(Err(err.into()));
        }
    }

    #[derive(Clone, Debug)]
    pub struct SubscriptionMessage(pub Value);

    impl SubscriptionMessage {
        pub fn from_json<T: Serialize>(v: &T) -> Result<Self, serde_json::Error> {
            serde_json::to_value(v).map(SubscriptionMessage)
        }
    }

    #[derive(Debug)]
    pub struct DisconnectError(pub SubscriptionMessage);

    pub struct SubscriptionSink {
        id:           String,
        notification: &'static str,
        out:          mpsc::Sender<Notice>,
        closed:       Arc<AtomicBool>,
    }

    impl SubscriptionSink {
        pub fn is_closed(&self) -> bool {
            self.closed.load(Ordering::SeqCst) || self.out.is_closed()
        }

        pub async fn send(&self, msg: SubscriptionMessage) -> Result<(), DisconnectError> {
            if self.is_closed() {
                return Err(DisconnectError(msg));
            }
            let notice = Notice { subscription: self.id.clone(), method: self.notification, value: msg.0.clone() };
            self.out.send(notice).await.map_err(|_| DisconnectError(msg))
        }
    }

    impl Drop for SubscriptionSink {
        fn drop(&mut self) {
            self.closed.store(true, Ordering::SeqCst);
        }
    }

    /// What a client reads on its connection unasked.
    #[derive(Clone, Debug)]
    pub struct Notice {
        pub subscription: String,
        pub method:       &'static str,
        pub value:        Value,
    }

    pub trait IdProvider: Send + Sync + std::fmt::Debug {
        fn next_id(&self) -> SubscriptionId<'static>;
    }

    #[derive(Debug)]
    struct Numbers(std::sync::atomic::AtomicU64);

    impl IdProvider for Numbers {
        fn next_id(&self) -> SubscriptionId<'static> {
            SubscriptionId::Num(self.0.fetch_add(1, Ordering::SeqCst))
        }
    }

    #[derive(Clone)]
    pub struct Connection {
        ids:  Arc<dyn IdProvider>,
        out:  mpsc::Sender<Notice>,
        open: Arc<Mutex<HashMap<String, Arc<AtomicBool>>>>,
    }

    pub struct ServerBuilder<M = ()> {
        pub http: bool,
        pub ws:   bool,
        ids:      Arc<dyn IdProvider>,
        _m:       M,
    }

    impl ServerBuilder {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            ServerBuilder { http: true, ws: true, ids: Arc::new(Numbers(Default::default())), _m: () }
        }
    }

    impl<M> ServerBuilder<M> {
        pub fn http_only(mut self) -> Self {
            self.ws = false;
            self
        }

        pub fn ws_only(mut self) -> Self {
            self.http = false;
            self
        }

        pub fn max_request_body_size(self, _: u32) -> Self {
            self
        }

        pub fn max_response_body_size(self, _: u32) -> Self {
            self
        }

        pub fn max_connections(self, _: u32) -> Self {
            self
        }

        pub fn set_middleware<T>(self, m: T) -> ServerBuilder<T> {
            ServerBuilder { http: self.http, ws: self.ws, ids: self.ids, _m: m }
        }

        pub fn set_id_provider<I: IdProvider + 'static>(mut self, ids: I) -> Self {
            self.ids = Arc::new(ids);
            self
        }

        pub async fn build(self, addr: SocketAddr) -> Result<Server, std::io::Error> {
            Ok(Server { ids: self.ids, ws: self.ws, addr })
        }
    }

    /// The servers started since the harness put a list here.
    pub static STARTED: Mutex<Option<Vec<(SocketAddr, ServerHandle)>>> = Mutex::new(None);

    pub struct Server {
        ids:  Arc<dyn IdProvider>,
        ws:   bool,
        addr: SocketAddr,
    }

    impl Server {
        pub fn start(self, methods: impl Into<Methods>) -> ServerHandle {
            let handle = ServerHandle { methods: methods.into(), ids: self.ids, ws: self.ws };
            if let Some(list) = STARTED.lock().unwrap().as_mut() {
                list.push((self.addr, handle.clone()));
            }
            handle
        }
    }

    #[derive(Clone)]
    pub struct ServerHandle {
        pub methods: Methods,
        ids:         Arc<dyn IdProvider>,
        ws:          bool,
    }

    impl std::fmt::Debug for ServerHandle {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "ServerHandle({} methods)", self.methods.map.len())
        }
    }

    impl ServerHandle {
        pub fn stop(&self) -> Result<(), ()> {
            Ok(())
        }

        async fn run(&self, method: &str, params: &str, conn: Option<Connection>) -> Answer {
            // the real server first reads the request, whose params are raw JSON
            let raw = (!params.is_empty()).then_some(params);
            if raw.is_some_and(|r| serde_json::from_str::<&serde_json::value::RawValue>(r).is_err()) {
                return Err(ErrorCode::ParseError.into());
            }
            match self.methods.map.get(method) {
                Some(callback) => callback(Params::new(raw).into_owned(), conn).await,
                None => Err(ErrorCode::MethodNotFound.into()),
            }
        }

        /// One request of a client, as the text of its parameters.
        pub async fn call(&self, method: &str, params: &str) -> Answer {
            self.run(method, params, None).await
        }

        /// A client's WebSocket connection.
        pub fn connect(&self) -> Client {
            assert!(self.ws, "this server has no WebSocket connections");
            let (out, inbox) = mpsc::channel(1024);
            Client { server: self.clone(), conn: Connection { ids: Arc::clone(&self.ids), out, open: Default::default() }, inbox }
        }
    }

    pub struct Client {
        server: ServerHandle,
        conn:   Connection,
        inbox:  mpsc::Receiver<Notice>,
    }

    impl Client {
        pub async fn call(&self, method: &str, params: &str) -> Answer {
            self.server.run(method, params, Some(self.conn.clone())).await
        }

        /// The notices that have arrived.
        pub fn notices(&mut self) -> Vec<Notice> {
            let mut all = vec![];
            while let Ok(n) = self.inbox.try_recv() {
                all.push(n);
            }
            all
        }
    }
}
