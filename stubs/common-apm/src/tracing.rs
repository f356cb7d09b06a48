use std::borrow::Cow;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::sync::Arc;

use protocol::traits::Context;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tag(pub String, pub String);

pub trait Value {
    fn text(self) -> String;
}
impl Value for bool {
    fn text(self) -> String {
        self.to_string()
    }
}
impl Value for String {
    fn text(self) -> String {
        self
    }
}
impl Value for &str {
    fn text(self) -> String {
        self.to_string()
    }
}
impl Value for i64 {
    fn text(self) -> String {
        self.to_string()
    }
}
impl Value for u64 {
    fn text(self) -> String {
        self.to_string()
    }
}

impl Tag {
    pub fn new<N: Into<Cow<'static, str>>, V: Value>(name: N, value: V) -> Self {
        Tag(name.into().into_owned(), value.text())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LogField(pub String, pub String);

impl LogField {
    pub fn new<N: Into<Cow<'static, str>>, V: Into<Cow<'static, str>>>(name: N, value: V) -> Self {
        LogField(name.into().into_owned(), value.into().into_owned())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct TraceId {
    pub high: u64,
    pub low: u64,
}

impl std::fmt::Display for TraceId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.high == 0 {
            write!(f, "{:x}", self.low)
        } else {
            write!(f, "{:x}{:016x}", self.high, self.low)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SpanContextState {
    trace_id: TraceId,
    span_id: u64,
}

impl SpanContextState {
    pub fn trace_id(&self) -> TraceId {
        self.trace_id
    }

    pub fn span_id(&self) -> u64 {
        self.span_id
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SpanContext {
    pub state: SpanContextState,
}

impl SpanContext {
    pub fn state(&self) -> &SpanContextState {
        &self.state
    }
}

/// What one span recorded.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Record {
    pub name: String,
    pub id: u64,
    pub parent: Option<u64>,
    pub tags: Vec<Tag>,
    pub logs: Vec<LogField>,
}

thread_local! {
    static RECORDS: RefCell<Vec<Record>> = const { RefCell::new(vec![]) };
    static NEXT: RefCell<u64> = const { RefCell::new(1) };
    static RECORDING: RefCell<bool> = const { RefCell::new(false) };
    static SPANS: RefCell<bool> = const { RefCell::new(true) };
}

/// Starts recording finished spans of this thread; `spans` is whether the tracer makes spans at all.
pub fn record(spans: bool) {
    RECORDS.with(|r| r.borrow_mut().clear());
    NEXT.with(|n| *n.borrow_mut() = 1);
    RECORDING.with(|r| *r.borrow_mut() = true);
    SPANS.with(|s| *s.borrow_mut() = spans);
}

pub fn take() -> Vec<Record> {
    RECORDING.with(|r| *r.borrow_mut() = false);
    SPANS.with(|s| *s.borrow_mut() = true);
    RECORDS.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

pub struct Log(Vec<LogField>);

impl Log {
    pub fn time(&mut self, _: std::time::Instant) -> &mut Self {
        self
    }

    pub fn field<F: Into<LogField>>(&mut self, f: F) -> &mut Self {
        self.0.push(f.into());
        self
    }
}

#[derive(Debug)]
pub struct Span {
    rec: Record,
    ctx: SpanContext,
}

impl Span {
    pub fn log<F: FnOnce(&mut Log)>(&mut self, f: F) {
        let mut l = Log(vec![]);
        f(&mut l);
        self.rec.logs.extend(l.0);
    }

    pub fn set_tag<F: FnOnce() -> Tag>(&mut self, f: F) {
        let t = f();
        self.rec.tags.retain(|x| x.0 != t.0);
        self.rec.tags.push(t);
    }

    pub fn set_tags<F, I>(&mut self, f: F)
    where
        F: FnOnce() -> I,
        I: IntoIterator<Item = Tag>,
    {
        for t in f() {
            self.set_tag(|| t);
        }
    }

    pub fn context(&self) -> Option<&SpanContext> {
        Some(&self.ctx)
    }
}

impl Drop for Span {
    fn drop(&mut self) {
        if RECORDING.try_with(|r| *r.borrow()).unwrap_or(false) {
            let _ = RECORDS.try_with(|r| r.borrow_mut().push(self.rec.clone()));
        }
    }
}

#[derive(Default)]
pub struct AxonTracer;

pub struct TracerCell;

impl TracerCell {
    pub fn load(&self) -> Arc<AxonTracer> {
        Arc::new(AxonTracer)
    }
}

pub static TRACER: TracerCell = TracerCell;

impl AxonTracer {
    fn start(name: String, parent: Option<SpanContext>, tags: Vec<Tag>) -> Option<Span> {
        if !SPANS.with(|s| *s.borrow()) {
            return None;
        }
        let id = NEXT.with(|n| {
            let mut n = n.borrow_mut();
            *n += 1;
            *n
        });
        let trace_id = parent.as_ref().map(|p| p.state.trace_id).unwrap_or(TraceId { high: 0, low: id });
        Some(Span {
            rec: Record {
                name,
                id,
                parent: parent.map(|p| p.state.span_id),
                tags,
                logs: vec![],
            },
            ctx: SpanContext {
                state: SpanContextState { trace_id, span_id: id },
            },
        })
    }

    pub fn child_of_span<N: Into<Cow<'static, str>>>(&self, name: N, parent: SpanContext, tags: Vec<Tag>) -> Option<Span> {
        Self::start(name.into().into_owned(), Some(parent), tags)
    }

    pub fn span<N: Into<Cow<'static, str>>>(&self, name: N, tags: Vec<Tag>) -> Option<Span> {
        Self::start(name.into().into_owned(), None, tags)
    }

    pub fn new_state(trace_id: TraceId, span_id: u64) -> SpanContextState {
        SpanContextState { trace_id, span_id }
    }

    pub fn span_state(ctx: &Context) -> Option<SpanContextState> {
        match ctx.get::<Option<SpanContext>>("parent_span_ctx") {
            Some(Some(p)) => Some(p.state.clone()),
            _ => None,
        }
    }

    pub fn inject_span_state(ctx: Context, state: SpanContextState) -> Context {
        ctx.with_value::<Option<SpanContext>>("parent_span_ctx", Some(SpanContext { state }))
    }

    pub fn str_to_trace(s: &str) -> Result<TraceId, String> {
        let bad = |e: std::num::ParseIntError| e.to_string();
        if s.len() <= 16 {
            let low = u64::from_str_radix(s, 16).map_err(bad)?;
            Ok(TraceId { high: 0, low })
        } else if s.len() <= 32 {
            let (high, low) = s.as_bytes().split_at(s.len() - 16);
            let high = std::str::from_utf8(high).map_err(|e| e.to_string())?;
            let low = std::str::from_utf8(low).map_err(|e| e.to_string())?;
            Ok(TraceId {
                high: u64::from_str_radix(high, 16).map_err(bad)?,
                low: u64::from_str_radix(low, 16).map_err(bad)?,
            })
        } else {
            Err(format!("s={s:?}"))
        }
    }
}

pub fn global_tracer_register(_: &str, _: SocketAddr, _: usize) {}
