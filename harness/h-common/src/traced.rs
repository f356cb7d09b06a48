//! B04: functions annotated for tracing or metrics behave exactly as written, and what happened is recorded truthfully.

use std::future::Future;
use std::pin::Pin;
use std::task::{Context as TaskContext, Poll};

use async_trait::async_trait;
use common_apm::metrics::api::{API_REQUEST_RESULT_COUNTER_VEC_STATIC as RESULTS, API_REQUEST_TIME_HISTOGRAM_STATIC as TIMES};
use common_apm::tracing::{record, take, AxonTracer, LogField, Record, SpanContext, Tag, TraceId};
use common_apm_derive::{metrics_rpc, trace_span};
use mc::{ensure, ensure_eq, Check};
use protocol::traits::Context;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Way {
    Good,
    Tail,
    Return,
    Question,
}
const WAYS: [Way; 4] = [Way::Good, Way::Tail, Way::Return, Way::Question];

#[derive(Debug, PartialEq, Eq, Clone, thiserror::Error)]
#[error("failed with {0}")]
pub struct Failure(u32);

type Res<T> = Result<T, Failure>;
type LocalResult<T> = Result<T, Failure>;
type ResultOf<T> = Result<T, Failure>;

fn inner(w: Way, seen: &mut Vec<u32>) -> Res<u32> {
    seen.push(1);
    if w == Way::Question {
        Err(Failure(3))
    } else {
        Ok(10)
    }
}

/// Ready the second time it is asked.
#[derive(Default)]
struct Later(bool);
impl Future for Later {
    type Output = ();

    fn poll(mut self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

macro_rules! body {
    ($w:expr, $seen:expr) => {{
        let x = inner($w, $seen)?;
        if $w == Way::Return {
            return Err(Failure(2));
        }
        $seen.push(x);
        if $w == Way::Tail {
            Err(Failure(1))
        } else {
            Ok(x as usize + $seen.len())
        }
    }};
}

#[async_trait]
trait Work {
    async fn a_plain(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure>;
    async fn a_logs(&self, ctx: Context, w: Way, seen: &mut Vec<u32>, items: &[u32]) -> LocalResult<usize>;
    async fn a_value(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> usize;
    async fn a_nested(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure>;
    async fn a_unit(&self, ctx: Context, seen: &mut Vec<u32>);
    fn s_result(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure>;
    fn s_value(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> usize;
    fn s_unit(&self, ctx: Context, seen: &mut Vec<u32>);
}

struct Traced;
struct Plain;

#[async_trait]
impl Work for Traced {
    #[trace_span(kind = "k1")]
    async fn a_plain(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure> {
        Later::default().await;
        body!(w, seen)
    }

    #[trace_span(kind = "k.two", name = "renamed", logs = "{n: items.len(), first : items.first().copied().unwrap_or(0)}", tags = "{kind: some text, m: items.len() * 2}")]
    async fn a_logs(&self, ctx: Context, w: Way, seen: &mut Vec<u32>, items: &[u32]) -> LocalResult<usize> {
        body!(w, seen)
    }

    #[trace_span(kind = "k3", tags = "{m: 7}")]
    async fn a_value(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> usize {
        Later::default().await;
        let _ = inner(w, seen);
        if w == Way::Return {
            return 4;
        }
        seen.len()
    }

    #[trace_span(kind = "k4")]
    async fn a_nested(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure> {
        let n = self.s_value(ctx.clone(), Way::Good, seen);
        let r = self.a_plain(ctx, w, seen).await?;
        Ok(n + r)
    }

    #[trace_span(kind = "k5")]
    async fn a_unit(&self, ctx: Context, seen: &mut Vec<u32>) {
        seen.push(5);
    }

    #[trace_span(kind = "k6", logs = "{way: way_text(w), most: std::primitive::u32::MAX, third: 3, fourth: w as u8 == Way::Good as u8}")]
    fn s_result(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure> {
        body!(w, seen)
    }

    #[trace_span(kind = "k7")]
    fn s_value(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> usize {
        let _ = inner(w, seen);
        if w == Way::Return {
            return 4;
        }
        seen.len()
    }

    #[trace_span(kind = "k8")]
    fn s_unit(&self, ctx: Context, seen: &mut Vec<u32>) {
        seen.push(8);
    }
}

fn way_text(w: Way) -> String {
    format!("{w:?}")
}

#[trace_span(kind = "k9", name = "free")]
pub fn free(ctx: Context, w: Way, seen: &mut Vec<u32>) -> Res<usize> {
    body!(w, seen)
}

#[trace_span(kind = "k10")]
pub fn free_result(ctx: Context, w: Way, seen: &mut Vec<u32>) -> ResultOf<usize> {
    body!(w, seen)
}

impl Traced {
    #[trace_span(kind = "k11", logs = "{n: seen.len()}")]
    pub async fn i_result(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> std::result::Result<usize, Failure> {
        Later::default().await;
        body!(w, seen)
    }

    #[trace_span(kind = "k12")]
    async fn i_value(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> usize {
        let _ = inner(w, seen);
        Later::default().await;
        if w == Way::Return {
            return 4;
        }
        seen.len()
    }
}

#[async_trait]
impl Work for Plain {
    async fn a_plain(&self, _: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure> {
        Later::default().await;
        body!(w, seen)
    }

    async fn a_logs(&self, _: Context, w: Way, seen: &mut Vec<u32>, _: &[u32]) -> LocalResult<usize> {
        body!(w, seen)
    }

    async fn a_value(&self, _: Context, w: Way, seen: &mut Vec<u32>) -> usize {
        Later::default().await;
        let _ = inner(w, seen);
        if w == Way::Return {
            return 4;
        }
        seen.len()
    }

    async fn a_nested(&self, ctx: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure> {
        let n = self.s_value(ctx.clone(), Way::Good, seen);
        let r = self.a_plain(ctx, w, seen).await?;
        Ok(n + r)
    }

    async fn a_unit(&self, _: Context, seen: &mut Vec<u32>) {
        seen.push(5);
    }

    fn s_result(&self, _: Context, w: Way, seen: &mut Vec<u32>) -> Result<usize, Failure> {
        body!(w, seen)
    }

    fn s_value(&self, _: Context, w: Way, seen: &mut Vec<u32>) -> usize {
        let _ = inner(w, seen);
        if w == Way::Return {
            return 4;
        }
        seen.len()
    }

    fn s_unit(&self, _: Context, seen: &mut Vec<u32>) {
        seen.push(8);
    }
}

/// What a call gave: a value, or an error, or nothing.
type Given = Option<Result<usize, Failure>>;

fn call(w: &dyn Work, which: usize, ctx: Context, way: Way, items: &[u32], seen: &mut Vec<u32>, traced: bool) -> Given {
    use futures::executor::block_on;
    match which {
        0 => Some(block_on(w.a_plain(ctx, way, seen))),
        1 => Some(block_on(w.a_logs(ctx, way, seen, items))),
        2 => Some(Ok(block_on(w.a_value(ctx, way, seen)))),
        3 => Some(block_on(w.a_nested(ctx, way, seen))),
        4 => {
            block_on(w.a_unit(ctx, seen));
            None
        }
        5 => Some(w.s_result(ctx, way, seen)),
        6 => Some(Ok(w.s_value(ctx, way, seen))),
        7 => {
            w.s_unit(ctx, seen);
            None
        }
        8 if traced => Some(free(ctx, way, seen)),
        9 if traced => Some(free_result(ctx, way, seen)),
        10 if traced => Some(block_on(Traced.i_result(ctx, way, seen))),
        11 if traced => Some(Ok(block_on(Traced.i_value(ctx, way, seen)))),
        11 => Some(Ok(w.s_value(ctx, way, seen))),
        _ => Some((|| body!(way, seen))()),
    }
}

/// The span one call leaves, without its id.
struct Want {
    name: &'static str,
    tags: Vec<(String, String)>,
    logs: Vec<(String, String)>,
}

fn wanted(which: usize, way: Way, items: &[u32], given: &Given) -> Want {
    let name = ["k1.a_plain", "k.two.renamed", "k3.a_value", "k4.a_nested", "k5.a_unit", "k6.s_result", "k7.s_value", "k8.s_unit", "k9.free", "k10.free_result", "k11.i_result", "k12.i_value"][which];
    let mut tags: Vec<(String, String)> = vec![];
    let mut logs: Vec<(String, String)> = vec![];
    let t = |a: &str, b: String| (a.to_string(), b);
    match which {
        1 => {
            tags.push(t("kind", "some text".into()));
            tags.push(t("m", (items.len() * 2).to_string()));
            logs.push(t("n", items.len().to_string()));
            logs.push(t("first", items.first().copied().unwrap_or(0).to_string()));
        }
        2 => tags.push(t("m", "7".into())),
        5 => {
            logs.push(t("way", way_text(way)));
            logs.push(t("most", u32::MAX.to_string()));
            logs.push(t("third", "3".into()));
            logs.push(t("fourth", (way == Way::Good).to_string()));
        }
        10 => logs.push(t("n", "0".into())),
        _ => {}
    }
    // Functions whose declared type is a `Result` say how they ended ("free" returns an alias under another name).
    if [0, 1, 3, 5, 9, 10].contains(&which) {
        match given {
            Some(Err(e)) => {
                tags.push(t("error", "true".into()));
                logs.push(t("error_msg", e.to_string()));
            }
            _ => tags.push(t("error", "false".into())),
        }
    }
    tags.sort();
    logs.sort();
    Want { name, tags, logs }
}

fn compare(r: &Record, w: &Want) -> Result<(), String> {
    let mut tags: Vec<(String, String)> = r.tags.iter().map(|Tag(a, b)| (a.clone(), b.clone())).collect();
    let mut logs: Vec<(String, String)> = r.logs.iter().map(|LogField(a, b)| (a.clone(), b.clone())).collect();
    tags.sort();
    logs.sort();
    if r.name != w.name {
        return Err(format!("span name: {} instead of {}", r.name, w.name));
    }
    if tags != w.tags {
        return Err(format!("span tags: {} has {tags:?} instead of {:?}", w.name, w.tags));
    }
    if logs != w.logs {
        return Err(format!("span logs: {} has {logs:?} instead of {:?}", w.name, w.logs));
    }
    Ok(())
}

fn jsonish(r: &Res<u32>) -> bool {
    r.is_err()
}

#[async_trait]
trait Rpc {
    async fn send(&self, a: u32, w: Way) -> Result<usize, Failure>;
    async fn number(&self, w: Way) -> Result<usize, Failure>;
    fn listening(&self, w: Way) -> Result<usize, Failure>;
    fn version(&self, a: &str, w: Way) -> Result<usize, Failure>;
}

struct Api;

impl Api {
    #[metrics_rpc("net_peerCount")]
    async fn peers(&self, w: Way) -> Result<usize, Failure> {
        let mut seen = vec![];
        Later::default().await;
        body!(w, &mut seen)
    }
}

#[async_trait]
impl Rpc for Api {
    #[metrics_rpc("eth_sendRawTransaction")]
    async fn send(&self, a: u32, w: Way) -> Result<usize, Failure> {
        let mut seen = vec![a];
        Later::default().await;
        body!(w, &mut seen)
    }

    #[metrics_rpc("eth_blockNumber")]
    async fn number(&self, w: Way) -> Result<usize, Failure> {
        let mut seen = vec![];
        body!(w, &mut seen)
    }

    #[metrics_rpc("net_listening")]
    fn listening(&self, w: Way) -> Result<usize, Failure> {
        let mut seen = vec![];
        body!(w, &mut seen)
    }

    #[metrics_rpc("net_version")]
    fn version(&self, a: &str, w: Way) -> Result<usize, Failure> {
        let mut seen = vec![a.len() as u32];
        body!(w, &mut seen)
    }
}

fn counters() -> Vec<(u64, u64, u64)> {
    let r = &RESULTS;
    let t = &TIMES;
    vec![
        (r.eth_sendRawTransaction.success.get(), r.eth_sendRawTransaction.failure.get(), t.eth_sendRawTransaction.get()),
        (r.eth_blockNumber.success.get(), r.eth_blockNumber.failure.get(), t.eth_blockNumber.get()),
        (r.net_listening.success.get(), r.net_listening.failure.get(), t.net_listening.get()),
        (r.net_version.success.get(), r.net_version.failure.get(), t.net_version.get()),
        (r.net_peerCount.success.get(), r.net_peerCount.failure.get(), t.net_peerCount.get()),
    ]
}

pub fn transparency(check: &Check) {
    let n = check.by_tier(2, 3);
    check
        .part(
            "spans",
            "a span is recorded",
            "every kind of annotated function (async and not, result and not, of a trait, a type's own and free, with tags and logs) x every way to end (value, error at the \
             end, early return, `?`) x tracer with and without spans x caller without span, with an empty and with a real one; sequences of calls",
        )
        .explore(|c| {
            let spans = c.flip();
            let parent = c.choose(3);
            let ctx = match parent {
                0 => Context::new(),
                1 => Context::new().with_value::<Option<SpanContext>>("parent_span_ctx", None),
                _ => AxonTracer::inject_span_state(Context::new(), AxonTracer::new_state(TraceId { high: 1, low: 2 }, 77)),
            };
            let calls = 1 + c.choose(n);
            for _ in 0..calls {
                let which = c.choose(12);
                let way = if [4, 7].contains(&which) { Way::Good } else { *c.pick(&WAYS) };
                let items: Vec<u32> = if which == 1 { (0..c.choose(3) as u32).map(|i| i + 5).collect() } else { vec![] };
                let (mut s1, mut s2) = (vec![], vec![]);
                record(spans);
                let got = call(&Traced, which, ctx.clone(), way, &items, &mut s1, true);
                let mut recs = take();
                let plain = call(&Plain, which, ctx.clone(), way, &items, &mut s2, false);
                ensure_eq!(got, plain, "result of an annotated function (case {which}, {way:?})");
                ensure_eq!(s1, s2, "effects of an annotated function (case {which}, {way:?})");
                c.outcome((which, way, spans, parent, recs.len()));
                if !spans {
                    ensure!(recs.is_empty(), "a span without a tracer: {recs:?}");
                    continue;
                }
                c.nontrivial();
                recs.sort_by_key(|r| r.id);
                ensure_eq!(recs.len(), if which == 3 { 3 } else { 1 }, "number of spans");
                compare(&recs[0], &wanted(which, way, &items, &got))?;
                ensure_eq!(recs[0].parent, (parent == 2).then_some(77), "parent of the span");
                if which == 3 {
                    let id = recs[0].id;
                    ensure!(recs[1].parent == Some(id) && recs[2].parent == Some(id), "nested spans are not children: {recs:?}");
                    compare(&recs[1], &wanted(6, Way::Good, &[], &None))?;
                    let inner = match way {
                        Way::Good => Some(Ok(0)),
                        Way::Tail => Some(Err(Failure(1))),
                        Way::Return => Some(Err(Failure(2))),
                        Way::Question => Some(Err(Failure(3))),
                    };
                    compare(&recs[2], &wanted(0, way, &[], &inner))?;
                }
            }
            Ok(())
        });

    let n = check.by_tier(3, 5);
    check
        .part(
            "rpc-metrics",
            "a call fails, or is abandoned before it ended",
            "every sequence of calls up to the stated length over four annotated methods (async and not, with and without arguments) x every way to end, \
             and async calls abandoned before they end",
        )
        .serial()
        .explore(|c| {
            let mut want = counters();
            let calls = 1 + c.choose(n);
            for _ in 0..calls {
                let which = c.choose(5);
                let way = *c.pick(&WAYS);
                let (r, seen): (Res<usize>, usize) = match which {
                    0 if way == Way::Good && c.flip() => {
                        let mut f = Api.send(9, way);
                        let w = futures::task::noop_waker();
                        let p = f.as_mut().poll(&mut TaskContext::from_waker(&w));
                        ensure!(p.is_pending(), "the call ended too early: {p:?}");
                        drop(f);
                        c.nontrivial();
                        ensure_eq!(counters(), want, "counters after an abandoned call");
                        continue;
                    }
                    0 => (futures::executor::block_on(Api.send(9, way)), 1),
                    1 => (futures::executor::block_on(Api.number(way)), 0),
                    2 => (Api.listening(way), 0),
                    4 => (futures::executor::block_on(Api.peers(way)), 0),
                    _ => (Api.version("abc", way), 1),
                };
                let exp = match way {
                    Way::Good => Ok(10 + seen + 2),
                    Way::Tail => Err(Failure(1)),
                    Way::Return => Err(Failure(2)),
                    Way::Question => Err(Failure(3)),
                };
                ensure_eq!(r, exp, "result of a counted method");
                match r {
                    Ok(_) => {
                        want[which].0 += 1;
                        want[which].2 += 1;
                    }
                    Err(_) => {
                        c.nontrivial();
                        want[which].1 += 1;
                    }
                }
                ensure_eq!(counters(), want, "counters after {which} {way:?}");
                c.outcome((which, way));
            }
            let _ = jsonish;
            Ok(())
        });
}
