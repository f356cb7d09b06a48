//! I02: each call of another node gets its own answer, once, or an error in bounded time.
use std::sync::{Arc, Mutex};
use std::time::Duration;

use core_network::NetworkContext;
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::async_trait;
use protocol::traits::{Context, MessageHandler, Priority, Rpc, TrustFeedback};
use tentacle::service::SessionType;
use tokio::task::JoinHandle;

use crate::wire::{Handler, Log, Word};
use crate::world::*;

const ASK: &str = "/rpc_call/x/ask";
const ANSWER: &str = "/rpc_resp/x/ask";

type Answer = Result<Word, String>;

struct Call {
    session: usize,
    rid:     u64,
    age:     u64,
    task:    JoinHandle<Answer>,
    /// What the model says has become of it.
    done:    Option<Option<Vec<u8>>>,
    text:    Option<&'static str>,
}

fn start(net: &Net, session: usize, url: String, content: Vec<u8>, p: Priority) -> JoinHandle<Answer> {
    let handle = net.handle.clone();
    tokio::spawn(async move {
        let ctx = Context::new().set_session_id(session.into());
        handle.call::<Word, Word>(ctx, &url, Word(content), p).await.map_err(|e| e.to_string())
    })
}

/// The only message sent since the last look.
fn sent(net: &mut Net, what: &str) -> Result<(usize, String, Vec<u8>), Fail> {
    let did = net.did();
    match &did[..] {
        [Did::Send { to, proto: TRANSMITTER, data, .. }] if to.len() == 1 => Ok((to[0], url_of(data), content_of(data))),
        _ => Err(Fail::new("a call or an answer is not sent as one message", format!("{}: {:?}", what, did))),
    }
}

/// Calls, answers good and bad, time and cancellation in any order.
fn calls(c: &mut Chooser, depth: usize) -> Result<(), Fail> {
    let _clock = Clock::start();
    let mut net = Net::new(ME, |_| {});
    net.service.as_mut().unwrap().register_rpc_response(ANSWER).map_err(|e| Fail::new("cannot register", e.to_string()))?;
    let rt = rt();
    rt.block_on(async {
        let s = [net.join(1, 1, SessionType::Inbound).await, net.join(2, 2, SessionType::Outbound).await];
        net.did();
        let mut calls: Vec<Call> = vec![];
        for _ in 0..depth {
            let n = calls.len();
            match c.choose(5) {
                0 => break,
                1 if n < 3 => {
                    let session = s[c.choose(2)];
                    let content = vec![7, n as u8];
                    c.note(|| format!("call {} to session {}", n, session));
                    let task = start(&net, session, ASK.into(), content.clone(), if n == 1 { Priority::High } else { Priority::Normal });
                    settle().await;
                    let (to, url, body) = sent(&mut net, "call")?;
                    let rid = url.strip_prefix(&format!("{}/", ASK)).and_then(|r| r.parse().ok());
                    let rid: u64 = rid.ok_or_else(|| Fail::new("a call is sent to another address", url.clone()))?;
                    ensure!(to == session && body == content, "a call is sent wrongly: to {} ({}), content {:?} ({:?})", to, session, body, content);
                    ensure!(calls.iter().all(|c| c.session != session || c.rid != rid), "two calls have the same number: {}", rid);
                    calls.push(Call { session, rid, age: 0, task, done: None, text: None });
                }
                2 if n > 0 => {
                    let session = s[c.choose(2)];
                    // an answer to some call, or to a call never made
                    let k = c.choose(n + 1);
                    let rid = calls.get(k).map_or(1 << 40, |c| c.rid);
                    let kind = c.deviate(5);
                    let content: &[u8] = [&[0, 7, 9][..], &[0, 8], &[1, b'n', b'o'], &[], &[0]][kind];
                    let gap = c.deviate(2) == 0;
                    c.note(|| format!("answer {:?} from session {} to number {}{}", content, session, rid, if gap { "" } else { ", the next event at once" }));
                    net.receive(session, TRANSMITTER, message(&format!("{}/{}", ANSWER, rid), content, &[])).await;
                    if let Some(call) = calls.iter_mut().find(|c| c.session == session && c.rid == rid && c.done.is_none()) {
                        call.done = Some(if kind == 0 { Some(vec![7, 9]) } else { None });
                        call.text = if kind == 2 { Some("no") } else { None };
                    }
                    if gap {
                        settle().await;
                    }
                }
                3 if n > 0 => {
                    let ms = *c.pick(&[6000u64, 11_000]);
                    c.note(|| format!("{} ms pass", ms));
                    settle().await;
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    settle().await;
                    for call in calls.iter_mut().filter(|c| c.done.is_none()) {
                        call.age += ms;
                        if call.age > 10_000 {
                            call.done = Some(None);
                        }
                    }
                }
                4 if n > 0 => {
                    let k = c.choose(n);
                    c.note(|| format!("call {} is given up", k));
                    settle().await;
                    let call = calls.remove(k);
                    if call.done.is_none() {
                        call.task.abort();
                        settle().await;
                        ensure!(call.task.await.is_err(), "a call given up had an answer that nobody gave: {}", k);
                    } else {
                        finish(call).await?;
                    }
                }
                _ => break,
            }
            c.transition();
            let did = net.did();
            ensure!(did.is_empty(), "an answer or the clock makes the node act: {:?}", did);
        }
        settle().await;
        c.nontrivial();
        c.outcome(calls.iter().map(|c| c.done.as_ref().map(|d| d.is_some())).collect::<Vec<_>>());
        for call in &calls {
            ensure_eq!(call.task.is_finished(), call.done.is_some(), "whether a call has ended");
        }
        for call in calls {
            match call.done {
                Some(_) => finish(call).await?,
                None => call.task.abort(),
            }
        }
        Ok(())
    })
}

async fn finish(call: Call) -> Result<(), Fail> {
    let rid = call.rid;
    let got = call.task.await.map_err(|e| Fail::new("a call panics", e.to_string()))?;
    match (call.done.unwrap(), &got) {
        (Some(v), Ok(w)) if w.0 == v => {}
        (None, Err(e)) => {
            if let Some(t) = call.text {
                ensure!(e.contains(t), "the error of the other node is lost: {}", e);
            }
        }
        (w, _) => return Err(Fail::new("a call ends wrongly", format!("number {}: {:?}, should be {:?}", rid, got, w))),
    }
    Ok(())
}

/// A handler that keeps the context of each call, for the answer.
#[derive(Default, Clone)]
struct Keep(Arc<Mutex<Vec<(Context, Vec<u8>)>>>);

#[async_trait]
impl MessageHandler for Keep {
    type Message = Word;

    async fn process(&self, ctx: Context, m: Word) -> TrustFeedback {
        self.0.lock().unwrap().push((ctx, m.0));
        TrustFeedback::Neutral
    }
}

/// Three calls between two callers and one answering node, delivered and answered in any order.
fn two_ends(c: &mut Chooser) -> Result<(), Fail> {
    let _clock = Clock::start();
    let (mut a, mut a2, mut b) = (Net::new(201, |_| {}), Net::new(202, |_| {}), Net::new(203, |_| {}));
    let keep = Keep::default();
    b.service.as_mut().unwrap().register_endpoint_handler(ASK, keep.clone()).map_err(|e| Fail::new("cannot register", e.to_string()))?;
    for n in [&mut a, &mut a2] {
        n.service.as_mut().unwrap().register_rpc_response(ANSWER).map_err(|e| Fail::new("cannot register", e.to_string()))?;
    }
    let rt = rt();
    rt.block_on(async {
        // the session numbers of the two ends differ, and the two callers have the same number for theirs
        let (sa, sa2) = (a.join(203, 3, SessionType::Outbound).await, a2.join(203, 3, SessionType::Outbound).await);
        b.join(99, 9, SessionType::Inbound).await;
        let (b1, b2) = (b.join(201, 1, SessionType::Inbound).await, b.join(202, 2, SessionType::Inbound).await);
        for n in [&mut a, &mut a2, &mut b] {
            n.did();
        }
        let who: Vec<usize> = (0..3).map(|_| c.choose(2)).collect();
        let mut tasks = vec![];
        // requests on their way, by caller, in order
        let mut way: [Vec<tentacle::bytes::Bytes>; 2] = [vec![], vec![]];
        for (i, w) in who.iter().enumerate() {
            let net = if *w == 0 { &mut a } else { &mut a2 };
            tasks.push(start(net, if *w == 0 { sa } else { sa2 }, ASK.into(), vec![7, i as u8], Priority::High));
            settle().await;
            for d in net.did() {
                if let Did::Send { data, .. } = d {
                    way[*w].push(data);
                }
            }
        }
        ensure_eq!(way[0].len() + way[1].len(), 3, "requests on their way");
        let mut open: Vec<(Context, Vec<u8>)> = vec![];
        let mut back: [Vec<tentacle::bytes::Bytes>; 2] = [vec![], vec![]];
        let mut errors = [false; 3];
        loop {
            let mut can: Vec<(u8, usize)> = vec![];
            for w in 0..2 {
                if !way[w].is_empty() {
                    can.push((0, w));
                }
                if !back[w].is_empty() {
                    can.push((2, w));
                }
            }
            can.extend((0..open.len()).map(|i| (1, i)));
            if can.is_empty() {
                break;
            }
            let (kind, i) = *c.pick(&can);
            c.transition();
            match kind {
                0 => {
                    let data = way[i].remove(0);
                    c.note(|| format!("request of caller {} arrives", i));
                    // what travels is the frame of the protocol
                    let wire = if i == 0 { a.node.wire(proto(TRANSMITTER), data) } else { a2.node.wire(proto(TRANSMITTER), data) };
                    let data = b.node.unwire(proto(TRANSMITTER), &wire).map_err(|e| Fail::new("a frame does not arrive", e.to_string()))?;
                    b.receive([b1, b2][i], TRANSMITTER, data).await;
                    settle().await;
                    let mut got = std::mem::take(&mut *keep.0.lock().unwrap());
                    ensure_eq!(got.len(), 1, "requests handled");
                    open.append(&mut got);
                }
                1 => {
                    let (ctx, q) = open.remove(i);
                    let k = q[1] as usize;
                    let bad = c.deviate(2) == 1;
                    errors[k] = bad;
                    c.note(|| format!("request {} is answered{}", k, if bad { " with an error" } else { "" }));
                    let ret = match bad {
                        false => Ok(Word(vec![7, 100 + k as u8])),
                        true => Err(protocol::codec::error::CodecError::Rlp("sorry".into()).into()),
                    };
                    b.handle.response(ctx, ANSWER, ret, Priority::Normal).await.map_err(|e| Fail::new("an answer is not sent", e.to_string()))?;
                    for d in b.did() {
                        match d {
                            Did::Send { to, data, proto: TRANSMITTER, .. } if to == vec![b1] => back[0].push(data),
                            Did::Send { to, data, proto: TRANSMITTER, .. } if to == vec![b2] => back[1].push(data),
                            d => return Err(Fail::new("an answer goes elsewhere", format!("{:?}", d))),
                        }
                    }
                }
                _ => {
                    let data = back[i].remove(0);
                    c.note(|| format!("answer to caller {} arrives", i));
                    match i {
                        0 => a.receive(sa, TRANSMITTER, data).await,
                        _ => a2.receive(sa2, TRANSMITTER, data).await,
                    }
                    settle().await;
                }
            }
        }
        c.nontrivial();
        c.outcome((who, errors));
        for (k, t) in tasks.into_iter().enumerate() {
            ensure!(t.is_finished(), "an answered call does not end: {}", k);
            let got = t.await.map_err(|e| Fail::new("a call panics", e.to_string()))?;
            match got {
                Ok(w) if !errors[k] && w.0 == vec![7, 100 + k as u8] => {}
                Err(e) if errors[k] && e.contains("sorry") => {}
                got => return Err(Fail::new("a call gets another answer", format!("{}: {:?}", k, got))),
            }
        }
        Ok(())
    })
}

/// Calls and answers that cannot be sent end at once, with nothing sent.
fn refused(c: &mut Chooser) -> Result<(), Fail> {
    let mut net = Net::new(ME, |_| {});
    let log = Log::default();
    net.service.as_mut().unwrap().register_endpoint_handler(ASK, Handler("ask", log)).map_err(|e| Fail::new("cannot register", e.to_string()))?;
    let rt = rt();
    rt.block_on(async {
        let s = net.join(1, 1, SessionType::Inbound).await;
        net.did();
        let long = format!("/rpc_call/x/{}", "y".repeat(108));
        let url = c.pick(&["", "ask", "/rpc_call", "/rpc_call/x", "/none/x/y", "/rpc_call/x/y/z/w", long.as_str(), ASK]).to_string();
        let ctx = c.choose(3);
        let call = c.flip();
        c.note(|| format!("{} to {:?}, context {}", if call { "call" } else { "answer" }, url, ctx));
        let mut cx = Context::new();
        if ctx > 0 {
            cx = cx.set_session_id(s.into());
        }
        if ctx > 1 {
            cx = cx.set_rpc_id(5);
        }
        let good = url == ASK && ctx >= if call { 1 } else { 2 };
        let handle = net.handle.clone();
        let u = url.clone();
        let task = tokio::spawn(async move {
            match call {
                true => handle.call::<Word, Word>(cx, &u, Word(vec![7]), Priority::High).await.map(|_| ()),
                false => handle.response(cx, &u, Ok(Word(vec![7])), Priority::High).await,
            }
        });
        settle().await;
        let did = net.did();
        c.nontrivial();
        c.outcome((good, call));
        if good {
            ensure_eq!(did.len(), 1, "messages sent");
            if let Did::Send { to, data, .. } = &did[0] {
                ensure!(to == &vec![s], "sent elsewhere: {:?}", did);
                ensure!(call || url_of(data) == format!("{}/5", ASK), "an answer has another number: {}", url_of(data));
            }
            ensure!(call != task.is_finished(), "a call ends before its answer: {}", call);
            task.abort();
            return Ok(());
        }
        ensure!(did.is_empty(), "something is sent although it cannot be: {:?}", did);
        ensure!(task.is_finished(), "a call that cannot be sent waits: {:?}", url);
        match task.await {
            Ok(r) => ensure!(r.is_err(), "a call that cannot be sent succeeds: {:?}", url),
            Err(e) => return Err(Fail::new("a call that cannot be sent panics", format!("{:?}: {}", url, e))),
        }
        Ok(())
    })
}

pub fn run(check: &Check) {
    let depth = check.by_tier(5, 6);
    check
        .part("calls", "a call ends with the answer its peer gave to it, with the peer's error, or after ten seconds", &format!("up to {} events: 3 calls on 2 sessions, answers of 5 kinds to any number on any session, time, giving up; 1 deviation (thorough: 2)", depth))
        .deviations(check.by_tier(1, 2))
        .explore(move |c| calls(c, depth));
    check
        .part("two ends", "requests of two callers reach the handler and their answers come back to them", "3 calls of 2 callers with equal session numbers, every order of requests, answers and arrivals; 1 error answer")
        .deviations(check.by_tier(1, 3))
        .explore(two_ends);
    check.part("refused", "a call or answer without a proper address or session ends at once", "8 addresses x 3 contexts x call or answer").explore(refused);
}
