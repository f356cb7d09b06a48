//! I01: what arrives from a peer is delivered exactly as sent, or refused; never does it take the node down.
use std::sync::{Arc, Mutex};

use core_network::reactor::{MessageRouter, RemotePeer};
use core_network::endpoint::Endpoint;
use core_network::protocols::ReceivedMessage;
use core_network::NetworkContext;
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::async_trait;
use protocol::traits::{Context, MessageCodec, MessageHandler, TrustFeedback};
use protocol::types::Bytes as PBytes;
use tentacle::bytes::Bytes;
use tentacle::service::SessionType;

use crate::world::*;

/// A message type of an application: at least one byte, the first of which must be 7.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Word(pub Vec<u8>);

impl MessageCodec for Word {
    fn encode_msg(&mut self) -> protocol::ProtocolResult<PBytes> {
        Ok(PBytes::from(self.0.clone()))
    }

    fn decode_msg(bytes: PBytes) -> protocol::ProtocolResult<Self> {
        match bytes.first() {
            Some(7) => Ok(Word(bytes.to_vec())),
            _ => Err(protocol::codec::error::CodecError::Rlp("first byte".into()).into()),
        }
    }
}

/// What a handler saw.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Seen {
    pub name:    &'static str,
    pub session: Option<usize>,
    pub peer:    Option<Vec<u8>>,
    pub host:    Option<String>,
    pub rpc:     Option<u64>,
    pub trace:   Option<(String, u64)>,
    pub content: Vec<u8>,
}

pub type Log = Arc<Mutex<Vec<Seen>>>;

pub struct Handler(pub &'static str, pub Log);

#[async_trait]
impl MessageHandler for Handler {
    type Message = Word;

    async fn process(&self, ctx: Context, m: Word) -> TrustFeedback {
        let trace = common_apm::tracing::AxonTracer::span_state(&ctx);
        self.1.lock().unwrap().push(Seen {
            name:    self.0,
            session: ctx.session_id().ok().map(|s| s.value()),
            peer:    ctx.remote_peer_id().ok().map(|p| p.into_bytes()),
            host:    ctx.remote_connected_addr().map(|a| a.to_string()),
            rpc:     ctx.rpc_id().ok(),
            trace:   trace.map(|t| (t.trace_id().to_string(), t.span_id())),
            content: m.0,
        });
        TrustFeedback::Neutral
    }
}

fn pattern(kind: usize, n: usize) -> Vec<u8> {
    let mut x = 88172645463325252u64;
    (0..n)
        .map(|i| match kind {
            0 => 0,
            1 => i as u8,
            2 => b"abc"[i % 3],
            _ => {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x as u8
            }
        })
        .collect()
}

/// The data of a snappy block, unless it is bad or says it is larger than 8 MB.
fn unpack(b: &[u8]) -> Option<Vec<u8>> {
    let n = snap::raw::decompress_len(b).ok().filter(|n| *n <= 1 << 23)?;
    let mut out = vec![0; n];
    snap::raw::Decoder::new().decompress(b, &mut out).ok().map(|_| out)
}

const SIZES: [usize; 19] =
    [0, 1, 2, 59, 60, 61, 255, 256, 1022, 1023, 1024, 1025, 1026, 2048, 65535, 65536, 65537, 100_000, 1 << 20];

fn frames(c: &mut Chooser) -> Result<(), Fail> {
    let net = Net::new(ME, |_| {});
    let p = proto(1 + c.choose(5));
    let n = *c.pick(&SIZES);
    let data = Bytes::from(pattern(c.choose(4), n));
    c.note(|| format!("{} bytes over protocol {}", n, p));
    c.nontrivial();
    let wire = net.node.wire(p, data.clone());
    let flag = *wire.first().ok_or_else(|| Fail::new("frame is empty", ""))?;
    c.outcome((flag, n > 1023));
    let back = mc::no_panic(|| net.node.unwire(p, &wire)).map_err(|e| Fail::new("a frame of ours breaks the reader", e))?;
    ensure!(back.as_ref().ok() == Some(&data), "a frame is not read back as it was sent: {} bytes, read {:?}", n, back.map(|b| b.len()));
    // the format is shared with other nodes: flag 0 and the bytes, or flag 0x80 and their raw snappy form
    let body = match flag {
        0 => wire[1..].to_vec(),
        0x80 => unpack(&wire[1..]).ok_or_else(|| Fail::new("compressed frame is not snappy", ""))?,
        f => return Err(Fail::new("unknown flag on a frame", format!("{:#x}", f))),
    };
    ensure!(body == data, "the body of a frame is not the data: {} bytes", n);
    ensure!(flag == 0 || n > 1000, "a small frame is compressed: {} bytes", n);
    let plain = [&[0u8][..], &data].concat();
    let packed = [&[0x80u8][..], &snap::raw::Encoder::new().compress_vec(&data).unwrap()].concat();
    for (name, f) in [("plain", plain), ("packed", packed)] {
        let got = mc::no_panic(|| net.node.unwire(p, &f)).map_err(|e| Fail::new("a good frame breaks the reader", e))?;
        ensure!(got.as_ref().ok() == Some(&data), "a good frame of another node is not read: {} {} bytes", name, n);
    }
    Ok(())
}

fn hostile_frame(c: &mut Chooser) -> Result<(), Fail> {
    const A: [u8; 10] = [0x00, 0x01, 0x04, 0x05, 0x0d, 0x7f, 0x80, 0x81, 0xf0, 0xff];
    let net = Net::new(ME, |_| {});
    let n = c.choose(6);
    let f: Vec<u8> = (0..n).map(|_| *c.pick(&A)).collect();
    c.note(|| format!("frame {}", mc::hex(&f)));
    let got = mc::no_panic(|| net.node.unwire(proto(4), &f)).map_err(|e| Fail::new("a frame from the network breaks the reader", format!("{}: {}", mc::hex(&f), e)))?;
    let want = match f.split_first() {
        None => None,
        Some((b, rest)) if b & 0x80 == 0 => Some(rest.to_vec()),
        Some((_, rest)) => unpack(rest),
    };
    c.nontrivial();
    c.outcome((want.is_some(), f.first().map(|b| b & 0x80)));
    ensure!(got.is_ok() == want.is_some(), "a frame is judged wrongly: {} gives {:?}", mc::hex(&f), got.map(|b| b.len()));
    if let (Ok(g), Some(w)) = (got, want) {
        ensure!(g == w, "a frame is read wrongly: {}", mc::hex(&f));
    }
    Ok(())
}

fn large(c: &mut Chooser) -> Result<(), Fail> {
    let net = Net::new(ME, |_| {});
    let n = *c.pick(&[(1usize << 23) - 1, 1 << 23, (1 << 23) + 1, 1 << 24]);
    c.note(|| format!("packed frame of {} zeros", n));
    let packed = [&[0x80u8][..], &snap::raw::Encoder::new().compress_vec(&vec![0; n]).unwrap()].concat();
    let got = net.node.unwire(proto(4), &packed);
    c.nontrivial();
    c.outcome(got.is_ok());
    match n <= 1 << 23 {
        true => ensure!(got.map(|g| g.len()).ok() == Some(n), "a frame within the limit is refused: {} bytes", n),
        false => ensure!(got.is_err(), "a frame beyond the limit of 8 MB is unpacked: {} bytes", n),
    }
    Ok(())
}

const GOSSIP: &str = "/gossip/a/news";
const CALL: &str = "/rpc_call/a/ask";

fn router(log: &Log) -> MessageRouter {
    let r = MessageRouter::new();
    r.register_reactor::<Word>(GOSSIP.parse::<Endpoint>().unwrap(), Handler("news", Arc::clone(log)));
    r.register_reactor::<Word>("/gossip/a/other".parse::<Endpoint>().unwrap(), Handler("other", Arc::clone(log)));
    r.register_reactor::<Word>(CALL.parse::<Endpoint>().unwrap(), Handler("ask", Arc::clone(log)));
    r.register_rpc_response("/rpc_resp/a/ask".parse::<Endpoint>().unwrap());
    r
}

fn deliver(log: &Log, data: Bytes) -> Result<Result<(), String>, String> {
    let r = router(log);
    let remote = RemotePeer {
        session_id:     9.into(),
        peer_id:        id(3),
        connected_addr: (&addr(5, 77, 3)).into(),
    };
    let m = ReceivedMessage { session_id: 9.into(), peer_id: id(3), data };
    mc::no_panic(|| rt().block_on(r.route_message(remote, m)).map_err(|e| e.to_string()))
}

fn seen(name: &'static str, rpc: Option<u64>, content: &[u8]) -> Seen {
    Seen {
        name,
        session: Some(9),
        peer: Some(id(3).into_bytes()),
        host: Some("47.5.3.7:77".into()),
        rpc,
        trace: None,
        content: content.to_vec(),
    }
}

fn long(n: usize) -> String {
    let head = "/rpc_call/a/ask/";
    format!("{}{}1", head, "0".repeat(n - head.len() - 1))
}

/// An address with the handler and request number it leads to.
fn urls() -> Vec<(String, Option<(&'static str, Option<u64>)>)> {
    let u = |s: &str, w| (s.to_string(), w);
    vec![
        u(GOSSIP, Some(("news", None))),
        u("/gossip/a/other", Some(("other", None))),
        u("/gossip/a/unknown", None),
        u("/gossip/a", None),
        u("/gossip", None),
        u("/gossip/a/news/b/c", None),
        u("/gossip/b/news", None),
        u("", None),
        u("/", None),
        u("///", None),
        u("gossip/a/news", None),
        u("/Gossip/a/news", None),
        u("/rpc_call/a/ask", None),
        u("/rpc_call/a/ask/", None),
        u("/rpc_call/a/ask/0", Some(("ask", Some(0)))),
        u("/rpc_call/a/ask/18446744073709551615", Some(("ask", Some(u64::MAX)))),
        u("/rpc_call/a/ask/18446744073709551616", None),
        u("/rpc_call/a/ask/-1", None),
        u("/rpc_call/a/ask/x", None),
        u("/rpc_call/a/none/1", None),
        u("/rpc_resp/a/ask/1", Some(("", None))),
        u("/rpc_resp/a/ask/x", None),
        u("/rpc_resp/a/ask", None),
        u("/rpc_resp/a/none/1", None),
        u("/äöü/ß/ø/1", None),
        (long(120), Some(("ask", Some(1)))),
        (long(121), None),
        ("/".repeat(5000), None),
    ]
}

fn headers() -> Vec<(&'static str, Option<Vec<u8>>, Option<Vec<u8>>, Option<(&'static str, u64)>)> {
    let traces: Vec<(Option<&[u8]>, Option<&'static str>)> = vec![
        (None, None),
        (Some(b""), None),
        (Some(b"1f"), Some("1f")),
        (Some(b"00000000000000ff"), Some("ff")),
        (Some(b"10000000000000000f"), Some("10000000000000000f")),
        (Some(b"0123456789abcdef0123456789abcdef"), Some("123456789abcdef0123456789abcdef")),
        (Some(b"0123456789abcdef0123456789abcdef0"), None),
        (Some(b"xyz"), None),
        (Some(b"\xff\xfe"), None),
        (Some("ääääääääääää".as_bytes()), None),
        (Some("1é23456789abcde12".as_bytes()), None),
    ];
    let spans: Vec<(Option<Vec<u8>>, Option<u64>)> = vec![
        (None, None),
        (Some(vec![]), None),
        (Some(vec![1]), None),
        (Some(vec![1; 7]), None),
        (Some(vec![0, 0, 0, 0, 0, 0, 1, 2]), Some(258)),
        (Some(vec![0, 0, 0, 0, 0, 0, 1, 2, 9]), None),
    ];
    let mut out = vec![];
    for (t, tv) in &traces {
        for (s, sv) in &spans {
            let good = tv.zip(*sv);
            out.push(("", t.map(|x| x.to_vec()), s.clone(), good));
        }
    }
    out
}

fn routing(c: &mut Chooser) -> Result<(), Fail> {
    let urls = urls();
    let headers = headers();
    let (url, target) = c.pick(&urls);
    let contents: [&[u8]; 6] = [&[7, 1], &[7], &[], &[8], &[0, 7], &[1, 0xff, 0xfe]];
    let content = *c.pick(&contents);
    let (_, t, s, good) = c.pick(&headers);
    let extra = c.flip();
    let mut h: Vec<(&str, &[u8])> = vec![];
    if extra {
        h.push(("x", b"y"));
    }
    if let Some(t) = t {
        h.push(("trace_id", t));
    }
    if let Some(s) = s {
        h.push(("span_id", s));
    }
    c.note(|| format!("to {:?} content {} trace {:?} span {:?}", url.chars().take(40).collect::<String>(), mc::hex(content), t, s));
    let log = Log::default();
    let ret = deliver(&log, message(url, content, &h)).map_err(|e| {
        Fail::new("a message from a peer breaks the node", format!("url {:?} content {} headers {:?}: {}", url, mc::hex(content), h, e))
    })?;
    let got = log.lock().unwrap().clone();
    let want: Vec<Seen> = match target {
        Some((name, rpc)) if !name.is_empty() && content.first() == Some(&7) => {
            let mut s = seen(name, *rpc, content);
            s.trace = good.map(|(t, n)| (t.to_string(), n));
            vec![s]
        }
        _ => vec![],
    };
    c.nontrivial();
    c.outcome((got.len(), ret.is_ok(), good.is_some()));
    // a tracing header that is not the usual shape may be used or ignored, but the message arrives
    let odd = s.as_ref().map_or(false, |s| s.len() > 8);
    let strip = |v: &[Seen]| v.iter().cloned().map(|mut s| { if odd { s.trace = None } s }).collect::<Vec<_>>();
    ensure!(strip(&got) == strip(&want), "a message is delivered wrongly: {:?} content {} headers {:?}: handled {:?}, should be {:?}", url, mc::hex(content), h, got, want);
    let accepted = match target {
        None => false,
        Some(("", _)) => true,
        Some(_) => content.first() == Some(&7),
    };
    ensure!(ret.is_ok() == accepted, "the outcome of a message is misreported: {:?} content {}: {:?}", url, mc::hex(content), ret);
    Ok(())
}

/// Every cut and every changed byte of a good message.
fn damaged(c: &mut Chooser) -> Result<(), Fail> {
    let shape = c.choose(3);
    let (url, content): (&str, &[u8]) = [(GOSSIP, &[7u8, 2, 3][..]), ("/rpc_call/a/ask/12", &[7, 2]), ("/rpc_resp/a/ask/12", &[0, 7])][shape];
    let good = message(url, content, &[("trace_id", b"1f"), ("span_id", &[0, 0, 0, 0, 0, 0, 0, 5])]).to_vec();
    let mut bytes = good.clone();
    let what = match c.choose(3) {
        0 => {
            let n = c.choose(good.len());
            bytes.truncate(n);
            format!("cut at {}", n)
        }
        1 => {
            let (at, v) = (c.choose(good.len()), *c.pick(&[0x01u8, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff]));
            bytes[at] ^= v;
            format!("byte {} xor {:#x}", at, v)
        }
        _ => {
            let (at, v) = (c.choose(good.len() + 1), *c.pick(&[0x00u8, 0x07, 0x0a, 0x80, 0xff]));
            bytes.insert(at, v);
            format!("byte {:#x} put at {}", v, at)
        }
    };
    c.note(|| what.clone());
    c.nontrivial();
    let log = Log::default();
    let ret = deliver(&log, Bytes::from(bytes.clone())).map_err(|e| Fail::new("a damaged message breaks the node", format!("{} of {}: {} ({})", what, url, e, mc::hex(&bytes))))?;
    let got = log.lock().unwrap().clone();
    c.outcome((got.len(), ret.is_ok()));
    ensure!(got.len() <= 1, "a damaged message is delivered twice: {}", what);
    for s in got {
        ensure!(
            s.session == Some(9) && s.peer == Some(id(3).into_bytes()) && s.host == Some("47.5.3.7:77".to_string()),
            "a damaged message names another sender: {} {:?}", what, s
        );
        ensure!(s.content.first() == Some(&7), "content that does not decode is delivered: {} {:?}", what, s);
    }
    Ok(())
}

/// Protobuf as bytes: every short string over the bytes that matter.
fn raw(c: &mut Chooser) -> Result<(), Fail> {
    const A: [u8; 9] = [0x00, 0x01, 0x02, 0x0a, 0x12, 0x1a, 0x08, 0x80, 0xff];
    let n = c.choose(6);
    let b: Vec<u8> = (0..n).map(|_| *c.pick(&A)).collect();
    c.note(|| mc::hex(&b));
    c.nontrivial();
    let log = Log::default();
    let ret = deliver(&log, Bytes::from(b.clone())).map_err(|e| Fail::new("bytes from a peer break the node", format!("{}: {}", mc::hex(&b), e)))?;
    c.outcome(ret.is_ok());
    ensure!(ret.is_err() && log.lock().unwrap().is_empty(), "bytes that name no endpoint are accepted: {}", mc::hex(&b));
    Ok(())
}

fn world_register(net: &mut Net, url: &str, response: bool, log: &Log) -> Result<bool, Fail> {
    let s = net.service.as_mut().unwrap();
    mc::no_panic(|| match response {
        true => s.register_rpc_response(url).is_ok(),
        false => s.register_endpoint_handler(url, Handler("it", Arc::clone(log))).is_ok(),
    })
    .map_err(|e| Fail::new("registering an endpoint breaks the node", format!("{:?}: {}", url, e)))
}

/// A handler registered with the service is reached by the messages of a session, and by no others.
fn service(c: &mut Chooser) -> Result<(), Fail> {
    let kinds = ["/gossip/x/y", "/rpc_call/x/y", "/rpc_resp/x/y", "/other/x/y", "/gossip/x", "/gossip/x/y/z/w", ""];
    let kind = c.choose(kinds.len());
    let response = c.flip();
    let log = Log::default();
    let mut net = Net::new(ME, |_| {});
    let ok = world_register(&mut net, kinds[kind], response, &log)?;
    let want = match kind {
        0 | 1 => !response,
        2 => response,
        _ => false,
    };
    c.nontrivial();
    c.outcome((kind, ok));
    ensure!(ok == want, "an endpoint is registered wrongly: {:?} as {}: {}", kinds[kind], if response { "response" } else { "handler" }, ok);
    let send = *c.pick(&["/gossip/x/y", "/rpc_call/x/y/4", "/rpc_resp/x/y/4"]);
    let again = 1 + c.choose(2);
    c.note(|| format!("{:?} registered as response {}, {} messages to {}", kinds[kind], response, again, send));
    let rt = rt();
    let peers = rt.block_on(async {
        let (a, b) = (net.join(1, 1, SessionType::Inbound).await, net.join(2, 2, SessionType::Outbound).await);
        for i in 0..again {
            let m = message(send, &[7, i as u8], &[]);
            net.receive(if i == 0 { b } else { a }, TRANSMITTER, m).await;
            settle().await;
        }
        [b, a]
    });
    let got = log.lock().unwrap().clone();
    let hit = want && !response && send.starts_with(kinds[kind]);
    ensure_eq!(got.len(), if hit { again } else { 0 }, "number of messages handled");
    for (i, s) in got.iter().enumerate() {
        let (p, n) = ([2u8, 1][i], peers[i]);
        ensure!(s.session == Some(n) && s.peer == Some(id(p).into_bytes()), "a message is credited to another sender: {:?}, sent by peer {} on session {}", s, p, n);
        ensure!(s.host == Some(format!("47.{}.3.7:1000", p)), "a message is credited to another address: {:?}", s);
        ensure!(s.content == vec![7, i as u8] && s.rpc == send.strip_prefix("/rpc_call/x/y/").map(|n| n.parse().unwrap()), "a message is handled with other content: {:?}", s);
    }
    Ok(())
}

pub fn run(check: &Check) {
    check.part("frames", "what a node sends is what the other reads", "5 protocols x 19 sizes (around 60, 256, 1024, 65536, 1 MB) x 4 contents").explore(frames);
    check.part("hostile frames", "any frame is read or refused, as its format says", "all frames of up to 5 bytes over 10 byte values").explore(hostile_frame);
    check.part("large frames", "a frame may not unpack to more than 8 MB", "4 sizes around the limit").explore(large);
    check.part("routing", "a message reaches the handler of its address once, with sender and content, or nobody", "28 addresses x 6 contents x 66 tracing headers x another header or not").explore(routing);
    check.part("damaged", "a damaged message is refused or handled, never fatal", "every cut, every bit and byte flip, 5 bytes inserted everywhere, 3 messages").explore(damaged);
    check.part("raw", "bytes that are no message are refused", "all strings of up to 5 bytes over 9 byte values").explore(raw);
    check.part("service", "a registered handler gets the messages of the sessions to it, in order of arrival", "7 addresses x 2 registrations x 3 destinations x 1 or 2 messages on 2 sessions").explore(service);
}
