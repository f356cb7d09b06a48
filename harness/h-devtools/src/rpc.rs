//! D02: what the node asks its CKB services and how it takes their answers, over the loopback network.

use std::collections::HashSet;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};

use ckb_jsonrpc_types as j;
use ckb_sdk::rpc::ckb_indexer::{Cell, Pagination, ScriptType, SearchKey};
use ckb_types::prelude::*;
use ckb_types::{core, packed, H160, H256};
use core_rpc_client::RpcClient;
use mc::{ensure, ensure_eq, Check, Chooser, Outcome};
use protocol::tokio;
use protocol::traits::{CkbClient, Context};
use protocol::types::{CrossChainTransferPayload, Hex, Identity, SubmitCheckpointPayload, TransactionCompletionResponse};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
struct Request {
    path: String,
    body: Value,
}

enum Answer {
    /// Status and body.
    Http(u16, String),
    /// The connection is closed without an answer.
    Hangup,
}

struct Server {
    port: u16,
    seen: Arc<Mutex<Vec<Request>>>,
    over: Arc<AtomicBool>,
}

impl Drop for Server {
    fn drop(&mut self) {
        self.over.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

/// The next request on a connection; `buf` holds what has been read beyond the previous one.
fn read_request(s: &mut TcpStream, buf: &mut Vec<u8>) -> Option<Request> {
    let mut tmp = [0u8; 4096];
    loop {
        if !buf.windows(4).any(|w| w == b"\r\n\r\n") {
            let n = s.read(&mut tmp).ok()?;
            if n == 0 {
                return None;
            }
            buf.extend_from_slice(&tmp[..n]);
        }
        let Some(end) = buf.windows(4).position(|w| w == b"\r\n\r\n") else { continue };
        let head = String::from_utf8_lossy(&buf[..end]).to_string();
        let len = head
            .lines()
            .find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").map(|v| v.trim().parse::<usize>().unwrap()))
            .unwrap_or(0);
        while buf.len() < end + 4 + len {
            let n = s.read(&mut tmp).ok()?;
            if n == 0 {
                return None;
            }
            buf.extend_from_slice(&tmp[..n]);
        }
        let path = head.split(' ').nth(1)?.to_string();
        let body = serde_json::from_slice(&buf[end + 4..end + 4 + len]).ok()?;
        buf.drain(..end + 4 + len);
        return Some(Request { path, body });
    }
}

impl Server {
    /// One thread per connection; `answer` is asked once per request and may block.
    fn start(answer: impl Fn(&Request) -> Answer + Send + Sync + 'static) -> Server {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let seen = Arc::new(Mutex::new(vec![]));
        let log = Arc::clone(&seen);
        let answer = Arc::new(answer);
        let over = Arc::new(AtomicBool::new(false));
        let end = Arc::clone(&over);
        std::thread::spawn(move || {
            while let Ok((mut s, _)) = l.accept() {
                if end.load(Ordering::SeqCst) {
                    return;
                }
                let (log, answer) = (Arc::clone(&log), Arc::clone(&answer));
                let _ = s.set_nodelay(true);
                std::thread::spawn(move || {
                    let mut buf = vec![];
                    while let Some(r) = read_request(&mut s, &mut buf) {
                        log.lock().unwrap().push(r.clone());
                        let Answer::Http(code, body) = answer(&r) else { return };
                        let head = format!("HTTP/1.1 {code} X\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", body.len());
                        if s.write_all((head + &body).as_bytes()).is_err() {
                            return;
                        }
                    }
                });
            }
        });
        Server { port, seen, over }
    }

    fn client(&self) -> RpcClient {
        let u = |p: &str| format!("http://127.0.0.1:{}/{p}", self.port);
        RpcClient::new(&u("ckb"), &u("mercury"), &u("indexer"))
    }

    fn seen(&self) -> Vec<Request> {
        self.seen.lock().unwrap().clone()
    }
}

fn tx(n: u64) -> core::TransactionView {
    core::TransactionBuilder::default()
        .version(0u32.pack())
        .output(packed::CellOutput::new_builder().capacity(n.pack()).build())
        .output_data(packed::Bytes::default())
        .witness([n as u8; 65].as_slice().pack())
        .witness([1u8; 3].as_slice().pack())
        .build()
}

fn block(n: u64) -> core::BlockView {
    core::BlockBuilder::default().number(n.pack()).timestamp((n * 1000).pack()).transaction(tx(n)).build()
}

fn v<T: serde::Serialize>(x: T) -> Value {
    serde_json::to_value(x).unwrap()
}

fn tx_answer(t: Option<&core::TransactionView>) -> Value {
    // what the service knows of it does not matter
    let n: u64 = t.map_or(0, |t| t.outputs().get(0).unwrap().capacity().unpack());
    json!({
        "transaction": t.map(|t| v(j::TransactionView::from(t.clone()))),
        "tx_status": if t.is_some() {
            match n % 4 {
                1 => json!({"status": "committed", "block_hash": H256([9; 32]), "reason": null}),
                2 => json!({"status": "pending", "block_hash": null, "reason": null}),
                3 => json!({"status": "proposed", "block_hash": null, "reason": null}),
                _ => json!({"status": "rejected", "block_hash": null, "reason": "x"}),
            }
        } else {
            json!({"status": "unknown", "block_hash": null, "reason": null})
        },
    })
}

fn completion() -> Value {
    json!({
        "tx_view": v(j::TransactionView::from(tx(5))),
        "signature_actions": [],
    })
}

fn one(arg: usize, a: &str, b: &str) -> Value {
    [Value::Null, json!(a), json!(b)][arg].clone()
}

const METHODS: usize = 7;
const NUMBERS: [u64; 3] = [0, 65_536, u64::MAX];

/// Path, method, parameters and a good result of each call.
fn plan(which: usize, arg: usize) -> (&'static str, &'static str, Value, Value) {
    match which {
        0 => ("/ckb", "get_block_by_number", json!([format!("0x{:x}", NUMBERS[arg])]), v(j::BlockView::from(block(arg as u64)))),
        1 => ("/ckb", "get_tip_header", json!([]), v(j::HeaderView::from(block(3 + arg as u64).header()))),
        2 => ("/ckb", "get_transaction", json!([H256([arg as u8; 32])]), tx_answer((arg > 0).then(|| tx(arg as u64)).as_ref())),
        3 => (
            "/ckb",
            "send_transaction",
            json!([v(j::Transaction::from(tx(arg as u64).data())), one(arg, "passthrough", "well_known_scripts_only")]),
            v(H256([0x21; 32])),
        ),
        4 => ("/mercury", "build_cross_chain_transfer_transaction", json!([v(transfer(arg))]), completion()),
        5 => ("/mercury", "build_submit_checkpoint_transaction", json!([v(checkpoint(arg))]), completion()),
        _ => (
            "/indexer",
            "get_cells",
            json!([v(key()), "asc", format!("0x{:x}", NUMBERS[arg] as u32), one(arg, "0x", "0x1234")]),
            json!({"objects": [], "last_cursor": "0x77"}),
        ),
    }
}

fn transfer(arg: usize) -> CrossChainTransferPayload {
    CrossChainTransferPayload {
        sender:    "ckt1\"\\{}".into(),
        receiver:  format!("0x{arg}"),
        udt_hash:  H256([4; 32]),
        amount:    "340282366920938463463374607431768211455".into(),
        direction: arg as u8,
        memo:      H160([6; 20]),
    }
}

fn checkpoint(arg: usize) -> SubmitCheckpointPayload {
    SubmitCheckpointPayload {
        node_id:              Identity { flag: 1, content: Hex::encode([2, 3]) },
        admin_id:             Identity { flag: 0, content: Hex::empty() },
        period_number:        NUMBERS[arg],
        checkpoint:           vec![1u8, 2].into(),
        selection_lock_hash:  H256([7; 32]),
        checkpoint_type_hash: H256([8; 32]),
    }
}

fn key() -> SearchKey {
    SearchKey {
        script:               packed::Script::default().into(),
        script_type:          ScriptType::Lock,
        script_search_mode:   None,
        filter:               None,
        with_data:            None,
        group_by_transaction: None,
    }
}

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

fn call(which: usize, arg: usize, client: &RpcClient) -> Result<Result<Value, ()>, String> {
    let ctx = Context::new();
    mc::no_panic(|| {
        rt().block_on(async {
            match which {
                0 => client.get_block_by_number(ctx, NUMBERS[arg].into()).await.map(v),
                1 => client.get_tip_header(ctx).await.map(v),
                2 => CkbClient::get_transaction(client, ctx, &H256([arg as u8; 32])).await.map(v),
                3 => {
                    let o = [None, Some(j::OutputsValidator::Passthrough), Some(j::OutputsValidator::WellKnownScriptsOnly)][arg].clone();
                    client.send_transaction(ctx, &tx(arg as u64).data().into(), o).await.map(v)
                }
                4 => client.build_cross_chain_transfer_transaction(ctx, transfer(arg)).await.map(v::<TransactionCompletionResponse>),
                5 => client.build_submit_checkpoint_transaction(ctx, checkpoint(arg)).await.map(v),
                _ => {
                    let cur = [None, Some(vec![]), Some(vec![0x12, 0x34])][arg].clone().map(j::JsonBytes::from_vec);
                    client.fetch_live_cells(ctx, key(), NUMBERS[arg] as u32, cur).await.map(v::<Pagination<Cell>>)
                }
            }
            .map_err(|_| ())
        })
    })
}

fn wrong(k: usize, good: &Value) -> (u16, String, bool) {
    let ok = |r: &Value| json!({"jsonrpc": "2.0", "id": 0, "result": r}).to_string();
    match k {
        0 => (200, ok(good), true),
        1 => (200, ok(&json!(null)), false),
        2 => (200, ok(&json!("text")), false),
        3 => (200, ok(&json!(12)), false),
        4 => (200, ok(&json!([])), false),
        5 => (200, ok(&json!({})), false),
        6 => (200, ok(&json!({"transaction": 1, "tx_status": 2, "objects": 3, "header": 4})), false),
        7 => (200, json!({"jsonrpc": "2.0", "id": 0, "error": {"code": -32601, "message": "no", "data": null}}).to_string(), false),
        8 => (200, json!({"jsonrpc": "2.0", "id": 0, "error": {"code": 1, "message": "no", "data": [good]}}).to_string(), false),
        9 => (200, String::new(), false),
        10 => (200, "{".into(), false),
        11 => (200, "<html>".into(), false),
        12 => (500, "oops".into(), false),
        13 => (200, good.to_string(), false),
        14 => (200, json!([{"jsonrpc": "2.0", "id": 0, "result": good}]).to_string(), false),
        _ => (200, json!({"jsonrpc": "2.0", "id": 0}).to_string(), false),
    }
}

fn single(c: &mut Chooser) -> Outcome {
    let which = c.choose(METHODS);
    let arg = c.choose(3);
    let kind = c.choose(17);
    let (path, method, params, good) = plan(which, arg);
    let (code, body, fine) = wrong(kind, &good);
    let s = Server::start(move |_| if kind == 16 { Answer::Hangup } else { Answer::Http(code, body.clone()) });
    let client = s.client();
    let got = match call(which, arg, &client) {
        Ok(g) => g,
        Err(e) => {
            ensure!(false, "an answer crashes the node: {method} answer {kind} {e}");
            Err(())
        }
    };
    c.state();
    c.nontrivial();
    let seen = s.seen();
    ensure!(!seen.is_empty(), "nothing was asked: {method}");
    for r in &seen {
        ensure_eq!(r.path, path, "the service that was asked: {method}");
        ensure_eq!(r.body["method"], json!(method), "the method that was asked");
        ensure_eq!(r.body["jsonrpc"], json!("2.0"), "the protocol of a request: {method}");
        ensure!(r.body["id"].is_u64(), "the id of a request: {method} {}", r.body);
        let mut p = r.body["params"].clone();
        if p.is_null() {
            p = json!([]);
        }
        ensure_eq!(p, params, "the parameters of {method}");
    }
    // the indexer and mercury results have optional parts: an answer of another shape may only be refused or be what was sent
    if fine {
        let want = if which == 2 { good["transaction"].clone() } else { good };
        ensure_eq!(got, Ok(want), "the result of {method}");
    } else {
        ensure!(got.is_err(), "a bad answer is taken as a result: {method} answer {kind}: {got:?}");
    }
    c.outcome((which, arg, kind));
    Ok(())
}

struct Gate {
    turn: Mutex<(usize, HashSet<String>)>,
    cv:   Condvar,
}

/// `n` transactions are asked for at once; the answers come in every order.
fn many(c: &mut Chooser, n: usize) -> Outcome {
    let mut order: Vec<usize> = vec![];
    let mut left: Vec<usize> = (0..n).collect();
    while !left.is_empty() {
        let k = c.choose(left.len());
        order.push(left.remove(k));
    }
    // what is found: a transaction, nothing, or an error
    let kinds: Vec<usize> = (0..n).map(|_| c.choose(3)).collect();
    let hash = |i: usize| H256([i as u8 + 1; 32]);
    let gate = Arc::new(Gate { turn: Mutex::new((0, HashSet::new())), cv: Condvar::new() });
    let (o, k) = (order.clone(), kinds.clone());
    let s = Server::start(move |r| {
        let which = (0..n).find(|i| r.body["params"][0] == json!(hash(*i))).unwrap_or(usize::MAX);
        let place = o.iter().position(|i| *i == which).unwrap_or(usize::MAX);
        let mut t = gate.turn.lock().unwrap();
        t.1.insert(r.body["id"].to_string());
        gate.cv.notify_all();
        // until all have been asked, nothing is answered
        let deadline = std::time::Instant::now() + std::time::Duration::from_secs(20);
        while (t.1.len() < n || t.0 < place) && std::time::Instant::now() < deadline {
            t = gate.cv.wait_timeout(t, std::time::Duration::from_secs(1)).unwrap().0;
        }
        t.0 += 1;
        let late = t.0;
        drop(t);
        // the client sees the answers one after the other
        std::thread::sleep(std::time::Duration::from_millis(2 * late as u64));
        gate.cv.notify_all();
        match k.get(which).copied().unwrap_or(2) {
            0 => Answer::Http(200, json!({"jsonrpc": "2.0", "id": r.body["id"], "result": tx_answer(Some(&tx(which as u64 + 10)))}).to_string()),
            1 => Answer::Http(200, json!({"jsonrpc": "2.0", "id": r.body["id"], "result": tx_answer(None)}).to_string()),
            _ => Answer::Http(200, json!({"jsonrpc": "2.0", "id": r.body["id"], "error": {"code": 3, "message": "x"}}).to_string()),
        }
    });
    let client = s.client();
    let got = mc::no_panic(|| rt().block_on(async { client.get_txs_by_hashes(Context::new(), (0..n).map(hash).collect()).await }));
    let got = match got {
        Ok(g) => g.map(v).map_err(|_| ()),
        Err(e) => {
            ensure!(false, "answers crash the node: order {order:?} kinds {kinds:?} {e}");
            Err(())
        }
    };
    c.state();
    if order.windows(2).any(|w| w[0] > w[1]) {
        c.nontrivial();
    }
    let want = if kinds.contains(&2) {
        Err(())
    } else {
        Ok(json!(kinds.iter().enumerate().map(|(i, k)| if *k == 0 { v(j::TransactionView::from(tx(i as u64 + 10))) } else { Value::Null }).collect::<Vec<_>>()))
    };
    ensure!(got == want, "transactions come back for other hashes: order {order:?} kinds {kinds:?}: {got:?}");
    let seen = s.seen();
    if want.is_ok() {
        let ids: HashSet<String> = seen.iter().map(|r| r.body["id"].to_string()).collect();
        ensure_eq!(ids.len(), n, "requests share an id: {:?}", seen.iter().map(|r| r.body["id"].clone()).collect::<Vec<_>>());
    }
    c.outcome((order, kinds));
    Ok(())
}

pub fn client(check: &Check) {
    check
        .part(
            "calls",
            "a request was made",
            "7 calls x 3 arguments x 17 answers (good, null, wrong type, wrong shape, two errors, empty, broken, not JSON, HTTP error, bare result, \
             batch, neither result nor error, connection closed)",
        )
        .explore(single);
    let n = check.by_tier(3, 4);
    check
        .part(
            "many",
            "answers come in another order than the questions",
            &format!("{n} transactions asked for at once, answered in every order, each found, not found or an error"),
        )
        .explore(|c| many(c, n));
    check
        .part(
            "lengths",
            "transactions are asked for",
            "0 to 300 transactions (12 lengths) asked for at once, all different, all the same, or with each asked for twice in either order of pairs",
        )
        .explore(|c| {
            let n = *c.pick(&[0usize, 1, 2, 8, 9, 10, 17, 33, 64, 65, 129, 300]);
            let way = c.choose(4);
            let id = |i: usize| match way {
                0 => i,
                1 => 5,
                2 => i / 2,
                _ => i % (n / 2).max(1),
            } as u64;
            let hash = |t: u64| H256::from_trimmed_str(&format!("{:x}", t + 1)).unwrap();
            let s = Server::start(move |r| {
                let h = r.body["params"][0].as_str().and_then(|h| u64::from_str_radix(&h[h.len() - 8..], 16).ok()).unwrap_or(0);
                Answer::Http(200, json!({"jsonrpc": "2.0", "id": r.body["id"], "result": tx_answer(Some(&tx(h - 1)))}).to_string())
            });
            let client = s.client();
            let got = mc::no_panic(|| rt().block_on(async { client.get_txs_by_hashes(Context::new(), (0..n).map(|i| hash(id(i))).collect()).await }))?;
            let got: Result<Vec<Option<Value>>, ()> = got.map(|l| l.into_iter().map(|t| t.map(v)).collect()).map_err(|_| ());
            let want = Ok((0..n).map(|i| Some(v(j::TransactionView::from(tx(id(i)))))).collect());
            c.state();
            c.nontrivial();
            c.outcome((n, way));
            ensure!(got == want, "transactions come back for other hashes: {n} of them, way {way}");
            Ok(())
        });
    let calls = check.by_tier(70_000, 140_000);
    check.part("use", "a client is used for long", &format!("{calls} calls one after the other: every identifier is new")).serial().explore(|c| {
        let s = Server::start(|r| Answer::Http(200, json!({"jsonrpc": "2.0", "id": r.body["id"], "error": {"code": 3, "message": "x"}}).to_string()));
        let a = s.client();
        c.nontrivial();
        rt().block_on(async {
            for _ in 0..calls {
                let _ = a.get_tip_header(Context::new()).await;
            }
        });
        let seen = s.seen();
        let ids: HashSet<String> = seen.iter().map(|r| r.body["id"].to_string()).collect();
        c.outcome(ids.len());
        ensure_eq!((seen.len(), ids.len()), (calls, calls), "every request of a long-lived client has an id of its own");
        Ok(())
    });
    let bound = check.by_tier(2, 4);
    check
        .part(
            "together",
            "two threads ask at the same time",
            &format!(
                "2 threads that share a client, or hold clones of it, make 2 calls each; every order of their operations on shared counters with up to \
                 {bound} preemptions"
            ),
        )
        .deviations(bound)
        .explore(|c| {
            let s = Server::start(|r| Answer::Http(200, json!({"jsonrpc": "2.0", "id": r.body["id"], "error": {"code": 3, "message": "x"}}).to_string()));
            let a = s.client();
            let b = if c.flip() { Some(a.clone()) } else { None };
            let made = Mutex::new(vec![]);
            let ask = |cl: &RpcClient| {
                for _ in 0..2 {
                    let f = cl.get_tip_header(Context::new());
                    made.lock().unwrap().push(f);
                }
            };
            let threads: Vec<Box<dyn FnOnce() + Send + '_>> = vec![Box::new(|| ask(&a)), Box::new(|| ask(b.as_ref().unwrap_or(&a)))];
            let (end, steps) = sched::run(threads, 1000, &mut |cur, ready| match cur {
                Some(cur) => {
                    // going on is no deviation
                    let mut order = vec![cur];
                    order.extend(ready.iter().copied().filter(|i| *i != cur));
                    order[c.deviate(order.len())]
                }
                None => ready[c.choose(ready.len())],
            });
            c.state();
            c.nontrivial();
            ensure!(matches!(end, sched::Outcome::Finished), "two threads ask: {end:?}");
            let made = std::mem::take(&mut *made.lock().unwrap());
            rt().block_on(async {
                for f in made {
                    let _ = f.await;
                }
            });
            let seen = s.seen();
            let ids: HashSet<String> = seen.iter().map(|r| r.body["id"].to_string()).collect();
            c.outcome((steps, ids.len()));
            ensure_eq!((seen.len(), ids.len()), (4, 4), "requests made at the same time have ids of their own: {seen:?}");
            Ok(())
        });
    check.part("ids", "several clones and several calls", "2 clones of the client x up to 5 calls among them, in every order of clones").explore(|c| {
        let k = c.choose(5) + 1;
        let s = Server::start(|r| Answer::Http(200, json!({"jsonrpc": "2.0", "id": r.body["id"], "result": null}).to_string()));
        let a = s.client();
        let b = a.clone();
        for _ in 0..k {
            let cl = if c.flip() { &a } else { &b };
            let _ = call(1, 0, cl)?;
        }
        let seen = s.seen();
        let ids: HashSet<String> = seen.iter().map(|r| r.body["id"].to_string()).collect();
        c.nontrivial();
        c.outcome(ids.len());
        ensure_eq!((seen.len(), ids.len()), (k, k), "every request has an id of its own");
        Ok(())
    });
    check.assume("the order in which answers are sent over loopback, 2 ms apart, is the order in which the client sees them; any other order is also explored");
}
