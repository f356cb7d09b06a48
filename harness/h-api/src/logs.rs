//! J02: log queries, filters and subscriptions give the matching items, each once and in order.
use std::time::Duration;

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::types::*;
use serde_json::{json, Value};

use crate::queries::{log, tx, want_header, want_log};
use crate::world::*;

const A: u64 = 0xa1;
const B: u64 = 0xb2;

/// What a place of a filter asks of the topic at that place.
#[derive(Clone, Debug)]
enum Place {
    Any,
    One(u64),
    Of(Vec<Option<u64>>),
}

impl Place {
    fn json(&self) -> Value {
        match self {
            Place::Any => Value::Null,
            Place::One(t) => hex(kit::h256(*t)),
            Place::Of(v) => v.iter().map(|t| t.map(|t| hex(kit::h256(t))).unwrap_or_default()).collect(),
        }
    }

    fn fits(&self, t: &H256) -> bool {
        match self {
            Place::Any => true,
            Place::One(x) => *t == kit::h256(*x),
            Place::Of(v) => v.iter().any(|x| x.map(|x| *t == kit::h256(x)).unwrap_or(true)),
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Filter {
    by:     Option<Vec<u64>>,
    places: Vec<Place>,
}

impl Filter {
    fn fits(&self, l: &Log) -> bool {
        self.by.as_ref().map(|v| v.is_empty() || v.iter().any(|a| l.address == kit::h160(*a))).unwrap_or(true)
            && self.places.len() <= l.topics.len()
            && self.places.iter().zip(&l.topics).all(|(p, t)| p.fits(t))
    }

    fn json(&self) -> Value {
        let mut v = json!({});
        match self.by.as_deref() {
            None => {}
            Some([a]) => v["address"] = hex(kit::h160(*a)),
            Some(many) => v["address"] = many.iter().map(|a| hex(kit::h160(*a))).collect(),
        }
        if !self.places.is_empty() {
            v["topics"] = self.places.iter().map(|p| p.json()).collect();
        }
        v
    }

    fn with(&self, more: Value) -> Value {
        let mut v = self.json();
        v.as_object_mut().unwrap().extend(more.as_object().unwrap().clone());
        v
    }

    /// The matching logs of the block.
    fn of(&self, b: &Held) -> Vec<Value> {
        let mut v = vec![];
        for (i, o) in b.outcomes.iter().enumerate() {
            for (n, l) in o.logs.iter().enumerate() {
                if self.fits(l) {
                    v.push(want_log(b, i, n));
                }
            }
        }
        v
    }

    fn over(&self, chain: &Chain, from: u64, to: u64) -> Vec<Value> {
        (from..=to).filter_map(|n| chain.blocks.get(n as usize)).flat_map(|b| self.of(b)).collect()
    }
}

async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}

/// Long enough for subscribers to have been told of what is new.
async fn tick() {
    tokio::time::sleep(Duration::from_secs(3)).await;
}

/// The notices of each subscription in order, with the notices of no other left over.
fn sort(all: Vec<jsonrpsee::server::Notice>) -> std::collections::BTreeMap<String, Vec<Value>> {
    let mut m = std::collections::BTreeMap::<String, Vec<Value>>::new();
    for n in all {
        assert_eq!(n.method, "eth_subscription");
        m.entry(n.subscription).or_default().push(n.value);
    }
    m
}

fn shapes() -> Vec<Vec<u64>> {
    let mut all: Vec<Vec<u64>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..4 {
        last = last.iter().flat_map(|t| [1, 2].map(|x| [t.clone(), vec![x]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

fn exact(what: &str, got: &Value, want: &[Value]) -> Result<(), Fail> {
    same(what, got, &Value::Array(want.to_vec()))
}

fn matching(k: &Check) {
    k.part(
        "which logs match",
        "every filter, put as a query, as a filter and as a subscription, over logs of every shape: the matching logs of all blocks in order, with their places",
        "logs of 2 accounts with 0 to 4 topics of 2 in 4 transactions of 2 blocks; filters by 4 sets of accounts and 0 to 5 places asking one of 6 things each (5 places: 2)",
    )
    .explore(|c| {
        let by = c.pick(&[None, Some(vec![A]), Some(vec![B]), Some(vec![A, B])]).clone();
        let len = c.choose(6);
        let menu = [
            Place::Any,
            Place::One(1),
            Place::One(2),
            Place::Of(vec![Some(1), Some(2)]),
            Place::Of(vec![Some(2), None]),
            Place::Of(vec![Some(3), Some(1)]),
        ];
        let places = (0..len).map(|_| c.pick(&menu[..if len == 5 { 2 } else { 6 }]).clone()).collect();
        let f = Filter { by, places };
        c.note(|| format!("{f:?}"));
        paused(async {
            let mut chain = Chain::new("j02");
            let node = Node::over(&chain, 100).await;
            let mut client = node.ws.connect();
            let id = node.ask("eth_newFilter", json!([f.json()])).await?;
            let sub = client.call("eth_subscribe", &json!(["logs", f.json()]).to_string()).await.map_err(|e| Fail::new("refused", format!("refused: subscription {}", e.message())))?;
            settle().await;
            for n in 0..2u64 {
                let (x, y) = if n == 0 { (A, B) } else { (B, A) };
                let logs = |a| shapes().iter().map(|t| log(a, t, &[n as u8])).collect::<Vec<_>>();
                let outcomes = vec![Outcome::ok(1, vec![]), Outcome::ok(2, logs(x)), Outcome::ok(3, vec![]), Outcome::ok(4, logs(y))];
                chain.push((0..4).map(|i| tx(0, n * 4 + i)).collect(), outcomes).await;
            }
            let want = f.over(&chain, 0, 2);
            let got = node.ask("eth_getLogs", json!([f.with(json!({ "fromBlock": "0x0" }))])).await?;
            exact("queried", &got, &want)?;
            let got = node.ask("eth_getFilterChanges", json!([id])).await?;
            exact("filtered", &got, &want)?;
            tick().await;
            let mut told = sort(client.notices());
            exact("told", &Value::Array(told.remove(&sub).unwrap_or_default()), &want)?;
            ensure!(told.is_empty(), "told: under other names");
            if !want.is_empty() {
                c.nontrivial();
            }
            c.outcome(want.len());
            Ok(())
        })
    });
}

/// Blocks of each of a few shapes.
async fn push(chain: &mut Chain, shape: usize) {
    let n = chain.latest() * 10;
    let outcomes = match shape {
        0 => vec![],
        1 => vec![Outcome::ok(5, vec![log(A, &[1], &[])])],
        2 => vec![
            Outcome::ok(1, vec![log(B, &[1, 2], &[]), log(B, &[2], &[])]),
            Outcome::ok(2, vec![]),
            Outcome::ok(3, vec![log(A, &[], &[]), log(A, &[2, 1], &[])]),
        ],
        _ => vec![Outcome::ok(5, vec![log(B, &[], &[9])])],
    };
    chain.push((0..outcomes.len() as u64).map(|i| tx(0, n + i)).collect(), outcomes).await
}

fn ranges(k: &Check) {
    k.part(
        "ranges of blocks",
        "every range and every single block: the logs of the blocks asked for, and a refusal where there are too many or none yet",
        "chains of 0 to 4 blocks; ranges from and to each number up to 2 after the last, and each name; at most 2 blocks on from the first",
    )
    .explore(|c| {
        let len = c.choose(5) as u64;
        let mut ids: Vec<(Option<Value>, u64)> = vec![(None, len), (Some(json!("latest")), len), (Some(json!("pending")), len), (Some(json!("earliest")), 0)];
        ids.extend((0..len + 3).map(|n| (Some(qty(n)), n)));
        let from = c.pick(&ids).clone();
        let to = c.pick(&ids).clone();
        let f = Filter { by: c.pick(&[None, Some(vec![A])]).clone(), places: vec![] };
        let sort = c.choose(2);
        paused(async {
            let mut chain = Chain::new("j02");
            for n in 0..len {
                push(&mut chain, (1 + (n as usize + sort) % 3) as usize).await;
            }
            let node = Node::over(&chain, 2).await;
            let mut ask = f.json();
            if let Some(v) = &from.0 {
                ask["fromBlock"] = v.clone();
            }
            if let Some(v) = &to.0 {
                ask["toBlock"] = v.clone();
            }
            let (start, end) = (from.1, to.1.min(len));
            if start > len {
                ensure_eq!(node.refused("eth_getLogs", json!([ask])).await?, -40015, "from a block yet to come");
            } else if end.saturating_sub(start) > 2 {
                ensure_eq!(node.refused("eth_getLogs", json!([ask])).await?, -40016, "over too many blocks");
            } else {
                let want = f.over(&chain, start, end);
                exact("range", &node.ask("eth_getLogs", json!([ask])).await?, &want)?;
                if !want.is_empty() {
                    c.nontrivial();
                }
                c.outcome((start, end, want.len()));
            }
            // each block by its hash
            for b in &chain.blocks {
                let got = node.ask("eth_getLogs", json!([f.with(json!({ "blockHash": hex(b.block.hash()) }))])).await?;
                exact("one block", &got, &f.of(b))?;
            }
            ensure_eq!(
                node.refused("eth_getLogs", json!([{ "blockHash": hex(kit::h256(0xdead)) }])).await?,
                -40014,
                "of an unknown block"
            );
            Ok(())
        })
    });
}

#[derive(Debug)]
enum Kind {
    Blocks { seen: u64 },
    Logs { f: Filter, next: u64, to: Option<u64> },
    Gone,
}

const RANGE: u64 = 2;

fn histories(k: &Check) {
    k.part(
        "filters, polled",
        "every history of blocks and of filters set, polled and taken away: each poll gives what is new since the last, and nothing once the filter is gone",
        "histories of 4 (thorough: 5) steps of up to 14 kinds, 2 filters at once; at most 2 blocks on from the first in one poll",
    )
    .explore(|c| {
        let steps = k.by_tier(4, 5);
        let r = paused(filters(c, steps));
        r
    });
}

async fn filters(c: &mut Chooser, steps: usize) -> Result<(), Fail> {
    let mut chain = Chain::new("j02");
    push(&mut chain, 1).await;
    let node = Node::over(&chain, RANGE).await;
    let mut set: Vec<(Value, Kind)> = vec![];
    for step in 0..steps + 1 {
        let latest = chain.latest();
        let live = set.len();
        let can_set = live < 2;
        // the last step is to poll all
        let what = if step == steps { 99 } else { c.choose(3 + 2 * live + if can_set { 7 } else { 0 }) };
        c.transition();
        match what {
            0..=2 => push(&mut chain, what).await,
            99 => {
                push(&mut chain, 2).await;
                for i in 0..set.len() {
                    poll(c, &chain, &node, &mut set[i]).await?;
                }
            }
            _ if what < 3 + live => poll(c, &chain, &node, &mut set[what - 3]).await?,
            _ if what < 3 + 2 * live => {
                let (id, kind) = &mut set[what - 3 - live];
                let was = !matches!(kind, Kind::Gone);
                ensure_eq!(node.ask("eth_uninstallFilter", json!([id])).await?, json!(was), "taking a filter away");
                *kind = Kind::Gone;
            }
            _ => {
                let n = what - 3 - 2 * live;
                c.note(|| format!("set {n} at {latest}"));
                if n == 6 {
                    let id = node.ask("eth_newBlockFilter", json!([])).await?;
                    set.push((id, Kind::Blocks { seen: latest }));
                    continue;
                }
                let f = Filter { by: [None, Some(vec![A])][n % 2].clone(), places: vec![] };
                let (ask, next, to) = match n {
                    0 => (json!({}), latest + 1, None),
                    1 => (json!({ "fromBlock": "0x0" }), latest + 1, None),
                    2 => (json!({ "fromBlock": qty(latest), "toBlock": qty(latest + 1) }), latest, Some(latest + 1)),
                    3 => (json!({ "fromBlock": qty(latest + 2) }), latest + 2, None),
                    4 => (json!({ "fromBlock": "latest", "toBlock": qty(latest + 2) }), latest + 1, Some(latest + 2)),
                    _ => (json!({ "fromBlock": "earliest", "toBlock": "latest" }), latest + 1, None),
                };
                let id = node.ask("eth_newFilter", json!([f.with(ask)])).await?;
                set.push((id, Kind::Logs { f, next, to }));
            }
        }
    }
    Ok(())
}

async fn poll(c: &mut Chooser, chain: &Chain, node: &Node, (id, kind): &mut (Value, Kind)) -> Result<(), Fail> {
    let latest = chain.latest();
    c.note(|| format!("poll {kind:?} at {latest}"));
    match kind {
        Kind::Gone => ensure_eq!(node.refused("eth_getFilterChanges", json!([id])).await?, -40022, "polling what is gone"),
        Kind::Blocks { seen } => {
            let want: Vec<_> = chain.blocks[*seen as usize + 1..].iter().map(|b| hex(b.block.hash())).collect();
            exact("new blocks", &node.ask("eth_getFilterChanges", json!([id])).await?, &want)?;
            if !want.is_empty() {
                c.nontrivial();
            }
            *seen = latest;
        }
        Kind::Logs { f, next, to } => {
            let end = to.unwrap_or(latest).min(latest);
            if *next <= latest && end.saturating_sub(*next) > RANGE {
                ensure_eq!(node.refused("eth_getFilterChanges", json!([id])).await?, -40016, "polling too much");
                *kind = Kind::Gone;
                return Ok(());
            }
            let want = if *next <= end { f.over(chain, *next, end) } else { vec![] };
            exact("new logs", &node.ask("eth_getFilterChanges", json!([id])).await?, &want)?;
            if !want.is_empty() {
                c.nontrivial();
            }
            *next = (*next).max(end + 1);
        }
    }
    Ok(())
}

struct Sub {
    id:    String,
    who:   usize,
    kind:  usize,
    /// The first block it may be told of, and the first it must.
    may:   u64,
    must:  u64,
    alive: bool,
}

fn subscriptions(k: &Check) {
    k.part(
        "subscribers",
        "every history of blocks and of subscriptions made and ended by two clients: each subscriber is told of every block or matching log since, once and in order, however others come and go",
        "histories of 5 (thorough: 6) steps of up to 12 kinds, 2 clients, 3 subscriptions",
    )
    .explore(|c| {
        let steps = k.by_tier(5, 6);
        paused(tell(c, steps))
    });
}

async fn tell(c: &mut Chooser, steps: usize) -> Result<(), Fail> {
    let mut chain = Chain::new("j02");
    push(&mut chain, 1).await;
    let node = Node::over(&chain, RANGE).await;
    let mut clients = vec![Some(node.ws.connect()), Some(node.ws.connect())];
    settle().await;
    let mut known = chain.latest();
    let mut subs: Vec<Sub> = vec![];
    let filters = [Filter::default(), Filter { by: Some(vec![A]), places: vec![Place::Any] }];
    for step in 0..steps + 1 {
        let mut menu = vec![];
        if step == steps {
            // at the end there is something new, and all are told
            push(&mut chain, 2).await;
            menu.push((3, 0, 0));
        } else {
            menu.extend([(0, 0, 0), (0, 2, 0), (3, 0, 0)]);
            if subs.len() < 3 {
                for who in 0..2 {
                    if clients[who].is_some() {
                        menu.extend((0..4).map(|k| (1, k, who)));
                    }
                }
            }
            menu.extend((0..subs.len()).filter(|i| subs[*i].alive && clients[subs[*i].who].is_some()).map(|i| (2, i, 0)));
            if clients[1].is_some() && subs.iter().any(|s| s.who == 1) {
                menu.push((4, 0, 0));
            }
        }
        let (op, x, who) = *c.pick(&menu);
        c.transition();
        c.note(|| format!("{}", ["block", "subscribe", "unsubscribe", "tick", "leave"][op].to_string() + &format!(" {x} {who}")));
        match op {
            0 => push(&mut chain, x).await,
            1 => {
                let ask = match x {
                    0 => json!(["newHeads"]),
                    1 => json!(["syncing"]),
                    _ => json!(["logs", filters[x - 2].json()]),
                };
                let id = match clients[who].as_ref().unwrap().call("eth_subscribe", &ask.to_string()).await {
                    Ok(id) => id,
                    Err(e) => return Err(Fail::new("refused", format!("refused: subscription {ask} {}", e.message()))),
                };
                ensure!(subs.iter().all(|s| s.id != id), "a name given twice");
                subs.push(Sub { id, who, kind: x, may: known + 1, must: chain.latest() + 1, alive: true });
                settle().await;
            }
            2 => {
                let s = &mut subs[x];
                let client = clients[s.who].as_ref().unwrap();
                let gone = client.call("eth_unsubscribe", &format!("[{}]", s.id)).await.map_err(|e| Fail::new("refused", format!("refused: ending {}", e.message())))?;
                ensure_eq!(gone, "true".to_string(), "ending a subscription");
                s.alive = false;
            }
            4 => {
                clients[1] = None;
                settle().await;
            }
            _ => {
                tick().await;
                let latest = chain.latest();
                for who in 0..2 {
                    let Some(client) = &mut clients[who] else { continue };
                    let mut told = sort(client.notices());
                    for s in subs.iter_mut().filter(|s| s.who == who) {
                        let got = Value::Array(told.remove(&s.id).unwrap_or_default());
                        if !s.alive {
                            exact("told after the end", &got, &[])?;
                            continue;
                        }
                        let want = |first: u64| -> Vec<Value> {
                            match s.kind {
                                0 => (first..=latest).map(|n| want_header(&chain.blocks[n as usize].block)).collect(),
                                1 => got.as_array().unwrap().iter().map(|_| json!(false)).collect(),
                                f => filters[f - 2].over(&chain, first, latest),
                            }
                        };
                        // what came before it was asked for may be told too
                        let all: Vec<_> = (s.may..=s.must).map(|first| exact(if s.kind == 0 { "headers" } else { "logs" }, &got, &want(first))).collect();
                        if all.iter().all(|r| r.is_err()) {
                            return all.into_iter().last().unwrap();
                        }
                        if got.as_array().map(|a| !a.is_empty()).unwrap_or(false) {
                            c.nontrivial();
                        }
                        (s.may, s.must) = (latest + 1, latest + 1);
                    }
                    ensure!(told.is_empty(), "told: under other names");
                }
                known = latest;
            }
        }
    }
    Ok(())
}

pub fn run(k: &Check) {
    genesis();
    matching(k);
    ranges(k);
    histories(k);
    subscriptions(k);
}
