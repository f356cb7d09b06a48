//! What a peer's answer does to the pool when the transactions of a proposal are fetched, and what is
//! handed out when a list of transactions is asked for.

use std::collections::HashSet;

use core_mempool::{MsgPullTxs, NewTxsHandler, PullTxsHandler};
use core_network::{NetworkContext, SessionId};
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::traits::{Context, MemPool, MessageCodec, MessageHandler, Priority, Rpc};
use protocol::types::*;
use protocol::{async_trait, ProtocolResult};
use std::sync::{Arc, Mutex};

use crate::node::*;
use crate::pool::Node;

type R = Result<(), Fail>;

/// Puts a pool into one of a few situations: what it holds, what is committed.
async fn situation(c: &mut Chooser) -> Result<Node, Fail> {
    let mut n = Node::new(64, 20).await;
    let (committed, held): (&[usize], &[usize]) =
        *c.pick::<(&[usize], &[usize])>(&[(&[], &[]), (&[], &[0, 6]), (&[], &[1, 3, 8]), (&[0, 8], &[6]), (&[6, 7], &[0, 1, 9])]);
    for i in committed {
        n.insert(*i).await?;
    }
    if !committed.is_empty() {
        n.commit(committed).await?;
        n.ad.with(|w| w.stored = committed.iter().map(|i| (menu()[*i].hash(), menu()[*i].stx.clone())).collect());
    }
    for i in held {
        n.insert(*i).await?;
    }
    c.note(|| format!("committed {committed:?} held {held:?}"));
    Ok(n)
}

fn list(c: &mut Chooser, pool: &[usize], max: usize) -> Vec<usize> {
    let len = c.choose(max + 1);
    (0..len).map(|_| *c.pick(pool)).collect()
}

fn fetching(k: &Check) {
    let asks: Vec<usize> = vec![0, 3, 6, 8];
    let answers: Vec<usize> = vec![0, 1, 3, 6, 8, 9];
    let (n_ask, n_answer) = k.by_tier((3, 3), (4, 4));
    k.part(
        "a peer's answers",
        "every proposal over some transactions, and every answer of the peer that is asked for the missing ones: too \
         few, too many, others, twice the same, outdated or committed ones",
        &format!("up to {n_ask} of {} asked, up to {n_answer} of {} answered, 5 situations", asks.len(), answers.len()),
    )
    .explore(|c| {
        runtime().block_on(async {
            let mut n = situation(c).await?;
            let ask = list(c, &asks, n_ask);
            let hashes: Vec<Hash> = ask.iter().map(|i| menu()[*i].hash()).collect();
            let distinct = ask.iter().collect::<HashSet<_>>().len() == ask.len();
            let missing: Vec<usize> = ask.iter().copied().filter(|i| !n.r.holds(*i)).collect();
            if distinct && !missing.is_empty() {
                c.nontrivial();
            }
            let answer = if distinct && !missing.is_empty() {
                let fails = c.flip();
                (!fails).then(|| list(c, &answers, n_answer))
            } else {
                None
            };
            c.note(|| format!("asks {ask:?} answer {answer:?}"));
            n.ad.with(|w| {
                w.asked.clear();
                w.remote = answer.as_ref().map(|a| a.iter().map(|i| menu()[*i].stx.clone()).collect())
            });
            let before: Vec<Hash> = (0..menu().len()).filter(|i| n.r.holds(*i)).map(|i| menu()[i].hash()).collect();
            let got = n.pool.ensure_order_txs(ctx(), Some(9), &hashes).await;
            let asked = n.ad.with(|w| w.asked.clone());
            let good = distinct
                && (missing.is_empty()
                    || answer
                        .as_ref()
                        .map(|a| {
                            let mut s: Vec<usize> = a.clone();
                            s.sort();
                            let mut m = missing.clone();
                            m.sort();
                            s == m && a.iter().all(|i| {
                                let m = &menu()[*i];
                                !n.r.committed.contains(i) && (m.sys.is_some() || m.nonce >= n.r.at(m.who))
                            })
                        })
                        .unwrap_or(false));
            c.outcome((good, ask.len(), missing.len()));
            ensure_eq!(got.is_ok(), good, "verdict: asked {ask:?} missing {missing:?} answered {answer:?} ({got:?})");
            if distinct && !missing.is_empty() {
                let want = (Some(9), missing.iter().map(|i| menu()[*i].hash()).collect::<Vec<_>>());
                ensure_eq!(asked, vec![want], "request: what the peer is asked for");
            } else {
                ensure!(asked.is_empty(), "request: a peer is asked for nothing that is missing");
            }
            if good {
                for i in answer.iter().flatten() {
                    n.r.insert(*i, false);
                }
                let full = n.pool.get_full_txs(ctx(), None, &hashes).await;
                let full = full.map_err(|e| Fail::new("not there", format!("{ask:?}: {e}")))?;
                for (t, i) in full.iter().zip(&ask) {
                    ensure!(t == &menu()[*i].stx, "order: {ask:?}");
                }
            } else {
                let after: Vec<Hash> = futures(&n).await;
                ensure_eq!(after, before, "refused: the pool after an answer that was refused");
            }
            n.observe().await
        })
    });
}

async fn futures(n: &Node) -> Vec<Hash> {
    let mut v = vec![];
    for m in menu() {
        if n.pool.contains(ctx(), &m.hash()).await {
            v.push(m.hash());
        }
    }
    v
}

#[derive(Clone, Default)]
struct Wire(Arc<Mutex<Vec<(String, Option<Bytes>)>>>);

#[async_trait]
impl Rpc for Wire {
    async fn call<M, T>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<T>
    where
        M: MessageCodec,
        T: MessageCodec,
    {
        unreachable!()
    }

    async fn response<M>(&self, _: Context, end: &str, ret: ProtocolResult<M>, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        self.0.lock().unwrap().push((end.to_string(), ret.ok().map(|mut m| m.encode_msg().unwrap())));
        Ok(())
    }
}

fn handing_out(k: &Check) {
    let asks: Vec<usize> = vec![0, 1, 3, 6, 8];
    let n_ask = k.by_tier(4, 5);
    k.part(
        "lists of transactions",
        "every list of transactions that are pooled, stored or unknown, with repetitions, asked for directly and by a \
         peer's message: all of them in the order asked for, or an error",
        &format!("up to {n_ask} of {}, 5 situations, with and without a height", asks.len()),
    )
    .explore(|c| {
        runtime().block_on(async {
            let n = situation(c).await?;
            let ask = list(c, &asks, n_ask);
            let height = c.flip().then_some(1u64);
            let hashes: Vec<Hash> = ask.iter().map(|i| menu()[*i].hash()).collect();
            let want: Option<Vec<SignedTransaction>> = ask
                .iter()
                .map(|i| (n.r.holds(*i) || n.r.committed.contains(i)).then(|| menu()[*i].stx.clone()))
                .collect();
            if ask.iter().any(|i| n.r.holds(*i)) && ask.iter().any(|i| n.r.committed.contains(i)) {
                c.nontrivial();
            }
            c.note(|| format!("asks {ask:?} at {height:?}"));
            c.outcome(want.is_some());
            let got = n.pool.get_full_txs(ctx(), height, &hashes).await.ok();
            ensure_eq!(got.is_some(), want.is_some(), "answered: {ask:?}");
            ensure!(got == want, "order: of the answer to {ask:?}");
            // over the wire
            let ask = MsgPullTxs { height, hashes };
            let wire = Wire::default();
            let pool = Arc::new(n.pool);
            let h = PullTxsHandler::new(Arc::new(wire.clone()), Arc::clone(&pool));
            let msg = MsgPullTxs::decode_msg(ask.clone().encode_msg().unwrap()).map_err(|e| Fail::new("message", e.to_string()))?;
            ensure_eq!((msg.height, &msg.hashes), (ask.height, &ask.hashes), "message: after the wire");
            let mut cx = ctx();
            h.process(cx.set_session_id(SessionId::new(3)), msg).await;
            let sent = wire.0.lock().unwrap().clone();
            ensure_eq!(sent.len(), 1, "response: how many");
            ensure_eq!(sent[0].0, protocol::constants::endpoints::RPC_RESP_PULL_TXS.to_string(), "response: where");
            let got = match &sent[0].1 {
                Some(b) => Some(BatchSignedTxs::decode_msg(b.clone()).map_err(|e| Fail::new("response", e.to_string()))?.inner()),
                None => None,
            };
            ensure!(got == want, "response: what");
            Ok(())
        })
    });
}

fn gossip(k: &Check) {
    let from: Vec<usize> = vec![0, 1, 3, 6, 8];
    let n_msg = k.by_tier(4, 5);
    k.part(
        "transactions from peers",
        "every batch a peer sends: each new valid transaction is held once and passed on once, naming the session it \
         came from; the others do nothing",
        &format!("batches of up to {n_msg}, 5 situations"),
    )
    .explore(|c| {
        runtime().block_on(async {
            let mut n = situation(c).await?;
            let batch = list(c, &from, n_msg);
            c.note(|| format!("batch {batch:?}"));
            n.ad.with(|w| {
                w.sent.clear();
                w.good = 0
            });
            let mut want = vec![];
            for i in &batch {
                if n.r.insert(*i, true) == Verdict::Accepted {
                    want.push((Some(5usize), menu()[*i].hash()));
                }
            }
            if want.len() > 1 {
                c.nontrivial();
            }
            c.outcome(want.len());
            let pool = Arc::new(n.pool);
            let h = NewTxsHandler::new(Arc::clone(&pool));
            let mut cx = ctx();
            let msg = BatchSignedTxs::new(batch.iter().map(|i| menu()[*i].stx.clone()).collect()).encode_msg().unwrap();
            let msg = BatchSignedTxs::decode_msg(msg).map_err(|e| Fail::new("message", e.to_string()))?;
            h.process(cx.set_session_id(SessionId::new(5)), msg).await;
            drop(h);
            let (sent, good) = n.ad.with(|w| (w.sent.clone(), w.good));
            ensure_eq!(sent, want, "passed on: of {batch:?}");
            ensure_eq!(good, want.len(), "good: how often the peer is praised");
            n.pool = Arc::try_unwrap(pool).ok().unwrap();
            n.observe().await
        })
    });
}

pub fn run(k: &Check) {
    fetching(k);
    handing_out(k);
    gossip(k);
}
