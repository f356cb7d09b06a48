use std::collections::{BTreeMap, HashSet};

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::traits::MemPool;
use protocol::types::*;

use crate::node::*;

pub struct Node {
    pub ad:   Ad,
    pub pool: Pool,
    pub r:    Reference,
}

type R = Result<(), Fail>;

fn names(v: &[usize]) -> String {
    v.iter().map(|i| menu()[*i].name).collect::<Vec<_>>().join(" ")
}

fn of_hashes(v: &[Hash]) -> Result<Vec<usize>, Fail> {
    v.iter()
        .map(|h| by_hash(h).ok_or_else(|| Fail::new("unknown hash", format!("a transaction nobody sent is offered: {h:?}"))))
        .collect()
}

/// A block holds a run of each sender's nonces.
fn run_of(r: &Reference, block: &[usize]) -> bool {
    let mut at: BTreeMap<u8, u64> = BTreeMap::new();
    block.iter().all(|i| {
        let m = &menu()[*i];
        let n = at.entry(m.who).or_insert(r.at(m.who));
        *n += m.sys.is_none() as u64;
        m.sys.is_some() || *n == m.nonce + 1
    })
}

impl Node {
    pub async fn new(cap: usize, timeout: u64) -> Node {
        let ad = Ad::default();
        Node { pool: Pool::new(cap, timeout, ad.clone(), vec![]).await, ad, r: Reference::new(cap, timeout) }
    }

    pub async fn insert(&mut self, i: usize) -> R {
        let want = self.r.insert(i, true);
        let sent = self.ad.with(|w| w.sent.len());
        let got = self.pool.insert(ctx(), menu()[i].stx.clone()).await;
        ensure_eq!(got.is_ok(), want != Verdict::Refused, "acceptance: {} ({got:?}), the reference says {want:?}", menu()[i].name);
        let news = self.ad.with(|w| w.sent[sent..].to_vec());
        let expect = if want == Verdict::Accepted { vec![(None, menu()[i].hash())] } else { vec![] };
        ensure_eq!(news, expect, "gossip: what is passed on after {}", menu()[i].name);
        Ok(())
    }

    /// A block of another node: what the pool does not hold is fetched, then the block is committed.
    pub async fn foreign(&mut self, block: &[usize]) -> R {
        let block: Vec<usize> = block.iter().copied().filter(|i| !self.r.committed.contains(i)).collect();
        if !run_of(&self.r, &block) {
            return Ok(());
        }
        let hashes: Vec<Hash> = block.iter().map(|i| menu()[*i].hash()).collect();
        let missing: Vec<usize> = block.iter().copied().filter(|i| !self.r.holds(*i)).collect();
        self.ad.with(|w| w.remote = Some(missing.iter().map(|i| menu()[*i].stx.clone()).collect()));
        let got = self.pool.ensure_order_txs(ctx(), Some(self.r.height + 1), &hashes).await;
        ensure!(got.is_ok(), "fetching: a good block's transactions are refused: {got:?}");
        for i in &missing {
            self.r.insert(*i, false);
        }
        self.commit(&block).await
    }

    /// A block that came through synchronization, past the pool.
    pub async fn adopt(&mut self, block: &[usize]) -> R {
        let block: Vec<usize> = block.iter().copied().filter(|i| !self.r.committed.contains(i)).collect();
        if run_of(&self.r, &block) {
            self.settle(&block).await
        } else {
            Ok(())
        }
    }

    pub async fn commit(&mut self, block: &[usize]) -> R {
        let hashes: Vec<Hash> = block.iter().map(|i| menu()[*i].hash()).collect();
        let full = self.pool.get_full_txs(ctx(), None, &hashes).await;
        let full = full.map_err(|e| Fail::new("a block's transactions are gone", format!("[{}]: {e}", names(block))))?;
        ensure_eq!(
            full.iter().map(|t| t.transaction.hash).collect::<Vec<_>>(),
            hashes,
            "order: the full transactions of [{}]",
            names(block)
        );
        self.settle(block).await
    }

    async fn settle(&mut self, block: &[usize]) -> R {
        let hashes: Vec<Hash> = block.iter().map(|i| menu()[*i].hash()).collect();
        self.r.commit(block);
        let nonce = self.r.nonce.clone();
        self.ad.with(|w| {
            w.nonce = nonce;
            w.committed.extend(hashes.iter().copied());
            w.stored.extend(block.iter().map(|i| (menu()[*i].hash(), menu()[*i].stx.clone())));
        });
        self.pool.flush(ctx(), &hashes, self.r.height).await.unwrap();
        Ok(())
    }

    pub async fn package(&self, limit: u64) -> Result<Vec<usize>, Fail> {
        let p = self.pool.package(ctx(), U256::from(30_000_000u64), limit).await.unwrap();
        let sys = p.call_system_script_count as usize;
        let list = of_hashes(&p.hashes)?;
        let (runs, data) = self.r.ready();
        // the system part
        ensure!(list.len() >= sys, "count: {sys} system transactions of {} in all", list.len());
        let mut seen = HashSet::new();
        for i in &list[..sys] {
            let m = &menu()[*i];
            ensure!(m.sys.is_some(), "system part: {} is counted a system transaction", m.name);
            ensure!(self.r.held.iter().any(|h| h.tx == *i), "gone: {} is offered but not held", m.name);
            ensure!(seen.insert(m.sys.unwrap()), "system part: the same call twice in [{}]", names(&list));
        }
        ensure_eq!(seen, data, "system part: of [{}]", names(&list));
        // the rest: at each place the best price among what can come next
        let rest = &list[sys..];
        let total: usize = runs.values().map(|v| v.len()).sum();
        ensure!(
            rest.len() <= limit as usize,
            "limit: {} transactions where {limit} are allowed",
            rest.len()
        );
        let mut next: BTreeMap<u8, usize> = BTreeMap::new();
        for i in rest {
            let m = &menu()[*i];
            ensure!(m.sys.is_none(), "system part: {} among the others", m.name);
            let n = next.entry(m.who).or_default();
            let expect = runs.get(&m.who).and_then(|v| v.get(*n)).copied();
            ensure!(
                expect == Some(*i),
                "nonce order: [{}] offers {} where the sender's next is {}",
                names(&list),
                m.name,
                expect.map(|e| menu()[e].name).unwrap_or("none")
            );
            *n += 1;
        }
        ensure_eq!(rest.len(), total.min(limit as usize), "left out: [{}] of what is ready", names(&list));
        let mut next: BTreeMap<u8, usize> = BTreeMap::new();
        for i in rest {
            let best = runs
                .iter()
                .filter_map(|(w, v)| v.get(*next.entry(*w).or_default()))
                .map(|i| menu()[*i].price)
                .max()
                .unwrap();
            ensure_eq!(menu()[*i].price, best, "price order: of {} in [{}]", menu()[*i].name, names(&list));
            *next.get_mut(&menu()[*i].who).unwrap() += 1;
        }
        Ok(list)
    }

    pub async fn observe(&self) -> R {
        ensure_eq!(self.pool.len(), self.r.held.len(), "size: what is counted (held: {:?})", self.r.held);
        for (i, m) in menu().iter().enumerate() {
            let want = self.r.holds(i);
            ensure_eq!(self.pool.contains(ctx(), &m.hash()).await, want, "contains: {}", m.name);
            let got = self.pool.get_tx_from_mem(ctx(), &m.hash());
            ensure_eq!(got.as_ref().map(|t| t == &m.stx), want.then_some(true), "lookup: {}", m.name);
        }
        self.package(1).await?;
        self.package(2).await?;
        self.package(1000).await?;
        Ok(())
    }
}

const ADOPTED: [&[usize]; 5] = [&[0], &[1, 3], &[6, 7], &[8], &[9, 0]];
const FOREIGN: [&[usize]; 4] = [&[1], &[2, 3], &[6, 0], &[9, 6]];

async fn step(n: &mut Node, c: &mut Chooser, flat: bool) -> R {
    let m = menu().len();
    let ops = m + 4 + FOREIGN.len() + ADOPTED.len();
    let op = if flat { c.choose(ops) } else { c.deviate(ops) };
    c.transition();
    match op {
        i if i < m => {
            c.note(|| format!("insert {}", menu()[i].name));
            n.insert(i).await
        }
        i if i == m => {
            c.note(|| "the pool's own task".into());
            tick().await;
            Ok(())
        }
        i if i == m + 1 => {
            c.note(|| "commit nothing".into());
            n.commit(&[]).await
        }
        i if i < m + 4 => {
            let limit = if i == m + 2 { 1 } else { 100 };
            let list = n.package(limit).await?;
            c.note(|| format!("commit the offered [{}]", names(&list)));
            if !list.is_empty() {
                c.nontrivial();
            }
            n.commit(&list).await
        }
        i if i >= m + 4 + FOREIGN.len() => {
            let b = ADOPTED[i - m - 4 - FOREIGN.len()];
            c.note(|| format!("adopt another node's [{}]", names(b)));
            n.adopt(b).await
        }
        i => {
            let b = FOREIGN[i - m - 4];
            c.note(|| format!("commit another node's [{}]", names(b)));
            n.foreign(b).await
        }
    }
}

pub fn sequences(k: &Check) {
    let depth = k.by_tier(4, 5);
    k.part(
        "every history of a pool",
        "every sequence of inserted transactions, runs of the pool's own task, offered, foreign and empty blocks; after it \
         the pool is asked for what it holds and offers",
        &format!("1 to {depth} operations of {}", menu().len() + 4 + FOREIGN.len() + ADOPTED.len()),
    )
    .explore(|c| {
        let len = 1 + c.choose(depth);
        let cap = *c.pick(&[64usize, 2]);
        runtime().block_on(async {
            let mut n = Node::new(cap, 2).await;
            for _ in 0..len {
                step(&mut n, c, true).await?;
            }
            n.observe().await
        })
    });
    let first = k.by_tier(3, 4);
    k.part(
        "a pool that starts with transactions",
        "every list of transactions recovered from the log, in every order and with repetitions, on a chain where some \
         are committed or outdated: they are held and offered as if they came one by one",
        &format!("lists of 0 to {first}, then one more operation"),
    )
    .explore(|c| {
        let len = c.choose(first + 1);
        let list: Vec<usize> = (0..len).map(|_| c.choose(menu().len())).collect();
        let start: &[usize] = c.pick::<&[usize]>(&[&[], &[0], &[8, 0, 3]]);
        c.note(|| format!("on a chain with [{}]: start with [{}]", names(start), names(&list)));
        if len > 1 {
            c.nontrivial();
        }
        runtime().block_on(async {
            let ad = Ad::default();
            let mut r = Reference::new(64, 20);
            if !start.is_empty() {
                r.commit(start);
            }
            ad.with(|w| {
                w.nonce = r.nonce.clone();
                w.committed = start.iter().map(|i| menu()[*i].hash()).collect();
            });
            let txs = list.iter().map(|i| menu()[*i].stx.clone()).collect();
            let pool = Pool::new(64, 20, ad.clone(), txs).await;
            for i in &list {
                r.insert(*i, true);
            }
            let mut n = Node { ad, pool, r };
            ensure!(n.ad.with(|w| w.sent.is_empty()), "gossip: recovered transactions are passed on");
            step(&mut n, c, true).await?;
            n.observe().await
        })
    });
    let long = k.by_tier(7, 8);
    k.part(
        "long histories around the usual ones",
        "a usual course of transactions and blocks with up to two operations exchanged for any other",
        &format!("{long} operations"),
    )
    .explore(|c| {
        let usual: &[&[usize]] = &[&[0, 3, 6, 100, 101, 101, 5, 100], &[3, 5, 100, 0, 102, 6, 7, 103], &[8, 9, 0, 103, 10, 3, 101, 101]];
        let course = *c.pick(usual);
        let free = [c.choose(long), c.choose(long)];
        runtime().block_on(async {
            let mut n = Node::new(64, 2).await;
            for i in 0..long {
                if free.contains(&i) {
                    step(&mut n, c, true).await?;
                    continue;
                }
                match course[i] {
                    100 => tick().await,
                    101 => n.commit(&[]).await?,
                    102 => {
                        let l = n.package(1).await?;
                        n.commit(&l).await?
                    }
                    103 => {
                        let l = n.package(100).await?;
                        c.nontrivial();
                        n.commit(&l).await?
                    }
                    t => n.insert(t).await?,
                }
                c.transition();
            }
            n.observe().await
        })
    });
}
