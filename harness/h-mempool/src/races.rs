//! Operations on one pool from several threads: every order of their lock, map and queue operations up to
//! a number of preemptions.

use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::pin;
use std::sync::Mutex;
use std::task::{Context as Cx, Poll, RawWaker, RawWakerVTable, Waker};

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::traits::MemPool;
use protocol::types::*;

use crate::node::*;

type R = Result<(), Fail>;

fn waker() -> Waker {
    fn raw() -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    static VT: RawWakerVTable = RawWakerVTable::new(|_| raw(), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(raw()) }
}

/// Runs a future which never has to wait.
fn now<T>(f: impl Future<Output = T>) -> T {
    let w = waker();
    match pin!(f).poll(&mut Cx::from_waker(&w)) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("the future waits"),
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(usize),
    Package,
    /// Package, then commit what was offered.
    Propose,
    /// Another node's block.
    Foreign(&'static [usize]),
    /// The pool's own task.
    Task,
    Look(usize),
}

type Program = &'static [&'static [Op]];

use Op::*;

const A0: usize = 0;
const A0P: usize = 1;
const A1: usize = 3;
const A2: usize = 5;
const B0: usize = 6;
const B1: usize = 7;
const XC: usize = 8;
const XD: usize = 9;

const PROGRAMS: [(usize, Program); 10] = [
    (64, &[&[Insert(A0), Insert(B0)], &[Insert(A1)], &[Propose]]),
    (64, &[&[Insert(A0)], &[Insert(A0)], &[Propose]]),
    (64, &[&[Insert(A0)], &[Insert(A0P)], &[Package, Package]]),
    (64, &[&[Insert(A0), Insert(A1)], &[Task], &[Propose]]),
    (64, &[&[Insert(A0), Insert(A1)], &[Foreign(&[A0P])], &[Package]]),
    (2, &[&[Insert(A0), Insert(B0)], &[Foreign(&[A0P])], &[Task]]),
    (2, &[&[Insert(A0)], &[Insert(B0)], &[Insert(A1)], &[Insert(B1)]]),
    (64, &[&[Insert(XC), Insert(XD)], &[Insert(XD)], &[Propose]]),
    (64, &[&[Insert(XC)], &[Foreign(&[XC, B0])], &[Look(XC), Look(B0)]]),
    (2, &[&[Insert(B0), Task], &[Foreign(&[A0, A1]), Package], &[Insert(A2)]]),
];

struct Shared {
    ad:       Ad,
    pool:     Pool,
    /// What was committed, in order, and at which heights.
    blocks:   Mutex<Vec<Vec<usize>>>,
    accepted: Mutex<BTreeSet<usize>>,
    offered:  Mutex<Vec<Vec<usize>>>,
    fails:    Mutex<Vec<Fail>>,
}

impl Shared {
    fn fail(&self, f: Fail) {
        self.fails.lock().unwrap().push(f)
    }

    fn package(&self) -> Vec<usize> {
        let p = now(self.pool.package(ctx(), U256::from(30_000_000u64), 100)).unwrap();
        let l: Vec<usize> = p.hashes.iter().filter_map(by_hash).collect();
        self.offered.lock().unwrap().push(l.clone());
        l
    }

    fn commit(&self, block: &[usize]) {
        let hashes: Vec<Hash> = block.iter().map(|i| menu()[*i].hash()).collect();
        // what is offered or fetched stays until it is flushed
        match now(self.pool.get_full_txs(ctx(), None, &hashes)) {
            Ok(v) => {
                if v.iter().map(|t| t.transaction.hash).collect::<Vec<_>>() != hashes {
                    self.fail(Fail::new("order", format!("the full transactions of {block:?}")));
                }
            }
            Err(e) => self.fail(Fail::new("a block's transactions are gone", format!("{block:?}: {e}"))),
        }
        let height = {
            let mut b = self.blocks.lock().unwrap();
            b.push(block.to_vec());
            b.len() as u64
        };
        self.ad.with(|w| {
            for i in block {
                let m = &menu()[*i];
                w.committed.insert(m.hash());
                if m.sys.is_none() {
                    let n = w.nonce.entry(m.who).or_default();
                    *n = (*n).max(m.nonce + 1);
                }
            }
        });
        now(self.pool.flush(ctx(), &hashes, height)).unwrap();
    }

    fn op(&self, op: Op, rt: &tokio::runtime::Runtime) {
        match op {
            Insert(i) => {
                if now(self.pool.insert(ctx(), menu()[i].stx.clone())).is_ok() {
                    self.accepted.lock().unwrap().insert(i);
                }
            }
            Package => {
                self.package();
            }
            Propose => {
                let l = self.package();
                self.commit(&l)
            }
            Foreign(b) => {
                let hashes: Vec<Hash> = b.iter().map(|i| menu()[*i].hash()).collect();
                let r = {
                    // the adapter answers what it is asked for
                    let _g = rt.enter();
                    rt.block_on(self.pool.ensure_order_txs(ctx(), Some(1), &hashes))
                };
                match r {
                    Ok(()) => {
                        self.accepted.lock().unwrap().extend(b.iter().copied());
                        self.commit(b)
                    }
                    Err(e) => self.fail(Fail::new("fetching", format!("a good block's transactions are refused: {e}"))),
                }
            }
            Task => rt.block_on(tick()),
            Look(i) => {
                let h = menu()[i].hash();
                if let Some(t) = self.pool.get_tx_from_mem(ctx(), &h) {
                    if t.transaction.hash != h {
                        self.fail(Fail::new("lookup", "another transaction".to_string()));
                    }
                }
                now(self.pool.contains(ctx(), &h));
            }
        }
    }
}

fn one(c: &mut Chooser, cap: usize, program: Program) -> R {
    let rt = runtime();
    // fetched transactions are checked by spawned tasks: they run on a runtime of the fetching thread
    let rts: Vec<_> = program.iter().map(|_| runtime()).collect();
    let ad = Ad::default();
    ad.with(|w| w.serve = true);
    let s = Shared {
        pool: rt.block_on(Pool::new(cap, 20, ad.clone(), vec![])),
        ad,
        blocks: Mutex::default(),
        accepted: Mutex::default(),
        offered: Mutex::default(),
        fails: Mutex::default(),
    };
    let threads: Vec<Box<dyn FnOnce() + Send>> = program
        .iter()
        .zip(&rts)
        .map(|(ops, own)| {
            let (s, rt) = (&s, &rt);
            Box::new(move || {
                for op in ops.iter() {
                    s.op(*op, if matches!(op, Task) { rt } else { own })
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let mut order: Vec<usize> = vec![];
    let (outcome, steps) = sched::run(threads, 2000, &mut |cur, ready| {
        // going on with the same thread is free, taking its turn away is a preemption
        let pick = match cur {
            Some(i) => {
                let others: Vec<usize> = ready.iter().copied().filter(|x| *x != i).collect();
                match c.deviate(others.len() + 1) {
                    0 => i,
                    n => others[n - 1],
                }
            }
            None => ready[c.choose(ready.len())],
        };
        if cur != Some(pick) {
            order.push(pick);
        }
        pick
    });
    for _ in 0..steps {
        c.transition();
    }
    c.note(|| format!("{program:?} in turns {order:?}"));
    if order.len() > program.len() {
        c.nontrivial();
    }
    match outcome {
        sched::Outcome::Finished => {}
        sched::Outcome::Deadlock(w) => return Err(Fail::new("deadlock", format!("{w:?}"))),
        sched::Outcome::Panic(t, m) => return Err(Fail::new("panic", format!("thread {t}: {m}"))),
        sched::Outcome::TooLong => return Err(Fail::new("no end", "of the operations".to_string())),
    }
    if let Some(f) = s.fails.lock().unwrap().pop() {
        return Err(f);
    }
    for l in s.offered.lock().unwrap().iter() {
        let mut last: BTreeMap<u8, u64> = BTreeMap::new();
        let mut seen = BTreeSet::new();
        for i in l {
            let m = &menu()[*i];
            ensure!(seen.insert(*i), "twice: {} in {l:?}", m.name);
            if m.sys.is_some() {
                continue;
            }
            if let Some(n) = last.insert(m.who, m.nonce) {
                ensure_eq!(m.nonce, n + 1, "nonce order: {} in {l:?}", m.name);
            }
        }
    }
    // when all is quiet: what was accepted is held, unless it was committed, outdated or outbid
    rt.block_on(tick());
    let done: BTreeSet<usize> = s.blocks.lock().unwrap().iter().flatten().copied().collect();
    let height = s.blocks.lock().unwrap().len() as u64 + 1;
    let held = |i: usize| now(s.pool.contains(ctx(), &menu()[i].hash()));
    let count = (0..menu().len()).filter(|i| held(*i)).count();
    ensure_eq!(s.pool.len(), count, "size: what is counted before the next block");
    now(s.pool.flush(ctx(), &[], height)).unwrap();
    let nonce = s.ad.with(|w| w.nonce.clone());
    let mut want: BTreeSet<usize> = BTreeSet::new();
    let accepted = s.accepted.lock().unwrap().clone();
    for i in accepted.iter().filter(|i| !done.contains(i)) {
        let m = &menu()[*i];
        if m.sys.is_some() {
            if !done.iter().any(|d| menu()[*d].sys == m.sys) {
                want.insert(*i);
            }
            continue;
        }
        if m.nonce < nonce.get(&m.who).copied().unwrap_or_default() {
            continue;
        }
        let outbid = accepted.iter().any(|j| {
            let o = &menu()[*j];
            o.who == m.who && o.nonce == m.nonce && o.sys.is_none() && o.price > m.price
        });
        if !outbid {
            want.insert(*i);
        }
    }
    let got: BTreeSet<usize> = (0..menu().len()).filter(|i| held(*i)).collect();
    for i in &want {
        ensure!(got.contains(i), "lost: {} (committed {done:?})", menu()[*i].name);
    }
    for i in &got {
        // another of the same system call may come after the block which made the call
        let again = menu()[*i].sys.is_some() && !done.contains(i);
        ensure!(want.contains(i) || again, "left behind: {} (committed {done:?})", menu()[*i].name);
    }
    ensure_eq!(s.pool.len(), got.len(), "size: what is counted");
    let p = now(s.pool.package(ctx(), U256::from(30_000_000u64), 100)).unwrap();
    let offered: BTreeSet<usize> = p.hashes.iter().filter_map(by_hash).collect();
    for i in &want {
        let m = &menu()[*i];
        let first = nonce.get(&m.who).copied().unwrap_or_default();
        let ready = m.sys.is_some()
            || (first..m.nonce).all(|n| want.iter().any(|j| menu()[*j].sys.is_none() && menu()[*j].who == m.who && menu()[*j].nonce == n));
        let twin = m.sys.is_some() && offered.iter().any(|j| menu()[*j].sys == m.sys);
        ensure_eq!(offered.contains(i) || twin, ready, "offered: {} of {want:?}", m.name);
    }
    c.outcome(format!("{:?} {:?} {:?}", got, done, s.offered.lock().unwrap()));
    Ok(())
}

pub fn run(k: &Check) {
    let bound = k.by_tier(2, 3);
    for (n, (cap, program)) in PROGRAMS.iter().enumerate() {
        k.part(
            &format!("schedules of program {}", n + 1),
            "every schedule of the threads' lock, map and queue operations up to the preemption bound: no panic, no \
             deadlock, nothing lost, left behind or counted wrong",
            &format!("{bound} preemptions; capacity {cap}; {program:?}"),
        )
        .deviations(bound)
        .explore(|c| one(c, *cap, program));
    }
}
