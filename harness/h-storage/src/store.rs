//! E01, E02: the chain's storage.
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::{Arc, OnceLock};

use core_db::RocksAdapter;
use core_storage::ImplStorage;
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::codec::ProtocolCodec;
use protocol::traits::{Context, ReadOnlyStorage, Storage};
use protocol::types::*;
use protocol::ProtocolResult;
use rocksdb::control;

use crate::{fresh, rt};

type Store = ImplStorage<RocksAdapter>;

struct Data {
    blocks: Vec<Block>,
    txs: Vec<SignedTransaction>,
    codes: Vec<(H256, Hash, Bytes)>,
    proofs: Vec<Proof>,
    forks: Vec<HardforkInfoInner>,
}

fn receipt(tx: &SignedTransaction, height: u64, index: u32) -> Receipt {
    Receipt {
        tx_hash: tx.transaction.hash,
        block_number: height,
        block_hash: kit::h256(height * 77),
        tx_index: index,
        sender: tx.sender,
        used_gas: (21_000 + height * 10 + index as u64).into(),
        logs: vec![Log { address: kit::h160(height), topics: vec![kit::h256(index as u64)], data: vec![index as u8; 3] }],
        ..Default::default()
    }
}

/// `k` tells apart receipts of two executions of the same block.
fn receipts(d: &Data, height: u64, txs: &[usize], k: u32) -> Vec<Receipt> {
    txs.iter().enumerate().map(|(i, t)| receipt(&d.txs[*t], height, i as u32 + 10 * k)).collect()
}

fn data() -> &'static Data {
    static D: OnceLock<Data> = OnceLock::new();
    D.get_or_init(|| {
        let txs: Vec<SignedTransaction> = (0..5u64)
            .map(|i| kit::sign(kit::legacy(i, 1, 21_000, Some(kit::h160(9)), i as u128, &[]), Some(kit::CHAIN), i as u8))
            .collect();
        let block = |number: u64, salt: u64, hashes: &[usize]| Block {
            header: Header {
                number,
                timestamp: salt,
                prev_hash: kit::h256(salt),
                gas_used: salt.into(),
                state_root: kit::h256(salt + 1),
                chain_id: kit::CHAIN,
                ..Default::default()
            },
            tx_hashes: hashes.iter().map(|i| txs[*i].transaction.hash).collect(),
        };
        let proof = |n: u64| Proof {
            number: n,
            round: n + 3,
            block_hash: kit::h256(n + 5),
            signature: Bytes::from(vec![n as u8; 96]),
            bitmap: Bytes::from(vec![0xf0]),
        };
        let code = |a: u64, h: u64, c: &[u8]| (kit::h256(a), kit::h256(h), Bytes::from(c.to_vec()));
        Data {
            blocks: vec![block(1, 11, &[0, 1]), block(1, 12, &[1]), block(2, 21, &[2]), block(256, 31, &[])],
            codes: vec![code(1, 101, b"one"), code(2, 102, b""), code(1, 102, b""), code(3, 101, b"one")],
            proofs: vec![proof(1), proof(2)],
            forks: vec![
                HardforkInfoInner { block_number: 5, flags: kit::h256(1) },
                HardforkInfoInner { block_number: 6, flags: kit::h256(2) },
            ],
            txs,
        }
    })
}

/// What a storage shows, or is to show, read by read; a read that may show anything is absent.
type View = BTreeMap<String, String>;

fn show<T: ProtocolCodec>(v: &T) -> String {
    let bytes = v.encode().unwrap();
    rf::hex(&rf::keccak256(&bytes)[..8])
}

fn opt<T: ProtocolCodec>(v: ProtocolResult<Option<T>>) -> String {
    match v {
        Ok(Some(v)) => show(&v),
        Ok(None) => "none".into(),
        Err(_) => "error".into(),
    }
}

fn all<T: ProtocolCodec>(v: ProtocolResult<Vec<Option<T>>>) -> String {
    match v {
        Ok(v) => v.into_iter().map(|i| opt(Ok(i))).collect::<Vec<_>>().join(","),
        Err(_) => "error".into(),
    }
}

fn latest<T: ProtocolCodec>(v: ProtocolResult<T>) -> String {
    // a storage without a chain has no latest block, and says so by an error
    match v {
        Ok(v) => show(&v),
        Err(_) => "none".into(),
    }
}

fn hashes() -> &'static [(String, Hash)] {
    static H: OnceLock<Vec<(String, Hash)>> = OnceLock::new();
    H.get_or_init(|| {
        let d = data();
        let mut v: Vec<(String, Hash)> = vec![];
        for (i, b) in d.blocks.iter().enumerate() {
            v.push((format!("b{i}"), b.hash()));
        }
        for (i, t) in d.txs.iter().enumerate() {
            v.push((format!("t{i}"), t.transaction.hash));
        }
        v.push(("unknown".into(), kit::h256(0xdead)));
        v
    })
}

const HEIGHTS: [u64; 4] = [0, 1, 2, 256];

fn lists() -> Vec<Vec<Hash>> {
    let t = |i: usize| data().txs[i].transaction.hash;
    vec![
        vec![],
        vec![t(0), t(1), t(2)],
        vec![t(3), t(2), t(0)],
        vec![t(1), t(1), kit::h256(0xdead), t(1)],
        vec![kit::h256(0xdead), t(4)],
    ]
}

#[derive(Clone, Copy, PartialEq)]
enum Read {
    Block(u64),
    Header(u64),
    ByHash(usize),
    Number(usize),
    Txs(u64, usize),
    Receipts(u64, usize),
    Tx(usize),
    Receipt(usize),
    Code(usize),
    CodeAt(usize),
    Latest,
    LatestHeader,
    Proof,
    Fork,
}

fn reads() -> &'static [Read] {
    static R: OnceLock<Vec<Read>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = vec![];
        for h in HEIGHTS {
            v.push(Read::Block(h));
            v.push(Read::Header(h));
            if h > 0 {
                for l in 0..lists().len() {
                    v.push(Read::Txs(h, l));
                    v.push(Read::Receipts(h, l));
                }
            }
        }
        for i in 0..hashes().len() {
            v.push(Read::ByHash(i));
            v.push(Read::Number(i));
            v.push(Read::Tx(i));
            v.push(Read::Receipt(i));
        }
        for i in 0..4 {
            v.push(Read::Code(i));
            v.push(Read::CodeAt(i));
        }
        v.extend([Read::Latest, Read::LatestHeader, Read::Proof, Read::Fork]);
        v
    })
}

fn name(r: Read) -> String {
    match r {
        Read::Block(h) => format!("block by height {h}"),
        Read::Header(h) => format!("header by height {h}"),
        Read::ByHash(i) => format!("block by hash of {}", hashes()[i].0),
        Read::Number(i) => format!("height by hash of {}", hashes()[i].0),
        Read::Txs(h, l) => format!("transactions of height {h}, list {l}"),
        Read::Receipts(h, l) => format!("receipts of height {h}, list {l}"),
        Read::Tx(i) => format!("transaction by hash of {}", hashes()[i].0),
        Read::Receipt(i) => format!("receipt by hash of {}", hashes()[i].0),
        Read::Code(i) => format!("code {i} by hash"),
        Read::CodeAt(i) => format!("code {i} by address"),
        Read::Latest => "latest block".into(),
        Read::LatestHeader => "latest header".into(),
        Read::Proof => "latest proof".into(),
        Read::Fork => "hardfork proposal".into(),
    }
}

fn code_keys() -> [(H256, Hash); 4] {
    [
        (kit::h256(1), kit::h256(101)),
        (kit::h256(2), kit::h256(102)),
        (kit::h256(3), kit::h256(103)),
        (kit::h256(4), kit::h256(104)),
    ]
}

fn read(s: &Store, r: Read) -> String {
    let x = Context::new();
    rt().block_on(async move {
        match r {
            Read::Block(h) => opt(s.get_block(x, h).await),
            Read::Header(h) => opt(s.get_block_header(x, h).await),
            Read::ByHash(i) => opt(s.get_block_by_hash(x, &hashes()[i].1).await),
            Read::Number(i) => match ReadOnlyStorage::get_block_number_by_hash(s, x, &hashes()[i].1).await {
                Ok(n) => format!("{n:?}"),
                Err(_) => "error".into(),
            },
            Read::Txs(h, l) => all(s.get_transactions(x, h, &lists()[l]).await),
            Read::Receipts(h, l) => all(s.get_receipts(x, h, &lists()[l]).await),
            Read::Tx(i) => opt(s.get_transaction_by_hash(x, &hashes()[i].1).await),
            Read::Receipt(i) => opt(s.get_receipt_by_hash(x, &hashes()[i].1).await),
            Read::Code(i) => opt(s.get_code_by_hash(x, &code_keys()[i].1).await),
            Read::CodeAt(i) => opt(s.get_code_by_address(x, &code_keys()[i].0).await),
            Read::Latest => latest(s.get_latest_block(x).await),
            Read::LatestHeader => latest(s.get_latest_block_header(x).await),
            Read::Proof => latest(s.get_latest_proof(x).await),
            Read::Fork => opt(s.hardfork_proposal(x).await),
        }
    })
}

fn view(s: &Store) -> View {
    reads().iter().map(|r| (name(*r), read(s, *r))).collect()
}

#[derive(Clone, Default)]
struct Model {
    blocks: BTreeMap<u64, Block>,
    /// heights whose block was removed: only the block itself is spoken for
    removed: Vec<u64>,
    latest: Option<Block>,
    txs: HashMap<(u64, Hash), SignedTransaction>,
    receipts: HashMap<(u64, Hash), Receipt>,
    at: HashMap<Hash, u64>,
    codes: HashMap<Hash, Bytes>,
    code_at: HashMap<H256, Hash>,
    proof: Option<Proof>,
    fork: Option<HardforkInfoInner>,
}

impl Model {
    fn view(&self) -> View {
        fn o<T: ProtocolCodec>(v: Option<&T>) -> String {
            v.map(show).unwrap_or_else(|| "none".into())
        }
        let mut v = View::new();
        for r in reads() {
            let by_hash = |i: usize| self.blocks.values().find(|b| b.hash() == hashes()[i].1);
            let t = |i: usize| hashes()[i].1;
            let s = match *r {
                Read::Block(h) => o(self.blocks.get(&h)),
                Read::Header(h) if self.removed.contains(&h) => continue,
                Read::Header(h) => o(self.blocks.get(&h).map(|b| &b.header)),
                Read::ByHash(i) => o(by_hash(i)),
                Read::Number(i) => {
                    if data().blocks.iter().any(|b| b.hash() == t(i) && self.removed.contains(&b.header.number)) {
                        continue;
                    }
                    format!("{:?}", by_hash(i).map(|b| b.header.number))
                }
                Read::Txs(h, l) => lists()[l].iter().map(|t| o(self.txs.get(&(h, *t)))).collect::<Vec<_>>().join(","),
                Read::Receipts(h, l) => {
                    lists()[l].iter().map(|t| o(self.receipts.get(&(h, *t)))).collect::<Vec<_>>().join(",")
                }
                Read::Tx(i) => o(self.at.get(&t(i)).and_then(|h| self.txs.get(&(*h, t(i))))),
                Read::Receipt(i) => o(self.at.get(&t(i)).and_then(|h| self.receipts.get(&(*h, t(i))))),
                Read::Code(i) => o(self.codes.get(&code_keys()[i].1)),
                Read::CodeAt(i) => o(self.code_at.get(&code_keys()[i].0).and_then(|h| self.codes.get(h))),
                Read::Latest => o(self.latest.as_ref()),
                Read::LatestHeader => o(self.latest.as_ref().map(|b| &b.header)),
                Read::Proof => o(self.proof.as_ref()),
                Read::Fork => o(self.fork.as_ref()),
            };
            v.insert(name(*r), s);
        }
        v
    }
}

#[derive(Clone, Debug)]
enum Op {
    Insert(usize),
    Set(usize),
    Remove(u64),
    SetLatest(usize),
    /// transactions and their receipts; `bool`: receipts first
    Txs(u64, Vec<usize>, bool),
    /// the receipts of another execution
    Again(u64, Vec<usize>),
    Code(usize),
    Proof(usize),
    Fork(usize),
    NoFork,
}

fn ops() -> Vec<Op> {
    vec![
        Op::Insert(0),
        Op::Insert(1),
        Op::Insert(2),
        Op::Set(0),
        Op::Set(1),
        Op::Set(3),
        Op::Remove(1),
        Op::SetLatest(0),
        Op::Txs(1, vec![0, 1], false),
        Op::Txs(2, vec![1, 2], true),
        Op::Txs(256, vec![3], false),
        Op::Txs(1, vec![], false),
        Op::Again(1, vec![1]),
        Op::Code(0),
        Op::Code(1),
        Op::Code(2),
        Op::Proof(0),
        Op::Proof(1),
        Op::Fork(0),
        Op::Fork(1),
        Op::NoFork,
    ]
}

fn run(s: &Store, op: &Op) -> ProtocolResult<()> {
    let d = data();
    let x = Context::new;
    rt().block_on(async {
        match op {
            Op::Insert(i) => s.insert_block(x(), d.blocks[*i].clone()).await,
            Op::Set(i) => s.set_block(x(), d.blocks[*i].clone()).await,
            Op::Remove(h) => s.remove_block(x(), *h).await,
            Op::SetLatest(i) => s.set_latest_block(x(), d.blocks[*i].clone()).await,
            Op::Txs(h, ts, receipts_first) => {
                let txs: Vec<_> = ts.iter().map(|t| d.txs[*t].clone()).collect();
                let rs = receipts(d, *h, ts, 0);
                if *receipts_first {
                    s.insert_receipts(x(), *h, rs).await?;
                    s.insert_transactions(x(), *h, txs).await
                } else {
                    s.insert_transactions(x(), *h, txs).await?;
                    s.insert_receipts(x(), *h, rs).await
                }
            }
            Op::Again(h, ts) => s.insert_receipts(x(), *h, receipts(d, *h, ts, 1)).await,
            Op::Code(i) => s.insert_code(x(), d.codes[*i].0, d.codes[*i].1, d.codes[*i].2.clone()).await,
            Op::Proof(i) => s.update_latest_proof(x(), d.proofs[*i].clone()).await,
            Op::Fork(i) => s.set_hardfork_proposal(x(), d.forks[*i].clone()).await,
            Op::NoFork => s.remove_hardfork_proposal(x()).await,
        }
    })
}

/// Receipts of a block whose transactions are not there.
fn senseless(m: &Model, op: &Op) -> bool {
    match op {
        Op::Again(h, ts) => ts.iter().any(|t| !m.txs.contains_key(&(*h, data().txs[*t].transaction.hash))),
        _ => false,
    }
}

fn apply(m: &mut Model, op: &Op) {
    let d = data();
    match op {
        Op::Insert(i) | Op::Set(i) => {
            let b = d.blocks[*i].clone();
            m.removed.retain(|h| *h != b.header.number);
            if matches!(op, Op::Insert(_)) {
                m.latest = Some(b.clone());
            }
            m.blocks.insert(b.header.number, b);
        }
        Op::Remove(h) => {
            if m.blocks.remove(h).is_some() {
                m.removed.push(*h);
            }
        }
        Op::SetLatest(i) => m.latest = Some(d.blocks[*i].clone()),
        Op::Txs(h, ts, _) => {
            for (t, r) in ts.iter().zip(receipts(d, *h, ts, 0)) {
                let hash = d.txs[*t].transaction.hash;
                m.txs.insert((*h, hash), d.txs[*t].clone());
                m.receipts.insert((*h, hash), r);
                m.at.insert(hash, *h);
            }
        }
        Op::Again(h, ts) => {
            for (t, r) in ts.iter().zip(receipts(d, *h, ts, 1)) {
                let hash = d.txs[*t].transaction.hash;
                m.receipts.insert((*h, hash), r);
                m.at.insert(hash, *h);
            }
        }
        Op::Code(i) => {
            m.codes.insert(d.codes[*i].1, d.codes[*i].2.clone());
            m.code_at.insert(d.codes[*i].0, d.codes[*i].1);
        }
        Op::Proof(i) => m.proof = Some(d.proofs[*i].clone()),
        Op::Fork(i) => m.fork = Some(d.forks[*i].clone()),
        Op::NoFork => m.fork = None,
    }
}

/// Reads whose answer a removal at this height makes meaningless.
fn kind(name: &str) -> &str {
    for k in [
        "block by height", "header by height", "block by hash", "height by hash", "transactions of height", "receipts of height",
        "transaction by hash", "receipt by hash", "code", "latest block", "latest header", "latest proof", "hardfork proposal",
    ] {
        if name.starts_with(k) {
            return k;
        }
    }
    name
}

fn same(got: &View, want: &View, what: &str) -> mc::Outcome {
    for (k, w) in want {
        let g = &got[k];
        if g != w {
            return Err(Fail::new(format!("{what}, {}", kind(k)), format!("{what}: {k}: got {g}, expected {w}")));
        }
    }
    Ok(())
}

fn open(path: &Path, cache: usize) -> Store {
    Store::new(Arc::new(RocksAdapter::new(path, Default::default()).unwrap()), cache)
}

fn warm(c: &mut Chooser, s: &Store) {
    if c.flip() {
        view(s);
    }
}

pub fn reads_part(k: &Check) {
    let depth = k.by_tier(3, 4);
    let caches: &[usize] = k.by_tier(&[1, 64], &[1, 2, 64]);
    k.part(
        "histories",
        "every sequence of writes, each preceded or not by reading everything (so that caches hold the old values), then every read through the same storage and through one opened afterwards",
        "21 writes (blocks that replace others, removals, transactions, receipts, code, proofs, hardfork proposals), sequences of 3 (4 thorough), caches of 1 and 64 entries (also 2 thorough); 124 reads",
    )
    .explore(|c| {
        let path = fresh();
        let cache = *c.pick(caches);
        let s = open(&path, cache);
        let mut m = Model::default();
        let ops = ops();
        for i in 0..depth {
            if i > 0 {
                warm(c, &s);
            }
            let op = c.pick(&ops).clone();
            if senseless(&m, &op) {
                return Ok(());
            }
            c.note(|| format!("{op:?}"));
            let r = mc::no_panic(|| run(&s, &op))?;
            ensure!(r.is_ok(), "write: refused: {op:?}: {r:?}");
            apply(&mut m, &op);
            c.transition();
        }
        c.nontrivial();
        let want = m.view();
        c.outcome(&want);
        same(&mc::no_panic(|| view(&s))?, &want, "same storage")?;
        same(&mc::no_panic(|| view(&s))?, &want, "same storage, read again")?;
        same(&mc::no_panic(|| view(&open(&path, cache)))?, &want, "storage opened again")
    });
    k.part(
        "no cache",
        "a storage configured with a cache of size zero works like any other",
        "every single write",
    )
    .explore(|c| {
        let path = fresh();
        let op = c.pick(&ops()).clone();
        let s = mc::no_panic(|| open(&path, 0))?;
        let mut m = Model::default();
        ensure!(run(&s, &op).is_ok(), "write: refused: {op:?}");
        apply(&mut m, &op);
        c.nontrivial();
        same(&mc::no_panic(|| view(&s))?, &m.view(), "without a cache")
    });
    k.part(
        "failing reads",
        "after every pair of writes, every read with the disk failing at every one of its accesses: an error or the true answer, never another; and the true answer afterwards",
        "21 x 21 writes, every read that touches the disk at most 3 times",
    )
    .explore(|c| {
        let path = fresh();
        let ops = ops();
        let s = open(&path, 64);
        let mut m = Model::default();
        for _ in 0..2 {
            let op = c.pick(&ops);
            if senseless(&m, op) {
                return Ok(());
            }
            ensure!(run(&s, op).is_ok(), "write: refused: {op:?}");
            apply(&mut m, op);
        }
        let want = m.view();
        let s = open(&path, 64);
        for r in reads() {
            let Some(w) = want.get(&name(*r)) else { continue };
            for n in 0..3 {
                control::fail_read(&path, Some(n));
                let got = mc::no_panic(|| read(&s, *r));
                control::fail_read(&path, None);
                let got = got?;
                let honest = got == *w || got == "error" || (got == "none" && name(*r).starts_with("latest"));
                if !honest {
                    return Err(Fail::new("failing read", format!("failing read: {}: got {got}, expected {w} or an error", name(*r))));
                }
                if got == "error" {
                    c.nontrivial();
                }
            }
        }
        same(&view(&s), &want, "after failing reads")
    });
    k.part(
        "long lists",
        "blocks of many transactions: transactions and receipts are found by height, in the order asked for, whatever their number",
        "1, 999, 1000, 1001 and 2001 transactions at the height, as many at the heights around it; asked for all, backwards, every second, and with unknown ones",
    )
    .explore(|c| {
        let path = fresh();
        let n = *c.pick(&[1usize, 999, 1000, 1001, 2001]);
        let pattern = c.choose(4);
        let stxs = many(n);
        let s = open(&path, 4);
        for h in [6u64, 7, 8] {
            let rs: Vec<Receipt> = stxs.iter().enumerate().map(|(i, t)| receipt(t, h, i as u32)).collect();
            rt().block_on(async {
                s.insert_transactions(Context::new(), h, stxs.to_vec()).await.unwrap();
                s.insert_receipts(Context::new(), h, rs).await.unwrap();
            });
        }
        let mut asked: Vec<(Hash, Option<usize>)> = stxs.iter().enumerate().map(|(i, t)| (t.transaction.hash, Some(i))).collect();
        match pattern {
            1 => asked.reverse(),
            2 => asked = asked.into_iter().step_by(2).collect(),
            3 => asked = asked.into_iter().flat_map(|a| [a, (kit::h256(a.1.unwrap() as u64), None)]).collect(),
            _ => {}
        }
        let list: Vec<Hash> = asked.iter().map(|a| a.0).collect();
        let txs = mc::no_panic(|| rt().block_on(s.get_transactions(Context::new(), 7, &list)))?.unwrap();
        let rs = mc::no_panic(|| rt().block_on(s.get_receipts(Context::new(), 7, &list)))?.unwrap();
        c.nontrivial();
        c.outcome((n, pattern));
        ensure_eq!(txs.len(), list.len(), "long list: as many answers as questions");
        ensure_eq!(rs.len(), list.len(), "long list: as many answers as questions");
        for ((a, t), r) in asked.iter().zip(&txs).zip(&rs) {
            match a.1 {
                None => ensure!(t.is_none() && r.is_none(), "long list: an unknown transaction is found"),
                Some(i) => {
                    ensure!(t.as_ref() == Some(&stxs[i]), "long list: transaction {i} of {n} is missing or another");
                    ensure!(r.as_ref() == Some(&receipt(&stxs[i], 7, i as u32)), "long list: receipt {i} of {n} is missing or another");
                }
            }
        }
        Ok(())
    });
    k.assume("one writer at a time, as in the node: a read that overlaps a write of the same item from another thread is not explored");
    k.assume("the database is a stand-in with the semantics of the crate the node uses (ordered columns, atomic batches)");
}

fn many(n: usize) -> &'static [SignedTransaction] {
    static M: OnceLock<Vec<SignedTransaction>> = OnceLock::new();
    let all = M.get_or_init(|| {
        let parts: Vec<_> = (0..8)
            .map(|p| {
                std::thread::spawn(move || {
                    (0..251u64)
                        .map(|i| kit::sign(kit::legacy(p * 251 + i, 1, 21_000, Some(kit::h160(9)), 1, &[]), Some(kit::CHAIN), 1))
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        parts.into_iter().flat_map(|t| t.join().unwrap()).collect()
    });
    &all[..n]
}


/// Writes whose effects on different items do not overlap in unspoken ways.
fn crash_ops() -> Vec<Op> {
    vec![
        Op::Insert(0),
        Op::Insert(1),
        Op::Insert(2),
        Op::Set(3),
        Op::Remove(1),
        Op::Txs(1, vec![0, 1], false),
        Op::Txs(2, vec![2], false),
        Op::Txs(2, vec![2], true),
        Op::Again(1, vec![1]),
        Op::Code(0),
        Op::Code(2),
        Op::Proof(0),
        Op::Proof(1),
        Op::Fork(0),
        Op::NoFork,
    ]
}

fn between(got: &View, old: &View, new: &View, what: &str) -> mc::Outcome {
    for (k, g) in got {
        let (Some(o), Some(n)) = (old.get(k), new.get(k)) else { continue };
        if g != o && g != n {
            return Err(Fail::new(
                format!("{what}, {}", kind(k)),
                format!("{what}: {k}: got {g}, neither what it was ({o}) nor what was being written ({n})"),
            ));
        }
    }
    Ok(())
}

/// A storage that names a latest block can show that block in every way.
fn whole(s: &Store) -> mc::Outcome {
    rt().block_on(async {
        let Ok(b) = s.get_latest_block(Context::new()).await else { return Ok(()) };
        let n = b.header.number;
        let by_height = s.get_block(Context::new(), n).await;
        let header = s.get_block_header(Context::new(), n).await;
        let by_hash = s.get_block_by_hash(Context::new(), &b.hash()).await;
        ensure!(matches!(&by_height, Ok(Some(x)) if *x == b), "latest block: not found by its height {n}");
        ensure!(matches!(&header, Ok(Some(x)) if *x == b.header), "latest block: its header is not found by its height {n}");
        ensure!(matches!(&by_hash, Ok(Some(x)) if *x == b), "latest block: not found by its hash");
        Ok(())
    })
}

pub fn crash_part(k: &Check) {
    let depth = k.by_tier(2, 3);
    k.part(
        "power loss",
        "every sequence of writes, with the power failing after every step that reaches the disk: what was acknowledged is read back, what was not is old or new item by item, and a latest block is a whole one",
        "15 writes, sequences of 2 (3 thorough), every crash point",
    )
    .explore(|c| {
        let path = fresh();
        let ops = crash_ops();
        let s = open(&path, 2);
        let mut models = vec![(0usize, Model::default())];
        let mut only_appends = true;
        for _ in 0..depth {
            let op = c.pick(&ops).clone();
            if senseless(&models.last().unwrap().1, &op) {
                return Ok(());
            }
            c.note(|| format!("{op:?}"));
            ensure!(run(&s, &op).is_ok(), "write: refused: {op:?}");
            let mut m = models.last().unwrap().1.clone();
            only_appends &= !matches!(op, Op::Remove(_) | Op::Insert(1));
            apply(&mut m, &op);
            models.push((control::journal_len(&path), m));
        }
        drop(s);
        let total = models.last().unwrap().0;
        let cut = c.choose(total + 1);
        control::truncate(&path, cut);
        c.note(|| format!("power lost after {cut} of {total} steps"));
        let done = models.iter().rposition(|(n, _)| *n <= cut).unwrap();
        let old = models[done].1.view();
        let new = models.get(done + 1).map(|m| m.1.view()).unwrap_or_else(|| old.clone());
        let s = open(&path, 2);
        if models[done].0 < cut {
            c.nontrivial();
        }
        let got = mc::no_panic(|| view(&s))?;
        c.outcome(&got);
        between(&got, &old, &new, "after a power loss")?;
        if only_appends {
            whole(&s)?;
        }
        Ok(())
    });
    k.part(
        "failing writes",
        "every pair of writes with the disk refusing every single step of the second, warm and cold caches: the failure is reported, each item is old or new, the same storage and a reopened one agree, and trying again succeeds",
        "15 x 15 writes, every step, caches of 1 and 64 entries",
    )
    .explore(|c| {
        let path = fresh();
        let ops = crash_ops();
        let cache = *c.pick(&[1usize, 64]);
        let s = open(&path, cache);
        let mut m = Model::default();
        let first = c.pick(&ops);
        if senseless(&m, first) {
            return Ok(());
        }
        ensure!(run(&s, first).is_ok(), "write: refused: {first:?}");
        apply(&mut m, first);
        let second = c.pick(&ops);
        if senseless(&m, second) {
            return Ok(());
        }
        let old = m.view();
        apply(&mut m, second);
        let new = m.view();
        warm(c, &s);
        let step = c.choose(4);
        let before = control::journal_len(&path);
        control::fail_write(&path, Some(step));
        let r = mc::no_panic(|| run(&s, second));
        control::fail_write(&path, None);
        let failed = r?.is_err();
        let written = control::journal_len(&path) - before;
        if !failed {
            // the operation took no more than `step` steps
            ensure!(written <= step, "failing disk: a write that the disk refused is reported as done: {second:?}");
            return same(&view(&s), &new, "same storage");
        }
        c.nontrivial();
        let got = view(&s);
        between(&got, &old, &new, "after a failed write")?;
        let reopened = view(&open(&path, cache));
        for (k, g) in &got {
            if *g != reopened[k] {
                return Err(Fail::new(
                    format!("after a failed write, {}", kind(k)),
                    format!("after a failed write: {k}: the running node answers {g}, the same node after a restart {}", reopened[k]),
                ));
            }
        }
        ensure!(run(&s, second).is_ok(), "trying again: refused");
        same(&view(&s), &new, "after trying again")
    });
    k.assume("a write or a batch reaches the disk whole or not at all, and in order: the guarantee of the database the node uses, for which a stand-in is used here");
}

pub use self::crash_part as crashes;
