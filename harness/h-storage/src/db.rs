//! E03: the databases under the storage.
use std::collections::BTreeMap;

use core_db::{MemoryAdapter, RocksAdapter};
use mc::{ensure, ensure_eq, Check, Fail};
use protocol::codec::ProtocolCodec;
use protocol::traits::{StorageAdapter, StorageBatchModify, StorageCategory, StorageSchema};
use protocol::types::Bytes;
use protocol::ProtocolResult;
use rocksdb::control;

use crate::fresh;

/// A key that is its own encoding, as the keys of the chain's storage are.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Raw(Vec<u8>);

impl ProtocolCodec for Raw {
    fn encode(&self) -> ProtocolResult<Bytes> {
        Ok(Bytes::from(self.0.clone()))
    }

    fn decode<B: AsRef<[u8]>>(bytes: B) -> ProtocolResult<Self> {
        Ok(Raw(bytes.as_ref().to_vec()))
    }
}

macro_rules! schemas {
    ($($name: ident $cat: ident),*) => {$(
        struct $name;
        impl StorageSchema for $name {
            type Key = Raw;
            type Value = Bytes;
            fn category() -> StorageCategory { StorageCategory::$cat }
        }
    )*};
}
schemas!(
    Blocks Block, Headers BlockHeader, Receipts Receipt, Txs SignedTransaction, Wals Wal, Heights HashHeight, Codes Code, Evm EvmState,
    Meta MetadataState, Cells CkbLightClientState, Versions Version
);

const KEYS: [&[u8]; 6] = [b"a", b"ab", b"abc", b"b", b"\xff\xff", b"\xff\xff\x01"];
const PREFIXES: [&[u8]; 6] = [b"", b"a", b"ab", b"b", b"\xff", b"\xff\xff"];

type Model = BTreeMap<Vec<u8>, Vec<u8>>;

/// (key, value or removal)
type Batch = Vec<(usize, Option<u8>)>;

#[derive(Clone, Debug)]
enum Op {
    Insert(usize, u8),
    Remove(usize),
    Batch(Batch),
    Uneven,
}

fn ops() -> Vec<Op> {
    vec![
        Op::Insert(0, 1),
        Op::Insert(0, 2),
        Op::Insert(1, 3),
        Op::Insert(3, 0),
        Op::Insert(4, 5),
        Op::Remove(0),
        Op::Remove(3),
        Op::Batch(vec![]),
        Op::Batch(vec![(0, Some(6)), (1, Some(7)), (2, Some(8)), (5, Some(9))]),
        Op::Batch(vec![(0, None), (2, Some(3)), (3, None)]),
        Op::Batch(vec![(1, Some(1)), (1, None)]),
        Op::Batch(vec![(1, None), (1, Some(4)), (1, Some(2))]),
        Op::Uneven,
    ]
}

fn key(i: usize) -> Raw {
    Raw(KEYS[i].to_vec())
}

fn val(v: u8) -> Bytes {
    Bytes::from(vec![v; v as usize * 20])
}

fn apply(m: &mut Model, op: &Op) {
    let mut one = |k: usize, v: Option<u8>| match v {
        Some(v) => {
            m.insert(KEYS[k].to_vec(), val(v).to_vec());
        }
        None => {
            m.remove(KEYS[k]);
        }
    };
    match op {
        Op::Insert(k, v) => one(*k, Some(*v)),
        Op::Remove(k) => one(*k, None),
        Op::Batch(b) => b.iter().for_each(|(k, v)| one(*k, *v)),
        Op::Uneven => {}
    }
}

fn run_op<A: StorageAdapter, S: StorageSchema<Key = Raw, Value = Bytes> + 'static>(a: &A, op: &Op) -> protocol::ProtocolResult<()> {
    match op {
        Op::Insert(k, v) => a.insert::<S>(key(*k), val(*v)),
        Op::Remove(k) => a.remove::<S>(key(*k)),
        Op::Batch(b) => a.batch_modify::<S>(
            b.iter().map(|(k, _)| key(*k)).collect(),
            b.iter()
                .map(|(_, v)| match v {
                    Some(v) => StorageBatchModify::Insert(val(*v)),
                    None => StorageBatchModify::Remove,
                })
                .collect(),
        ),
        Op::Uneven => {
            match a.batch_modify::<S>(vec![key(0), key(1)], vec![StorageBatchModify::Insert(val(9))]) {
                Ok(()) => Err(protocol_error()),
                Err(_) => Ok(()),
            }
        }
    }
}

fn protocol_error() -> protocol::ProtocolError {
    protocol::ProtocolError::new(protocol::ProtocolErrorKind::DB, Box::new(std::io::Error::new(std::io::ErrorKind::Other, "a batch of two keys and one value is accepted")))
}

fn check<A: StorageAdapter, S: StorageSchema<Key = Raw, Value = Bytes> + 'static>(a: &A, m: &Model, what: &str) -> mc::Outcome {
    for (i, k) in KEYS.iter().enumerate() {
        let want = m.get(*k).map(|v| Bytes::from(v.clone()));
        let got = a.get::<S>(key(i)).map_err(|e| Fail::new("read", format!("{what}: reading fails: {e}")))?;
        ensure_eq!(got, want, "{what}, value: of key {i}");
        ensure_eq!(a.contains::<S>(key(i)).unwrap(), want.is_some(), "{what}, presence: of key {i}");
    }
    let all = a.get_batch::<S>((0..KEYS.len()).rev().map(key).collect()).unwrap();
    let want: Vec<Option<Bytes>> = KEYS.iter().rev().map(|k| m.get(*k).map(|v| Bytes::from(v.clone()))).collect();
    ensure_eq!(all, want, "{what}, several values: ");
    for p in PREFIXES {
        let prefix = p.to_vec();
        let it = a.prepare_iter::<S, _>(&prefix).unwrap();
        let mut got = vec![];
        for x in it.ref_to_iter() {
            let (k, v) = x.map_err(|e| Fail::new("walk", format!("{what}: walking fails: {e}")))?;
            if !k.0.starts_with(p) {
                break;
            }
            got.push((k.0, v.to_vec()));
        }
        let want: Vec<(Vec<u8>, Vec<u8>)> =
            m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure_eq!(got, want, "{what}, walk: over the entries with prefix {p:?}");
    }
    Ok(())
}

fn every_category<A: StorageAdapter>(a: &A, write: bool) -> mc::Outcome {
    macro_rules! each {
        ($($s: ident $n: expr),*) => {$(
            if write {
                a.insert::<$s>(key(0), val($n)).unwrap();
            } else {
                ensure_eq!(a.get::<$s>(key(0)).unwrap(), Some(val($n)), "categories: mixed up, {}", stringify!($s));
            }
        )*};
    }
    each!(Blocks 1, Headers 2, Receipts 3, Txs 4, Wals 5, Heights 6, Codes 7, Evm 8, Meta 9, Cells 10, Versions 11);
    Ok(())
}

pub fn run(k: &Check) {
    let depth = k.by_tier(3, 4);
    k.part(
        "on disk",
        "every sequence of single and batched writes, some of them on a failing disk, with a reopening in between or not, against an ordered map: values, presence, several at once, walks by prefix",
        "13 writes x working or failing disk x two columns, sequences of 3 (4 thorough), 6 keys, 6 prefixes",
    )
    .explore(|c| {
        let path = fresh();
        let mut a = RocksAdapter::new(&path, Default::default()).unwrap();
        let mut ms = [Model::default(), Model::default()];
        let ops = ops();
        for i in 0..depth {
            let op = c.pick(&ops).clone();
            let col = c.choose(2);
            let fail = i + 1 == depth && c.flip();
            control::fail_write(&path, fail.then_some(0));
            let before = control::journal_len(&path);
            let r = mc::no_panic(|| if col == 0 { run_op::<_, Blocks>(&a, &op) } else { run_op::<_, Heights>(&a, &op) });
            control::fail_write(&path, None);
            let r = r?;
            let steps = control::journal_len(&path) - before;
            if fail && !matches!(op, Op::Uneven) {
                if matches!(&op, Op::Batch(b) if b.is_empty()) {
                    continue;
                }
                ensure!(r.is_err(), "failing disk: a write that the disk refused is reported as done: {op:?}");
            } else {
                ensure!(r.is_ok(), "write: {op:?}: {r:?}");
                ensure!(steps <= 1, "atomicity: a batch reaches the disk in {steps} steps: {op:?}");
                apply(&mut ms[col], &op);
            }
            c.transition();
        }
        if c.flip() {
            drop(a);
            a = RocksAdapter::open(&path, Default::default()).map_err(|e| Fail::new("open", format!("open: {e}")))?;
        }
        c.nontrivial();
        c.outcome(&ms);
        mc::no_panic(|| check::<_, Blocks>(&a, &ms[0], "on disk"))??;
        mc::no_panic(|| check::<_, Heights>(&a, &ms[1], "on disk"))?
    });
    k.part(
        "in memory",
        "the same writes and reads on the database that keeps everything in memory",
        "13 writes x two columns, sequences of 3 (4 thorough), 6 keys, 6 prefixes",
    )
    .explore(|c| {
        let a = MemoryAdapter::new();
        let mut ms = [Model::default(), Model::default()];
        let ops = ops();
        for _ in 0..depth {
            let op = c.pick(&ops).clone();
            let col = c.choose(2);
            let r = mc::no_panic(|| if col == 0 { run_op::<_, Blocks>(&a, &op) } else { run_op::<_, Heights>(&a, &op) })?;
            ensure!(r.is_ok(), "write: {op:?}: {r:?}");
            apply(&mut ms[col], &op);
            c.transition();
        }
        c.nontrivial();
        c.outcome(&ms);
        mc::no_panic(|| check::<_, Blocks>(&a, &ms[0], "in memory"))??;
        mc::no_panic(|| check::<_, Heights>(&a, &ms[1], "in memory"))?
    });
    k.part("columns", "one key in every category keeps its own value, also after a restart; opening what does not exist fails and creates nothing", "11 categories, both databases")
        .explore(|c| {
            let path = fresh();
            c.nontrivial();
            match c.choose(3) {
                0 => {
                    let a = RocksAdapter::new(&path, Default::default()).unwrap();
                    every_category(&a, true)?;
                    every_category(&a, false)?;
                    drop(a);
                    every_category(&RocksAdapter::open(&path, Default::default()).unwrap(), false)
                }
                1 => {
                    let a = MemoryAdapter::new();
                    every_category(&a, true)?;
                    every_category(&a, false)
                }
                _ => {
                    let p = path.join("absent");
                    ensure!(RocksAdapter::open(&p, Default::default()).is_err(), "open: a database that does not exist is opened");
                    ensure!(!control::exists(&p), "open: a database is created");
                    Ok(())
                }
            }
        });
    k.assume("the database library is a stand-in with the semantics of the crate the node uses (ordered columns, atomic batches)");
}
