//! F10: the store of trie nodes.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;

use core_db::RocksAdapter;
use core_executor::{MPTTrie, RocksTrieDB};
use mc::{ensure, ensure_eq, Check};
use protocol::trie::{Trie, DB};
use protocol::types::H256;
use rocksdb::control;

static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
thread_local! { static MINE: u64 = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }

fn fresh() -> (PathBuf, Arc<rocksdb::DB>) {
    let path = PathBuf::from(format!("/mc/nodes/{}", MINE.with(|m| *m)));
    control::load(&path, BTreeMap::new());
    control::fail_write(&path, None);
    control::fail_read(&path, None);
    let db = RocksAdapter::new(&path, Default::default()).unwrap().inner_db();
    (path, db)
}

fn key(i: usize) -> Vec<u8> {
    rf::keccak256(&[i as u8]).to_vec()
}

pub fn run(k: &Check) {
    let depth = k.by_tier(3, 4);
    k.part(
        "reads and writes",
        "every sequence of writes (single, batched, with a failing disk) and reads (also with a failing disk) on stores with every cache size listed; every node read through the same store and through one opened afterwards",
        "5 keys, 12 operations, sequences of 3 (4 thorough), caches of 0, 1, 2, 64 nodes",
    )
    .explore(|c| {
        let (path, db) = fresh();
        let cache = *c.pick(&[0usize, 1, 2, 64]);
        let s = RocksTrieDB::new_evm(Arc::clone(&db), cache);
        let mut model: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        let val = |i: usize| vec![i as u8; i * 40];
        for step in 0..depth {
            let op = c.choose(12);
            let r = mc::no_panic(|| -> Result<(), mc::Fail> {
                let single = |i: usize, fail: bool| {
                    control::fail_write(&path, fail.then_some(0));
                    let r = s.insert(key(i), val(i));
                    control::fail_write(&path, None);
                    r
                };
                let batch = |is: &[usize], fail: bool| {
                    control::fail_write(&path, fail.then_some(0));
                    let r = s.insert_batch(is.iter().map(|i| key(*i)).collect(), is.iter().map(|i| val(*i)).collect());
                    control::fail_write(&path, None);
                    r
                };
                match op {
                    0 | 1 => {
                        single(op, false).map_err(|e| mc::Fail::new("write", format!("write: refused: {e}")))?;
                        model.insert(key(op), val(op));
                    }
                    2 => ensure!(single(2, true).is_err(), "failed write: reported as done"),
                    3 | 4 => {
                        let is: &[usize] = if op == 3 { &[2, 3] } else { &[0, 1, 2, 3, 4] };
                        batch(is, false).map_err(|e| mc::Fail::new("write", format!("write: refused: {e}")))?;
                        for i in is {
                            model.insert(key(*i), val(*i));
                        }
                    }
                    5 => ensure!(batch(&[3, 4], true).is_err(), "failed write: reported as done"),
                    6 => {
                        ensure!(
                            s.insert_batch(vec![key(0), key(4)], vec![val(0)]).is_err(),
                            "uneven: a batch of two keys and one value is accepted"
                        );
                    }
                    7 => {
                        s.remove(&key(0)).unwrap();
                        s.remove_batch(&[key(2), key(3)]).unwrap();
                        s.flush().unwrap();
                    }
                    8 | 9 => {
                        for i in 0..5 {
                            let i = if op == 8 { i } else { 4 - i };
                            let got = s.get(&key(i)).map_err(|e| mc::Fail::new("read", format!("read: refused: {e}")))?;
                            ensure_eq!(got, model.get(&key(i)).cloned(), "read: node {i}, step {step}");
                        }
                    }
                    10 => {
                        for i in 0..5 {
                            ensure_eq!(s.contains(&key(i)).unwrap(), model.contains_key(&key(i)), "contains: node {i}, step {step}");
                        }
                    }
                    _ => {
                        // an answer during an outage is either right or an error
                        for i in 0..5 {
                            control::fail_read(&path, Some(0));
                            let got = s.get(&key(i));
                            control::fail_read(&path, Some(0));
                            let has = s.contains(&key(i));
                            control::fail_read(&path, None);
                            if let Ok(got) = got {
                                ensure_eq!(got, model.get(&key(i)).cloned(), "outage: node {i}, step {step}");
                            }
                            if let Ok(has) = has {
                                ensure_eq!(has, model.contains_key(&key(i)), "outage: presence of node {i}, step {step}");
                            }
                        }
                    }
                }
                Ok(())
            });
            control::fail_write(&path, None);
            control::fail_read(&path, None);
            r.map_err(|e| mc::Fail::new("panic", format!("panic: {e} in operation {op} with a cache of {cache}")))??;
            c.transition();
        }
        c.nontrivial();
        let again = RocksTrieDB::new_evm(db, 1);
        for i in 0..5 {
            let want = model.get(&key(i)).cloned();
            ensure_eq!(mc::no_panic(|| s.get(&key(i)).unwrap()).map_err(|e| mc::Fail::new("panic", format!("panic: {e}")))?, want, "read: node {i} at the end");
            ensure_eq!(again.get(&key(i)).unwrap(), want, "reopened: node {i}");
        }
        c.outcome(model.len());
        Ok(())
    });
    k.part(
        "tries",
        "every sequence of insertions and removals of values under the keys listed, committed after every one or only now and then; contents and root against the definition, and every earlier root still readable",
        "4 keys, 3 values, removal; sequences of 3 (4 thorough); caches of 0, 1, 64 nodes",
    )
    .explore(|c| {
        let (_path, db) = fresh();
        let cache = *c.pick(&[0usize, 1, 64]);
        let s = Arc::new(RocksTrieDB::new_evm(db, cache));
        let every = c.flip();
        let mut t = MPTTrie::new(Arc::clone(&s));
        let mut model: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
        let mut past = vec![];
        let keys: [&[u8]; 4] = [b"", b"a", b"ab", &[0xff; 33]];
        let vals: [Vec<u8>; 3] = [vec![1], vec![2; 31], vec![3; 200]];
        let root = |m: &BTreeMap<Vec<u8>, Vec<u8>>| {
            if m.is_empty() {
                return H256(rf::keccak256(&[0x80]));
            }
            let pairs: Vec<_> = m.iter().map(|(k, v)| (rf::keccak256(k).to_vec(), v.clone())).collect();
            H256(rf::mpt_root(&pairs))
        };
        for step in 0..depth {
            let op = c.choose(16);
            let (ki, vi) = (op / 4, op % 4);
            if vi == 3 {
                let had = model.remove(keys[ki]).is_some();
                ensure_eq!(t.remove(keys[ki]).unwrap(), had, "remove: says whether there was something");
            } else {
                t.insert(keys[ki].to_vec(), vals[vi].clone()).unwrap();
                model.insert(keys[ki].to_vec(), vals[vi].clone());
            }
            if every || step + 1 == depth {
                let r = mc::no_panic(|| t.commit().unwrap()).map_err(|e| mc::Fail::new("panic", format!("panic: {e}")))?;
                ensure_eq!(r, root(&model), "root: of {model:?}");
                past.push((r, model.clone()));
                if c.flip() {
                    t = MPTTrie::from_root(r, Arc::clone(&s)).map_err(|e| mc::Fail::new("restore", format!("restore: {e}")))?;
                }
            }
            for k in keys {
                ensure_eq!(t.get(k).unwrap(), model.get(k).cloned(), "get: {k:?}");
                ensure_eq!(t.contains(k).unwrap(), model.contains_key(k), "contains: {k:?}");
            }
            c.transition();
        }
        for (r, m) in &past {
            let t = MPTTrie::from_root(*r, Arc::clone(&s)).map_err(|e| mc::Fail::new("restore", format!("restore: {e}")))?;
            for k in keys {
                ensure_eq!(t.get(k).unwrap(), m.get(k).cloned(), "earlier root: {k:?}");
                // a proof made here convinces somebody who has the root alone
                let proof = t.get_proof(k).unwrap();
                if !m.is_empty() {
                    ensure_eq!(t.verify_proof(&r.0, k, proof).unwrap(), m.get(k).cloned(), "proof: {k:?}");
                }
            }
        }
        c.nontrivial();
        c.outcome(past.len());
        Ok(())
    });
    k.part("unknown root", "a root that was never committed is refused", "3 roots").explore(|c| {
        let (_p, db) = fresh();
        let s = Arc::new(RocksTrieDB::new_evm(db, 4));
        let r = *c.pick(&[H256::zero(), H256::repeat_byte(7), H256(rf::keccak256(b"x"))]);
        ensure!(MPTTrie::from_root(r, s).is_err(), "unknown root: {r:?} is accepted");
        c.nontrivial();
        Ok(())
    });
}
