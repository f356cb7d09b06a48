//! Stand-in for ckb-rocksdb (not available offline): ordered column families kept in memory, with the part of
//! RocksDB's contract that axon relies on — every put/delete/write batch is one atomic step, steps become
//! durable in order, a step written with `sync` is durable when the call returns — and with a journal of these
//! steps, so that a check can stop the world after any of them (`control::truncate`) or make any of them fail.
//!
//! Stores are named by (namespace of the thread that opens them, path) and outlive their handles.

use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, RwLock};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Error(String);

impl Error {
    pub fn new(msg: String) -> Error {
        Error(msg)
    }

    pub fn into_string(self) -> String {
        self.0
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

impl std::error::Error for Error {}

pub type DBVector = Value;

pub struct Value(Vec<u8>);

impl std::ops::Deref for Value {
    type Target = [u8];

    fn deref(&self) -> &[u8] {
        &self.0
    }
}

impl AsRef<[u8]> for Value {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Put { cf: String, key: Vec<u8>, val: Vec<u8> },
    Delete { cf: String, key: Vec<u8> },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step {
    pub ops:  Vec<Op>,
    pub sync: bool,
}

type Family = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default)]
struct Data {
    families: BTreeMap<String, Family>,
    base:     BTreeMap<String, Family>,
    journal:  Vec<Step>,
    writes:   usize,
    reads:    usize,
    fail_at:  Option<usize>,
    fail_read: Option<usize>,
}

impl Data {
    fn apply(families: &mut BTreeMap<String, Family>, step: &Step) {
        for op in &step.ops {
            match op {
                Op::Put { cf, key, val } => {
                    families.entry(cf.clone()).or_default().insert(key.clone(), val.clone());
                }
                Op::Delete { cf, key } => {
                    families.entry(cf.clone()).or_default().remove(key);
                }
            }
        }
    }
}

#[derive(Default)]
struct Store(RwLock<Data>);

static STORES: Mutex<Option<HashMap<(u64, PathBuf), Arc<Store>>>> = Mutex::new(None);

thread_local! {
    static NAMESPACE: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

fn store(path: &Path, create: bool) -> Option<Arc<Store>> {
    let key = (NAMESPACE.with(|n| n.get()), path.to_path_buf());
    let mut all = STORES.lock().unwrap();
    let map = all.get_or_insert_with(HashMap::new);
    if create {
        map.entry(key).or_default();
        return map.get(&(NAMESPACE.with(|n| n.get()), path.to_path_buf())).cloned();
    }
    map.get(&key).cloned()
}

/// What a check does to a store.
pub mod control {
    use super::*;

    /// Stores opened by this thread from now on belong to namespace `n`.
    pub fn namespace(n: u64) {
        NAMESPACE.with(|c| c.set(n));
    }

    /// Forgets every store of this thread's namespace.
    pub fn forget() {
        let n = NAMESPACE.with(|c| c.get());
        if let Some(map) = STORES.lock().unwrap().as_mut() {
            map.retain(|k, _| k.0 != n);
        }
    }

    fn get(path: &Path) -> Arc<Store> {
        store(path, true).unwrap()
    }

    pub fn journal(path: &Path) -> Vec<Step> {
        get(path).0.read().unwrap().journal.clone()
    }

    pub fn journal_len(path: &Path) -> usize {
        get(path).0.read().unwrap().journal.len()
    }

    /// The process died after the first `n` steps of the journal reached the disk. Open handles see it too,
    /// so they have to be dropped first.
    pub fn truncate(path: &Path, n: usize) {
        let s = get(path);
        let mut d = s.0.write().unwrap();
        let mut families = d.base.clone();
        d.journal.truncate(n);
        for step in &d.journal {
            Data::apply(&mut families, step);
        }
        d.families = families;
        d.fail_at = None;
        d.fail_read = None;
    }

    /// Makes the current contents the starting point of the journal.
    pub fn checkpoint(path: &Path) {
        let s = get(path);
        let mut d = s.0.write().unwrap();
        d.base = d.families.clone();
        d.journal.clear();
    }

    /// The `n`th write from now (0 = the next one) fails and changes nothing.
    pub fn fail_write(path: &Path, n: Option<usize>) {
        let s = get(path);
        let mut d = s.0.write().unwrap();
        d.fail_at = n.map(|n| d.writes + n);
    }

    pub fn fail_read(path: &Path, n: Option<usize>) {
        let s = get(path);
        let mut d = s.0.write().unwrap();
        d.fail_read = n.map(|n| d.reads + n);
    }

    /// A copy of everything stored.
    pub fn dump(path: &Path) -> BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>> {
        get(path).0.read().unwrap().families.clone()
    }

    /// Replaces everything stored.
    pub fn load(path: &Path, families: BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>>) {
        let s = get(path);
        let mut d = s.0.write().unwrap();
        *d = Data { families: families.clone(), base: families, ..Default::default() };
    }

    pub fn exists(path: &Path) -> bool {
        store(path, false).is_some()
    }
}

pub struct ColumnFamily {
    name: String,
}

pub struct Options {
    create_if_missing: bool,
    create_missing_cf: bool,
}

impl Default for Options {
    fn default() -> Self {
        Options { create_if_missing: false, create_missing_cf: false }
    }
}

impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create_if_missing = v;
    }

    pub fn create_missing_column_families(&mut self, v: bool) {
        self.create_missing_cf = v;
    }

    pub fn set_max_open_files(&mut self, _: i32) {}
}

pub struct ColumnFamilyDescriptor {
    name: String,
}

impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _: Options) -> Self {
        ColumnFamilyDescriptor { name: name.into() }
    }
}

pub struct FullOptions {
    pub db_opts:        Options,
    pub cf_descriptors: Vec<ColumnFamilyDescriptor>,
}

impl FullOptions {
    pub fn load_from_file<P: AsRef<Path>>(
        file: P,
        _cache_size: Option<usize>,
        _ignore_unknown: bool,
    ) -> Result<FullOptions, Error> {
        std::fs::read(file).map_err(|e| Error(format!("IO error: {}", e)))?;
        Ok(FullOptions { db_opts: Options::default(), cf_descriptors: vec![] })
    }

    pub fn complete_column_families(&mut self, names: &[&str], _: bool) -> Result<(), Error> {
        for n in names {
            if !self.cf_descriptors.iter().any(|d| d.name == *n) {
                self.cf_descriptors.push(ColumnFamilyDescriptor::new(*n, Options::default()));
            }
        }
        Ok(())
    }
}

#[derive(Default)]
pub struct WriteOptions {
    sync: bool,
}

impl WriteOptions {
    pub fn set_sync(&mut self, v: bool) {
        self.sync = v;
    }
}

#[derive(Default)]
pub struct WriteBatch {
    ops: Vec<Op>,
}

impl WriteBatch {
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &ColumnFamily, key: K, val: V) -> Result<(), Error> {
        self.ops.push(Op::Put { cf: cf.name.clone(), key: key.as_ref().to_vec(), val: val.as_ref().to_vec() });
        Ok(())
    }

    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &ColumnFamily, key: K) -> Result<(), Error> {
        self.ops.push(Op::Delete { cf: cf.name.clone(), key: key.as_ref().to_vec() });
        Ok(())
    }

    pub fn len(&self) -> usize {
        self.ops.len()
    }

    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }

    pub fn clear(&mut self) -> Result<(), Error> {
        self.ops.clear();
        Ok(())
    }
}

pub struct DB {
    path:     PathBuf,
    store:    Arc<Store>,
    families: BTreeMap<String, ColumnFamily>,
}

impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.path)
    }
}

pub struct DBIterator<'a> {
    items: std::vec::IntoIter<(Vec<u8>, Vec<u8>)>,
    db:    std::marker::PhantomData<&'a DB>,
}

impl<'a> Iterator for DBIterator<'a> {
    type Item = (Box<[u8]>, Box<[u8]>);

    fn next(&mut self) -> Option<Self::Item> {
        self.items.next().map(|(k, v)| (k.into_boxed_slice(), v.into_boxed_slice()))
    }
}

impl DB {
    pub fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(
        opts: &Options,
        path: P,
        families: I,
    ) -> Result<DB, Error> {
        let path = path.as_ref();
        if store(path, false).is_none() && !opts.create_if_missing {
            return Err(Error(format!(
                "Invalid argument: {}: does not exist (create_if_missing is false)",
                path.display()
            )));
        }
        let store = store(path, true).unwrap();
        let families = families
            .into_iter()
            .map(|d| (d.name.clone(), ColumnFamily { name: d.name }))
            .collect::<BTreeMap<_, _>>();
        Ok(DB { path: path.to_path_buf(), store, families })
    }

    pub fn path(&self) -> &Path {
        &self.path
    }

    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.families.get(name)
    }

    fn commit(&self, ops: Vec<Op>, sync: bool) -> Result<(), Error> {
        let mut d = self.store.0.write().unwrap();
        let n = d.writes;
        d.writes += 1;
        if d.fail_at == Some(n) {
            return Err(Error("IO error: No space left on device".to_string()));
        }
        let step = Step { ops, sync };
        Data::apply(&mut d.families, &step);
        d.journal.push(step);
        Ok(())
    }

    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K, val: V) -> Result<(), Error> {
        let op = Op::Put { cf: cf.name.clone(), key: key.as_ref().to_vec(), val: val.as_ref().to_vec() };
        self.commit(vec![op], false)
    }

    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<(), Error> {
        self.commit(vec![Op::Delete { cf: cf.name.clone(), key: key.as_ref().to_vec() }], false)
    }

    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &ColumnFamily, key: K) -> Result<Option<DBVector>, Error> {
        {
            let mut d = self.store.0.write().unwrap();
            let n = d.reads;
            d.reads += 1;
            if d.fail_read == Some(n) {
                return Err(Error("IO error: Input/output error".to_string()));
            }
        }
        let d = self.store.0.read().unwrap();
        Ok(d.families.get(&cf.name).and_then(|f| f.get(key.as_ref())).cloned().map(Value))
    }

    /// RocksDB without a prefix extractor: everything from `prefix` on, in key order.
    pub fn prefix_iterator_cf<P: AsRef<[u8]>>(&self, cf: &ColumnFamily, prefix: P) -> Result<DBIterator<'_>, Error> {
        let d = self.store.0.read().unwrap();
        let items = match d.families.get(&cf.name) {
            Some(f) => f.range(prefix.as_ref().to_vec()..).map(|(k, v)| (k.clone(), v.clone())).collect(),
            None => vec![],
        };
        Ok(DBIterator { items: items.into_iter(), db: std::marker::PhantomData })
    }

    pub fn write(&self, batch: &WriteBatch) -> Result<(), Error> {
        self.commit(batch.ops.clone(), false)
    }

    pub fn write_opt(&self, batch: &WriteBatch, opt: &WriteOptions) -> Result<(), Error> {
        self.commit(batch.ops.clone(), opt.sync)
    }
}

/// The operations are inherent methods here; the names are kept for the imports.
pub mod ops {
    pub trait DeleteCF {}
    pub trait GetCF {}
    pub trait GetColumnFamilys {}
    pub trait IterateCF {}
    pub trait OpenCF {}
    pub trait PutCF {}
    pub trait WriteOps {}
    pub trait Delete {}
    pub trait Get {}
    pub trait Put {}
    pub trait Open {}
    pub trait Iterate {}
}
