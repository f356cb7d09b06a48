//! A memory pool beside a chain of our own: the adapter answers from the chain, and the reference says
//! what a pool that saw the same history holds and offers.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex, OnceLock};

use core_mempool::{MemPoolError, MemPoolImpl};
use protocol::traits::{Context, MemPoolAdapter};
use protocol::types::*;
use protocol::{async_trait, ProtocolResult};

pub struct Menu {
    pub name:  &'static str,
    pub who:   u8,
    pub nonce: u64,
    pub price: u64,
    pub sys:   Option<u8>, // which system data
    pub stx:   SignedTransaction,
}

/// System contract 0x2, the CKB light client.
pub fn system_address(n: u8) -> H160 {
    let mut a = [0xffu8; 20];
    a[19] = n;
    H160(a)
}

pub fn normal(name: &'static str, who: u8, nonce: u64, price: u64) -> Menu {
    let to = Some(kit::h160(0xbeef));
    let unsigned = if who % 2 == 0 {
        kit::legacy(nonce, price, 30_000, to, 1, &[])
    } else {
        kit::dynamic(nonce, price, price, 30_000, to, 1, &[])
    };
    Menu { name, who, nonce, price, sys: None, stx: kit::sign(unsigned, Some(kit::CHAIN), who) }
}

pub fn system(name: &'static str, who: u8, nonce: u64, data: u8) -> Menu {
    let unsigned = kit::legacy(nonce, 1, 30_000, Some(system_address(2)), 0, &[data; 5]);
    Menu { name, who, nonce, price: 1, sys: Some(data), stx: kit::sign(unsigned, Some(kit::CHAIN), who) }
}

impl Menu {
    pub fn hash(&self) -> Hash {
        self.stx.transaction.hash
    }
}

pub fn menu() -> &'static [Menu] {
    static M: OnceLock<Vec<Menu>> = OnceLock::new();
    M.get_or_init(|| {
        vec![
            normal("A0", 0, 0, 4),
            normal("A0+", 0, 0, 9),
            normal("A0=", 0, 0, 4),
            normal("A1", 0, 1, 8),
            normal("A1+", 0, 1, 9),
            normal("A2", 0, 2, 1),
            normal("B0", 1, 0, 5),
            normal("B1", 1, 1, 2),
            system("X by C", 2, 0, 1),
            system("X by D", 3, 0, 1),
            system("Y by C", 2, 1, 2),
        ]
        .into_iter()
        .enumerate()
        .map(|(i, mut m)| {
            if m.name == "A0=" {
                // another transaction at the same nonce and price
                let u = kit::legacy(0, 4, 31_000 + i as u64, Some(kit::h160(0xbeef)), 2, &[]);
                m.stx = kit::sign(u, Some(kit::CHAIN), 0);
            }
            m
        })
        .collect()
    })
}

pub fn by_hash(h: &Hash) -> Option<usize> {
    menu().iter().position(|m| &m.hash() == h)
}

#[derive(Default)]
pub struct World {
    pub nonce:     BTreeMap<u8, u64>,
    pub committed: HashSet<Hash>,
    pub remote:    Option<Vec<SignedTransaction>>,
    /// Any transaction of the menu can be fetched.
    pub serve:     bool,
    pub asked:     Vec<(Option<u64>, Vec<Hash>)>,
    pub sent:      Vec<(Option<usize>, Hash)>,
    pub good:      usize,
    pub stored:    HashMap<Hash, SignedTransaction>,
    pub cleared:   usize,
}

#[derive(Clone, Default)]
pub struct Ad(pub Arc<Mutex<World>>);

impl Ad {
    pub fn with<T>(&self, f: impl FnOnce(&mut World) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
}

#[async_trait]
impl MemPoolAdapter for Ad {
    async fn pull_txs(&self, _: Context, height: Option<u64>, hashes: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
        self.with(|w| {
            w.asked.push((height, hashes.clone()));
            match &w.remote {
                _ if w.serve => Ok(hashes.iter().filter_map(by_hash).map(|i| menu()[i].stx.clone()).collect()),
                Some(v) => Ok(v.clone()),
                None => Err(MemPoolError::EncodeJson.into()),
            }
        })
    }

    async fn broadcast_tx(&self, _: Context, origin: Option<usize>, tx: SignedTransaction) -> ProtocolResult<()> {
        self.with(|w| w.sent.push((origin, tx.transaction.hash)));
        Ok(())
    }

    async fn check_authorization(&self, _: Context, tx: &SignedTransaction) -> ProtocolResult<U64> {
        if let TransactionAction::Call(a) = tx.transaction.unsigned.action() {
            if a.0[..19] == [0xff; 19] {
                return Ok(U64::zero());
            }
        }
        let who = (0..8).find(|i| kit::sender(*i) == tx.sender).unwrap();
        let have = self.with(|w| *w.nonce.entry(who).or_default());
        let nonce = tx.transaction.unsigned.nonce().low_u64();
        if nonce < have {
            return Err(MemPoolError::InvalidNonce { current: have, tx_nonce: nonce }.into());
        }
        Ok((nonce - have).into())
    }

    async fn check_transaction(&self, _: Context, _: &SignedTransaction) -> ProtocolResult<()> {
        Ok(())
    }

    async fn check_storage_exist(&self, _: Context, h: &Hash) -> ProtocolResult<()> {
        if self.with(|w| w.committed.contains(h)) {
            return Err(MemPoolError::CommittedTx(*h).into());
        }
        Ok(())
    }

    async fn get_latest_height(&self, _: Context) -> ProtocolResult<u64> {
        Ok(0)
    }

    async fn get_transactions_from_storage(
        &self,
        _: Context,
        _: Option<u64>,
        hashes: &[Hash],
    ) -> ProtocolResult<Vec<Option<SignedTransaction>>> {
        Ok(self.with(|w| hashes.iter().map(|h| w.stored.get(h).cloned()).collect()))
    }

    fn set_args(&self, _: Context, _: H256, _: u64, _: u64) {}

    fn clear_nonce_cache(&self) {
        self.with(|w| w.cleared += 1)
    }

    fn report_good(&self, _: Context) {
        self.with(|w| w.good += 1)
    }
}

pub type Pool = MemPoolImpl<Ad>;

/// A transaction the reference holds.
#[derive(Clone, Debug, PartialEq)]
pub struct Held {
    pub tx:    usize,
    pub live:  bool,
    pub since: Option<u64>,
}

pub struct Reference {
    pub nonce:     BTreeMap<u8, u64>,
    pub committed: HashSet<usize>,
    pub held:      Vec<Held>,
    pub timeout:   u64,
    pub cap:       usize,
    pub height:    u64,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Verdict {
    Accepted,
    Known,
    Refused,
}

impl Reference {
    pub fn new(cap: usize, timeout: u64) -> Self {
        Reference {
            nonce: BTreeMap::new(),
            committed: HashSet::new(),
            held: vec![],
            timeout,
            cap,
            height: 0,
        }
    }

    pub fn at(&self, who: u8) -> u64 {
        self.nonce.get(&who).copied().unwrap_or_default()
    }

    pub fn holds(&self, i: usize) -> bool {
        self.held.iter().any(|h| h.tx == i)
    }

    /// `bound`: whether the pool's size bounds it.
    pub fn insert(&mut self, i: usize, bound: bool) -> Verdict {
        let m = &menu()[i];
        if bound && self.held.len() > self.cap {
            return Verdict::Refused;
        }
        if self.holds(i) {
            return Verdict::Known;
        }
        if self.committed.contains(&i) || (m.sys.is_none() && m.nonce < self.at(m.who)) {
            return Verdict::Refused;
        }
        if bound && m.sys.is_none() && self.held.len() >= self.cap {
            return Verdict::Refused;
        }
        let mut live = true;
        if m.sys.is_none() {
            for h in self.held.iter_mut().filter(|h| h.live) {
                let o = &menu()[h.tx];
                if o.sys.is_none() && o.who == m.who && o.nonce == m.nonce {
                    // a higher price takes the place of a lower one
                    if o.price < m.price {
                        h.live = false;
                    } else {
                        live = false;
                    }
                }
            }
        }
        self.held.push(Held { tx: i, live, since: None });
        Verdict::Accepted
    }

    /// The block at the next height holds these.
    pub fn commit(&mut self, block: &[usize]) {
        self.height += 1;
        for i in block {
            let m = &menu()[*i];
            self.committed.insert(*i);
            if m.sys.is_none() {
                let n = self.nonce.entry(m.who).or_default();
                *n = (*n).max(m.nonce + 1);
            }
        }
        let done: HashSet<u8> = block
            .iter()
            .filter_map(|i| menu()[*i].sys)
            .collect();
        let height = self.height;
        let timeout = self.timeout;
        let nonce = self.nonce.clone();
        self.held.retain_mut(|h| {
            let m = &menu()[h.tx];
            if block.contains(&h.tx) {
                return false;
            }
            if let Some(d) = m.sys {
                return !done.contains(&d);
            }
            if !h.live || m.nonce < nonce.get(&m.who).copied().unwrap_or_default() {
                return false;
            }
            if h.since.map(|s| s + timeout <= height).unwrap_or(false) {
                return false;
            }
            h.since.get_or_insert(height);
            true
        });
    }

    /// What can be put into a block now: each sender's run from its nonce on, and the system data.
    pub fn ready(&self) -> (BTreeMap<u8, Vec<usize>>, HashSet<u8>) {
        let mut runs: BTreeMap<u8, Vec<usize>> = BTreeMap::new();
        let live: Vec<usize> = self.held.iter().filter(|h| h.live).map(|h| h.tx).collect();
        for who in 0..8u8 {
            let mut n = self.at(who);
            while let Some(i) = live.iter().find(|i| {
                let m = &menu()[**i];
                m.sys.is_none() && m.who == who && m.nonce == n
            }) {
                runs.entry(who).or_default().push(*i);
                n += 1;
            }
        }
        (runs, live.iter().filter_map(|i| menu()[*i].sys).collect())
    }
}

pub fn ctx() -> Context {
    Context::new()
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}

/// Lets the pool's own task run once.
pub async fn tick() {
    tokio::time::sleep(std::time::Duration::from_millis(protocol::constants::MEMPOOL_REFRESH_TIMEOUT + 1)).await
}
