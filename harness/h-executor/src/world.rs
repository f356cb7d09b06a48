//! A small chain world: the real executor, tries and block store on one side, a plain table of accounts run by the
//! upstream virtual machine on the other.
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::{Arc, Mutex, OnceLock};

use core_db::{RocksAdapter, RocksDB};
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter, RocksTrieDB};
use core_storage::ImplStorage;
use evm::backend::{Apply, Backend as EvmBackend, Basic, Log};
use evm::executor::stack::{MemoryStackState, StackExecutor, StackSubstateMetadata};
use evm::{Config, ExitReason};
use protocol::tokio;
use protocol::traits::{ApplyBackend, Context, Executor, ExecutorAdapter, ExecutorReadOnlyAdapter, Storage};
use protocol::types::{
    AccessListItem, Bytes, ConsensusConfig, Eip1559Transaction, Eip2930Transaction, ExecResp, ExecutorContext, ExtraData,
    HardforkInfoInner, LegacyTransaction, Metadata, MetadataVersion, Proposal, SignatureComponents, SignedTransaction,
    TransactionAction, UnsignedTransaction, UnverifiedTransaction, ValidatorExtend, H160, H256, NIL_DATA, RLP_NULL,
    U256,
};
use rocksdb::control;

pub type Store = ImplStorage<RocksAdapter>;

pub fn rt() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}

pub fn addr(n: u8) -> H160 {
    H160::repeat_byte(n)
}

pub fn word(n: u64) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[24..].copy_from_slice(&n.to_be_bytes());
    w
}

pub fn addr_word(a: H160) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[12..].copy_from_slice(a.as_bytes());
    w
}

fn h(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// Programs. None of them uses anything the table cannot reproduce.
pub const KV: u8 = 0xc0; // storage[word0] = word1
pub const REVERTS: u8 = 0xc1; // storage[0] = 7, log, revert with 2 bytes
pub const INVALID: u8 = 0xc2; // storage[0] = 7, then an invalid instruction
pub const LOGGER: u8 = 0xc3; // log1(word0; topic word1)
pub const FORWARD: u8 = 0xc4; // call(word0, callvalue, rest); returns success
pub const DESTRUCT: u8 = 0xc5; // selfdestruct(word0)
pub const ENV: u8 = 0xc6; // writes what it sees into its storage
pub const FACTORY: u8 = 0xc7; // create(callvalue, calldata); returns the address
pub const LOOP: u8 = 0xc8; // never stops
pub const FACTORY2: u8 = 0xc9; // create2 with salt 5
pub const READER: u8 = 0xca; // returns storage[word0] and balance(word0)
pub const DELEGATE: u8 = 0xcb; // delegatecall(word0, rest), returns success
pub const CODEPROBE: u8 = 0xcc; // storage[0]=extcodesize(word0), [1]=extcodehash(word0)

pub fn programs() -> Vec<(u8, Vec<u8>)> {
    vec![
        (KV, h("602035 600035 55 00")),
        (REVERTS, h("6007600055 60016000 6000a1 61abcd600052 6002601efd")),
        (INVALID, h("6007600055 6000 6000a0 fe")),
        (LOGGER, h("600035600052 602035 6020 6000 a1 00")),
        (FORWARD, h("60203603 6020 6000 37 6000 6000 60203603 6000 34 6000 35 5a f1 6000 52 6020 6000 f3")),
        (DESTRUCT, h("600035ff")),
        (
            ENV,
            h("43600055 42600155 41600255 45600355 46600455 48600555 32600655 3a600755 33600855 60014303 40 600955 3331600a55 47600b55 44600c55 60014340600d55 00"),
        ),
        (FACTORY, h("366000600037 36 6000 34 f0 600052 60206000f3")),
        (LOOP, h("5b600056")),
        (FACTORY2, h("366000600037 6005 36 6000 34 f5 600052 60206000f3")),
        (READER, h("60003554600052 60003531602052 60406000f3")),
        (DELEGATE, h("60203603 6020 6000 37 6000 6000 60203603 6000 6000 35 5a f4 6000 52 6020 6000 f3")),
        (CODEPROBE, h("6000353b600055 6000353f600155 00")),
    ]
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Acct {
    pub nonce: U256,
    pub balance: U256,
    pub code: Vec<u8>,
    pub storage: BTreeMap<H256, H256>,
}

/// The table: what the chain should contain.
#[derive(Clone, Debug, Default)]
pub struct Table {
    pub accounts: BTreeMap<H160, Acct>,
    pub ctx: ExecutorContext,
    pub hashes: BTreeMap<u64, H256>,
}

impl EvmBackend for Table {
    fn gas_price(&self) -> U256 {
        self.ctx.gas_price
    }
    fn origin(&self) -> H160 {
        self.ctx.origin
    }
    fn block_hash(&self, number: U256) -> H256 {
        if number >= self.ctx.block_number || self.ctx.block_number - number > U256::from(256) {
            return H256::zero();
        }
        self.hashes.get(&number.as_u64()).copied().unwrap_or_default()
    }
    fn block_number(&self) -> U256 {
        self.ctx.block_number
    }
    fn block_coinbase(&self) -> H160 {
        self.ctx.block_coinbase
    }
    fn block_timestamp(&self) -> U256 {
        self.ctx.block_timestamp
    }
    fn block_difficulty(&self) -> U256 {
        U256::one()
    }
    fn block_gas_limit(&self) -> U256 {
        self.ctx.block_gas_limit.low_u64().into()
    }
    fn block_base_fee_per_gas(&self) -> U256 {
        self.ctx.block_base_fee_per_gas.low_u64().into()
    }
    fn chain_id(&self) -> U256 {
        self.ctx.chain_id
    }
    fn exists(&self, a: H160) -> bool {
        self.accounts.contains_key(&a)
    }
    fn basic(&self, a: H160) -> Basic {
        self.accounts.get(&a).map(|x| Basic { balance: x.balance, nonce: x.nonce }).unwrap_or_default()
    }
    fn code(&self, a: H160) -> Vec<u8> {
        self.accounts.get(&a).map(|x| x.code.clone()).unwrap_or_default()
    }
    fn storage(&self, a: H160, k: H256) -> H256 {
        self.accounts.get(&a).and_then(|x| x.storage.get(&k).copied()).unwrap_or_default()
    }
    fn original_storage(&self, a: H160, k: H256) -> Option<H256> {
        Some(self.storage(a, k))
    }
}

impl Table {
    pub fn apply<A, I>(&mut self, values: A)
    where
        A: IntoIterator<Item = Apply<I>>,
        I: IntoIterator<Item = (H256, H256)>,
    {
        for v in values {
            match v {
                Apply::Modify { address, basic, code, storage, reset_storage } => {
                    let a = self.accounts.entry(address).or_default();
                    a.nonce = basic.nonce;
                    a.balance = basic.balance;
                    if let Some(c) = code {
                        a.code = c;
                    }
                    if reset_storage {
                        a.storage.clear();
                    }
                    for (k, v) in storage {
                        if v.is_zero() {
                            a.storage.remove(&k);
                        } else {
                            a.storage.insert(k, v);
                        }
                    }
                }
                Apply::Delete { address } => {
                    self.accounts.remove(&address);
                }
            }
        }
    }

    pub fn total(&self) -> U256 {
        self.accounts.values().fold(U256::zero(), |s, a| s + a.balance)
    }

    /// Root of the accounts, from the definition. An untouched-looking account is in it only if `present` says so.
    pub fn root(&self, present: &dyn Fn(&H160) -> bool) -> H256 {
        let mut pairs = vec![];
        for (a, x) in &self.accounts {
            let empty = x.nonce.is_zero() && x.balance.is_zero() && x.code.is_empty() && x.storage.is_empty();
            if empty && !present(a) {
                continue;
            }
            pairs.push((rf::keccak256(a.as_bytes()).to_vec(), acct_rlp(x)));
        }
        H256(rf::mpt_root(&pairs))
    }
}

pub fn be(n: &U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    n.to_big_endian(&mut b);
    b.to_vec()
}

fn storage_root(x: &Acct) -> [u8; 32] {
    let pairs: Vec<_> = x
        .storage
        .iter()
        .map(|(k, v)| (rf::keccak256(k.as_bytes()).to_vec(), rf::uint(v.as_bytes()).encode()))
        .collect();
    rf::mpt_root(&pairs)
}

fn acct_rlp(x: &Acct) -> Vec<u8> {
    rf::l(vec![rf::uint(&be(&x.nonce)), rf::uint(&be(&x.balance)), rf::b(storage_root(x)), rf::b(rf::keccak256(&x.code))])
        .encode()
}

/// What the virtual machine alone says about one transaction on the table.
pub struct Ran {
    pub exit: ExitReason,
    pub ret: Vec<u8>,
    pub used: u64,
    pub left: u64,
    pub logs: Vec<Log>,
    pub refunded: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tx {
    pub sender: H160,
    pub kind: u8,
    pub to: Option<H160>,
    pub value: U256,
    pub data: Vec<u8>,
    pub gas: u64,
    pub price: u64,
    pub access: Vec<(H160, Vec<H256>)>,
    pub nonce: u64,
}

impl Tx {
    pub fn signed(&self) -> SignedTransaction {
        let action = match self.to {
            Some(a) => TransactionAction::Call(a),
            None => TransactionAction::Create,
        };
        let access_list: Vec<AccessListItem> = self
            .access
            .iter()
            .map(|(address, storage_keys)| AccessListItem { address: *address, storage_keys: storage_keys.clone() })
            .collect();
        let data = Bytes::from(self.data.clone());
        let unsigned = match self.kind {
            0 => UnsignedTransaction::Legacy(LegacyTransaction {
                nonce: self.nonce.into(),
                gas_price: self.price.into(),
                gas_limit: self.gas.into(),
                action,
                value: self.value,
                data,
            }),
            1 => UnsignedTransaction::Eip2930(Eip2930Transaction {
                nonce: self.nonce.into(),
                gas_price: self.price.into(),
                gas_limit: self.gas.into(),
                action,
                value: self.value,
                data,
                access_list,
            }),
            _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
                nonce: self.nonce.into(),
                max_priority_fee_per_gas: 0u64.into(),
                gas_price: self.price.into(),
                gas_limit: self.gas.into(),
                action,
                value: self.value,
                data,
                access_list,
            }),
        };
        SignedTransaction {
            transaction: UnverifiedTransaction {
                unsigned,
                signature: Some(SignatureComponents { r: Bytes::new(), s: Bytes::new(), standard_v: 0 }),
                chain_id: Some(7),
                hash: H256::zero(),
            },
            sender: self.sender,
            public: None,
        }
    }

    /// The price per unit of gas the sender has agreed to pay.
    pub fn unit(&self) -> U256 {
        self.price.into()
    }
}

pub const VALIDATORS: [(u8, u32); 2] = [(0xe1, 1), (0xe2, 2)];

pub fn validators(w: &[(u8, u32)]) -> Vec<ValidatorExtend> {
    w.iter()
        .map(|(n, weight)| ValidatorExtend {
            bls_pub_key: hex48(*n),
            pub_key: protocol::types::Hex::encode(vec![*n; 33]),
            address: addr(*n),
            propose_weight: 1,
            vote_weight: *weight,
        })
        .collect()
}

fn hex48(n: u8) -> protocol::types::Hex {
    protocol::types::Hex::encode(vec![n; 48])
}

pub fn consensus_config(max_contract_limit: u64) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: 30_000_000,
        interval: 3000,
        propose_ratio: 15,
        prevote_ratio: 10,
        precommit_ratio: 10,
        brake_ratio: 10,
        tx_num_limit: 20000,
        max_tx_size: 1 << 20,
        max_contract_limit,
    }
}

pub fn metadata(epoch: u64, start: u64, end: u64, w: &[(u8, u32)], limit: u64) -> Metadata {
    Metadata {
        version: MetadataVersion { start, end },
        epoch,
        verifier_list: validators(w),
        propose_counter: vec![],
        consensus_config: consensus_config(limit),
    }
}

pub const USERS: [u8; 3] = [0xa1, 0xa2, 0xa3];
pub const META_PATH: &str = "/mc/meta";

/// Accounts every world starts with.
fn funded() -> BTreeMap<H160, Acct> {
    let mut m = BTreeMap::new();
    m.insert(addr(0xa1), Acct { balance: U256::exp10(20), ..Default::default() });
    m.insert(addr(0xa2), Acct { balance: U256::from(3_000_000u64), nonce: 5.into(), ..Default::default() });
    for (n, code) in programs() {
        let mut storage = BTreeMap::new();
        if n == KV {
            storage.insert(H256(word(1)), H256(word(0x1111)));
            storage.insert(H256(word(3)), H256([0xff; 32]));
        }
        m.insert(addr(n), Acct { nonce: U256::one(), balance: if n == DESTRUCT { 77.into() } else { 0.into() }, code, storage });
    }
    m
}

pub struct Genesis {
    pub dump: BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>>,
    pub root: H256,
    pub table: Table,
    pub _meta: Arc<RocksDB>,
}

/// Builds the starting state once, through the same code the node's `init` uses. The metadata and header/cell
/// stores stay shared: they hold nothing but content-addressed nodes.
pub fn genesis() -> &'static Genesis {
    static G: OnceLock<Genesis> = OnceLock::new();
    static BUILD: Mutex<()> = Mutex::new(());
    let _b = BUILD.lock().unwrap();
    G.get_or_init(|| {
        let metas = [metadata(0, 0, 100, &VALIDATORS, 0x6000), metadata(1, 101, 200, &VALIDATORS, 0x6000)];
        genesis_with(META_PATH, HardforkInfoInner { block_number: 0, flags: H256::zero() }, &metas)
    })
}

pub fn flags_andromeda() -> H256 {
    H256::from_low_u64_be(1u64.to_be())
}

pub fn genesis_with(path: &str, hardfork: HardforkInfoInner, metas: &[Metadata; 2]) -> Genesis {
    let _g = rt().enter();
    let path = PathBuf::from(path);
    let adapter = Arc::new(RocksAdapter::new(&path, Default::default()).unwrap());
    let db = adapter.inner_db();
    let storage = Arc::new(Store::new(adapter, 16));
    let trie = Arc::new(RocksTrieDB::new_evm(Arc::clone(&db), 1000));
    let ctx = ExecutorContext { chain_id: 7.into(), ..Default::default() };
    let mut ad = AxonExecutorApplyAdapter::new(trie, storage, ctx).unwrap();
    core_executor::system_contract::init(Arc::clone(&db), &mut ad, metas, hardfork).unwrap();
    let accounts = funded();
    for (a, x) in &accounts {
        ad.apply(
            vec![Apply::Modify {
                address: *a,
                basic: Basic { balance: x.balance, nonce: x.nonce },
                code: (!x.code.is_empty()).then(|| x.code.clone()),
                storage: x.storage.clone().into_iter().collect::<Vec<_>>(),
                reset_storage: false,
            }],
            vec![],
            false,
        );
    }
    let root = ad.commit();
    let mut table = Table { accounts, ..Default::default() };
    for n in [1u8, 2, 3] {
        let mut b = [0xffu8; 20];
        b[19] = n;
        let a = H160(b);
        if let Some(x) = read_account(&ad, a) {
            table.accounts.insert(a, x);
        }
    }
    Genesis { dump: control::dump(&path), root, table, _meta: db }
}

/// The system accounts as the chain has them (their single storage slot is the root of their own trie).
fn read_account<S, D>(ad: &AxonExecutorApplyAdapter<S, D>, a: H160) -> Option<Acct>
where
    S: Storage + 'static,
    D: protocol::trie::DB + 'static,
{
    let raw = ad.get(a.as_bytes())?;
    drop(raw);
    let acc = ad.get_account(&a);
    let mut storage = BTreeMap::new();
    for k in [H256(rf::keccak256(b"metadata_root")), H256(rf::keccak256(b"header_cell_mpt_root"))] {
        let v = protocol::traits::Backend::storage(ad, a, k);
        if !v.is_zero() {
            storage.insert(k, v);
        }
    }
    Some(Acct { nonce: acc.nonce, balance: acc.balance, code: vec![], storage })
}

pub struct World {
    pub path: PathBuf,
    pub db: Arc<RocksDB>,
    pub trie: Arc<RocksTrieDB>,
    pub storage: Arc<Store>,
    pub root: H256,
    pub number: u64,
    pub table: Table,
    pub roots: Vec<(H256, Table)>,
    pub parent: H256,
}

static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
thread_local! { static MINE: u64 = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }

impl World {
    pub fn new(cache: usize) -> World {
        World::from(genesis(), cache)
    }

    pub fn from(g: &Genesis, cache: usize) -> World {
        let path = PathBuf::from(format!("/mc/world/{}", MINE.with(|m| *m)));
        control::load(&path, g.dump.clone());
        let adapter = Arc::new(RocksAdapter::new(&path, Default::default()).unwrap());
        let db = adapter.inner_db();
        World {
            trie: Arc::new(RocksTrieDB::new_evm(Arc::clone(&db), cache)),
            storage: Arc::new(Store::new(adapter, 4)),
            db,
            path,
            root: g.root,
            number: 0,
            table: g.table.clone(),
            roots: vec![(g.root, g.table.clone())],
            parent: H256::zero(),
        }
    }

    pub fn proposal(&self, number: u64) -> Proposal {
        Proposal {
            prev_hash: self.parent,
            proposer: addr(VALIDATORS[(number % 2) as usize].0),
            prev_state_root: self.root,
            timestamp: 1_700_000_000 + 3 * number,
            number,
            gas_limit: 30_000_000u64.into(),
            base_fee_per_gas: 0x539u64.into(),
            chain_id: 7,
            ..Default::default()
        }
    }

    pub fn adapter(&self, root: H256, ctx: ExecutorContext) -> AxonExecutorApplyAdapter<Store, RocksTrieDB> {
        AxonExecutorApplyAdapter::from_root(root, Arc::clone(&self.trie), Arc::clone(&self.storage), ctx).unwrap()
    }

    pub fn reader(&self, root: H256, ctx: ExecutorContext) -> AxonExecutorReadOnlyAdapter<Store, RocksTrieDB> {
        AxonExecutorReadOnlyAdapter::from_root(root, Arc::clone(&self.trie), Arc::clone(&self.storage), ctx).unwrap()
    }

    /// Runs the next block on the real code. The caller then runs the table.
    pub fn run(&mut self, txs: &[Tx], vals: &[ValidatorExtend]) -> (ExecResp, Proposal) {
        self.run_with(txs, vals, vec![])
    }

    pub fn run_with(&mut self, txs: &[Tx], vals: &[ValidatorExtend], extra_data: Vec<ExtraData>) -> (ExecResp, Proposal) {
        let _g = rt().enter();
        let p = Proposal { extra_data, ..self.proposal(self.number + 1) };
        let mut ad = self.adapter(self.root, ExecutorContext::from(p.clone()));
        let signed: Vec<_> = txs.iter().map(|t| t.signed()).collect();
        let resp = AxonExecutor.exec(&mut ad, &signed, vals);
        self.number += 1;
        self.root = resp.state_root;
        (resp, p)
    }

    /// Stores the block so that later blocks can see its hash.
    pub fn seal(&mut self, p: Proposal, resp: &ExecResp) {
        let block = protocol::types::Block::new(p, resp.clone());
        let hash = block.hash();
        rt().block_on(self.storage.insert_block(Context::new(), block)).unwrap();
        self.table.hashes.insert(self.number, hash);
        self.parent = hash;
    }
}

pub fn evm_config(limit: usize) -> Config {
    let mut c = Config::london();
    c.create_contract_limit = Some(limit);
    c
}

/// One transaction on the table: the sender pays, the machine runs, a success is applied, the nonce advances.
/// `burnt` collects what a sender was charged beyond the gas the receipt reports.
pub fn table_tx(t: &mut Table, tx: &Tx, config: &Config, burnt: &mut U256) -> (Ran, Option<H160>, U256) {
    t.ctx.origin = tx.sender;
    t.ctx.gas_price = tx.unit();
    let nonce = t.basic(tx.sender).nonce;
    let prepay = tx.unit() * tx.gas;
    let have = t.basic(tx.sender).balance;
    let prepaid = prepay.min(have);
    t.accounts.entry(tx.sender).or_default().balance = have - prepaid;
    let precompiles = BTreeMap::new();
    let snapshot = t.clone();
    let meta = StackSubstateMetadata::new(tx.gas, config);
    let mut ex = StackExecutor::new_with_precompiles(MemoryStackState::new(meta, &snapshot), config, &precompiles);
    let access = if tx.kind == 0 { vec![] } else { tx.access.clone() };
    let (exit, ret) = match tx.to {
        Some(a) => ex.transact_call(tx.sender, a, tx.value, tx.data.clone(), tx.gas, access),
        None => ex.transact_create(tx.sender, tx.value, tx.data.clone(), tx.gas, access),
    };
    let (left, used) = (ex.gas(), ex.used_gas());
    let mut logs = vec![];
    let mut created = None;
    if exit.is_succeed() {
        let (values, l) = ex.into_state().deconstruct();
        let values: Vec<_> = values.into_iter().collect();
        t.apply(values);
        logs = l.into_iter().collect();
        if tx.to.is_none() {
            let rlp = rf::l(vec![rf::b(tx.sender.as_bytes()), rf::uint(&be(&nonce))]).encode();
            created = Some(H160::from_slice(&rf::keccak256(&rlp)[12..]));
        }
    }
    let charged = prepaid.min(tx.unit() * (tx.gas - left));
    let fee = charged.min(tx.unit() * used);
    *burnt += charged - fee;
    let refunded = (tx.gas - left) - used;
    let a = t.accounts.entry(tx.sender).or_default();
    a.nonce = nonce + U256::one();
    a.balance += prepaid - charged;
    (Ran { exit, ret, used, left, logs, refunded }, created, fee)
}

/// Transactions worth combining: one per behaviour.
pub fn menu() -> Vec<Tx> {
    let a = addr(0xa1);
    let b = addr(0xa2);
    let base = |to: Option<H160>, value: u64, data: Vec<u8>, gas: u64, price: u64| Tx {
        sender: a,
        kind: 2,
        to,
        value: value.into(),
        data,
        gas,
        price,
        access: vec![],
        nonce: 0,
    };
    let kv = |k: u64, v: u64| [word(k), word(v)].concat();
    let via = |to: u8, rest: Vec<u8>| [addr_word(addr(to)).to_vec(), rest].concat();
    // init code returning the KV program; init code that reverts; init code writing storage first
    let kvcode = programs()[0].1.clone();
    let mut deploy = h("66");
    deploy.extend(&kvcode[..7]);
    let n = kvcode.len() as u8;
    // CODECOPY the tail and return it
    let mut init = vec![0x60, n, 0x60, 0x0c, 0x60, 0x00, 0x39, 0x60, n, 0x60, 0x00, 0xf3];
    init.extend(&kvcode);
    let init_store = h("6009600055 600160005360016000f3");
    let init_revert = h("600160005260206000fd");
    let init_ef = h("60ef60005360016000f3");
    vec![
        base(Some(b), 12345, vec![], 21_000, 10),
        base(Some(addr(0xa3)), 1, vec![], 50_000, 1),
        Tx { sender: b, ..base(Some(a), 7, vec![], 100_000, 10) },
        // everything b owns, and more than b can prepay
        Tx { sender: b, ..base(Some(a), 2_790_000, vec![], 21_000, 10) },
        Tx { sender: b, kind: 0, ..base(Some(addr(KV)), 0, kv(2, 0x77), 300_000, 10) },
        Tx { kind: 0, ..base(Some(addr(KV)), 0, kv(1, 0x2222), 100_000, 10) },
        Tx { kind: 1, access: vec![(addr(KV), vec![H256(word(1)), H256(word(9))])], ..base(Some(addr(KV)), 3, kv(1, 0), 100_000, 10) },
        base(Some(addr(KV)), 0, kv(3, 0), 100_000, 0),
        base(Some(addr(REVERTS)), 9, vec![], 100_000, 10),
        base(Some(addr(INVALID)), 9, vec![], 100_000, 10),
        base(Some(addr(LOGGER)), 0, kv(0xabc, 0xdef), 100_000, 10),
        base(Some(addr(FORWARD)), 5, via(LOGGER, kv(1, 2)), 200_000, 10),
        base(Some(addr(FORWARD)), 5, via(REVERTS, vec![]), 200_000, 10),
        base(Some(addr(FORWARD)), 5, via(DESTRUCT, addr_word(addr(0xa3)).to_vec()), 200_000, 10),
        base(Some(addr(DESTRUCT)), 1, addr_word(a).to_vec(), 200_000, 10),
        base(Some(addr(ENV)), 2, vec![], 2_000_000, 10),
        base(Some(addr(FACTORY)), 4, init.clone(), 500_000, 10),
        base(Some(addr(FACTORY2)), 0, init_store.clone(), 500_000, 10),
        base(None, 6, init.clone(), 500_000, 10),
        Tx { kind: 1, ..base(None, 0, init_revert, 500_000, 10) },
        Tx { kind: 0, ..base(None, 0, init_ef, 500_000, 10) },
        base(None, 0, init_store, 500_000, 10),
        base(Some(addr(LOOP)), 3, vec![], 60_000, 10),
        base(Some(addr(DELEGATE)), 0, via(KV, kv(8, 8)), 200_000, 10),
        base(Some(addr(CODEPROBE)), 0, addr_word(addr(KV)).to_vec(), 200_000, 10),
        base(Some(addr(0xd0)), 0, vec![], 21_000, 1),
        base(Some(b), 1, vec![], 20_999, 1),
        base(Some(b), 1, vec![0, 1, 2], 21_000, 1),
        Tx { value: U256::max_value(), ..base(Some(b), 0, vec![], 60_000, 1) },
    ]
}

/// Every address a world can mention.
pub fn universe(t: &Table) -> BTreeSet<H160> {
    let mut s: BTreeSet<H160> = t.accounts.keys().copied().collect();
    s.insert(addr(0xa3));
    s.insert(addr(0xd0));
    for (n, _) in VALIDATORS {
        s.insert(addr(n));
    }
    s
}

pub fn share(fee: U256, vals: &[ValidatorExtend]) -> Vec<(H160, U256)> {
    let sum: u64 = vals.iter().map(|v| v.vote_weight as u64).sum();
    if sum == 0 {
        return vec![];
    }
    vals.iter().map(|v| (v.address, fee / U256::from(sum) * U256::from(v.vote_weight))).collect()
}

pub fn nil() -> (H256, H256) {
    (NIL_DATA, RLP_NULL)
}
