//! Databases holding a chain, made through the same calls as the node's `init` and block commitment.

use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use common_crypto::{BlsPrivateKey, PrivateKey, PublicKey, Secp256k1RecoverablePrivateKey, ToBlsPublicKey, ToPublicKey};
use core_db::{RocksAdapter, RocksDB};
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, MPTTrie, RocksTrieDB};
use core_storage::ImplStorage;
use protocol::codec::ProtocolCodec;
use protocol::tokio;
use protocol::traits::{Context, Executor, Storage};
use protocol::trie::Trie;
use protocol::types::*;
use rocksdb::control;

pub type Store = ImplStorage<RocksAdapter>;
pub type Dump = BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>>;

pub fn rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}

pub fn bls_secret(i: u8) -> [u8; 32] {
    let mut k = [0u8; 32];
    k[0] = 1;
    // no sum of some keys is the sum of others
    k[30..].copy_from_slice(&(1u16 << i).to_be_bytes());
    k[20] = i + 1;
    k
}

pub fn bls_key(i: u8) -> BlsPrivateKey {
    BlsPrivateKey::try_from(bls_secret(i).as_ref()).unwrap()
}

/// The compressed public key the validator is known by.
pub fn public(i: u8) -> Bytes {
    Secp256k1RecoverablePrivateKey::try_from(kit::secret(i).as_ref()).unwrap().pub_key().to_bytes()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Val {
    pub key:     u8,
    pub propose: u32,
    pub vote:    u32,
}

pub fn val(key: u8, propose: u32, vote: u32) -> Val {
    Val { key, propose, vote }
}

pub fn validator(v: &Val) -> ValidatorExtend {
    ValidatorExtend {
        bls_pub_key:    Hex::encode(bls_key(v.key).pub_key(&String::new()).to_bytes()),
        pub_key:        Hex::encode(public(v.key)),
        address:        kit::sender(v.key),
        propose_weight: v.propose,
        vote_weight:    v.vote,
    }
}

pub fn consensus_config() -> ConsensusConfig {
    ConsensusConfig {
        gas_limit:          30_000_000,
        interval:           3000,
        propose_ratio:      15,
        prevote_ratio:      10,
        precommit_ratio:    10,
        brake_ratio:        10,
        tx_num_limit:       20000,
        max_tx_size:        1 << 20,
        max_contract_limit: 0x6000,
    }
}

pub fn metadata(epoch: u64, start: u64, end: u64, vals: &[Val]) -> Metadata {
    Metadata {
        version: MetadataVersion { start, end },
        epoch,
        verifier_list: vals.iter().map(validator).collect(),
        propose_counter: vec![],
        consensus_config: consensus_config(),
    }
}

pub struct Genesis {
    pub dump:  Dump,
    pub block: Block,
    pub metas: [Metadata; 2],
    pub _meta: Arc<RocksDB>,
}

pub fn genesis(name: &str, balances: &[(u8, U256)], metas: [Metadata; 2]) -> Genesis {
    let _g = rt().enter();
    let path = PathBuf::from(format!("/mc/genesis/{name}"));
    let adapter = Arc::new(RocksAdapter::new(&path, Default::default()).unwrap());
    let db = adapter.inner_db();
    let storage = Arc::new(Store::new(adapter, 16));
    let trie = Arc::new(RocksTrieDB::new_evm(Arc::clone(&db), 1000));
    let mut accounts = MPTTrie::new(Arc::clone(&trie));
    for (i, balance) in balances {
        let a = Account { nonce: 0.into(), balance: *balance, storage_root: RLP_NULL, code_hash: NIL_DATA };
        accounts.insert(kit::sender(*i).as_bytes().to_vec(), a.encode().unwrap().to_vec()).unwrap();
    }
    let root = accounts.commit().unwrap();
    let mut header = Header { chain_id: kit::CHAIN, gas_limit: 30_000_000u64.into(), base_fee_per_gas: 0x539u64.into(), ..Default::default() };
    let ctx = Proposal::new_without_state_root(&header).into();
    let mut backend = AxonExecutorApplyAdapter::from_root(root, Arc::clone(&trie), Arc::clone(&storage), ctx).unwrap();
    let hardfork = HardforkInfoInner { block_number: 0, flags: H256::zero() };
    core_executor::system_contract::init(Arc::clone(&db), &mut backend, &metas, hardfork).unwrap();
    let resp = AxonExecutor.exec(&mut backend, &[], &[]);
    header.state_root = resp.state_root;
    header.receipts_root = resp.receipt_root;
    let block = Block { header, tx_hashes: vec![] };
    rt().block_on(async {
        storage.update_latest_proof(Context::new(), Proof::default()).await.unwrap();
        storage.insert_block(Context::new(), block.clone()).await.unwrap();
        storage.insert_transactions(Context::new(), 0, vec![]).await.unwrap();
        storage.insert_receipts(Context::new(), 0, vec![]).await.unwrap();
    });
    Genesis { dump: control::dump(&path), block, metas, _meta: db }
}

static NEXT: AtomicU64 = AtomicU64::new(1);
thread_local! { static MINE: u64 = NEXT.fetch_add(1, Ordering::Relaxed); }

/// The databases of one node.
pub struct Disk {
    pub path:    PathBuf,
    pub db:      Arc<RocksDB>,
    pub trie:    Arc<RocksTrieDB>,
    pub storage: Arc<Store>,
}

/// A place of this thread's own.
pub fn place(name: &str) -> PathBuf {
    PathBuf::from(format!("/mc/node/{}/{name}", MINE.with(|m| *m)))
}

impl Disk {
    pub fn new(name: &str, dump: &Dump) -> Disk {
        let path = place(name);
        control::load(&path, dump.clone());
        control::checkpoint(&path);
        control::fail_write(&path, None);
        control::fail_read(&path, None);
        Disk::open(path)
    }

    pub fn open(path: PathBuf) -> Disk {
        let adapter = Arc::new(RocksAdapter::open(&path, Default::default()).unwrap());
        let db = adapter.inner_db();
        Disk {
            trie: Arc::new(RocksTrieDB::new_evm(Arc::clone(&db), 1000)),
            storage: Arc::new(Store::new(adapter, 4)),
            db,
            path,
        }
    }
}
