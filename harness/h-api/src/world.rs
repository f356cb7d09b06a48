//! A node's databases with a chain in them, and the API server over them.
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

use common_config_parser::types::Config;
use core_api::jsonrpc::run_jsonrpc_server;
use core_api::DefaultAPIAdapter;
use core_executor::RocksTrieDB;
use jsonrpsee::server::ServerHandle;
use node::{Disk, Genesis, Store};
use protocol::traits::{Context, MemPool, Network, PeerTag, Storage};
use protocol::types::*;
use protocol::{async_trait, ProtocolResult};
use serde_json::{json, Value};

#[derive(Default)]
pub struct Pool {
    pub held:     Mutex<HashMap<H256, SignedTransaction>>,
    pub inserted: Mutex<Vec<SignedTransaction>>,
    pub refuses:  AtomicBool,
    pub counts:   Mutex<BTreeMap<H160, (usize, Option<u64>)>>,
}

fn refused() -> protocol::ProtocolError {
    protocol::ProtocolError::new(protocol::ProtocolErrorKind::Mempool, Box::new(std::io::Error::new(std::io::ErrorKind::Other, "the pool refuses")))
}

#[async_trait]
impl MemPool for Pool {
    async fn insert(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> {
        if self.refuses.load(Ordering::SeqCst) {
            return Err(refused());
        }
        self.held.lock().unwrap().insert(tx.transaction.hash, tx.clone());
        self.inserted.lock().unwrap().push(tx);
        Ok(())
    }

    async fn contains(&self, _: Context, tx_hash: &Hash) -> bool {
        self.held.lock().unwrap().contains_key(tx_hash)
    }

    async fn package(&self, _: Context, _: U256, _: u64) -> ProtocolResult<PackedTxHashes> {
        Err(refused())
    }

    async fn flush(&self, _: Context, _: &[Hash], _: BlockNumber) -> ProtocolResult<()> {
        Err(refused())
    }

    async fn get_full_txs(&self, _: Context, _: Option<u64>, _: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>> {
        Err(refused())
    }

    async fn ensure_order_txs(&self, _: Context, _: Option<u64>, _: &[Hash]) -> ProtocolResult<()> {
        Err(refused())
    }

    async fn get_tx_count_by_address(&self, _: Context, address: H160) -> ProtocolResult<(usize, Option<BlockNumber>)> {
        Ok(self.counts.lock().unwrap().get(&address).copied().unwrap_or((0, None)))
    }

    fn get_tx_from_mem(&self, _: Context, tx_hash: &Hash) -> Option<SignedTransaction> {
        self.held.lock().unwrap().get(tx_hash).cloned()
    }

    fn set_args(&self, _: Context, _: MerkleRoot, _: u64, _: u64) {}
}

pub struct Net(pub usize);

impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> {
        Ok(())
    }

    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> {
        Ok(())
    }

    fn tag_consensus(&self, _: Context, _: Vec<Bytes>) -> ProtocolResult<()> {
        Ok(())
    }

    fn peer_count(&self, _: Context) -> ProtocolResult<usize> {
        Ok(self.0)
    }
}

pub const VERSION: &str = "axon-under-test/1.2.3";
pub const GAS_CAP: u64 = 50_000_000;

pub fn config(range: u64) -> Config {
    serde_json::from_value(json!({
        "net_privkey_file": "net.key",
        "bls_privkey_file": "bls.key",
        "data_path": "/mc/api",
        "rpc": {
            "http_listening_address": "127.0.0.1:8000",
            "ws_listening_address": "127.0.0.1:8010",
            "maxconn": 25000,
            "max_payload_size": 10485760,
        },
        "web3": { "max_gas_cap": GAS_CAP, "log_filter_max_block_range": range },
        "network": { "listening_address": "/ip4/127.0.0.1/tcp/8001", "rpc_timeout": 10, "bootstraps": [] },
        "synchronization": { "sync_txs_chunk_size": 5000 },
        "mempool": { "timeout_gap": 20, "pool_size": 1000, "broadcast_txs_size": 200, "broadcast_txs_interval": 200 },
        "executor": { "triedb_cache_size": 200 },
    }))
    .unwrap()
}

pub fn genesis() -> &'static Genesis {
    static G: OnceLock<Genesis> = OnceLock::new();
    G.get_or_init(|| {
        let v = [node::val(0, 1, 1)];
        node::genesis("api", &[(1, U256::exp10(24)), (2, U256::exp10(24))], [node::metadata(0, 0, 99, &v), node::metadata(1, 100, 199, &v)])
    })
}

/// What became of a transaction.
#[derive(Clone, Debug)]
pub struct Outcome {
    pub gas:     u64,
    pub exit:    ExitReason,
    pub logs:    Vec<Log>,
    pub created: Option<H256>,
}

impl Outcome {
    pub fn ok(gas: u64, logs: Vec<Log>) -> Outcome {
        Outcome { gas, exit: ExitReason::Succeed(ExitSucceed::Stopped), logs, created: None }
    }
}

pub struct Held {
    pub block:    Block,
    pub txs:      Vec<SignedTransaction>,
    pub outcomes: Vec<Outcome>,
}

pub struct Chain {
    pub disk:   Disk,
    pub blocks: Vec<Held>,
}

/// A block apart from all others in each field.
pub fn header(prev: &Block, gas_used: u64) -> Header {
    let n = prev.header.number + 1;
    Header {
        prev_hash: prev.hash(),
        proposer: kit::h160(0xc0ffee00 + n),
        state_root: prev.header.state_root,
        transactions_root: kit::h256(0x1000 + n),
        signed_txs_hash: kit::h256(0x2000 + n),
        receipts_root: kit::h256(0x3000 + n),
        timestamp: 1_700_000_000 + n * 7,
        number: n,
        gas_used: gas_used.into(),
        gas_limit: (30_000_000 + n).into(),
        extra_data: (0..n % 3).map(|i| ExtraData { inner: Bytes::from(vec![n as u8 + i as u8; 3]) }).collect(),
        base_fee_per_gas: (0x539 + n).into(),
        proof: Proof { number: n - 1, round: n, block_hash: prev.hash(), signature: Bytes::from(vec![n as u8; 4]), bitmap: Bytes::from(vec![0x80]) },
        call_system_script_count: 0,
        chain_id: kit::CHAIN,
        ..Default::default()
    }
}

impl Chain {
    pub fn new(name: &str) -> Chain {
        let g = genesis();
        let first = Held { block: g.block.clone(), txs: vec![], outcomes: vec![] };
        Chain { disk: Disk::new(name, &g.dump), blocks: vec![first] }
    }

    pub fn latest(&self) -> u64 {
        self.blocks.len() as u64 - 1
    }

    pub fn last(&self) -> &Held {
        self.blocks.last().unwrap()
    }

    pub async fn push(&mut self, txs: Vec<SignedTransaction>, outcomes: Vec<Outcome>) {
        let gas = outcomes.iter().map(|o| o.gas).sum();
        let h = header(&self.last().block, gas);
        self.push_with(h, txs, outcomes).await
    }

    /// As the node commits a block.
    pub async fn push_with(&mut self, mut header: Header, txs: Vec<SignedTransaction>, outcomes: Vec<Outcome>) {
        header.log_bloom = rf_bloom(outcomes.iter().flat_map(|o| &o.logs));
        let block = Block { header, tx_hashes: txs.iter().map(|t| t.transaction.hash).collect() };
        let n = block.header.number;
        let resp = ExecResp {
            state_root:   block.header.state_root,
            receipt_root: block.header.receipts_root,
            gas_used:     block.header.gas_used.as_u64(),
            tx_resp:      outcomes
                .iter()
                .map(|o| TxResp { exit_reason: o.exit.clone(), gas_used: o.gas, logs: o.logs.clone(), code_address: o.created, ..Default::default() })
                .collect(),
        };
        let (receipts, _) = block.generate_receipts_and_logs(&txs, &resp);
        let (s, ctx) = (&self.disk.storage, Context::new());
        s.insert_receipts(ctx.clone(), n, receipts).await.unwrap();
        s.insert_transactions(ctx.clone(), n, txs.clone()).await.unwrap();
        s.insert_block(ctx.clone(), block.clone()).await.unwrap();
        self.blocks.push(Held { block, txs, outcomes });
    }
}

pub fn rf_bloom<'a>(logs: impl Iterator<Item = &'a Log>) -> Bloom {
    let mut entries = vec![];
    for l in logs {
        entries.push(l.address.as_bytes().to_vec());
        entries.extend(l.topics.iter().map(|t| t.as_bytes().to_vec()));
    }
    Bloom::from_slice(&rf::bloom(&entries))
}

pub struct Node {
    pub pool: Arc<Pool>,
    pub http: ServerHandle,
    pub ws:   ServerHandle,
}

impl Node {
    pub async fn over(chain: &Chain, range: u64) -> Node {
        let pool = Arc::new(Pool::default());
        let adapter: DefaultAPIAdapter<Pool, Store, RocksTrieDB, Net> =
            DefaultAPIAdapter::new(Arc::clone(&pool), Arc::clone(&chain.disk.storage), Arc::clone(&chain.disk.trie), Arc::new(Net(3)));
        let (http, ws) = run_jsonrpc_server(VERSION.to_string(), config(range), Arc::new(adapter)).await.unwrap();
        Node { pool, http: http.unwrap(), ws: ws.unwrap() }
    }

    /// The answer to a well-formed request.
    pub async fn ask(&self, method: &str, params: Value) -> Result<Value, mc::Fail> {
        match self.http.call(method, &params.to_string()).await {
            Ok(text) => Ok(serde_json::from_str(&text).unwrap()),
            Err(e) => Err(mc::Fail::new("refused", format!("refused: {method} {params}: {} {}", e.code(), e.message()))),
        }
    }

    /// The code of the error a request is refused with.
    pub async fn refused(&self, method: &str, params: Value) -> Result<i32, mc::Fail> {
        match self.http.call(method, &params.to_string()).await {
            Ok(text) => Err(mc::Fail::new("not refused", format!("not refused: {method} {params} is answered {text}"))),
            Err(e) => Ok(e.code()),
        }
    }
}

/// A runtime whose clock moves only when nothing else can.
pub fn paused<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f)
}

pub fn hex(b: impl AsRef<[u8]>) -> Value {
    json!(format!("0x{}", rf::hex(b.as_ref())))
}

pub fn qty(n: u64) -> Value {
    json!(rf::quantity(n))
}

pub fn qty256(n: U256) -> Value {
    json!(format!("{:#x}", n))
}

/// Each key expected is there with the value expected.
pub fn same(what: &str, got: &Value, want: &Value) -> Result<(), mc::Fail> {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => {
            for (k, v) in w {
                let Some(x) = g.get(k) else {
                    return Err(mc::Fail::new(format!("{what}.{k}"), format!("{what}.{k}: missing")));
                };
                same(&format!("{what}.{k}"), x, v)?;
            }
            Ok(())
        }
        (Value::Array(g), Value::Array(w)) => {
            if g.len() != w.len() {
                return Err(mc::Fail::new(format!("{what}, how many"), format!("{what}, how many: {} for {}", g.len(), w.len())));
            }
            g.iter().zip(w).try_for_each(|(g, w)| same(what, g, w))
        }
        _ if got == want => Ok(()),
        _ => Err(mc::Fail::new(what, format!("{what}: {got} for {want}"))),
    }
}
