use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::Duration;

pub fn duration_to_sec(d: Duration) -> f64 {
    d.as_secs_f64()
}

pub fn all_metrics() -> protocol::ProtocolResult<Vec<u8>> {
    Ok(vec![])
}

#[derive(Default)]
pub struct Counter(AtomicU64);

impl Counter {
    pub const NEW: Counter = Counter(AtomicU64::new(0));

    pub fn inc(&self) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }

    pub fn inc_by<N>(&self, _: N) {
        self.inc()
    }

    pub fn observe(&self, _: f64) {
        self.inc()
    }

    pub fn get(&self) -> u64 {
        self.0.load(Ordering::Relaxed)
    }
}

#[derive(Default)]
pub struct Gauge(AtomicI64);

impl Gauge {
    pub const NEW: Gauge = Gauge(AtomicI64::new(0));

    pub fn inc(&self) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }

    pub fn dec(&self) {
        self.0.fetch_sub(1, Ordering::Relaxed);
    }

    pub fn set(&self, v: i64) {
        self.0.store(v, Ordering::Relaxed);
    }

    pub fn get(&self) -> i64 {
        self.0.load(Ordering::Relaxed)
    }
}

pub struct GaugeVec;

impl GaugeVec {
    pub fn with_label_values(&self, _: &[&str]) -> Gauge {
        Gauge::NEW
    }
}

pub struct CounterVec;

impl CounterVec {
    pub fn with_label_values(&self, _: &[&str]) -> Counter {
        Counter::NEW
    }
}

pub struct Outcome {
    pub success: Counter,
    pub failure: Counter,
    pub timeout: Counter,
}

impl Outcome {
    pub const NEW: Outcome = Outcome {
        success: Counter::NEW,
        failure: Counter::NEW,
        timeout: Counter::NEW,
    };
}

macro_rules! kinds {
    ($name:ident, $counter:ident, $($f:ident),* $(,)?) => {
        #[allow(non_snake_case)]
        pub struct $name { $(pub $f: $counter),* }
        impl $name {
            pub const NEW: $name = $name { $($f: $counter::NEW),* };
        }
    };
}

pub mod api {
    use super::*;

    macro_rules! all {
        ($($f:ident),* $(,)?) => {
            kinds!(Results, Outcome, $($f),*);
            kinds!(Times, Counter, $($f),*);
        };
    }
    all!(
        eth_sendRawTransaction, eth_getTransactionByHash, eth_getBlockByNumber, eth_blockNumber, eth_getBlockByHash,
        eth_getTransactionCount, eth_getBlockTransactionCountByNumber, eth_getBalance, eth_call, eth_estimateGas,
        eth_chainId, net_version, eth_getCode, eth_getTransactionReceipt, net_peerCount, net_listening, eth_gasPrice,
        eth_syncing, eth_getLogs, get_block, eth_mining, eth_feeHistory, web3_clientVersion, eth_accounts, web3_sha3,
        eth_getBlockTransactionCountByHash, eth_getTransactionByBlockHashAndIndex,
        eth_getTransactionByBlockNumberAndIndex, eth_getStorageAt, eth_protocolVersion,
        eth_getUncleByBlockHashAndIndex, eth_getUncleByBlockNumberAndIndex, eth_getUncleCountByBlockHash,
        eth_getUncleCountByBlockNumber, eth_getProof,
    );
    pub static API_REQUEST_RESULT_COUNTER_VEC_STATIC: Results = Results::NEW;
    pub static API_REQUEST_TIME_HISTOGRAM_STATIC: Times = Times::NEW;
}

pub mod consensus {
    use super::*;

    kinds!(Results, Outcome, get_block_from_remote);
    kinds!(Times, Counter, commit, exec, block);
    kinds!(Checks, Counter, check_block_cost, get_txs_cost, write_wal_cost);
    pub static CONSENSUS_RESULT_COUNTER_VEC_STATIC: Results = Results::NEW;
    pub static CONSENSUS_TIME_HISTOGRAM_VEC_STATIC: Times = Times::NEW;
    pub static CONSENSUS_CHECK_BLOCK_HISTOGRAM_VEC_STATIC: Checks = Checks::NEW;
    pub static ENGINE_ROUND_GAUGE: Gauge = Gauge::NEW;
    pub static ENGINE_HEIGHT_GAUGE: Gauge = Gauge::NEW;
    pub static ENGINE_EXECUTING_BLOCK_GAUGE: Gauge = Gauge::NEW;
    pub static ENGINE_COMMITTED_TX_COUNTER: Counter = Counter::NEW;
    pub static ENGINE_ORDER_TX_GAUGE: Gauge = Gauge::NEW;
    pub static ENGINE_SYNC_TX_GAUGE: Gauge = Gauge::NEW;
    pub static ENGINE_SYNC_BLOCK_COUNTER: Counter = Counter::NEW;
    pub static ENGINE_SYNC_BLOCK_HISTOGRAM: Counter = Counter::NEW;
    pub static ENGINE_CONSENSUS_COST_TIME: Counter = Counter::NEW;
}

pub mod mempool {
    use super::*;

    kinds!(Counters, Counter, insert_tx_from_p2p, package, current_size);
    kinds!(Results, Outcome, insert_tx_from_p2p, package, current_size);
    pub static MEMPOOL_COUNTER_STATIC: Counters = Counters::NEW;
    pub static MEMPOOL_RESULT_COUNTER_STATIC: Results = Results::NEW;
    pub static MEMPOOL_TIME_STATIC: Counters = Counters::NEW;
    pub static MEMPOOL_PACKAGE_SIZE_VEC_STATIC: Counters = Counters::NEW;
    pub static MEMPOOL_CURRENT_SIZE_VEC_STATIC: Counters = Counters::NEW;
    pub static MEMPOOL_LEN_GAUGE: Gauge = Gauge::NEW;
    pub static MEMPOOL_CO_QUEUE_LEN: Gauge = Gauge::NEW;
}

pub mod network {
    use super::*;

    kinds!(Times, Counter, rpc);
    pub static NETWORK_RPC_RESULT_COUNT_VEC_STATIC: Outcome = Outcome::NEW;
    pub static NETWORK_PROTOCOL_TIME_HISTOGRAM_VEC_STATIC: Times = Times::NEW;
    pub static NETWORK_RECEIVED_MESSAGE_IN_PROCESSING_GUAGE: Gauge = Gauge::NEW;
    pub static NETWORK_RECEIVED_PEER_ID_MESSAGE_IN_PROCESSING_GUAGE_VEC: GaugeVec = GaugeVec;
    pub static NETWORK_CONNECTED_PEERS: Gauge = Gauge::NEW;
    pub static NETWORK_PEER_ID_DISCONNECTED_COUNT_VEC: CounterVec = CounterVec;
    pub static NETWORK_SAVED_PEER_COUNT: Gauge = Gauge::NEW;
    pub static NETWORK_CONNECTED_CONSENSUS_PEERS: Gauge = Gauge::NEW;
    pub static NETWORK_MESSAGE_SIZE_COUNT_VEC: CounterVec = CounterVec;

    pub fn on_network_message_sent_all_target(_: &str) {}

    pub fn on_network_message_sent_multi_target(_: &str, _: f64) {}

    pub fn on_network_message_sent(_: &str) {}

    pub fn on_network_message_received(_: &str) {}
}

pub mod storage {
    use super::*;
    use protocol::traits::StorageCategory;

    pub fn on_storage_get_state(_: Duration, _: f64) {}

    pub fn on_storage_put_state(_: Duration, _: f64) {}

    pub fn on_storage_get_cf(_: StorageCategory, _: Duration, _: f64) {}

    pub fn on_storage_put_cf(_: StorageCategory, _: Duration, _: f64) {}
}
