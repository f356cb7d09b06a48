//! core/consensus as core/run sees it: everything is the real crate's, but running the consensus hands what it was started with to the
//! harness, and afterwards ends the node.

use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

use overlord::OverlordHandler;
use protocol::tokio::sync::Mutex as AsyncMutex;
use protocol::traits::{Consensus, ConsensusAdapter, Context, NodeInfo};
use protocol::types::{ConsensusValidator, Proposal};
use protocol::{async_trait, ProtocolResult};
pub use real::*;

use stop_signal::StopSignal;
use util::OverlordCrypto;

/// What the consensus was started with.
pub struct Started {
    pub status:     status::StatusAgent,
    pub node_info:  NodeInfo,
    pub crypto:     Arc<OverlordCrypto>,
    pub txs_wal:    Arc<SignedTxsWAL>,
    pub adapter:    Arc<dyn ConsensusAdapter>,
    pub height:     u64,
    pub interval:   u64,
    pub validators: Vec<ConsensusValidator>,
    pub timer:      Option<DurationConfig>,
    pub consensus:  Arc<dyn Consensus>,
    pub stop:       Arc<StopSignal>,
}

type Probe = Box<dyn FnOnce(Started) -> Pin<Box<dyn Future<Output = ()> + Send>> + Send>;

pub static BUILT: Mutex<Option<Box<dyn FnOnce() + Send>>> = Mutex::new(None);
pub static PROBE: Mutex<Option<Probe>> = Mutex::new(None);

pub struct OverlordConsensus<Adapter: ConsensusAdapter + 'static> {
    inner: Arc<real::OverlordConsensus<Adapter>>,
    seen:  Mutex<Option<Started>>,
    stop:  Arc<StopSignal>,
}

impl<Adapter: ConsensusAdapter + 'static> OverlordConsensus<Adapter> {
    #[allow(clippy::too_many_arguments)]
    pub async fn new(
        status: status::StatusAgent,
        node_info: NodeInfo,
        crypto: Arc<OverlordCrypto>,
        txs_wal: Arc<SignedTxsWAL>,
        adapter: Arc<Adapter>,
        lock: Arc<AsyncMutex<()>>,
        consensus_wal: Arc<ConsensusWal>,
        stop: StopSignal,
    ) -> Self {
        if let Some(f) = BUILT.lock().unwrap().take() {
            f();
        }
        let stop = Arc::new(stop);
        let (tx, _) = protocol::tokio::sync::oneshot::channel();
        let inner = Arc::new(
            real::OverlordConsensus::new(
                status.clone(),
                node_info.clone(),
                Arc::clone(&crypto),
                Arc::clone(&txs_wal),
                Arc::clone(&adapter),
                lock,
                consensus_wal,
                StopSignal::new(tx),
            )
            .await,
        );
        let seen = Started {
            status,
            node_info,
            crypto,
            txs_wal,
            adapter,
            height: 0,
            interval: 0,
            validators: vec![],
            timer: None,
            consensus: Arc::clone(&inner) as _,
            stop: Arc::clone(&stop),
        };
        OverlordConsensus { inner, seen: Mutex::new(Some(seen)), stop }
    }

    pub fn get_overlord_handler(&self) -> OverlordHandler<Proposal> {
        self.inner.get_overlord_handler()
    }

    pub async fn run(
        &self,
        init_height: u64,
        interval: u64,
        validators: Vec<ConsensusValidator>,
        timer_config: Option<DurationConfig>,
    ) -> ProtocolResult<()> {
        let seen = self.seen.lock().unwrap().take().expect("the consensus runs once");
        let seen = Started { height: init_height, interval, validators, timer: timer_config, ..seen };
        let probe = PROBE.lock().unwrap().take();
        if let Some(f) = probe {
            f(seen).await;
        }
        self.stop.send();
        Ok(())
    }
}

#[async_trait]
impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapter> {
    async fn set_proposal(&self, ctx: Context, proposal: Vec<u8>) -> ProtocolResult<()> {
        self.inner.set_proposal(ctx, proposal).await
    }

    async fn set_vote(&self, ctx: Context, vote: Vec<u8>) -> ProtocolResult<()> {
        self.inner.set_vote(ctx, vote).await
    }

    async fn set_qc(&self, ctx: Context, qc: Vec<u8>) -> ProtocolResult<()> {
        self.inner.set_qc(ctx, qc).await
    }

    async fn set_choke(&self, ctx: Context, choke: Vec<u8>) -> ProtocolResult<()> {
        self.inner.set_choke(ctx, choke).await
    }
}
