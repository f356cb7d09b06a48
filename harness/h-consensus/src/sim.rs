//! One node's consensus as core/run puts it together, beside a network and a memory pool of our own, and an
//! honest chain to hold against.

use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};

use common_crypto::{BlsPublicKey, BlsSignature, BlsSignatureVerify, HashValue, PrivateKey, Secp256k1PublicKey, Signature, ToBlsPublicKey, ToPublicKey};
use common_crypto::Secp256k1PrivateKey;
use core_consensus::engine::ConsensusEngine;
use core_consensus::status::{CurrentStatus, StatusAgent};
use core_consensus::stop_signal::StopSignal;
use core_consensus::util::OverlordCrypto;
use core_consensus::{ConsensusError, ConsensusWal, OverlordConsensusAdapter, OverlordSynchronization, SignedTxsWAL};
use core_executor::{AxonExecutorReadOnlyAdapter, MetadataHandle, RocksTrieDB};
use core_network::{PeerId, PeerIdExt};
use node::{Disk, Dump, Genesis, Store, Val};
use overlord::types::{OverlordMsg, Status};
use overlord::OverlordHandler;
use protocol::traits::*;
use protocol::types::*;
use protocol::{async_trait, lazy::CHAIN_ID, ProtocolResult};

pub type Adapter = OverlordConsensusAdapter<Pool, Net, Store, RocksTrieDB>;

pub fn refused(what: &str) -> protocol::ProtocolError {
    ConsensusError::Other(what.to_string()).into()
}

// ---- the network

type Serve = Box<dyn FnMut(&str, Bytes) -> ProtocolResult<Bytes> + Send>;

#[derive(Default)]
pub struct Wire {
    pub serve:     Option<Serve>,
    pub sent:      Vec<(String, Option<Vec<Bytes>>, Bytes)>,
    pub responses: Vec<(String, Result<Bytes, String>)>,
    pub tagged:    Vec<Vec<Bytes>>,
}

#[derive(Default)]
pub struct Net(pub Mutex<Wire>);

impl Net {
    pub fn with<T>(&self, f: impl FnOnce(&mut Wire) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
}

#[async_trait]
impl Rpc for Net {
    async fn call<M, R>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R>
    where
        M: MessageCodec,
        R: MessageCodec,
    {
        let msg = msg.encode_msg()?;
        // not kept locked: an answer may have the node do something else
        let serve = self.with(|w| w.serve.take());
        let answer = match serve {
            Some(mut f) => {
                let r = f(end, msg);
                self.with(|w| {
                    w.serve.get_or_insert(f);
                });
                r
            }
            None => Err(refused("nobody answers")),
        }?;
        R::decode_msg(answer)
    }

    async fn response<M>(&self, _: Context, end: &str, ret: ProtocolResult<M>, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        let r = match ret {
            Ok(mut m) => Ok(m.encode_msg()?),
            Err(e) => Err(e.to_string()),
        };
        self.with(|w| w.responses.push((end.to_string(), r)));
        Ok(())
    }
}

#[async_trait]
impl Gossip for Net {
    async fn broadcast<M>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        let m = msg.encode_msg()?;
        self.with(|w| w.sent.push((end.to_string(), None, m)));
        Ok(())
    }

    async fn gossip<M>(&self, _: Context, _: Option<usize>, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        let m = msg.encode_msg()?;
        self.with(|w| w.sent.push((end.to_string(), None, m)));
        Ok(())
    }

    async fn multicast<'a, M, P>(&self, _: Context, end: &str, peers: P, mut msg: M, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
        P: AsRef<[Bytes]> + Send + 'a,
    {
        let m = msg.encode_msg()?;
        self.with(|w| w.sent.push((end.to_string(), Some(peers.as_ref().to_vec()), m)));
        Ok(())
    }
}

impl PeerTrust for Net {
    fn report(&self, _: Context, _: TrustFeedback) {}
}

impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> {
        Ok(())
    }

    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> {
        Ok(())
    }

    fn tag_consensus(&self, _: Context, ids: Vec<Bytes>) -> ProtocolResult<()> {
        self.with(|w| w.tagged.push(ids));
        Ok(())
    }

    fn peer_count(&self, _: Context) -> ProtocolResult<usize> {
        Ok(1)
    }
}

// ---- the memory pool

#[derive(Default)]
pub struct Held {
    pub txs:     BTreeMap<Hash, SignedTransaction>,
    pub package: Vec<Hash>,
    pub system:  u32,
    pub flushed: Vec<(u64, Vec<Hash>)>,
    pub args:    Vec<(H256, u64, u64)>,
    pub limit:   Option<u64>,
}

#[derive(Default)]
pub struct Pool(pub Mutex<Held>);

impl Pool {
    pub fn with<T>(&self, f: impl FnOnce(&mut Held) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
}

#[async_trait]
impl MemPool for Pool {
    async fn insert(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> {
        self.with(|p| p.txs.insert(tx.transaction.hash, tx));
        Ok(())
    }

    async fn contains(&self, _: Context, h: &Hash) -> bool {
        self.with(|p| p.txs.contains_key(h))
    }

    async fn package(&self, _: Context, _: U256, limit: u64) -> ProtocolResult<PackedTxHashes> {
        Ok(self.with(|p| {
            p.limit = Some(limit);
            PackedTxHashes { hashes: p.package.clone(), call_system_script_count: p.system }
        }))
    }

    async fn flush(&self, _: Context, hashes: &[Hash], number: BlockNumber) -> ProtocolResult<()> {
        self.with(|p| {
            for h in hashes {
                p.txs.remove(h);
            }
            p.flushed.push((number, hashes.to_vec()));
        });
        Ok(())
    }

    async fn get_full_txs(&self, _: Context, _: Option<u64>, hashes: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>> {
        self.with(|p| hashes.iter().map(|h| p.txs.get(h).cloned()).collect::<Option<Vec<_>>>()).ok_or_else(|| refused("missing transactions"))
    }

    async fn ensure_order_txs(&self, _: Context, _: Option<u64>, hashes: &[Hash]) -> ProtocolResult<()> {
        let once: std::collections::HashSet<&Hash> = hashes.iter().collect();
        if once.len() != hashes.len() || !self.with(|p| hashes.iter().all(|h| p.txs.contains_key(h))) {
            return Err(refused("unknown or repeated transactions"));
        }
        Ok(())
    }

    async fn get_tx_count_by_address(&self, _: Context, _: H160) -> ProtocolResult<(usize, Option<BlockNumber>)> {
        Ok((0, None))
    }

    fn get_tx_from_mem(&self, _: Context, h: &Hash) -> Option<SignedTransaction> {
        self.with(|p| p.txs.get(h).cloned())
    }

    fn set_args(&self, _: Context, root: H256, gas: u64, size: u64) {
        self.with(|p| p.args.push((root, gas, size)))
    }
}

// ---- a node

pub struct Node {
    pub disk:    Disk,
    pub pool:    Arc<Pool>,
    pub net:     Arc<Net>,
    pub adapter: Arc<Adapter>,
    pub engine:  ConsensusEngine<Adapter>,
    pub sync:    OverlordSynchronization<Adapter>,
    pub status:  StatusAgent,
    pub crypto:  Arc<OverlordCrypto>,
    pub lock:    Arc<tokio::sync::Mutex<()>>,
    pub info:    NodeInfo,
    pub wal:     Arc<SignedTxsWAL>,
    pub key:     u8,
    inbox:       Mutex<futures::channel::mpsc::UnboundedReceiver<(Context, OverlordMsg<Proposal>)>>,
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    node::rt().block_on(f)
}

pub fn cx() -> Context {
    Context::new()
}

/// A directory of this thread's own, emptied.
pub fn scratch(name: &str) -> PathBuf {
    static ROOT: OnceLock<PathBuf> = OnceLock::new();
    thread_local! { static ME: u64 = { static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) }; }
    let root = ROOT.get_or_init(|| {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        base.join(format!("h-consensus-{}", std::process::id()))
    });
    let d = root.join(ME.with(|m| m.to_string())).join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn clean() {
    for base in [PathBuf::from("/dev/shm"), std::env::temp_dir()] {
        let _ = std::fs::remove_dir_all(base.join(format!("h-consensus-{}", std::process::id())));
    }
}

/// The keys of these validators, by the name they vote under.
pub fn keys(vals: &[ValidatorExtend]) -> HashMap<Bytes, BlsPublicKey> {
    vals.iter().map(|v| (v.pub_key.as_bytes(), BlsPublicKey::try_from(v.bls_pub_key.as_bytes().as_ref()).unwrap())).collect()
}

impl Node {
    /// As core/run starts one.
    pub fn start(key: u8, disk: Disk, wal: &Path) -> Node {
        let _g = node::rt().enter();
        let (block, proof) = block_on(async {
            (disk.storage.get_latest_block(cx()).await.unwrap(), disk.storage.get_latest_proof(cx()).await.unwrap())
        });
        let header = &block.header;
        let root = AxonExecutorReadOnlyAdapter::from_root(
            header.state_root,
            Arc::clone(&disk.trie),
            Arc::clone(&disk.storage),
            Proposal::new_without_state_root(header).into(),
        )
        .unwrap()
        .get_metadata_root();
        let handle = MetadataHandle::new(root);
        let metadata = handle.get_metadata_by_block_number(header.number + 1).or_else(|_| handle.get_metadata_by_block_number(header.number)).unwrap();
        let crypto = Arc::new(OverlordCrypto::new(node::bls_key(key), keys(&metadata.verifier_list), String::new()));
        let pool = Arc::new(Pool::default());
        let net = Arc::new(Net::default());
        let adapter =
            OverlordConsensusAdapter::new(Arc::clone(&net), Arc::clone(&pool), Arc::clone(&disk.storage), Arc::clone(&disk.trie), Arc::clone(&crypto)).unwrap();
        let status = StatusAgent::new(CurrentStatus {
            prev_hash:       block.hash(),
            last_number:     header.number,
            max_tx_size:     metadata.consensus_config.max_tx_size.into(),
            tx_num_limit:    metadata.consensus_config.tx_num_limit,
            proof,
            last_state_root: header.state_root,
        });
        CHAIN_ID.swap(Arc::new(header.chain_id));
        let hardfork = block_on(disk.storage.hardfork_proposal(cx())).unwrap();
        let pub_key: Secp256k1PublicKey = Secp256k1PrivateKey::try_from(kit::secret(key).as_ref()).unwrap().pub_key();
        let info = NodeInfo::new(header.chain_id, pub_key, hardfork);
        let lock = Arc::new(tokio::sync::Mutex::new(()));
        let txs_wal = Arc::new(SignedTxsWAL::new(wal.join("txs")));
        let (stop, _) = tokio::sync::oneshot::channel();

        let (tx, rx) = futures::channel::mpsc::unbounded::<(Context, OverlordMsg<Proposal>)>();
        // The handler holds nothing but the sender, and has no other constructor.
        assert_eq!(std::mem::size_of::<OverlordHandler<Proposal>>(), std::mem::size_of_val(&tx));
        let handler: OverlordHandler<Proposal> = unsafe { std::mem::transmute(tx) };
        adapter.set_overlord_handler(handler);
        let adapter = Arc::new(adapter);
        let engine = ConsensusEngine::new(
            status.clone(),
            info.clone(),
            Arc::clone(&txs_wal),
            Arc::clone(&adapter),
            Arc::clone(&crypto),
            Arc::clone(&lock),
            Arc::new(ConsensusWal::new(wal.join("overlord"))),
            StopSignal::new(stop),
        );
        let sync = OverlordSynchronization::new(2, Arc::clone(&adapter), status.clone(), Arc::clone(&lock));
        let peers = metadata.verifier_list.iter().map(|v| PeerId::from_pubkey_bytes(v.pub_key.as_bytes()).unwrap().into_bytes_ext()).collect();
        net.tag_consensus(cx(), peers).unwrap();
        Node { disk, pool, net, adapter, engine, sync, status, crypto, lock, info, wal: txs_wal, key, inbox: Mutex::new(rx) }
    }

    /// What overlord was told since the last look.
    pub fn told(&self) -> Vec<Status> {
        let mut v = vec![];
        while let Ok(Some((_, m))) = self.inbox.lock().unwrap().try_next() {
            if let OverlordMsg::RichStatus(s) = m {
                v.push(s);
            }
        }
        v
    }

    pub fn dump(&self) -> Dump {
        rocksdb::control::dump(&self.disk.path)
    }

    pub fn serve(&self, f: impl FnMut(&str, Bytes) -> ProtocolResult<Bytes> + Send + 'static) {
        self.net.with(|w| w.serve = Some(Box::new(f)));
    }

    /// Whether the node's signature checks know exactly these validators.
    pub fn knows(&self, who: &[u8], not: &[u8]) -> Result<(), String> {
        use overlord::Crypto;
        type Signed = (Bytes, Vec<Bytes>);
        static SIGNED: OnceLock<Signed> = OnceLock::new();
        let (digest, sigs) = SIGNED.get_or_init(|| {
            let digest = Bytes::from(vec![7u8; 32]);
            let h = HashValue::try_from(digest.as_ref()).unwrap();
            let sigs = (0..8).map(|i| node::bls_key(i).sign_message(&h).to_bytes()).collect();
            (digest, sigs)
        });
        for i in who.iter().chain(not) {
            let ok = self.crypto.aggregate_signatures(vec![sigs[*i as usize].clone()], vec![node::public(*i)]).is_ok();
            if ok != who.contains(i) {
                return Err(format!("the signature of validator {i} is {}", if ok { "still believed" } else { "not believed" }));
            }
        }
        // that all of the keys are the right ones takes one verification
        let names: Vec<Bytes> = who.iter().map(|i| node::public(*i)).collect();
        let sum = self.crypto.aggregate_signatures(who.iter().map(|i| sigs[*i as usize].clone()).collect(), names.clone()).map_err(|e| e.to_string())?;
        self.crypto.verify_aggregated_signature(sum, digest.clone(), names).map_err(|e| format!("a good signature is not believed: {e}"))
    }
}

// ---- proofs

/// The voters' names in overlord's order.
pub fn ordered(vals: &[Val]) -> Vec<Val> {
    let mut v = vals.to_vec();
    v.sort_by_key(|x| node::public(x.key));
    v
}

pub fn vote_digest(number: u64, round: u64, kind: u8, hash: &[u8]) -> Hash {
    use rf::*;
    Hash::from(keccak256(&l(vec![u(number), u(round), u(kind as u64), b(hash)]).encode()))
}

pub fn sign_by(digest: &Hash, who: &[u8]) -> Bytes {
    let h = HashValue::try_from(digest.as_bytes()).unwrap();
    let parts: Vec<_> = who
        .iter()
        .map(|i| {
            let k = node::bls_key(*i);
            (k.sign_message(&h), k.pub_key(&String::new()))
        })
        .collect();
    BlsSignature::combine(parts).unwrap().to_bytes()
}

pub fn bitmap(vals: &[Val], who: &[u8]) -> Bytes {
    let mut m = vec![0u8; (vals.len() + 7) / 8];
    for (i, v) in ordered(vals).iter().enumerate() {
        if who.contains(&v.key) {
            m[i / 8] |= 0x80 >> (i % 8);
        }
    }
    m.into()
}

pub fn proof(number: u64, round: u64, hash: Hash, vals: &[Val], who: &[u8]) -> Proof {
    Proof { number, round, block_hash: hash, signature: sign_by(&vote_digest(number, round, 2, hash.as_bytes()), who), bitmap: bitmap(vals, who) }
}

pub fn all(vals: &[Val]) -> Vec<u8> {
    vals.iter().map(|v| v.key).collect()
}

// ---- the chain

pub struct Link {
    pub proposal: Proposal,
    pub block:    Block,
    pub txs:      Vec<SignedTransaction>,
    pub proof:    Proof,
    /// The database after this block.
    pub dump:     Dump,
}

pub struct Chain {
    pub genesis: Genesis,
    pub vals:    [Vec<Val>; 2],
    pub last0:   u64,
    pub links:   Vec<Link>,
    /// What validator 2 changes the settings to in the fourth block.
    pub late:    ConsensusConfig,
}

pub fn txs_root(hashes: &[Hash]) -> Hash {
    if hashes.is_empty() {
        return RLP_NULL;
    }
    let pairs: Vec<(Vec<u8>, Vec<u8>)> =
        hashes.iter().enumerate().map(|(i, h)| (rf::u(i as u64).encode(), rf::b(h.as_bytes()).encode())).collect();
    H256(rf::mpt_root(&pairs))
}

pub fn txs_digest(txs: &[SignedTransaction]) -> Hash {
    if txs.is_empty() {
        return RLP_EMPTY_LIST;
    }
    Hash::from(rf::keccak256(&rlp::encode_list(txs)))
}

impl Chain {
    pub fn vals_at(&self, n: u64) -> &[Val] {
        if n <= self.last0 {
            &self.vals[0]
        } else {
            &self.vals[1]
        }
    }

    /// The settings for this block. An epoch's settings hold from when it is announced.
    pub fn config(&self, n: u64) -> &ConsensusConfig {
        if n > 4 {
            &self.late
        } else {
            &self.genesis.metas[1].consensus_config
        }
    }

    pub fn state_root(&self, n: u64) -> H256 {
        self.block(n).header.state_root
    }

    pub fn block(&self, n: u64) -> &Block {
        if n == 0 {
            &self.genesis.block
        } else {
            &self.links[n as usize - 1].block
        }
    }

    pub fn link(&self, n: u64) -> &Link {
        &self.links[n as usize - 1]
    }

    pub fn proof(&self, n: u64) -> Proof {
        if n == 0 {
            Proof::default()
        } else {
            self.link(n).proof.clone()
        }
    }

    pub fn dump(&self, n: u64) -> &Dump {
        if n == 0 {
            &self.genesis.dump
        } else {
            &self.link(n).dump
        }
    }

    pub fn tip(&self) -> u64 {
        self.links.len() as u64
    }

    /// A proposal as the honest leader of the block makes it.
    pub fn proposal(&self, n: u64, leader: u8, txs: &[SignedTransaction], timestamp: u64) -> Proposal {
        let hashes: Vec<Hash> = txs.iter().map(|t| t.transaction.hash).collect();
        Proposal {
            version:                  BlockVersion::V0,
            prev_hash:                self.block(n - 1).hash(),
            proposer:                 kit::sender(leader),
            prev_state_root:          self.state_root(n - 1),
            transactions_root:        txs_root(&hashes),
            signed_txs_hash:          txs_digest(txs),
            timestamp,
            number:                   n,
            gas_limit:                30_000_000u64.into(),
            extra_data:               vec![],
            base_fee_per_gas:         0x539u64.into(),
            proof:                    self.proof(n - 1),
            chain_id:                 kit::CHAIN,
            call_system_script_count: 0,
            tx_hashes:                hashes,
        }
    }
}

/// Commits a block on the node through the engine, as overlord asks for it.
pub fn commit(n: &Node, p: &Proposal, proof: &Proof) -> Result<Status, String> {
    block_on(commit_of(n, p, proof))
}

/// The same from within.
pub fn commit_now(n: &Node, p: &Proposal, proof: &Proof) -> Result<Status, String> {
    futures::executor::block_on(commit_of(n, p, proof))
}

async fn commit_of(n: &Node, p: &Proposal, proof: &Proof) -> Result<Status, String> {
    use overlord::types::{AggregatedSignature, Commit, Proof as OProof};
    use overlord::Consensus;
    let c = Commit {
        height:  p.number,
        content: p.clone(),
        proof:   OProof {
            height:     proof.number,
            round:      proof.round,
            block_hash: Bytes::from(proof.block_hash.as_bytes().to_vec()),
            signature:  AggregatedSignature { signature: proof.signature.clone(), address_bitmap: proof.bitmap.clone() },
        },
    };
    n.engine.commit(cx(), p.number, c).await.map_err(|e| e.to_string())
}

/// Creation code of a contract that counts its calls in slot 0 and emits a log.
pub const CONTRACT: [u8; 27] = [
    0x60, 0x0f, 0x60, 0x0c, 0x60, 0, 0x39, 0x60, 0x0f, 0x60, 0, 0xf3, // copy and return what follows
    0x60, 1, 0x60, 0, 0x54, 1, 0x60, 0, 0x55, 0x60, 0, 0x60, 0, 0xa0, 0,
];

/// The address of the contract `who` creates with this nonce.
pub fn created(who: u8, nonce: u64) -> H160 {
    let h = rf::keccak256(&rf::l(vec![rf::b(kit::sender(who).as_bytes()), rf::u(nonce)]).encode());
    H160::from_slice(&h[12..])
}

/// A transaction that changes the settings.
pub fn reconfigure(who: u8, nonce: u64, c: &ConsensusConfig) -> SignedTransaction {
    let mut data = rf::keccak256(b"updateConsensusConfig((uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64))")[..4].to_vec();
    for x in [c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio, c.tx_num_limit, c.max_tx_size, c.gas_limit, c.interval, c.max_contract_limit] {
        data.extend([0; 24]);
        data.extend(x.to_be_bytes());
    }
    let mut metadata = H160::repeat_byte(0xff);
    metadata.0[19] = 1;
    kit::sign(kit::legacy(nonce, 2_000, 200_000, Some(metadata), 0, &data), Some(kit::CHAIN), who)
}

/// Five blocks across a change of validators after the third.
pub fn chain() -> &'static Chain {
    static C: OnceLock<Chain> = OnceLock::new();
    C.get_or_init(|| build(vec![node::val(0, 1, 1), node::val(1, 1, 1), node::val(2, 1, 1), node::val(3, 1, 1)], vec![node::val(2, 1, 1), node::val(4, 1, 3)], 3))
}

pub fn build(v0: Vec<Val>, v1: Vec<Val>, last0: u64) -> Chain {
    let _g = node::rt().enter();
    let quick = |mut m: Metadata| {
        m.consensus_config.interval = 0;
        m
    };
    let mut m1 = quick(node::metadata(1, last0 + 1, 1000, &v1));
    m1.consensus_config.tx_num_limit = 7;
    m1.consensus_config.max_tx_size = 4321;
    let late = ConsensusConfig { tx_num_limit: 9, max_tx_size: 5555, propose_ratio: 21, prevote_ratio: 22, precommit_ratio: 23, brake_ratio: 24, ..m1.consensus_config.clone() };
    let metas = [quick(node::metadata(0, 0, last0, &v0)), m1];
    let rich = U256::exp10(20);
    let genesis = node::genesis("consensus", &[(0, rich), (1, rich), (2, rich), (4, rich)], metas);
    let mut chain = Chain { genesis, vals: [v0, v1], last0, links: vec![], late: late.clone() };
    let disk = Disk::new("builder", &chain.genesis.dump);
    let builder = Node::start(0, disk, &scratch("builder"));
    let to = Some(kit::h160(0xbeef));
    let t = |nonce, who: u8, to, data: &[u8]| kit::sign(kit::legacy(nonce, 2_000, 200_000, to, if data.is_empty() { 5 } else { 0 }, data), Some(kit::CHAIN), who);
    let blocks: Vec<Vec<SignedTransaction>> = vec![
        vec![t(0, 0, to, &[]), t(0, 1, None, &CONTRACT)],
        vec![],
        vec![t(1, 0, to, &[]), t(2, 0, to, &[]), t(1, 1, Some(created(1, 0)), &[1])],
        vec![t(0, 2, to, &[]), reconfigure(2, 1, &late)],
        vec![t(2, 1, to, &[]), t(3, 0, to, &[])],
    ];
    for (i, txs) in blocks.into_iter().enumerate() {
        let n = i as u64 + 1;
        let vals = chain.vals_at(n).to_vec();
        let p = chain.proposal(n, vals[i % vals.len()].key, &txs, 1_000 + 10 * n);
        let pr = proof(n, i as u64 % 2, p.hash(), &vals, &all(&vals));
        for tx in &txs {
            block_on(builder.pool.insert(cx(), tx.clone())).unwrap();
        }
        commit(&builder, &p, &pr).unwrap();
        let block = block_on(builder.disk.storage.get_block(cx(), n)).unwrap().unwrap();
        chain.links.push(Link { proposal: p, block, txs, proof: pr, dump: builder.dump() });
    }
    chain
}
