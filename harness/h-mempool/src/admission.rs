//! G04: what the pool lets in, decided by the real adapter on a real state, and what it sends on.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

use common_crypto::Secp256k1Recoverable;
use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, MPTTrie, RocksTrieDB};
use core_interoperation::InteroperationImpl;
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl, MsgPullTxs, NewTxsHandler};
use core_network::{NetworkContext, SessionId};
use ethabi::Token;
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use node::{genesis, metadata, val, Disk, Dump, Store};
use protocol::codec::ProtocolCodec;
use protocol::traits::*;
use protocol::trie::Trie;
use protocol::types::*;
use protocol::{async_trait, ProtocolResult};

use crate::node::{runtime, system_address};

type R = Result<(), Fail>;

const GWEI: u64 = 1_000_000_000;
const PRICE_CAP: u64 = 500 * GWEI;
const GAS_CAP: u64 = 30_000_000;
const SIZE: usize = 700;
const NONCE: u64 = 2;
const BATCH: usize = 3;
const INTERVAL: u64 = 200;

fn balance() -> U256 {
    U256::exp10(20)
}

struct Base {
    dump:   Dump,
    /// State roots by name; the account of sender 0 differs.
    roots:  Vec<H256>,
    chain:  Block,
    _keep:  node::Genesis,
}

/// The account of sender 0 in each state.
fn accounts() -> [(u64, U256); 4] {
    [(NONCE, balance()), (NONCE + 1, balance()), (NONCE + 1, U256::exp10(15)), (NONCE + 3, balance() * 2)]
}

const OK: &[u32] = &[0x0000_0513, 0x05d0_0893, 0x0000_0073]; // a0 = 0; a7 = 93; ecall
const BAD: &[u32] = &[0x0010_0513, 0x05d0_0893, 0x0000_0073]; // a0 = 1
const CRASH: &[u32] = &[0];
const ARGC: &[u32] = &[0x0001_3503, 0xffe5_0513, 0x05d0_0893, 0x0000_0073]; // a0 = argc - 2

fn elf(code: &[u32]) -> Vec<u8> {
    let mut text: Vec<u8> = code.iter().flat_map(|i| i.to_le_bytes()).collect();
    text.extend([0; 16]);
    let mut e = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    e.extend(2u16.to_le_bytes());
    e.extend(243u16.to_le_bytes());
    e.extend(1u32.to_le_bytes());
    e.extend(0x10000u64.to_le_bytes());
    e.extend(64u64.to_le_bytes());
    e.extend(0u64.to_le_bytes());
    e.extend(0u32.to_le_bytes());
    for x in [64u16, 56, 1, 64, 0, 0] {
        e.extend(x.to_le_bytes());
    }
    e.extend(1u32.to_le_bytes());
    e.extend(5u32.to_le_bytes());
    for x in [0x100u64, 0x10000, 0x10000, text.len() as u64, text.len() as u64, 0x1000] {
        e.extend(x.to_le_bytes());
    }
    e.resize(0x100, 0);
    e.extend(text);
    e
}

const PROGRAMS: [&[u32]; 4] = [OK, BAD, CRASH, ARGC];

fn cell(i: usize) -> [u8; 32] {
    rf::keccak256(&[i as u8, 0xce])
}

/// The transaction that puts the programs into the mirrored cells.
fn mirror() -> SignedTransaction {
    let n = |x: u64| Token::Uint(x.into());
    let fixed = |h: [u8; 32]| Token::FixedBytes(h.to_vec());
    let outs = PROGRAMS
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let lock = Token::Tuple(vec![fixed([1; 32]), n(0), Token::Bytes(vec![])]);
            Token::Tuple(vec![
                Token::Tuple(vec![fixed(cell(i)), n(i as u64)]),
                Token::Tuple(vec![n(1), lock, Token::Array(vec![])]),
                Token::Bytes(elf(p)),
            ])
        })
        .collect();
    let block = Token::Tuple(vec![n(1), Token::Array(vec![]), Token::Array(outs)]);
    let sig = "update((uint64,(bytes32,uint32)[],((bytes32,uint32),(uint64,(bytes32,uint8,bytes),(bytes32,uint8,bytes)[]),bytes)[])[])";
    let mut data = rf::keccak256(sig.as_bytes())[..4].to_vec();
    data.extend(ethabi::encode(&[Token::Array(vec![block])]));
    kit::sign(kit::legacy(0, 10, 1_000_000, Some(system_address(3)), 0, &data), Some(kit::CHAIN), 2)
}

fn key_of(who: u8) -> Bytes {
    Bytes::from(vec![0x90 + who; 33])
}

fn interop_sender(who: u8) -> H160 {
    let h = rf::keccak256(&key_of(who));
    H160::from_slice(&h[12..])
}

fn base() -> &'static Base {
    static B: OnceLock<Base> = OnceLock::new();
    B.get_or_init(|| {
        let metas = [metadata(0, 0, 9, &[val(2, 1, 1), val(3, 1, 1)]), metadata(1, 10, 19, &[val(3, 1, 1), val(4, 1, 1)])];
        let g = genesis("admission", &[(0, balance()), (1, U256::exp10(18)), (2, U256::exp10(18))], metas);
        let _e = node::rt().enter();
        let disk = Disk::new("admission-base", &g.dump);
        let header = Header { number: 1, chain_id: kit::CHAIN, gas_limit: GAS_CAP.into(), ..g.block.header.clone() };
        let ctx = Proposal::new_without_state_root(&header).into();
        let mut backend =
            AxonExecutorApplyAdapter::from_root(header.state_root, Arc::clone(&disk.trie), Arc::clone(&disk.storage), ctx).unwrap();
        let resp = AxonExecutor.exec(&mut backend, &[mirror()], &[]);
        assert!(matches!(resp.tx_resp[0].exit_reason, ExitReason::Succeed(_)), "{:?}", resp.tx_resp[0]);
        let put = |root: H256, who: H160, nonce: u64, balance: U256| {
            let mut t = MPTTrie::from_root(root, Arc::clone(&disk.trie)).unwrap();
            let a = Account { nonce: nonce.into(), balance, storage_root: RLP_NULL, code_hash: NIL_DATA };
            t.insert(who.as_bytes().to_vec(), a.encode().unwrap().to_vec()).unwrap();
            t.commit().unwrap()
        };
        let root = put(resp.state_root, interop_sender(0), NONCE, balance());
        let root = put(root, interop_sender(1), NONCE, U256::from(1));
        let roots = accounts().iter().map(|(n, b)| put(root, kit::sender(0), *n, *b)).collect();
        Base { dump: rocksdb::control::dump(&disk.path), roots, chain: Block { header, tx_hashes: vec![] }, _keep: g }
    })
}

#[derive(Default)]
struct Seen {
    sent:    Vec<(Option<usize>, String, Vec<Hash>)>,
    reports: Vec<(usize, String)>,
    calls:   Vec<(String, MsgPullTxs)>,
    reply:   Option<Vec<SignedTransaction>>,
    failing: bool,
}

#[derive(Clone, Default)]
struct Net(Arc<Mutex<Seen>>);

impl Net {
    fn with<T>(&self, f: impl FnOnce(&mut Seen) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
}

fn failed() -> protocol::ProtocolError {
    core_mempool::MemPoolError::EncodeJson.into()
}

#[async_trait]
impl Gossip for Net {
    async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut m: M, _: Priority) -> ProtocolResult<()> {
        let b = BatchSignedTxs::decode_msg(m.encode_msg()?)?;
        self.with(|s| s.sent.push((None, end.into(), b.0.iter().map(|t| t.transaction.hash).collect())));
        Ok(())
    }

    async fn gossip<M: MessageCodec>(&self, _: Context, origin: Option<usize>, end: &str, mut m: M, _: Priority) -> ProtocolResult<()> {
        let b = BatchSignedTxs::decode_msg(m.encode_msg()?)?;
        self.with(|s| {
            s.sent.push((origin, end.into(), b.0.iter().map(|t| t.transaction.hash).collect()));
            if s.failing {
                return Err(failed());
            }
            Ok(())
        })
    }

    async fn multicast<'a, M, P>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
        P: AsRef<[Bytes]> + Send + 'a,
    {
        unreachable!()
    }
}

#[async_trait]
impl Rpc for Net {
    async fn call<M: MessageCodec, T: MessageCodec>(&self, _: Context, end: &str, mut m: M, _: Priority) -> ProtocolResult<T> {
        let m = MsgPullTxs::decode_msg(m.encode_msg()?)?;
        self.with(|s| s.calls.push((end.into(), m)));
        match self.with(|s| s.reply.clone()) {
            Some(v) => T::decode_msg(BatchSignedTxs(v).encode_msg()?),
            None => Err(failed()),
        }
    }

    async fn response<M: MessageCodec>(&self, _: Context, _: &str, _: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> {
        unreachable!()
    }
}

impl PeerTrust for Net {
    fn report(&self, ctx: Context, f: TrustFeedback) {
        self.with(|s| s.reports.push((ctx.session_id().map(|i| i.value()).unwrap_or(usize::MAX), f.to_string())))
    }
}

type Adapter = DefaultMemPoolAdapter<Secp256k1Recoverable, Net, Store, RocksTrieDB, InteroperationImpl>;

struct Place {
    disk: Disk,
    net:  Net,
    pool: Arc<MemPoolImpl<Adapter>>,
}

impl Place {
    async fn new(max_size: usize) -> Place {
        let disk = Disk::new("admission", &base().dump);
        let net = Net::default();
        let ad = Adapter::new(net.clone(), Arc::clone(&disk.storage), Arc::clone(&disk.trie), kit::CHAIN, max_size, BATCH, INTERVAL);
        let pool = Arc::new(MemPoolImpl::new(100, 20, ad, vec![]).await);
        Place { disk, net, pool }
    }

    /// The chain's latest block is this one, leaving this state.
    async fn latest(&self, number: u64, state: usize) {
        let mut b = base().chain.clone();
        b.header.number = number;
        b.header.state_root = base().roots[state];
        self.disk.storage.insert_block(Context::new(), b).await.unwrap();
    }

    fn ad(&self) -> &Adapter {
        self.pool.get_adapter()
    }
}

#[derive(Clone, Debug)]
struct Form {
    kind:  u8,
    nonce: u64,
    fee:   u64,
    tip:   u64,
    gas:   u64,
    value: U256,
    to:    Option<H160>,
    data:  usize,
    fill:  u8,
    chain: Option<u64>,
}

impl Form {
    fn price(&self) -> u64 {
        if self.kind == 2 {
            self.fee.max(self.tip)
        } else {
            self.fee
        }
    }

    fn unsigned(&self) -> UnsignedTransaction {
        let (nonce, gas_price, gas_limit) = (self.nonce.into(), self.fee.into(), self.gas.into());
        let (action, value, data) = (kit::action(self.to), self.value, Bytes::from(vec![self.fill; self.data]));
        match self.kind {
            0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
            1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: vec![] }),
            _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
                nonce,
                max_priority_fee_per_gas: self.tip.into(),
                gas_price,
                gas_limit,
                action,
                value,
                data,
                access_list: vec![],
            }),
        }
    }

    fn sign(&self, who: u8) -> SignedTransaction {
        kit::sign(self.unsigned(), self.chain, who)
    }

    fn cost(&self) -> Option<U256> {
        (U256::from(self.gas) * U256::from(self.price())).checked_add(self.value)
    }
}

fn size_of(t: &SignedTransaction) -> usize {
    t.transaction.encode().unwrap().len()
}

fn plain() -> Form {
    Form { kind: 0, nonce: NONCE, fee: 10 * GWEI, tip: 10 * GWEI, gas: 30_000, value: 5.into(), to: Some(kit::h160(0xbeef)), data: 0, fill: 1, chain: Some(kit::CHAIN) }
}

/// The transaction is grown to a number of bytes.
fn grow(f: &mut Form, who: u8, target: usize) -> SignedTransaction {
    f.data = target - size_of(&f.sign(who));
    loop {
        f.fill = f.fill % 255 + 1;
        let t = f.sign(who);
        match size_of(&t).cmp(&target) {
            std::cmp::Ordering::Equal => return t,
            std::cmp::Ordering::Less => f.data += 1,
            std::cmp::Ordering::Greater => f.data -= 1,
        }
    }
}

/// What the pool does with a transaction: in it, sent on once to all but its origin, and its peer praised,
/// or none of these.
async fn offer(p: &Place, t: &SignedTransaction, peer: Option<usize>, want: bool, what: &str) -> R {
    let h = t.transaction.hash;
    let (sent0, good0) = p.net.with(|s| (s.sent.len(), s.reports.iter().filter(|r| r.1 == "good").count()));
    let got = match peer {
        None => {
            let r = p.pool.insert(Context::new(), t.clone()).await;
            ensure_eq!(r.is_ok(), want, "admitted: {what}: {r:?}");
            r.is_ok()
        }
        Some(i) => {
            let ctx = Context::new().set_session_id(SessionId::new(i));
            NewTxsHandler::new(Arc::clone(&p.pool)).process(ctx, BatchSignedTxs(vec![t.clone()])).await;
            p.pool.get_tx_cache().contains(&h)
        }
    };
    ensure_eq!(got, want, "admitted: {what} from {peer:?}");
    ensure_eq!(p.pool.get_tx_cache().contains(&h), want, "held: {what}");
    tokio::time::sleep(std::time::Duration::from_millis(2 * INTERVAL)).await;
    let (sent, reports) = p.net.with(|s| (s.sent[sent0..].to_vec(), s.reports.clone()));
    if want {
        ensure_eq!(sent, vec![(peer, "/gossip/mempool/new_txs".to_string(), vec![h])], "sent on: {what}");
    } else {
        ensure!(sent.is_empty(), "sent on although refused: {what}: {sent:?}");
    }
    let good: Vec<usize> = reports.iter().filter(|r| r.1 == "good").map(|r| r.0).collect();
    let praised: Vec<usize> = peer.into_iter().filter(|_| want).collect();
    ensure_eq!(good[good0..].to_vec(), praised, "praised: {what}");
    Ok(())
}

fn one(k: &Check) {
    let dev = k.by_tier(2, 4);
    k.part(
        "one transaction",
        "every combination of a transaction's fields around the limits, of faults in its signature, of where it comes \
         from and what the pool knows of its sender: let in exactly if everything is in order, and sent on exactly then",
        &format!("up to {dev} of 13 fields other than in a plain valid transaction"),
    )
    .deviations(dev)
    .explore(|c| {
        runtime().block_on(async {
            let mut f = plain();
            f.kind = *c.pick_dev(&[0, 1, 2]);
            f.nonce = *c.pick_dev(&[NONCE, NONCE + 1, NONCE + 40, NONCE - 1, 0, u64::MAX]);
            (f.fee, f.tip) = *c.pick_dev(&[
                (10 * GWEI, 10 * GWEI),
                (0, 0),
                (1, 0),
                (0, 1),
                (PRICE_CAP - 1, 1),
                (PRICE_CAP, 1),
                (1, PRICE_CAP),
                (1, PRICE_CAP - 1),
                (u64::MAX, u64::MAX),
            ]);
            f.gas = *c.pick_dev(&[30_000, 20_999, 21_000, GAS_CAP, GAS_CAP + 1, 0, u64::MAX]);
            f.to = *c.pick_dev(&[Some(kit::h160(0xbeef)), None]);
            f.chain = *c.pick_dev(&[Some(kit::CHAIN), Some(kit::CHAIN + 1), Some(0), None]);
            if f.kind != 0 && f.chain.is_none() {
                // only old transactions can do without
                return Ok(());
            }
            let have = balance();
            let pay = U256::from(f.gas) * U256::from(f.price());
            f.value = match c.deviate(5) {
                0 => 5.into(),
                1 => have.saturating_sub(pay),
                2 => have.saturating_sub(pay) + 1,
                3 => U256::max_value(),
                _ => 0.into(),
            };
            let size = c.deviate(3);
            let fault = c.deviate(10);
            let peer = *c.pick_dev(&[None, Some(4)]);
            let known = *c.pick_dev(&[false, true]);
            let committed = *c.pick_dev(&[false, true]);
            let resized = *c.pick_dev(&[false, true]);

            let p = Place::new(if resized { 100 } else { SIZE }).await;
            p.latest(1, 0).await;
            if resized {
                p.pool.set_args(Context::new(), base().roots[0], GAS_CAP, SIZE as u64);
            }
            let mut t = match size {
                0 => f.sign(0),
                n => grow(&mut f, 0, SIZE + n - 1),
            };
            if known {
                // the pool has seen another transaction of this sender
                let mut other = plain();
                other.nonce = NONCE + 30;
                p.pool.insert(Context::new(), other.sign(0)).await.map_err(|e| Fail::new("the other one", e.to_string()))?;
                tokio::time::sleep(std::time::Duration::from_millis(2 * INTERVAL)).await;
            }
            let sound = fault == 0;
            if fault > 0 {
                let mut s = t.transaction.signature.clone().unwrap();
                let other = f.sign(1);
                let flip = |b: &Bytes, i: usize| {
                    let mut v = b.to_vec();
                    v[i] ^= 1;
                    Bytes::from(v)
                };
                match fault {
                    1 => s.r = flip(&s.r, 31),
                    2 => s.s = flip(&s.s, 0),
                    3 => s = other.transaction.signature.clone().unwrap(),
                    4 => t.public = other.public,
                    5 => t.public = None,
                    6 => (s.r, s.s) = (Bytes::new(), Bytes::new()),
                    7 => s.r = Bytes::from(vec![0; 3]),
                    8 => (s.r, s.s) = (Bytes::from(vec![0; 32]), Bytes::from(vec![0; 32])),
                    _ => {}
                }
                t.transaction.signature = (fault != 9).then_some(s);
                t.transaction = t.transaction.calc_hash();
                if matches!(fault, 6 | 7) {
                    // such a thing doesn't get as far as the pool
                    ensure!(SignedTransaction::from_unverified(t.transaction).is_err(), "a signature of no kind is read");
                    return Ok(());
                }
            }
            if committed {
                p.disk.storage.insert_transactions(Context::new(), 1, vec![t.clone()]).await.unwrap();
            }
            let want = f.nonce >= NONCE
                && (1..PRICE_CAP).contains(&f.price())
                && (21_000..=GAS_CAP).contains(&f.gas)
                && f.cost().map(|x| x <= have).unwrap_or(false)
                && f.chain.map(|x| x == kit::CHAIN).unwrap_or(true)
                && size != 2
                && sound
                && !committed;
            if want {
                c.nontrivial();
            }
            c.outcome(want);
            let what = format!("{f:?} fault {fault} known {known} committed {committed}");
            offer(&p, &t, peer, want, &what).await
        })
    });
}

fn system(k: &Check) {
    k.part(
        "calls of the system contracts",
        "a transaction to every system address, from validators of this epoch, of the next one, of both and from \
         others, before, at and after the change of epochs",
        "6 senders, 9 addresses, 8 heights, 2 origins",
    )
    .explore(|c| {
        runtime().block_on(async {
            let who = c.choose(6) as u8;
            let latest = *c.pick(&[0u64, 1, 8, 9, 10, 18, 19, 25]);
            let mut near = [0xff; 20];
            (near[18], near[19]) = (0xfe, 1);
            let (to, sys) = *c.pick(&[
                (system_address(0), true),
                (system_address(1), true),
                (system_address(2), true),
                (system_address(3), true),
                (system_address(4), false),
                (system_address(0xff), false),
                (H160(near), false),
                (kit::h160(2), false),
                (kit::h160(0x102), false),
            ]);
            let reserved = to.0[..19] == [0xff; 19] && !sys;
            let peer = *c.pick(&[None, Some(1)]);
            let p = Place::new(SIZE).await;
            p.latest(latest, 0).await;
            let mut f = plain();
            f.to = Some(to);
            f.nonce = [NONCE, 0, 1, 0, 0, 0][who as usize]; // sender 2 made a call before
            let t = f.sign(who);
            let validators: &[u8] = match latest + 1 {
                0..=9 => &[2, 3],
                10..=19 => &[3, 4],
                _ => &[],
            };
            let rich = who < 3;
            let want = if sys { validators.contains(&who) } else { !reserved && rich };
            if want && sys {
                c.nontrivial();
            }
            c.outcome((want, sys));
            offer(&p, &t, peer, want, &format!("sender {who} to {to:?} after block {latest}")).await
        })
    });
}

fn programs(k: &Check) {
    k.part(
        "transactions signed for a CKB-VM program",
        "signatures checked by a program in a mirrored cell: one that accepts, one that refuses, one that crashes, one \
         that counts its arguments, one that is missing; flags and lengths around; also with a sender who can't pay",
        "5 programs, 2 senders, 5 signature shapes, 2 nonces",
    )
    .explore(|c| {
        runtime().block_on(async {
            let prog = c.choose(5);
            let who = c.choose(2) as u8;
            let mut f = plain();
            f.nonce = *c.pick(&[NONCE, NONCE - 1]);
            let (flag, s_len) = *c.pick(&[(0u8, 3usize), (0, 0), (0, 64), (1, 3), (255, 3)]);
            let w = CellDepWithPubKey {
                cell_dep: CellDep { tx_hash: H256(cell(prog)), index: prog as u32, dep_type: 0 },
                pub_key:  key_of(who),
            };
            let mut r = vec![flag];
            r.extend(rlp::encode(&w));
            let utx = UnverifiedTransaction {
                unsigned:  f.unsigned(),
                chain_id:  f.chain,
                hash:      H256::zero(),
                signature: Some(SignatureComponents { r: Bytes::from(r), s: Bytes::from(vec![9; s_len]), standard_v: 0 }),
            };
            let t = SignedTransaction::from_unverified(utx.calc_hash());
            ensure_eq!(t.is_ok(), flag == 0, "a signature of a kind that isn't known");
            let Ok(t) = t else { return Ok(()) };
            ensure_eq!(t.sender, interop_sender(who), "the sender behind a CKB key");
            let p = Place::new(SIZE).await;
            p.latest(1, 0).await;
            let want = (prog == 0 || prog == 3) && who == 0 && f.nonce == NONCE;
            if want {
                c.nontrivial();
            }
            c.outcome(want);
            let what = format!("program {prog} sender {who} nonce {} flag {flag} s {s_len}", f.nonce);
            offer(&p, &t, None, want, &what).await?;
            if want {
                // the same signature under another transaction
                let mut other = f.clone();
                other.nonce += 1;
                other.value = 77.into();
                let mut u = t.transaction.clone();
                u.unsigned = other.unsigned();
                let o = SignedTransaction::from_unverified(u.calc_hash()).unwrap();
                let r = p.pool.insert(Context::new(), o).await;
                ensure!(r.is_err(), "one signature is good for any transaction: {what}");
            }
            Ok(())
        })
    });
}

fn following(k: &Check) {
    let depth = k.by_tier(4, 5);
    k.part(
        "as the chain goes on",
        "transactions of one sender offered between blocks which change its nonce and its funds: judged by the state \
         after the latest block",
        &format!("all histories of {depth} steps: 4 transactions offered, 4 states committed"),
    )
    .explore(|c| {
        runtime().block_on(async {
            let p = Place::new(SIZE).await;
            let mut state = c.choose(2);
            let mut height = 1;
            p.latest(height, state).await;
            for step in 0..depth {
                let i = c.choose(8);
                c.transition();
                if i < 4 {
                    let mut f = plain();
                    f.nonce = [NONCE, NONCE + 1, NONCE + 2, NONCE + 5][i];
                    f.value = [U256::from(step as u64), U256::exp10(16), balance() - U256::exp10(18), U256::zero()][i];
                    let (nonce, have) = accounts()[state];
                    let want = (f.nonce >= nonce && f.cost().unwrap() <= have).then(|| f.nonce - nonce);
                    let got = p.ad().check_authorization(Context::new(), &f.sign(0)).await;
                    ensure_eq!(got.as_ref().ok().map(|d| d.low_u64()), want, "judged by the latest state: {f:?} in state {state} at {height}: {got:?}");
                    c.outcome(want);
                } else {
                    height += 1;
                    if state != i - 4 {
                        c.nontrivial();
                    }
                    state = i - 4;
                    p.latest(height, state).await;
                    // what the consensus does after a block
                    p.pool.flush(Context::new(), &[], height).await.map_err(|e| Fail::new("flush", e.to_string()))?;
                    if c.flip() {
                        p.pool.set_args(Context::new(), base().roots[state], GAS_CAP, SIZE as u64);
                    }
                }
                ensure_eq!(p.ad().get_latest_height(Context::new()).await.ok(), Some(height), "the latest height");
                c.state();
            }
            Ok(())
        })
    });
}

fn sending(k: &Check) {
    let depth = k.by_tier(6, 7);
    k.part(
        "sending on",
        "transactions handed to the broadcaster with and without an origin while time passes and sending fails: every \
         one is sent once, to all but its origin, within the interval or when a batch is full",
        &format!("all histories of {depth} steps out of 6, batches of {BATCH}"),
    )
    .explore(|c| {
        runtime().block_on(async {
            let p = Place::new(SIZE).await;
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            let mut want: Vec<(Option<usize>, Hash)> = vec![];
            for step in 0..depth {
                c.transition();
                let sent0 = p.net.with(|s| s.sent.iter().map(|x| x.2.len()).sum::<usize>());
                let mut all = false;
                match c.choose(6) {
                    i @ (0 | 1 | 2) => {
                        let origin = [None, Some(1), Some(2)][i];
                        let mut f = plain();
                        f.value = (step as u64).into();
                        let t = f.sign(0);
                        // an error of an earlier batch may be told here
                        let _ = p.ad().broadcast_tx(Context::new(), origin, t.clone()).await;
                        want.push((origin, t.transaction.hash));
                        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                        if want.len() - sent0 == BATCH {
                            c.nontrivial();
                            all = true;
                        }
                    }
                    3 => {
                        tokio::time::sleep(std::time::Duration::from_millis(INTERVAL + 1)).await;
                        all = true;
                    }
                    4 => tokio::time::sleep(std::time::Duration::from_millis(INTERVAL / 2)).await,
                    _ => p.net.with(|s| s.failing = !s.failing),
                }
                let sent: Vec<(Option<usize>, Hash)> =
                    p.net.with(|s| s.sent.iter().flat_map(|(o, _, h)| h.iter().map(move |h| (*o, *h))).collect());
                let mut count: BTreeMap<(Option<usize>, Hash), usize> = BTreeMap::new();
                for s in &sent {
                    *count.entry(*s).or_default() += 1;
                    ensure!(want.contains(s), "sent on: not what was handed in: {s:?}");
                }
                ensure!(count.values().all(|n| *n == 1), "sent on: more than once");
                ensure!(want.len() - sent.len() < BATCH, "sent on: a full batch waits");
                if all {
                    ensure_eq!(sent.len(), want.len(), "sent on: all by now");
                }
                c.state();
            }
            tokio::time::sleep(std::time::Duration::from_millis(INTERVAL + 1)).await;
            let n = p.net.with(|s| s.sent.iter().map(|x| x.2.len()).sum::<usize>());
            ensure_eq!(n, want.len(), "sent on: all in the end");
            c.outcome(n);
            Ok(())
        })
    });
    k.part(
        "asking a peer",
        "the request that goes to a peer says which transactions are wanted, and the answer is what came back",
        "lists of up to 3 of 3 transactions, with and without a height, and a peer that fails",
    )
    .explore(|c| {
        runtime().block_on(async {
            let p = Place::new(SIZE).await;
            let txs: Vec<SignedTransaction> = (0..3u64)
                .map(|i| {
                    let mut f = plain();
                    f.nonce += i;
                    f.kind = i as u8;
                    f.sign(0)
                })
                .collect();
            let n = c.choose(4);
            let list: Vec<Hash> = (0..n).map(|_| c.pick(&txs).transaction.hash).collect();
            let height = *c.pick(&[None, Some(0u64), Some(300)]);
            let answer = c.flip().then(|| txs[..n].to_vec());
            p.net.with(|s| s.reply = answer.clone());
            let got = p.ad().pull_txs(Context::new(), height, list.clone()).await.ok();
            let asked = p.net.with(|s| s.calls.iter().map(|(e, m)| (e.clone(), m.height, m.hashes.clone())).collect::<Vec<_>>());
            ensure_eq!(asked, vec![("/rpc_call/mempool/pull_txs".to_string(), height, list)], "what a peer is asked for");
            c.nontrivial();
            c.outcome((n, answer.is_some()));
            ensure!(got == answer, "what a peer answered: {got:?}");
            Ok(())
        })
    });
}

pub fn run(k: &Check) {
    base();
    k.assume("CKB-VM runs its programs by its own rules, checked by D01");
    one(k);
    system(k);
    programs(k);
    following(k);
    sending(k);
}
