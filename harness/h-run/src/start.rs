//! K02: a node that is started continues where its chain stands.
use std::sync::OnceLock;

use common_crypto::PublicKey;
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use node::{val, Disk, Genesis, Val};
use overlord::Crypto;
use protocol::traits::{Context, Storage};
use protocol::types::*;
use rocksdb::control;
use run_consensus::{stop_signal::StopOpt, SignedTxsWAL};

use tentacle::multiaddr::Multiaddr;

use crate::world::*;

const STRANGER: u8 = 6;

fn peer(i: u8) -> String {
    use core_network::PeerIdExt;
    core_network::PeerId::from_pubkey_bytes(node::public(i)).unwrap().to_base58()
}

fn sets() -> [Vec<Val>; 4] {
    [vec![val(0, 1, 1)], vec![val(1, 1, 1)], vec![val(2, 3, 4), val(0, 1, 2), val(1, 2, 1)], vec![val(1, 1, 1), val(3, 1, 1)]]
}

/// Chains of two epochs, of blocks up to 2 and up to 5.
fn genesis(a: usize, b: usize) -> &'static Genesis {
    static ALL: OnceLock<Vec<Genesis>> = OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut all = vec![];
        for a in 0..4 {
            for b in 0..4 {
                let mut m0 = node::metadata(0, 0, 2, &sets()[a]);
                let mut m1 = node::metadata(1, 3, 5, &sets()[b]);
                m1.consensus_config.interval = 1500;
                m1.consensus_config.propose_ratio = 21;
                m1.consensus_config.prevote_ratio = 22;
                m1.consensus_config.precommit_ratio = 23;
                m1.consensus_config.brake_ratio = 24;
                m1.consensus_config.tx_num_limit = 777;
                m1.consensus_config.max_tx_size = 3000;
                m1.consensus_config.gas_limit = 20_000_000;
                // the settings of the consensus are those appended last, for every epoch
                m0.consensus_config = m1.consensus_config.clone();
                all.push(node::genesis(&format!("start-{a}-{b}"), &[(10, (1u64 << 62).into()), (11, (1u64 << 62).into())], [m0, m1]));
            }
        }
        all
    });
    &all[a * 4 + b]
}

fn proof(n: u64) -> Proof {
    Proof { number: n, round: n % 3, block_hash: kit::h256(n + 50), signature: Bytes::from(vec![n as u8; 96]), bitmap: Bytes::from(vec![0x80]) }
}

/// Blocks without transactions on top of a genesis.
pub fn extend(path: &std::path::Path, genesis: Block, tip: u64) -> Vec<Block> {
    let disk = Disk::open(path.to_owned());
    let mut blocks = vec![genesis];
    for n in 1..=tip {
        let last = blocks.last().unwrap();
        let mut header = last.header.clone();
        header.prev_hash = last.hash();
        header.number = n;
        header.timestamp = n;
        header.proof = if n > 1 { proof(n - 1) } else { Proof::default() };
        let block = Block { header, tx_hashes: vec![] };
        node::rt().block_on(async {
            disk.storage.update_latest_proof(Context::new(), proof(n)).await.unwrap();
            disk.storage.insert_transactions(Context::new(), n, vec![]).await.unwrap();
            disk.storage.insert_receipts(Context::new(), n, vec![]).await.unwrap();
            disk.storage.insert_block(Context::new(), block.clone()).await.unwrap();
        });
        blocks.push(block);
    }
    blocks
}

/// A data directory of a node whose chain has the given height.
fn directory(g: &Genesis, tip: u64) -> (Dir, Vec<Block>) {
    let dir = Dir::new();
    let path = dir.0.join("rocksdb");
    std::fs::create_dir_all(&path).unwrap();
    control::load(&path, g.dump.clone());
    let blocks = extend(&path, g.block.clone(), tip);
    (dir, blocks)
}

fn tx(i: u64) -> SignedTransaction {
    let who = 10 + (i % 2) as u8;
    kit::sign(kit::legacy(i / 2, 1_000_000_000 + i, 21_000, Some(kit::h160(i)), 1, &[]), Some(kit::CHAIN), who)
}

fn keep<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, Fail> {
    r.map_err(|e| Fail::new("the node does not start", format!("{what}: {e}")))
}

fn starts(c: &mut Chooser, sets_used: usize) -> Result<(), Fail> {
    let (a, b) = (c.choose(sets_used), c.choose(sets_used));
    let tip = c.choose(4) as u64;
    let me = *c.pick(&[0u8, 1, STRANGER]);
    // what distinguishes the start, one thing at a time
    let wal = c.deviate(8);
    let announced = c.deviate(2) == 1;
    let rpc = *c.pick_dev(&[(true, true), (true, false), (false, true), (false, false)]);
    let stop = c.deviate(5);
    c.note(|| format!("validators {a} then {b}, tip {tip}, node {me}, wal {wal:03b}, announced {announced}, rpc {rpc:?}, stop {stop}"));
    let g = genesis(a, b);
    let (dir, blocks) = directory(g, tip);
    let last = blocks.last().unwrap().clone();
    let vals = &sets()[if tip + 1 <= 2 { a } else { b }];
    let meta = &g.metas[if tip + 1 <= 2 { 0 } else { 1 }];
    if tip == 2 {
        c.nontrivial();
    }
    // transactions that were part of proposals for the last, the next and a later block
    let w = SignedTxsWAL::new(dir.0.join("txs_wal").to_str().unwrap().to_owned());
    for k in 0..3u64 {
        if wal & (1 << k) > 0 {
            c.nontrivial();
            keep(w.save(tip + k, kit::h256(k), vec![tx(2 * k), tx(2 * k + 1)]), "cannot save the log of transactions")?;
        }
    }
    let info = HardforkInfoInner { block_number: tip + 3, flags: kit::h256(1) };
    if announced {
        let disk = Disk::open(dir.0.join("rocksdb"));
        keep(node::rt().block_on(disk.storage.set_hardfork_proposal(Context::new(), info.clone())), "cannot announce")?;
    }
    let before = control::dump(&dir.0.join("rocksdb"));
    let opt = match stop {
        0 => None,
        1 => Some(StopOpt::MineNBlocks(1)),
        2 => Some(StopOpt::MineNBlocks(3)),
        3 => Some(StopOpt::MineToHeight(tip + 2)),
        _ => Some(StopOpt::MineToHeight(tip)),
    };
    let target = [None, Some(tip + 1), Some(tip + 3), Some(tip + 2), Some(tip)][stop];
    let vals = vals.clone();
    let meta = meta.clone();
    c.transition();
    let (r, seen) = run_node(config(&dir, me, rpc), opt, move |s, net| async move { looks(s, net, tip, me, last, vals, meta, wal, announced.then_some(info), rpc, target).await });
    keep(r, "the node stops with")?;
    match seen {
        Some(r) => r?,
        None => return Err(Fail::new("the consensus is not started", String::new())),
    }
    let after = control::dump(&dir.0.join("rocksdb"));
    for (column, was) in &before {
        for (k, v) in was {
            ensure!(after[column].get(k) == Some(v), "starting the node changed what it had stored: {} {}", column, rf::hex(k));
        }
    }
    c.outcome((a, b, tip, me));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
async fn looks(
    s: run_consensus::Started,
    net: Option<tentacle::sim::Node>,
    tip: u64,
    me: u8,
    last: Block,
    vals: Vec<Val>,
    meta: Metadata,
    wal: usize,
    announced: Option<HardforkInfoInner>,
    rpc: (bool, bool),
    target: Option<u64>,
) -> Result<(), Fail> {
    // where the consensus continues, and with whom
    ensure_eq!(s.height, tip, "height");
    let got: Vec<_> = s.validators.iter().map(|v| (v.pub_key.clone(), v.propose_weight, v.vote_weight)).collect();
    let want: Vec<_> = vals.iter().map(|v| (node::public(v.key), v.propose, v.vote)).collect();
    ensure!(got == want, "the next block is not left to its validators: {} of them instead of {:?}, after block {}", got.len(), vals, tip);
    let k = &meta.consensus_config;
    ensure_eq!(s.interval, k.interval, "interval of the next block");
    let t = s.timer.as_ref().ok_or_else(|| Fail::new("no timer is set", String::new()))?;
    ensure!(
        (t.propose_ratio, t.prevote_ratio, t.precommit_ratio, t.brake_ratio) == (k.propose_ratio, k.prevote_ratio, k.precommit_ratio, k.brake_ratio),
        "the timers are not those of the next block: {} {} {} {}", t.propose_ratio, t.prevote_ratio, t.precommit_ratio, t.brake_ratio
    );
    let st = s.status.inner();
    ensure!(st.prev_hash == last.hash() && st.last_number == tip && st.last_state_root == last.header.state_root, "the status is not that of the last block: {:?}", st);
    ensure!(st.proof == if tip == 0 { Proof::default() } else { proof(tip) }, "the status has another proof: {:?}", st.proof);
    ensure!(st.tx_num_limit == k.tx_num_limit && st.max_tx_size == k.max_tx_size.into(), "the limits are not those of the next block: {:?}", st);
    // who the node is, and whose signatures it knows
    ensure!(s.node_info.chain_id == kit::CHAIN && s.node_info.self_pub_key.to_bytes() == node::public(me), "the node is another");
    let shown = s.node_info.hardfork_proposals.read().unwrap().clone();
    ensure!(shown == announced, "the node announces another hardfork: {:?} instead of {:?}", shown, announced);
    let digest = Bytes::from(rf::keccak256(b"x").to_vec());
    for i in 0..=STRANGER {
        let sig = {
            let own = run_consensus::util::OverlordCrypto::new(node::bls_key(i), Default::default(), String::new());
            own.sign(digest.clone()).map_err(|e| Fail::new("cannot sign", e.to_string()))?
        };
        if i == me {
            let same = s.crypto.sign(digest.clone()).map_err(|e| Fail::new("cannot sign", e.to_string()))?;
            ensure!(same == sig, "the node signs with another key");
        }
        let known = s.crypto.verify_signature(sig, digest.clone(), node::public(i)).is_ok();
        ensure!(known == vals.iter().any(|v| v.key == i), "a signature of {} is {} for the block after {}", i, if known { "accepted" } else { "refused" }, tip);
    }
    // the pool holds what was proposed for the next block
    let mut want: Vec<Hash> = if wal & 2 > 0 { vec![tx(2).transaction.hash, tx(3).transaction.hash] } else { vec![] };
    let found = s.adapter.get_full_txs(Context::new(), &want).await;
    ensure!(found.is_ok(), "the transactions proposed for the next block are lost: {:?}", found.err().map(|e| e.to_string()));
    let mut packed = s
        .adapter
        .get_txs_from_mempool(Context::new(), tip + 1, 30_000_000u64.into(), 100)
        .await
        .map_err(|e| Fail::new("the pool cannot be asked", e.to_string()))?
        .hashes;
    packed.sort();
    want.sort();
    // a pool that waits for the account's state may hold back, but nothing else may be in it
    ensure!(packed.iter().all(|h| want.contains(h)), "the pool holds transactions proposed for other blocks: {:?}", packed);
    // what users see
    for (on, addr) in [(rpc.0, HTTP), (rpc.1, WS)] {
        let n = ask(addr, "eth_blockNumber", "[]").await;
        let expect = if on { format!("\"{}\"", rf::quantity(tip)) } else { "no server".into() };
        ensure!(n == expect, "the height told to users is {} instead of {}", n, expect);
        if on {
            ensure_eq!(ask(addr, "eth_chainId", "[]").await, format!("\"{}\"", rf::quantity(kit::CHAIN)), "chain id told to users");
            let balance = ask(addr, "eth_getBalance", &format!("[\"0x{}\", \"latest\"]", rf::hex(kit::sender(10).as_bytes()))).await;
            ensure_eq!(balance, format!("\"{}\"", rf::quantity(1 << 62)), "balance told to users");
        }
    }
    let chain = **protocol::lazy::CHAIN_ID.load();
    ensure_eq!(chain, kit::CHAIN, "chain id new transactions are checked for");
    // whom the network looks for
    let net = net.ok_or_else(|| Fail::new("no network", String::new()))?;
    let peers = &net.handle.any().downcast_ref::<core_network::ServiceHandler>().unwrap().peer_store;
    for i in 0..=STRANGER {
        let a: Multiaddr = format!("/ip4/47.1.1.{}/tcp/1/p2p/{}", i + 1, peer(i)).parse().unwrap();
        peers.with_peer_store_mut(|b| {
            b.add_outbound_addr(a.clone());
            b.mut_addr_manager().get_mut(&a).unwrap().mark_connected(faketime::unix_time_as_millis() - 60_000);
        });
    }
    let looked: std::collections::BTreeSet<String> = peers.unconnected_consensus_peer().iter().map(|a| a.to_string()).collect();
    for i in (0..=STRANGER).filter(|i| *i != me) {
        let there = looked.iter().any(|a| a.ends_with(&peer(i)));
        ensure!(there == vals.iter().any(|v| v.key == i), "the network looks for {} as a validator of block {}: {}", i, tip + 1, there);
    }
    // it stops where it was told to
    for h in tip..=tip + 4 {
        if h == tip && target != Some(tip) {
            continue;
        }
        s.stop.check_height_and_send(h);
        let over = target.is_some_and(|t| h >= t);
        ensure!(s.stop.is_stopped() == over, "the node is {} after block {}, told to stop at {:?}", if over { "still there" } else { "gone" }, h, target);
        if over {
            break;
        }
    }
    Ok(())
}

pub fn run(check: &Check) {
    let sets_used = check.by_tier(3, 4);
    check
        .part(
            "start",
            "the last block ends its epoch, or there are transactions in the log",
            "chains of up to four blocks in two epochs (3 x 3 validator sets, 4 x 4 when thorough) x the node is one of two validators or a stranger x one of: \
             a log of transactions for the last, next or a later block, an announced hardfork, RPC over one, both or no transport, a height to stop at",
        )
        .deviations(check.by_tier(1, 2))
        .serial()
        .explore(|c| starts(c, sets_used));
}
