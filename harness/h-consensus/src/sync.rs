//! H02: a node that catches up with others ends up with their chain, whatever they send.

use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

use core_consensus::message::{PullBlockRpcHandler, PullProofRpcHandler, PullTxsRpcHandler};
use core_consensus::types::PullTxsRequest;
use core_consensus::{SyncStatus, SYNC_STATUS};
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use node::Disk;
use protocol::constants::endpoints::*;
use protocol::traits::*;
use protocol::types::*;
use protocol::ProtocolResult;

use crate::engine::{at_height, same_dump, status_right};
use crate::sim::*;

/// Whom the chooser's answers are asked from inside the network.
#[derive(Clone)]
struct Ask(*mut Chooser);
unsafe impl Send for Ask {}

impl Ask {
    fn deviate(&self, n: usize) -> usize {
        unsafe { (*self.0).deviate(n) }
    }
}

fn enc<M: MessageCodec>(mut m: M) -> ProtocolResult<Bytes> {
    m.encode_msg()
}

fn garbage(k: usize, honest: &Bytes) -> ProtocolResult<Bytes> {
    match k {
        0 => Err(refused("timeout")),
        1 => Ok(Bytes::new()),
        2 => Ok(honest.slice(..honest.len() - 1)),
        _ => Ok(Bytes::from_static(&[0xc1, 0x80])),
    }
}

const GARBAGE: usize = 4;
const BLOCKS: usize = 35;

fn forge(ch: &Chain, n: u64, k: usize) -> Option<Block> {
    let mut b = ch.block(n).clone();
    let h = &mut b.header;
    let odd = kit::h256(0x77);
    match k {
        0 => return Some(ch.block(n - 1).clone()),
        1 => return (n < ch.tip()).then(|| ch.block(n + 1).clone()),
        2 => h.prev_hash = odd,
        3 => h.proposer = kit::h160(3),
        4 => h.state_root = odd,
        5 => h.state_root = ch.state_root(n - 1),
        6 => h.transactions_root = odd,
        7 => h.signed_txs_hash = odd,
        8 => h.receipts_root = odd,
        9 => h.log_bloom = Bloom::from(BloomInput::Raw(&[1])),
        10 => h.timestamp += 1,
        11 => h.number += 1,
        12 => {
            // another's block under this number
            b = ch.block(n - 1).clone();
            b.header.number = n;
        }
        13 => h.gas_used = (h.gas_used.low_u64() + 1).into(),
        14 => h.gas_limit = 29_999_999u64.into(),
        15 => h.extra_data = vec![ExtraData { inner: Bytes::new() }],
        16 => h.base_fee_per_gas = 1u64.into(),
        17 => h.proof.round ^= 1,
        18 => h.proof.number = n,
        19 => h.proof.block_hash = odd,
        20 => h.proof.bitmap = Bytes::new(),
        21 => h.proof.signature = Bytes::new(),
        22 => h.proof = ch.proof(n),
        23 => h.call_system_script_count += 1,
        24 => h.chain_id += 1,
        25 => {
            b.tx_hashes.pop()?;
        }
        26 => {
            let t = *b.tx_hashes.last()?;
            b.tx_hashes.push(t);
        }
        27 => {
            if b.tx_hashes.len() < 2 {
                return None;
            }
            b.tx_hashes.swap(0, 1);
        }
        28 => b.tx_hashes.push(odd),
        29 => b.tx_hashes.push(ch.link(1).txs[0].transaction.hash),
        30 => {
            if b.tx_hashes.is_empty() {
                return None;
            }
            b.tx_hashes.clear();
        }
        31 => {
            // all that a block without transactions says
            if b.tx_hashes.is_empty() {
                return None;
            }
            b.tx_hashes.clear();
            h.transactions_root = txs_root(&[]);
            h.signed_txs_hash = txs_digest(&[]);
        }
        32 => h.state_root = H256::zero(),
        33 => {
            h.prev_hash = ch.block(n - 1).header.prev_hash;
        }
        _ => {
            // agreed on by other signers, just as well
            if n < 2 {
                return None;
            }
            let vals = ch.vals_at(n - 1);
            let three: Vec<u8> = vals.iter().map(|v| v.key).skip(if vals.len() > 2 { 1 } else { 0 }).collect();
            h.proof = proof(n - 1, 9, ch.proof(n - 1).block_hash, vals, &three);
        }
    }
    Some(b)
}

const PROOFS: usize = 16;

/// A proof for what was sent last, none of which is to be believed. None: not to be had here.
fn fake(ch: &Chain, n: u64, sent: &Block, k: usize) -> Option<Proof> {
    let vals = ch.vals_at(n).to_vec();
    let other = &ch.vals[(n <= ch.last0) as usize];
    let hash = Proposal::new_with_state_root(&sent.header, ch.state_root(n - 1), sent.tx_hashes.clone()).hash();
    let honest = all(&vals);
    // just too few
    let few: Vec<u8> = if vals.len() == 4 { honest[..2].to_vec() } else { vec![2] };
    let vote = |kind: u8, who: &[u8]| sign_by(&vote_digest(n, 0, kind, hash.as_bytes()), who);
    let good = proof(n, 0, hash, &vals, &honest);
    Some(match k {
        0 => ch.proof(n - 1),
        1 => {
            if n == ch.tip() {
                return None;
            }
            ch.proof(n + 1)
        }
        2 => Proof::default(),
        3 => proof(n, 0, hash, &vals, &few),
        4 => Proof { bitmap: bitmap(&vals, &honest), ..proof(n, 0, hash, &vals, &few) },
        5 => Proof { signature: vote(1, &honest), ..good },
        6 => proof(n, 0, hash, other, &all(other)),
        7 => Proof { number: n - 1, ..good },
        8 => Proof { round: 1, ..good },
        9 => Proof { bitmap: Bytes::from(vec![0; 9]), ..good },
        10 => Proof { bitmap: Bytes::new(), ..good },
        11 => Proof { signature: Bytes::new(), ..good },
        // signed by those who are no validators
        12 => Proof { signature: vote(2, &[5, 6, 7]), ..good },
        13 => Proof { bitmap: bitmap(&vals, &[]), ..good },
        14 => Proof { block_hash: kit::h256(0x77), ..good },
        _ => proof(n, 0, kit::h256(0x77), &vals, &honest),
    })
}

const TXS: usize = 12;

fn corrupt(ch: &Chain, txs: &[SignedTransaction], k: usize) -> Option<Vec<SignedTransaction>> {
    let mut v = txs.to_vec();
    let alien = ch.links.iter().flat_map(|l| &l.txs).find(|t| !txs.contains(t)).unwrap().clone();
    match k {
        0 => {
            v.pop()?;
        }
        1 => v.clear(),
        2 => v.push(alien),
        3 => {
            let t = v.last()?.clone();
            v.push(t);
        }
        4 => v.reverse(),
        5 => v[0].sender = kit::h160(9),
        6 => v[0].public = None,
        7 => v[0].transaction.signature = None,
        8 => {
            // says to be the other, but isn't
            let hash = v[0].transaction.hash;
            v[0] = alien;
            v[0].transaction.hash = hash;
        }
        9 => v[0] = alien,
        10 => v[0].transaction.hash = kit::h256(0x77),
        _ => {
            if let UnsignedTransaction::Legacy(t) = &mut v[0].transaction.unsigned {
                t.value += 1.into();
            }
        }
    }
    Some(v)
}

struct Peer {
    sent:   Block,
    asked:  Vec<(u64, char)>,
    wrong:  bool,
    nested: Vec<String>,
}

/// Answers as the chain is, unless the chooser spends a deviation.
fn peer(ch: &'static Chain, tip: u64, ask: Option<Ask>, busy: Option<Arc<Node>>) -> (Arc<Mutex<Peer>>, impl FnMut(&str, Bytes) -> ProtocolResult<Bytes> + Send) {
    let p = Arc::new(Mutex::new(Peer { sent: ch.block(0).clone(), asked: vec![], wrong: false, nested: vec![] }));
    let q = Arc::clone(&p);
    let dev = move |n: usize| ask.as_ref().map_or(0, |a| a.deviate(n));
    let f = move |end: &str, msg: Bytes| -> ProtocolResult<Bytes> {
        let mut p = q.lock().unwrap();
        if let Some(node) = &busy {
            // meanwhile overlord wants to commit, and someone else tells of a block
            let s = node.status.inner().last_number;
            for n in [s, s + 1] {
                if (1..=ch.tip()).contains(&n) {
                    let l = ch.link(n);
                    p.nested.push(match commit_now(node, &l.proposal, &l.proof) {
                        Ok(_) => format!("{n} is committed"),
                        Err(_) => String::new(),
                    });
                }
            }
            let asked = p.asked.len();
            drop(p);
            let r = futures::executor::block_on(node.sync.receive_remote_block(cx(), ch.tip()));
            p = q.lock().unwrap();
            if r.is_err() || p.asked.len() != asked {
                p.nested.push("two sessions at once".into());
            }
        }
        match end {
            RPC_SYNC_PULL_BLOCK => {
                let n = BlockNumber::decode_msg(msg)?;
                p.asked.push((n, 'b'));
                if n > tip {
                    return Err(refused("no such block"));
                }
                let honest = ch.block(n).clone();
                p.sent = honest.clone();
                let k = dev(1 + GARBAGE + BLOCKS);
                if k == 0 {
                    return enc(honest);
                }
                p.wrong = true;
                if k <= GARBAGE {
                    return garbage(k - 1, &enc(honest)?);
                }
                match forge(ch, n, k - 1 - GARBAGE) {
                    Some(b) => {
                        p.sent = b.clone();
                        enc(b)
                    }
                    None => Err(refused("nothing to forge")),
                }
            }
            RPC_SYNC_PULL_PROOF => {
                let n = BlockNumber::decode_msg(msg)?;
                p.asked.push((n, 'p'));
                if n > tip {
                    return Err(refused("no such proof"));
                }
                let honest = ch.proof(n);
                let k = dev(1 + GARBAGE + PROOFS);
                if k == 0 {
                    return enc(honest);
                }
                p.wrong = true;
                if k <= GARBAGE {
                    return garbage(k - 1, &enc(honest)?);
                }
                match fake(ch, n, &p.sent, k - 1 - GARBAGE) {
                    Some(b) => enc(b),
                    None => Err(refused("nothing to forge")),
                }
            }
            RPC_SYNC_PULL_TXS => {
                let PullTxsRequest { height, inner } = PullTxsRequest::decode_msg(msg)?;
                p.asked.push((height, 't'));
                let honest: Vec<SignedTransaction> =
                    ch.links.iter().flat_map(|l| &l.txs).filter(|t| inner.contains(&t.transaction.hash)).cloned().collect();
                let k = dev(1 + GARBAGE + TXS);
                if k == 0 || honest.is_empty() {
                    return enc(BatchSignedTxs(honest));
                }
                p.wrong = true;
                if k <= GARBAGE {
                    return garbage(k - 1, &enc(BatchSignedTxs(honest))?);
                }
                match corrupt(ch, &honest, k - 1 - GARBAGE) {
                    Some(v) => enc(BatchSignedTxs(v)),
                    None => Err(refused("nothing to forge")),
                }
            }
            _ => panic!("an unknown request {end}"),
        }
    };
    (p, f)
}

fn session(node: &Node, t: u64) -> Result<Result<(), String>, Fail> {
    mc::no_panic(|| block_on(node.sync.receive_remote_block(cx(), t)).map_err(|e| e.to_string())).map_err(|e| Fail::new("catching up panics", e))
}

/// The node is at some block of the chain, and everything about it says the same.
fn settled(node: &Node, ch: &Chain, from: u64, to: u64, what: &str) -> Result<u64, Fail> {
    let n = node.status.inner().last_number;
    ensure!(n >= from && n <= to, "the height after catching up: {n}, of {from} to {to}, {what}");
    same_dump(&node.dump(), ch.dump(n)).map_err(|e| Fail::new("the database after catching up", format!("at {n} of {from} to {to}, {what}: {e}")))?;
    at_height(node, ch, n)?;
    Ok(n)
}

fn informed(node: &Node, ch: &Chain, from: u64, n: u64) -> Result<(), Fail> {
    let told = node.told();
    ensure!(told.len() == 1, "how often overlord is told: {}", told.len());
    status_right(node, ch, n, &told[0])?;
    let flushed = node.pool.with(|p| std::mem::take(&mut p.flushed));
    let want: Vec<(u64, Vec<Hash>)> = (from + 1..=n).map(|m| (m, ch.block(m).tx_hashes.clone())).collect();
    ensure_eq!(flushed, want, "what the pool is told of, from {from} to {n}");
    Ok(())
}

fn pooled(node: &Node, ch: &Chain, n: u64, k: usize) {
    for (i, t) in ch.links.iter().skip(n as usize).flat_map(|l| &l.txs).enumerate() {
        if k == 1 || k == 2 && i % 2 == 0 {
            block_on(node.pool.insert(cx(), t.clone())).unwrap();
        }
    }
}

fn faults(check: &Check, forged: bool) {
    let thorough = check.thorough();
    check
        .part(
            if forged { "forged" } else { "faults" },
            "the node is sent something wrong",
            if forged {
                "a node at each height of the chain hears of the next (thorough: and the one after that) and holds all its transactions (thorough: or none, or half); up                  to two answers are wrong, in every combination: forged blocks together with proofs for them; then it is asked again and answered honestly"
            } else {
                "a node at each height of a chain of five blocks (validators change after the third, settings with the fourth) hears of the next or the last (thorough:                  of each later one), holds none or half (thorough: or all) of the transactions, and asks others; one answer is wrong in one of 39 (blocks), 20 (proofs)                  or 16 (transactions) ways; then it is asked again and answered honestly"
            },
        )
        .deviations(if forged { 2 } else { 1 })
        .explore(move |c| {
            let ch = chain();
            let s = c.choose(ch.tip() as usize) as u64;
            let ahead = ch.tip() - s;
            let t = match (forged, thorough) {
                (true, false) => s + 1,
                (true, true) => s + 1 + c.choose(ahead.min(2) as usize) as u64,
                (false, true) => s + 1 + c.choose(ahead as usize) as u64,
                (false, false) => [s + 1, ch.tip()][c.choose(ahead.min(2) as usize)],
            };
            let held = match (forged, thorough) {
                (true, false) => 1,
                (false, false) => [0, 2][c.choose(2)],
                _ => c.choose(3),
            };
            let node = Node::start(2, Disk::new("n", ch.dump(s)), &scratch("n"));
            if s > 0 {
                // overlord, started again, commits the last block once more
                commit(&node, &ch.link(s).proposal, &ch.proof(s)).map_err(|e| Fail::new("a node started again", e))?;
                node.told();
            }
            pooled(&node, ch, s, held);
            let (p, f) = peer(ch, ch.tip(), Some(Ask(c)), None);
            node.serve(f);
            let r = session(&node, t)?;
            let wrong = p.lock().unwrap().wrong;
            if wrong {
                c.nontrivial();
            }
            let n = settled(&node, ch, s, t, "after wrong answers")?;
            informed(&node, ch, s, n)?;
            match &r {
                Ok(()) => ensure!(n == t, "a session is said to succeed: at {n} instead of {t}"),
                Err(e) => {
                    ensure!(wrong, "a session among honest nodes fails: {e}");
                    ensure!(n < t, "a session is said to fail: {e}");
                }
            }
            c.outcome((s, t, n, held, r.is_ok()));
            if n < t {
                let (_, f) = peer(ch, ch.tip(), None, None);
                node.serve(f);
                session(&node, t)?.map_err(|e| Fail::new("a session among honest nodes fails", e))?;
                let m = settled(&node, ch, t, t, "after wrong answers, and right ones")?;
                informed(&node, ch, n, m)?;
            }
            // nothing new
            for m in 0..=t {
                let before = p.lock().unwrap().asked.len();
                session(&node, m)?.map_err(|e| Fail::new("a known height", e))?;
                ensure!(p.lock().unwrap().asked.len() == before, "a known height is asked for");
            }
            // goes on as a validator
            if t < ch.tip() {
                let l = ch.link(t + 1);
                for x in &l.txs {
                    block_on(node.pool.insert(cx(), x.clone())).unwrap();
                }
                let hash = Bytes::from(l.proposal.hash().as_bytes().to_vec());
                use overlord::Consensus;
                block_on(node.engine.check_block(cx(), t + 1, hash, l.proposal.clone())).map_err(|e| Fail::new("a good proposal is refused after catching up", e.to_string()))?;
                let told = commit(&node, &l.proposal, &l.proof).map_err(|e| Fail::new("a commit after catching up", e))?;
                status_right(&node, ch, t + 1, &told)?;
                settled(&node, ch, t + 1, t + 1, "after one more commit")?;
            }
            Ok(())
        });
}

fn crashes(check: &Check) {
    check
        .part(
            "crash",
            "the node stops in between",
            "a node at each height catches up with each later one and stops after each write to its database; started again, it catches up",
        )
        .explore(|c| {
            let ch = chain();
            let s = c.choose(ch.tip() as usize) as u64;
            let t = s + 1 + c.choose((ch.tip() - s) as usize) as u64;
            let wal = scratch("n");
            let disk = Disk::new("n", ch.dump(s));
            let path = disk.path.clone();
            let node = Node::start(2, disk, &wal);
            let (_, f) = peer(ch, ch.tip(), None, None);
            node.serve(f);
            rocksdb::control::checkpoint(&path);
            session(&node, t)?.map_err(|e| Fail::new("a session among honest nodes fails", e))?;
            settled(&node, ch, t, t, "")?;
            let writes = rocksdb::control::journal_len(&path);
            let k = c.choose(writes + 1);
            drop(node);
            rocksdb::control::truncate(&path, k);
            let node = Node::start(2, Disk::open(path), &wal);
            let h = node.status.inner().last_number;
            ensure!(h >= s && h <= t, "the height after a crash: {h}, from {s} to {t}");
            if k < writes {
                c.nontrivial();
            }
            let (_, f) = peer(ch, ch.tip(), None, None);
            node.serve(f);
            if h < t {
                if c.flip() {
                    // overlord goes on with the block after
                    let l = ch.link(h + 1);
                    for x in &l.txs {
                        block_on(node.pool.insert(cx(), x.clone())).unwrap();
                    }
                    commit(&node, &l.proposal, &l.proof).map_err(|e| Fail::new("a commit after a crash while catching up", e))?;
                }
                let at = node.status.inner().last_number;
                if at < t {
                    session(&node, t)?.map_err(|e| Fail::new("a session after a crash fails", format!("{k} of {writes} writes: {e}")))?;
                }
            }
            settled(&node, ch, t, t, &format!("after {k} of {writes} writes and a restart"))?;
            c.outcome((s, t, k));
            Ok(())
        });
}

fn answer<M: MessageCodec + 'static>(node: &Node, h: &impl MessageHandler<Message = M>, msg: Bytes) -> ProtocolResult<Bytes> {
    let m = M::decode_msg(msg)?;
    futures::executor::block_on(h.process(cx(), m));
    let (_, r) = node.net.with(|w| w.responses.pop()).expect("no response");
    r.map_err(|e| refused(&e))
}

/// Answers as the node does.
fn from_node(node: Arc<Node>) -> impl FnMut(&str, Bytes) -> ProtocolResult<Bytes> + Send {
    let b = PullBlockRpcHandler::new(Arc::clone(&node.net), Arc::clone(&node.disk.storage));
    let p = PullProofRpcHandler::new(Arc::clone(&node.net), Arc::clone(&node.disk.storage));
    let t = PullTxsRpcHandler::new(Arc::clone(&node.net), Arc::clone(&node.disk.storage));
    move |end, msg| match end {
        RPC_SYNC_PULL_BLOCK => answer(&node, &b, msg),
        RPC_SYNC_PULL_PROOF => answer(&node, &p, msg),
        RPC_SYNC_PULL_TXS => answer(&node, &t, msg),
        _ => panic!("an unknown request {end}"),
    }
}

fn relay(check: &Check) {
    check
        .part(
            "relay",
            "a node got there in more than one way",
            "a node reaches each height of the chain by committing or catching up, block by block in every combination, maybe started again at any height; another \
             node, at each lower height, catches up from that node's own answers, and a third one from the second's",
        )
        .explore(|c| {
            let ch = chain();
            let t = 1 + c.choose(ch.tip() as usize) as u64;
            let how = c.choose(1 << t);
            let restart = c.choose(t as usize + 1) as u64;
            let wal = scratch("a");
            let mut node = Node::start(2, Disk::new("a", ch.dump(0)), &wal);
            if how > 0 && how < (1 << t) - 1 || restart > 0 {
                c.nontrivial();
            }
            for n in 1..=t {
                if how >> (n - 1) & 1 == 1 {
                    let l = ch.link(n);
                    for x in &l.txs {
                        block_on(node.pool.insert(cx(), x.clone())).unwrap();
                    }
                    commit(&node, &l.proposal, &l.proof).map_err(|e| Fail::new("a commit after catching up", e))?;
                } else {
                    let (_, f) = peer(ch, n, None, None);
                    node.serve(f);
                    session(&node, n)?.map_err(|e| Fail::new("a session among honest nodes fails", e))?;
                }
                if restart == n {
                    let path = node.disk.path.clone();
                    drop(node);
                    node = Node::start(2, Disk::open(path), &wal);
                }
                settled(&node, ch, n, n, "one way or the other")?;
            }
            let mut first = Arc::new(node);
            for (i, name) in [(0, "b"), (1, "c")] {
                let s = if i == 0 { c.choose(t as usize) as u64 } else { 0 };
                let second = Node::start(2, Disk::new(name, ch.dump(s)), &scratch(name));
                second.serve(from_node(Arc::clone(&first)));
                session(&second, t)?.map_err(|e| Fail::new("a session with an honest node fails", format!("{name} from {s} to {t}: {e}")))?;
                settled(&second, ch, t, t, "from a node that got there its own way")?;
                informed(&second, ch, s, t)?;
                first = Arc::new(second);
            }
            // what a node has not
            let f = &mut from_node(Arc::clone(&first));
            for n in [t + 1, u64::MAX] {
                ensure!(f(RPC_SYNC_PULL_BLOCK, enc(n).unwrap()).is_err(), "a block that isn't there: {n}");
                ensure!(f(RPC_SYNC_PULL_PROOF, enc(n).unwrap()).is_err(), "a proof that isn't there: {n}");
            }
            for n in 1..=t {
                let pr = Proof::decode_msg(f(RPC_SYNC_PULL_PROOF, enc(n).unwrap()).map_err(|e| Fail::new("a proof that is there", e.to_string()))?).unwrap();
                ensure_eq!(pr, ch.proof(n), "the proof of {n}, asked of a node at {t}");
            }
            c.outcome((t, how.count_ones(), restart));
            Ok(())
        });
}

fn busy(check: &Check) {
    check
        .part(
            "busy",
            "overlord commits, or others tell of blocks, in the middle of it",
            "a node at each height catches up with each later one; at each of its questions overlord asks to commit the block it is at and the next, and another peer \
             tells of a height; progress as reported to users at each question",
        )
        .serial()
        .explore(|c| {
            let ch = chain();
            let s = c.choose(ch.tip() as usize) as u64;
            let t = s + 1 + c.choose((ch.tip() - s) as usize) as u64;
            let node = Arc::new(Node::start(2, Disk::new("n", ch.dump(s)), &scratch("n")));
            let seen: Arc<Mutex<BTreeSet<(u64, String)>>> = Default::default();
            let (p, mut f) = peer(ch, ch.tip(), None, Some(Arc::clone(&node)));
            {
                let seen = Arc::clone(&seen);
                let storage = Arc::clone(&node.disk.storage);
                node.serve(move |end, msg| {
                    let at = futures::executor::block_on(storage.get_latest_block_header(cx())).unwrap().number;
                    seen.lock().unwrap().insert((at, format!("{:?}", SYNC_STATUS.read().clone())));
                    f(end, msg)
                });
            }
            c.nontrivial();
            session(&node, t)?.map_err(|e| Fail::new("a session among honest nodes fails", e))?;
            let nested: Vec<String> = p.lock().unwrap().nested.iter().filter(|s| !s.is_empty()).cloned().collect();
            ensure!(nested.is_empty(), "in the middle of a session: {nested:?}");
            settled(&node, ch, t, t, "while busy")?;
            informed(&node, ch, s, t)?;
            let want: BTreeSet<(u64, String)> = (s..t)
                .map(|n| (n, format!("{:?}", SyncStatus::Syncing { start: s.into(), current: n.into(), highest: t.into() })))
                .collect();
            ensure_eq!(*seen.lock().unwrap(), want, "the progress reported from {s} to {t}");
            ensure_eq!(*SYNC_STATUS.read(), SyncStatus::False, "the progress reported afterwards");
            // a commit holds up a session
            let guard = node.lock.try_lock().unwrap();
            let asked = p.lock().unwrap().asked.len();
            if t < ch.tip() {
                session(&node, ch.tip())?.map_err(|e| Fail::new("a session while committing", e))?;
                ensure!(p.lock().unwrap().asked.len() == asked, "a session while committing");
            }
            drop(guard);
            node.net.with(|w| w.serve = None);
            c.outcome((s, t));
            Ok(())
        });
}

pub fn run(check: &Check) {
    faults(check, false);
    faults(check, true);
    crashes(check);
    relay(check);
    busy(check);
    clean();
}
