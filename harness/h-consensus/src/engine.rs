//! H03: what a validator agrees to, and that agreeing doesn't stop the chain.

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use core_network::{PeerId, PeerIdExt};
use node::Disk;
use overlord::Consensus;
use protocol::traits::*;
use protocol::types::*;

use crate::sim::*;

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

/// Ways to spoil a proposal; whether the result is still one to agree to.
pub const SPOILS: usize = 33;

pub struct Offer {
    pub next:     u64,
    pub hash:     Bytes,
    pub proposal: Proposal,
    pub txs:      Vec<SignedTransaction>,
}

fn settle(o: &mut Offer) {
    o.hash = Bytes::from(o.proposal.hash().as_bytes().to_vec());
}

fn set_txs(o: &mut Offer, txs: Vec<SignedTransaction>) {
    o.proposal.tx_hashes = txs.iter().map(|t| t.transaction.hash).collect();
    o.proposal.transactions_root = txs_root(&o.proposal.tx_hashes);
    o.proposal.signed_txs_hash = txs_digest(&txs);
    o.txs = txs;
}

fn hardfork(n: u64, flag: u64) -> HardforkInfoInner {
    HardforkInfoInner { block_number: n, flags: kit::h256(flag) }
}

fn extra(h: &HardforkInfoInner) -> ExtraData {
    use protocol::codec::ProtocolCodec;
    ExtraData { inner: h.encode().unwrap() }
}

/// None: it says the same still.
pub fn spoil(o: &mut Offer, k: usize, ch: &Chain, own_fork: &Option<HardforkInfoInner>) -> Option<bool> {
    let n = o.proposal.number;
    let prev = ch.block(n - 1).header.timestamp;
    let p = &mut o.proposal;
    let mut ok = false;
    match k {
        0 => return None,
        1 => p.prev_hash = kit::h256(3),
        2 => p.prev_state_root = kit::h256(3),
        3 => p.prev_state_root = if n > 1 { ch.state_root(n - 2) } else { H256::zero() },
        4 => p.transactions_root = kit::h256(3),
        5 => p.signed_txs_hash = kit::h256(3),
        6 => p.timestamp = prev.wrapping_sub(1),
        7 => {
            p.timestamp = prev;
            ok = true;
        }
        8 => p.timestamp = now() + 60,
        9 => p.timestamp = u64::MAX,
        10 => p.number = n + 1,
        11 => p.number = n.saturating_sub(1),
        12 => p.number = 0,
        13 => p.proof.number = u64::MAX,
        14 => p.proof.round ^= 1,
        15 => p.proof.block_hash = kit::h256(3),
        16 => p.proof.bitmap = Bytes::new(),
        17 => {
            let mut s = p.proof.signature.to_vec();
            s.truncate(3);
            p.proof.signature = s.into();
        }
        18 => p.proof = if n > 1 { ch.proof(n - 2) } else { ch.proof(1) },
        19 => {
            // the next block, with a proof to fit
            p.number = n + 1;
            p.proof.number = n;
        }
        20 => {
            p.number = 0;
            p.proof.number = u64::MAX;
        }
        21 => {
            // once more what was agreed before
            if n < 2 {
                return None;
            }
            let l = ch.link(n - 1);
            *p = l.proposal.clone();
            o.txs = l.txs.clone();
        }
        22 => {
            let t = o.txs.first()?.clone();
            let mut v = o.txs.clone();
            v.push(t);
            set_txs(o, v);
        }
        23 => {
            let mut v = o.txs.clone();
            let mut t = ch.link(4).txs[0].clone();
            t.transaction.hash = kit::h256(44);
            v.push(t);
            set_txs(o, v);
        }
        24 => {
            if o.txs.len() < 2 {
                return None;
            }
            p.tx_hashes.swap(0, 1);
        }
        25 => {
            if o.txs.len() < 2 {
                return None;
            }
            p.tx_hashes.pop();
        }
        26 => {
            // another order, said so
            if o.txs.len() < 2 {
                return None;
            }
            let mut v = o.txs.clone();
            v.reverse();
            set_txs(o, v);
            ok = true;
        }
        27 => {
            set_txs(o, vec![]);
            ok = true;
        }
        28 => p.extra_data = vec![ExtraData { inner: Bytes::from_static(&[1, 2, 3]) }],
        29 => {
            let h = hardfork(100, 2);
            ok = own_fork.as_ref() == Some(&h);
            p.extra_data = vec![extra(&h)];
        }
        30 => p.extra_data = vec![extra(&hardfork(101, 2))],
        31 => {
            // a hash that is not the proposal's
            settle(o);
            o.hash = Bytes::from(kit::h256(7).as_bytes().to_vec());
            return Some(false);
        }
        _ => {
            settle(o);
            o.hash = o.hash.slice(..31);
            return Some(false);
        }
    }
    settle(o);
    Some(ok)
}

fn offer(ch: &Chain, n: u64) -> Offer {
    let l = ch.link(n);
    let p = ch.proposal(n, l.proposal.proposer.0[0], &l.txs, l.proposal.timestamp);
    let mut o = Offer { next: n, hash: Bytes::new(), proposal: Proposal { proposer: l.proposal.proposer, ..p }, txs: l.txs.clone() };
    settle(&mut o);
    o
}

fn check(n: &Node, o: &Offer) -> Result<Result<(), String>, Fail> {
    mc::no_panic(|| block_on(n.engine.check_block(cx(), o.next, o.hash.clone(), o.proposal.clone())).map_err(|e| e.to_string()))
        .map_err(|e| Fail::new("checking a block panics", format!("{e}\n{}", o.proposal)))
}

fn fill(n: &Node, txs: &[SignedTransaction]) {
    for t in txs {
        // a pool holds no transaction whose hash is made up
        if t.transaction.hash != kit::h256(44) {
            block_on(n.pool.insert(cx(), t.clone())).unwrap();
        }
    }
}

fn proposals(check_: &Check) {
    let two = check_.by_tier(1, 2);
    check_
        .part(
            "proposals",
            "a proposal is spoiled",
            "each block of a chain of five (validators change after the third) offered to a node that is at the block before, with or without a hard fork of its \
             own in mind x up to the stated number of spoils out of 32 (every field; heights and proofs of other blocks; transaction lists repeated, unknown, \
             reordered, shortened; timestamps before, at and after; the hash given along) x the height asked for",
        )
        .deviations(two)
        .explore(|c| {
            let ch = chain();
            let n = 1 + c.choose(ch.tip() as usize) as u64;
            let node = Node::start(2, Disk::new("n", ch.dump(n - 1)), &scratch("n"));
            let fork = if c.flip() { Some(hardfork(100, 2)) } else { None };
            *node.info.hardfork_proposals.write().unwrap() = fork.clone();
            let mut o = offer(ch, n);
            let mut want = true;
            let a = c.deviate(SPOILS);
            let b = if a > 0 { a + c.deviate(SPOILS - a) } else { 0 };
            let (mut first, mut second) = (None, None);
            if a > 0 {
                first = spoil(&mut o, a, ch, &fork);
                // what lists other transactions undoes a spoil of the list before it
                let lists = |k: usize| (21..=27).contains(&k) || k == 4 || k == 5;
                if b > a && !(lists(a) && lists(b)) && !([3, 2].contains(&a) && b == 3) && ![10, 11, 12, 19, 20].contains(&a) && b != 21 && a != 21 {
                    second = spoil(&mut o, b, ch, &fork);
                    if (6..=9).contains(&a) && (6..=9).contains(&b) || (28..=30).contains(&a) && (28..=30).contains(&b) {
                        first = None;
                    }
                    if (13..=18).contains(&a) && b == 18 || a == 31 && b == 32 {
                        first = None;
                    }
                }
            }
            for v in [first, second].into_iter().flatten() {
                want &= v;
            }
            match c.deviate(3) {
                0 => {}
                1 => {
                    o.next = n + 1;
                    want = false;
                }
                _ => {
                    o.next = n - 1;
                    want = false;
                }
            }
            fill(&node, &o.txs);
            if n == 1 {
                // the first block follows one that nobody attested
                if [14, 15, 16, 17].contains(&a) || [14, 15, 16, 17].contains(&b) {
                    return Ok(());
                }
            }
            let before = node.dump();
            let got = check(&node, &o)?;
            c.outcome((n, a, b, want, got.is_ok()));
            if !want {
                c.nontrivial();
            }
            ensure!(
                got.is_ok() == want,
                "{}: spoils {a} {b} at height {n}, asked for {}: {got:?}",
                if want { "a good proposal is refused" } else { "a bad proposal is agreed to" },
                o.next
            );
            ensure!(node.dump() == before, "checking a proposal changes the database");
            if want {
                let back = node.wal.load(n, o.proposal.transactions_root).map_err(|e| Fail::new("the transactions agreed to are not on disk", e.to_string()))?;
                ensure_eq!(back, o.txs, "the transactions agreed to, read back");
            }
            Ok(())
        });
}

pub fn status_right(node: &Node, ch: &Chain, n: u64, told: &overlord::types::Status) -> Result<(), Fail> {
    let vals = ordered(ch.vals_at(n + 1));
    ensure_eq!(told.height, n + 1, "the height after a commit");
    let want: Vec<(Bytes, u32, u32)> = vals.iter().map(|v| (node::public(v.key), v.propose, v.vote)).collect();
    let got: Vec<(Bytes, u32, u32)> = told.authority_list.iter().map(|v| (v.address.clone(), v.propose_weight, v.vote_weight)).collect();
    ensure_eq!(got, want, "the validators after the commit of {n}");
    let m = ch.config(n + 1);
    ensure_eq!(told.interval, Some(m.interval), "the interval after a commit");
    let t = told.timer_config.clone().unwrap();
    ensure_eq!(
        (t.propose_ratio, t.prevote_ratio, t.precommit_ratio, t.brake_ratio),
        (m.propose_ratio, m.prevote_ratio, m.precommit_ratio, m.brake_ratio),
        "the timer after a commit"
    );
    if let Some(args) = node.pool.with(|p| p.args.last().cloned()) {
        ensure_eq!(args, (ch.state_root(n), 30_000_000, m.max_tx_size), "what the pool is told after a commit");
    }
    let keys: Vec<u8> = vals.iter().map(|v| v.key).collect();
    let not: Vec<u8> = (0..6).filter(|k| !keys.contains(k)).collect();
    let peers: Vec<Bytes> = vals.iter().map(|v| PeerId::from_pubkey_bytes(node::public(v.key)).unwrap().into_bytes_ext()).collect();
    let tagged: std::collections::BTreeSet<Bytes> = node.net.with(|w| w.tagged.last().cloned().unwrap_or_default()).into_iter().collect();
    ensure_eq!(tagged, peers.into_iter().collect(), "the peers marked as validators after the commit of {n}");
    node.knows(&keys, &not).map_err(|e| Fail::new("the keys in use after a commit", format!("block {n}: {e}")))?;
    Ok(())
}

/// What a node is at, as the next proposal needs it.
pub fn at_height(node: &Node, ch: &Chain, n: u64) -> Result<(), Fail> {
    let s = node.status.inner();
    ensure_eq!(s.last_number, n, "the node's height");
    ensure_eq!(s.prev_hash, ch.block(n).hash(), "the node's last hash");
    ensure_eq!(s.last_state_root, ch.state_root(n), "the node's state root");
    ensure_eq!(s.proof, ch.proof(n), "the node's last proof");
    let m = ch.config(n + 1);
    ensure_eq!((s.tx_num_limit, s.max_tx_size), (m.tx_num_limit, m.max_tx_size.into()), "the limits for block {}", n + 1);
    Ok(())
}

/// The databases say the same, apart from tries nothing refers to.
pub fn same_dump(got: &node::Dump, want: &node::Dump) -> Result<(), String> {
    for (col, w) in want {
        let g = got.get(col).cloned().unwrap_or_default();
        for (k, v) in w {
            if g.get(k) != Some(v) {
                return Err(format!("column {col} key {}: {:?} instead of {}", rf::hex(k), g.get(k).map(|v| rf::hex(v)), rf::hex(v)));
            }
        }
        if !is_trie(col) {
            if let Some(k) = g.keys().find(|k| !w.contains_key(*k)) {
                return Err(format!("column {col} holds key {} besides", rf::hex(k)));
            }
        }
    }
    Ok(())
}

fn is_trie(col: &str) -> bool {
    // EVM state, metadata, light client
    ["c8", "c9", "c10"].contains(&col)
}

fn commits(check_: &Check) {
    check_
        .part(
            "crash",
            "the node stops in between",
            "each block of the chain committed by a node that agreed to it before, stopping after each write to its database (torn off in order), started again \
             as core/run does, with its transactions in the pool or only on disk, and told to commit the block again, or to do so twice",
        )
        .explore(|c| {
            let ch = chain();
            let n = 1 + c.choose(ch.tip() as usize) as u64;
            let wal = scratch("n");
            let disk = Disk::new("n", ch.dump(n - 1));
            let path = disk.path.clone();
            let node = Node::start(2, disk, &wal);
            let l = ch.link(n);
            fill(&node, &l.txs);
            check(&node, &offer(ch, n))?.map_err(|e| Fail::new("a good proposal is refused", e))?;
            rocksdb::control::checkpoint(&path);
            let told = commit(&node, &l.proposal, &l.proof).map_err(|e| Fail::new("a commit fails", e))?;
            let writes = rocksdb::control::journal_len(&path);
            status_right(&node, ch, n, &told)?;
            at_height(&node, ch, n)?;
            same_dump(&node.dump(), ch.dump(n)).map_err(|e| Fail::new("the database after a commit", e))?;
            let k = c.choose(writes + 1);
            drop(node);
            rocksdb::control::truncate(&path, k);
            let node = Node::start(2, Disk::open(path), &wal);
            let h = node.status.inner().last_number;
            ensure!(h == n || h == n - 1, "the height after a crash: {h} in the commit of {n}");
            ensure!(h == n - 1 || k == writes || ch.block(n) == &block_on(node.disk.storage.get_latest_block(cx())).unwrap(), "the block after a crash");
            if c.flip() {
                fill(&node, &l.txs);
            }
            if h < n {
                c.nontrivial();
            }
            let told = commit(&node, &l.proposal, &l.proof).map_err(|e| Fail::new("a commit fails after a crash", format!("after {k} of {writes} writes of block {n}: {e}")))?;
            status_right(&node, ch, n, &told)?;
            at_height(&node, ch, n)?;
            same_dump(&node.dump(), ch.dump(n)).map_err(|e| Fail::new("the database after a crash and a commit", format!("after {k} of {writes} writes of block {n}: {e}")))?;
            if c.flip() {
                let told = commit(&node, &l.proposal, &l.proof).map_err(|e| Fail::new("a second commit fails", e))?;
                status_right(&node, ch, n, &told)?;
                same_dump(&node.dump(), ch.dump(n)).map_err(|e| Fail::new("the database after a second commit", e))?;
            }
            // a commit of another height is refused
            for m in 1..=ch.tip() {
                if m != n && m != n + 1 {
                    let x = ch.link(m);
                    ensure!(commit(&node, &x.proposal, &x.proof).is_err(), "a commit of {m} after {n}");
                }
            }
            same_dump(&node.dump(), ch.dump(n)).map_err(|e| Fail::new("the database after refused commits", e))?;
            at_height(&node, ch, n)?;
            c.outcome((n, k, h));
            Ok(())
        });
}

fn turns(check_: &Check) {
    let heights = check_.by_tier(3, 5);
    let bad = check_.by_tier(1, 2);
    check_
        .part(
            "turns",
            "a leader spoils its proposal",
            "four validators, one after the other leader, over the stated number of blocks; up to the stated number of leaders spoil their own proposal in one of 32 \
             ways and agree to it; a block that three agree to is committed by all, otherwise the next leader tries; packages of none, one or two transactions",
        )
        .deviations(bad)
        .explore(|c| {
            let ch = chain();
            let nodes: Vec<Node> = (0..4).map(|i| Node::start(i, Disk::new(&format!("n{i}"), &ch.genesis.dump), &scratch(&format!("n{i}")))).collect();
            let to = Some(kit::h160(0xbeef));
            let vals = ch.vals[0].clone();
            let mut nonces = [0u64; 2];
            let mut done = Chain { genesis: node::Genesis { dump: ch.genesis.dump.clone(), block: ch.genesis.block.clone(), metas: ch.genesis.metas.clone(), _meta: ch.genesis._meta.clone() }, vals: ch.vals.clone(), last0: ch.last0, links: vec![], late: ch.late.clone() };
            let mut leader = 0usize;
            for n in 1..=(heights as u64).min(ch.last0) {
                let count = if n == 1 { c.choose(3) } else { (n as usize) % 3 };
                let txs: Vec<SignedTransaction> = (0..count)
                    .map(|w| kit::sign(kit::legacy(nonces[w], 2_000, 30_000, to, 1, &[]), Some(kit::CHAIN), w as u8))
                    .collect();
                for node in &nodes {
                    fill(node, &txs);
                    node.pool.with(|p| p.package = txs.iter().map(|t| t.transaction.hash).collect());
                }
                let mut tries = 0;
                loop {
                    tries += 1;
                    ensure!(tries <= 3, "no block at height {n} although the leaders are honest");
                    let lead = &nodes[leader % 4];
                    leader += 1;
                    let (p, hash) = block_on(lead.engine.get_block(cx(), n)).map_err(|e| Fail::new("a leader has no proposal", format!("height {n}: {e}")))?;
                    let mut o = Offer { next: n, hash, proposal: p, txs: txs.clone() };
                    let k = c.deviate(SPOILS);
                    let honest = k == 0;
                    if !honest {
                        c.nontrivial();
                        if spoil(&mut o, k, &done_or(&done, ch, n), &None).is_none() {
                            return Ok(());
                        }
                    }
                    let mut agree: Vec<u8> = vec![];
                    for node in &nodes {
                        let r = if node.key == lead.key && !honest { Ok(()) } else { check(node, &o)? };
                        match r {
                            Ok(()) => agree.push(node.key),
                            Err(e) => ensure!(!honest, "an honest proposal is refused: height {n} by {}: {e}", node.key),
                        }
                    }
                    if agree.len() < 3 {
                        continue;
                    }
                    let h = H256::from_slice(&o.hash);
                    let pr = proof(n, tries - 1, h, &vals, &agree);
                    for node in &nodes {
                        let told = mc::no_panic(|| commit(node, &o.proposal, &pr))
                            .map_err(|e| Fail::new("a commit panics", e))?
                            .map_err(|e| Fail::new("what the validators agreed to can't be committed", format!("height {n}, spoil {k}: {e}")))?;
                        ensure_eq!(told.height, n + 1, "the height after a commit");
                    }
                    for t in &o.txs {
                        for w in 0..2 {
                            if t.sender == kit::sender(w) {
                                nonces[w as usize] = t.transaction.unsigned.nonce().low_u64() + 1;
                            }
                        }
                    }
                    let d = nodes[0].dump();
                    for node in &nodes[1..] {
                        ensure!(node.dump() == d, "two validators disagree after a commit");
                    }
                    let block = block_on(nodes[0].disk.storage.get_block(cx(), n)).unwrap().unwrap();
                    done.links.push(Link { proposal: o.proposal, block, txs: o.txs, proof: pr, dump: d });
                    c.outcome((n, k, count));
                    break;
                }
            }
            // and one more, by whoever is next, is agreed to
            let n = done.tip() + 1;
            let (p, hash) = block_on(nodes[leader % 4].engine.get_block(cx(), n)).map_err(|e| Fail::new("a leader has no proposal", format!("height {n}: {e}")))?;
            for node in &nodes {
                node.pool.with(|q| q.package.clear());
                fill(node, &done.links.last().unwrap().txs);
            }
            let o = Offer { next: n, hash, proposal: p, txs: vec![] };
            for node in &nodes {
                check(node, &o)?.map_err(|e| Fail::new("an honest proposal is refused", format!("height {n} by {}: {e}", node.key)))?;
            }
            Ok(())
        });
}

/// The chain so far, for making proposals of other heights: blocks that don't exist yet come from the model chain.
fn done_or(done: &Chain, model: &Chain, n: u64) -> Chain {
    let mut links: Vec<Link> = vec![];
    for m in 1..=model.tip() {
        let l = if m < n && (m as usize) <= done.links.len() { done.link(m) } else { model.link(m) };
        links.push(Link { proposal: l.proposal.clone(), block: l.block.clone(), txs: l.txs.clone(), proof: l.proof.clone(), dump: Default::default() });
    }
    Chain {
        genesis: node::Genesis { dump: Default::default(), block: model.genesis.block.clone(), metas: model.genesis.metas.clone(), _meta: model.genesis._meta.clone() },
        vals: model.vals.clone(),
        last0: model.last0,
        links,
        late: model.late.clone(),
    }
}

fn leaders(check_: &Check) {
    check_
        .part(
            "leaders",
            "the hard fork in mind is outdated",
            "each height of the chain x packages x a hard fork in mind (none, earlier, at the height, later): the proposal a leader makes, field by field, is agreed \
             to by itself and by a validator with the same fork in mind",
        )
        .explore(|c| {
            let ch = chain();
            let n = 1 + c.choose(ch.tip() as usize) as u64;
            let lead = Node::start(0, Disk::new("a", ch.dump(n - 1)), &scratch("a"));
            let other = Node::start(2, Disk::new("b", ch.dump(n - 1)), &scratch("b"));
            let fork = match c.choose(4) {
                0 => None,
                1 => Some(hardfork(n - 1, 2)),
                2 => Some(hardfork(n, 2)),
                _ => Some(hardfork(n + 1, 2)),
            };
            for node in [&lead, &other] {
                if let Some(f) = &fork {
                    block_on(node.disk.storage.set_hardfork_proposal(cx(), f.clone())).unwrap();
                }
                *node.info.hardfork_proposals.write().unwrap() = fork.clone();
            }
            let some: Vec<SignedTransaction> = match c.choose(3) {
                0 => vec![],
                1 => ch.link(n).txs.clone(),
                _ => vec![ch.link(5).txs[0].clone()],
            };
            for node in [&lead, &other] {
                fill(node, &some);
            }
            let system = c.choose(2) as u32 * 3;
            lead.pool.with(|p| {
                p.package = some.iter().map(|t| t.transaction.hash).collect();
                p.system = system;
            });
            let (t0, r, t1) = (now(), block_on(lead.engine.get_block(cx(), n)), now());
            let (p, hash) = r.map_err(|e| Fail::new("a leader has no proposal", e.to_string()))?;
            ensure!(p.timestamp >= t0 && p.timestamp <= t1, "the time of a proposal: {}", p.timestamp);
            let mut want = ch.proposal(n, 0, &some, p.timestamp);
            want.call_system_script_count = system;
            let valid = fork.clone().filter(|f| f.block_number > n);
            if let Some(f) = &valid {
                want.extra_data = vec![extra(f)];
            } else if fork.is_some() {
                c.nontrivial();
            }
            ensure_eq!(p, want, "the proposal of a leader");
            ensure!(hash.as_ref() == p.hash().as_bytes(), "the hash of a proposal: {}", rf::hex(&hash));
            let m = ch.config(n);
            ensure_eq!(lead.pool.with(|p| p.limit), Some(m.tx_num_limit), "the number of transactions a proposal may hold");
            ensure_eq!(*lead.info.hardfork_proposals.read().unwrap(), valid, "the hard fork in mind after proposing");
            ensure_eq!(block_on(lead.disk.storage.hardfork_proposal(cx())).unwrap(), valid, "the hard fork on disk after proposing");
            let o = Offer { next: n, hash, proposal: p, txs: some };
            check(&lead, &o)?.map_err(|e| Fail::new("a leader refuses its own proposal", e))?;
            check(&other, &o)?.map_err(|e| Fail::new("an honest proposal is refused", e))?;
            for m in [n - 1, n + 1].into_iter().filter(|m| *m > 0) {
                if let Ok((p, _)) = mc::no_panic(|| block_on(lead.engine.get_block(cx(), m))).map_err(|e| Fail::new("asking for a proposal panics", format!("height {m}: {e}")))? {
                    return Err(Fail::new("a proposal of another height", p.to_string()));
                }
            }
            c.outcome((n, system));
            Ok(())
        });
}

pub fn run(check: &Check) {
    leaders(check);
    proposals(check);
    commits(check);
    turns(check);
    clean();
}
