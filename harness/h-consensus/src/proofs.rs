//! H01: who may attest a block.

use std::sync::OnceLock;

use common_crypto::{HashValue, PrivateKey, Signature};
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use node::{val, Disk, Genesis, Val};
use overlord::Crypto;
use protocol::traits::CommonConsensusAdapter;
use protocol::types::*;

use crate::sim::*;

struct Setting {
    vals:    Vec<Val>,
    genesis: Genesis,
}

/// Validator sets with their voting weights.
fn settings() -> &'static Vec<Setting> {
    static S: OnceLock<Vec<Setting>> = OnceLock::new();
    S.get_or_init(|| {
        let mut weights: Vec<Vec<u32>> = vec![vec![1], vec![0]];
        for a in 0..3 {
            for b in 0..3 {
                weights.push(vec![a, b]);
            }
        }
        for a in 0..3 {
            for b in 0..3 {
                for c in 0..3 {
                    weights.push(vec![a, b, c]);
                }
            }
        }
        weights.push(vec![1, 1, 1, 1]);
        weights.push(vec![0, 1, 1, 1]);
        weights.push(vec![1, 1, 1, 3]);
        weights.push(vec![3, 2, 1, 1]);
        weights.push(vec![2, 2, 1, 1]);
        weights.push(vec![u32::MAX; 4]);
        weights.push(vec![u32::MAX, 1, 1, u32::MAX]);
        weights.push(vec![1, 1, 1, 1, 1]);
        weights.push(vec![1; 7]);
        weights.push(vec![1; 8]);
        weights.push(vec![1; 9]);
        weights
            .into_iter()
            .map(|w| {
                let vals: Vec<Val> = w.iter().enumerate().map(|(i, w)| val(i as u8, 1, *w)).collect();
                let metas = [node::metadata(0, 0, 100, &vals), node::metadata(1, 101, 200, &vals)];
                Setting { genesis: node::genesis("consensus", &[], metas), vals }
            })
            .collect()
    })
}

/// One more block on the genesis, not executed: attestation doesn't depend on what it holds.
fn candidate(g: &Genesis) -> Block {
    let mut h = g.block.header.clone();
    h.number = 1;
    h.prev_hash = g.block.hash();
    h.timestamp = 77;
    h.extra_data = vec![];
    h.transactions_root = kit::h256(5);
    h.signed_txs_hash = kit::h256(6);
    h.proposer = kit::sender(0);
    Block { header: h, tx_hashes: vec![kit::h256(1), kit::h256(2)] }
}

fn hash_of(b: &Block, prev_root: H256) -> Hash {
    Proposal::new_with_state_root(&b.header, prev_root, b.tx_hashes.clone()).hash()
}

fn verdict(n: &Node, b: &Block, p: &Proof) -> Result<bool, Fail> {
    match mc::no_panic(|| block_on(n.adapter.verify_proof(cx(), b.clone(), p.clone()))) {
        Ok(r) => Ok(r.is_ok()),
        Err(e) => Err(Fail::new("verifying a proof panics", format!("{e}\nblock {b}\nproof {p}"))),
    }
}

fn quorum(vals: &[Val], who: &[u8]) -> bool {
    let total: u128 = vals.iter().map(|v| v.vote as u128).sum();
    let have: u128 = vals.iter().filter(|v| who.contains(&v.key)).map(|v| v.vote as u128).sum();
    3 * have > 2 * total
}

fn subset(c: &mut Chooser, n: usize, full: bool) -> Vec<u8> {
    if full {
        let m = c.choose(1 << n);
        (0..n as u8).filter(|i| m >> i & 1 == 1).collect()
    } else {
        // large sets: the first so many, or all but one
        let k = c.choose(2 * n + 1);
        if k <= n {
            (0..k as u8).collect()
        } else {
            (0..n as u8).filter(|i| *i as usize != k - n - 1).collect()
        }
    }
}

pub fn run(check: &Check) {
    let large = check.by_tier(5, 9);
    check
        .part(
            "quorum",
            "a proof is accepted",
            "validator sets of 1 to 9 (for up to three, every weight 0 to 2; beyond, equal, skewed and largest weights) x claimed voters (all subsets, for \
             large sets prefixes and all but one) x those that really signed (the same, one more, one less, one replaced, one twice)",
        )
        .explore(|c| {
            let s = c.pick(settings());
            let n = s.vals.len();
            let claimed = subset(c, n, n <= large);
            let mut signed = claimed.clone();
            match c.choose(5) {
                0 => {}
                1 => {
                    let extra: Vec<u8> = (0..=n as u8).filter(|i| !claimed.contains(i)).collect();
                    signed.push(*c.pick(&extra));
                }
                k @ (2 | 3) => {
                    if claimed.len() < 2 {
                        return Ok(());
                    }
                    signed.remove(c.choose(claimed.len()));
                    if k == 3 {
                        let extra: Vec<u8> = (0..=n as u8).filter(|i| !claimed.contains(i)).collect();
                        signed.push(extra[0]);
                    }
                }
                _ => {
                    if claimed.is_empty() {
                        return Ok(());
                    }
                    signed.push(claimed[0]);
                }
            }
            if signed.is_empty() {
                signed.push(0);
            }
            let node = Node::start(0, Disk::new("n", &s.genesis.dump), &scratch("n"));
            let b = candidate(&s.genesis);
            let h = hash_of(&b, s.genesis.block.header.state_root);
            let p = Proof {
                number:     1,
                round:      0,
                block_hash: h,
                signature:  sign_by(&vote_digest(1, 0, 2, h.as_bytes()), &signed),
                bitmap:     bitmap(&s.vals, &claimed),
            };
            let mut same = signed.clone();
            same.sort_unstable();
            let want = quorum(&s.vals, &claimed) && same == claimed;
            let got = verdict(&node, &b, &p)?;
            if got {
                c.nontrivial();
            }
            c.outcome((want, n, claimed.len(), signed.len()));
            ensure!(
                got == want,
                "{} proof is {}: weights {:?}, claimed {claimed:?}, signed by {signed:?}",
                if want { "a sufficient" } else { "an insufficient" },
                if got { "accepted" } else { "refused" },
                s.vals.iter().map(|v| v.vote).collect::<Vec<_>>()
            );
            Ok(())
        });

    let two = check.by_tier(1, 2);
    check
        .part(
            "binding",
            "the proof is altered",
            "four and nine validators, all sign; up to the stated number of alterations: of the proof (height, round, hash, signature length and bits, bitmap \
             length and bits), of what was signed (height, round, kind of vote, hash) and of every field of the block that the hash covers",
        )
        .deviations(two)
        .explore(|c| {
            let s = &settings()[if c.flip() { settings().len() - 1 } else { 38 }];
            let n = s.vals.len();
            let node = Node::start(0, Disk::new("n", &s.genesis.dump), &scratch("n"));
            let b0 = candidate(&s.genesis);
            let root = s.genesis.block.header.state_root;
            let h = hash_of(&b0, root);
            let (mut num, mut round, mut kind, mut hash) = (1u64, 3u64, 2u8, h);
            let signed_round = 3u64;
            match c.deviate(7) {
                0 => {}
                1 => num = 2,
                2 => round = 4,
                3 => round = 2,
                4 => kind = 1,
                5 => hash = kit::h256(9),
                _ => hash = Hash::default(),
            }
            let sig = sign_by(&vote_digest(num, round, kind, hash.as_bytes()), &all(&s.vals));
            let mut p = Proof { number: 1, round: signed_round, block_hash: h, signature: sig, bitmap: bitmap(&s.vals, &all(&s.vals)) };
            let signed_right = num == 1 && kind == 2 && hash == h;
            let mut sig_ok = true;
            let mut claimed = all(&s.vals);
            match c.deviate(16) {
                0 => {}
                1 => p.number = 0,
                2 => p.number = 2,
                3 => p.round = 4,
                4 => p.round = 2,
                5 => p.block_hash = kit::h256(9),
                6 => {
                    p.signature = Bytes::new();
                    sig_ok = false;
                }
                7 => {
                    p.signature = p.signature.slice(..p.signature.len() - 1);
                    sig_ok = false;
                }
                8 => {
                    p.signature = [p.signature.as_ref(), &[0]].concat().into();
                    sig_ok = false;
                }
                9 => {
                    let mut v = p.signature.to_vec();
                    v[20] ^= 1;
                    p.signature = v.into();
                    sig_ok = false;
                }
                10 => {
                    p.bitmap = Bytes::new();
                    claimed.clear();
                }
                11 => {
                    let mut v = p.bitmap.to_vec();
                    v[0] &= 0x7f;
                    p.bitmap = v.into();
                    claimed.remove(0);
                }
                12 => {
                    // fewer bytes than validators
                    let len = (n - 1) / 8;
                    p.bitmap = p.bitmap.slice(..len);
                    claimed.truncate(len * 8);
                }
                13 => p.bitmap = [p.bitmap.as_ref(), &[0]].concat().into(),
                14 => p.signature = sign_by(&vote_digest(1, 3, 2, h.as_bytes()), &[0]),
                _ => {
                    p.signature = Bytes::from(vec![0u8; p.signature.len()]);
                    sig_ok = false;
                }
            }
            if p.signature == sign_by(&vote_digest(1, 3, 2, h.as_bytes()), &[0]) {
                sig_ok = false;
            }
            let mut b = b0.clone();
            let hd = &mut b.header;
            let mut same = true;
            let f = c.deviate(13);
            if f != 0 {
                same = false;
            }
            match f {
                0 => {}
                1 => hd.prev_hash = kit::h256(1),
                2 => hd.proposer = kit::sender(1),
                3 => hd.transactions_root = kit::h256(1),
                4 => hd.signed_txs_hash = kit::h256(1),
                5 => hd.timestamp += 1,
                6 => hd.gas_limit += 1u64.into(),
                7 => hd.extra_data = vec![ExtraData { inner: Bytes::new() }],
                8 => hd.proof.round = 9,
                9 => hd.call_system_script_count += 1,
                10 => {
                    b.tx_hashes.pop();
                }
                11 => b.tx_hashes.reverse(),
                _ => hd.number = 2,
            }
            let digest_ok = signed_right && round == p.round && p.number == 1 && p.block_hash == h;
            let want = same && sig_ok && digest_ok && claimed.len() == n;
            let got = verdict(&node, &b, &p)?;
            if !got {
                c.nontrivial();
            }
            c.outcome((want, f, p.number, p.round, p.bitmap.len(), p.signature.len(), kind, num, round));
            ensure!(got == want, "{} is {}: block {b}\nproof {p}", if want { "a good proof" } else { "an altered proof" }, if got { "accepted" } else { "refused" });
            Ok(())
        });

    check
        .part(
            "epochs",
            "a proof is accepted",
            "a chain of five blocks whose validators change after the third: nodes at each height x each block up to the next one x proofs by the validators \
             of either epoch, by those of both and by the old ones that remain",
        )
        .explore(|c| {
            let ch = chain();
            let at = c.choose(ch.tip() as usize + 1) as u64;
            let n = 1 + c.choose((at + 1).min(ch.tip()) as usize) as u64;
            let node = Node::start(0, Disk::new("n", ch.dump(at)), &scratch("n"));
            let l = ch.link(n);
            let v = c.choose(4);
            let h = l.proposal.hash();
            let p = match v {
                0 => proof(n, 0, h, &ch.vals[0], &all(&ch.vals[0])),
                1 => proof(n, 0, h, &ch.vals[1], &all(&ch.vals[1])),
                2 => proof(n, 0, h, &ch.vals[0], &[0, 1, 3]),
                _ => proof(n, 0, h, &ch.vals[1], &[4]),
            };
            let want = if n <= ch.last0 { v == 0 || v == 2 } else { v == 1 || v == 3 };
            let got = verdict(&node, &l.block, &p)?;
            c.outcome((at, n, v));
            if got {
                c.nontrivial();
            }
            ensure!(got == want, "block {n} at height {at}, attested by the validators of {}: {}", ["epoch 0", "epoch 1", "epoch 0, three of four", "epoch 1, three quarters"][v], if got { "accepted" } else { "refused" });
            // a block whose parent is unknown, and one far beyond
            for number in [at + 2, 5000, u64::MAX] {
                let mut b = l.block.clone();
                b.header.number = number;
                let hash = hash_of(&b, ch.state_root(at));
                let p = proof(number, 0, hash, &ch.vals[0], &all(&ch.vals[0]));
                ensure!(!verdict(&node, &b, &p)?, "a block without a parent is accepted: {number}");
            }
            Ok(())
        });

    check
        .part(
            "votes",
            "votes are aggregated",
            "a node's own signature operations: every subset of four validators and a stranger that sign x every subset they are counted as, in two orders",
        )
        .explore(|c| {
            let ch = chain();
            let node = Node::start(c.choose(2) as u8, Disk::new("n", &ch.genesis.dump), &scratch("n"));
            let names = [0u8, 1, 2, 3, 9];
            let m = 1 + c.choose(31);
            let mut who: Vec<u8> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| names[i]).collect();
            if c.flip() {
                who.reverse();
            }
            let digest = Bytes::from(vote_digest(1, 1, 1, &[3; 32]).as_bytes().to_vec());
            let sigs: Vec<Bytes> = who
                .iter()
                .map(|i| if *i == node.key { node.crypto.sign(digest.clone()).unwrap() } else { node::bls_key(*i).sign_message(&HashValue::try_from(digest.as_ref()).unwrap()).to_bytes() })
                .collect();
            for (s, i) in sigs.iter().zip(&who) {
                let ok = node.crypto.verify_signature(s.clone(), digest.clone(), node::public(*i)).is_ok();
                ensure!(ok == (*i != 9), "a vote of {i} is {}", if ok { "accepted" } else { "refused" });
                let other = node::public((*i + 1) % 4);
                ensure!(node.crypto.verify_signature(s.clone(), digest.clone(), other).is_err(), "a vote is accepted as another's: {i}");
                ensure!(node.crypto.verify_signature(s.clone(), Bytes::from(vec![1; 32]), node::public(*i)).is_err(), "a vote is accepted for another block: {i}");
                ensure!(node.crypto.verify_signature(s.clone(), Bytes::from(vec![1; 31]), node::public(*i)).is_err(), "a vote is accepted for nothing: {i}");
            }
            let voters: Vec<Bytes> = who.iter().map(|i| node::public(*i)).collect();
            let agg = node.crypto.aggregate_signatures(sigs.clone(), voters.clone());
            ensure!(node.crypto.aggregate_signatures(sigs[1..].to_vec(), voters.clone()).is_err(), "fewer signatures than voters are aggregated: {who:?}");
            if who.contains(&9) {
                ensure!(agg.is_err(), "a stranger's vote is aggregated: {who:?}");
                return Ok(());
            }
            c.nontrivial();
            let agg = agg.map_err(|e| Fail::new("votes are not aggregated", format!("{who:?}: {e}")))?;
            ensure_eq!(agg, sign_by(&H256::from_slice(&digest), &who), "the aggregate of the votes");
            for m in 0..32usize {
                let mut as_: Vec<u8> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| names[i]).collect();
                let names: Vec<Bytes> = as_.iter().map(|i| node::public(*i)).collect();
                let ok = mc::no_panic(|| node.crypto.verify_aggregated_signature(agg.clone(), digest.clone(), names.clone()).is_ok())
                    .map_err(|e| Fail::new("verifying an aggregate panics", e))?;
                let mut w = who.clone();
                w.sort_unstable();
                as_.sort_unstable();
                ensure!(ok == (as_ == w), "an aggregate by {who:?} is {} for {as_:?}", if ok { "accepted" } else { "refused" });
            }
            c.outcome(who);
            Ok(())
        });
    clean();
}
