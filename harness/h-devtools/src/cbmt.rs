//! C04: proofs that leaves belong to a CKB block.

use std::sync::{Arc, Mutex};

use axon_tools::precompile::{verify_proof, Proof, VerifyProofPayload};
use mc::{ensure, ensure_eq, Check};

type H = [u8; 32];

fn merge(l: &H, r: &H) -> H {
    let mut h = ckb_hash::new_blake2b();
    h.update(l);
    h.update(r);
    let mut o = [0; 32];
    h.finalize(&mut o);
    o
}

/// The complete binary tree over the leaves: node i has children 2i+1 and 2i+2, the leaves come last.
fn tree(leaves: &[H]) -> Vec<H> {
    if leaves.is_empty() {
        return vec![[0; 32]];
    }
    let n = leaves.len();
    let mut t = vec![[0; 32]; n - 1];
    t.extend_from_slice(leaves);
    for i in (0..n - 1).rev() {
        t[i] = merge(&t[2 * i + 1], &t[2 * i + 2]);
    }
    t
}

/// Node indices ordered by the value of the leaf, and the siblings that are missing, from the bottom up.
fn prove(t: &[H], n: usize, set: &[usize]) -> (Vec<u32>, Vec<H>) {
    let mut idx: Vec<usize> = set.iter().map(|i| n - 1 + i).collect();
    let mut known: std::collections::BTreeSet<usize> = idx.iter().copied().collect();
    let mut lemmas = vec![];
    for i in (1..t.len()).rev() {
        let sib = ((i + 1) ^ 1) - 1;
        if known.contains(&i) {
            if !known.contains(&sib) {
                lemmas.push(t[sib]);
                known.insert(sib);
            }
            known.insert((i - 1) / 2);
        }
    }
    idx.sort_by_key(|i| t[*i]);
    (idx.iter().map(|i| *i as u32).collect(), lemmas)
}

fn leaf(kind: u8, i: usize) -> H {
    rf::keccak256(&[kind, i as u8, (i >> 8) as u8, (i >> 16) as u8])
}

/// The tree over `n` leaves of one kind, which is the same every time.
fn large(kind: u8, n: usize) -> Arc<Vec<H>> {
    type Trees = std::collections::HashMap<(u8, usize), Arc<Vec<H>>>;
    static TREES: Mutex<Option<Trees>> = Mutex::new(None);
    let mut g = TREES.lock().unwrap();
    let t = g.get_or_insert_with(Default::default).entry((kind, n));
    Arc::clone(t.or_insert_with(|| Arc::new(tree(&(0..n).map(|i| leaf(kind, i)).collect::<Vec<_>>()))))
}

pub fn ckb_proofs(check: &Check) {
    let max = check.by_tier(7, 9);
    check
        .part(
            "membership",
            "a proof is accepted only when all its leaves are in the chosen half of the block",
            &format!(
                "1..={max} transactions, every non-empty set of them, both halves, and every alteration: none, another type, each root changed, the \
                 halves swapped, each leaf replaced (foreign, or of the other half), dropped or repeated, each lemma changed, dropped, \
                 repeated or moved, a lemma added, each index replaced by each of 0..=2n and the largest ones"
            ),
        )
        .explore(|c| {
            let n = 1 + c.choose(max);
            let mask = 1 + c.choose((1 << n) - 1);
            let half = c.choose(2) as u8;
            let set: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
            let raw: Vec<H> = (0..n).map(|i| leaf(0, i)).collect();
            let wit: Vec<H> = (0..n).map(|i| leaf(1, i)).collect();
            let (rt, wt) = (tree(&raw), tree(&wit));
            let (mine, other) = if half == 0 { (&raw, &wit) } else { (&wit, &raw) };
            let t = if half == 0 { &rt } else { &wt };
            let (indices, lemmas) = prove(t, n, &set);
            let mut p = VerifyProofPayload {
                verify_type:           half,
                transactions_root:     merge(&rt[0], &wt[0]),
                witnesses_root:        wt[0],
                raw_transactions_root: rt[0],
                proof:                 Proof { indices, lemmas, leaves: set.iter().map(|i| mine[*i]).collect() },
            };
            let (nl, nm) = (p.proof.leaves.len(), p.proof.lemmas.len());
            let mut same = false;
            // true as long as the roots are those of the block
            let mut roots = true;
            match c.choose(9) {
                0 => same = true,
                1 => {
                    p.verify_type = *c.pick(&[0u8, 1, 2, 255]);
                    same = (p.verify_type == 0) == (half == 0);
                }
                2 => {
                    roots = false;
                    match c.choose(4) {
                        0 => p.transactions_root[3] ^= 1,
                        1 => p.witnesses_root[0] ^= 1,
                        2 => p.raw_transactions_root[31] ^= 1,
                        _ => std::mem::swap(&mut p.witnesses_root, &mut p.raw_transactions_root),
                    }
                }
                3 => {
                    let i = c.choose(nl);
                    match c.choose(4) {
                        0 => p.proof.leaves[i][7] ^= 0x20,
                        1 => p.proof.leaves[i] = other[set[i]],
                        2 => {
                            p.proof.leaves.remove(i);
                        }
                        _ => {
                            let l = p.proof.leaves[i];
                            p.proof.leaves.push(l)
                        }
                    }
                }
                4 => {
                    let mut all = p.proof.lemmas.clone();
                    if nm > 0 {
                        let i = c.choose(nm);
                        match c.choose(4) {
                            0 => all[i][7] ^= 0x20,
                            1 => {
                                all.remove(i);
                            }
                            2 => all.insert(i, all[i]),
                            _ => {
                                let l = all.remove(i);
                                all.push(l);
                                same = i + 1 == nm;
                            }
                        }
                    } else {
                        all.push([0; 32]);
                    }
                    p.proof.lemmas = all;
                }
                5 => {
                    let l = *c.pick(&[[0u8; 32], t[0], mine[0], other[0]]);
                    p.proof.lemmas.push(l);
                }
                6 => {
                    let i = c.choose(nl);
                    let j = c.choose(2 * n + 5);
                    let v = match j.checked_sub(2 * n + 1) {
                        None => j as u32,
                        Some(k) => [1 << 31, (1u32 << 31) - 1, u32::MAX - 1, u32::MAX][k],
                    };
                    same = p.proof.indices[i] == v;
                    p.proof.indices[i] = v;
                }
                7 => {
                    // an index without a leaf, or a leaf without an index
                    if c.flip() {
                        p.proof.indices.push(0)
                    } else {
                        p.proof.indices.pop();
                    }
                }
                _ => {
                    p.proof.leaves.clear();
                    if c.flip() {
                        p.proof.indices.clear();
                    }
                    if c.flip() {
                        p.proof.lemmas = vec![t[0]];
                    }
                }
            }
            let q = p.clone();
            let ok = match mc::no_panic(|| verify_proof(q).is_ok()) {
                Ok(v) => v,
                Err(e) => {
                    ensure!(false, "a proof crashes the verification: {e} {p:?}");
                    false
                }
            };
            c.state();
            c.outcome((n, mask, half, ok));
            if ok {
                c.nontrivial();
                ensure!(roots, "a proof is accepted for other roots: {p:?}");
                let t = if p.verify_type == 0 { &rt } else { &wt };
                ensure!(!p.proof.leaves.is_empty(), "a proof of nothing is accepted: {p:?}");
                for l in &p.proof.leaves {
                    ensure!(t.contains(l), "a leaf that is not in the block is accepted: {p:?}");
                }
            } else {
                ensure!(!same, "a good proof is refused: {p:?}");
            }
            Ok(())
        });
    check
        .part(
            "large",
            "a proof of a large block is accepted",
            "16 to 70 000 transactions (9 numbers) x the first, the middle, the last, the first and last, the last 40, or every seventh up to 300 x both halves, which \
             may be the same tree x unchanged, a leaf, a lemma or a root changed, or an index moved by one",
        )
        .explore(|c| {
            let n = *c.pick(&[16usize, 17, 33, 255, 256, 1000, 32_768, 32_769, 70_000]);
            let same = c.flip();
            let half = c.choose(2) as u8;
            let set: Vec<usize> = match c.choose(6) {
                0 => vec![0],
                1 => vec![n / 2],
                2 => vec![n - 1],
                3 => vec![0, n - 1],
                4 => (n.saturating_sub(40)..n).collect(),
                _ => (0..n).step_by(7).take(300).collect(),
            };
            let (rt, wt) = (large(0, n), large(if same { 0 } else { 1 }, n));
            let t = if half == 0 { &rt } else { &wt };
            let (indices, lemmas) = prove(t, n, &set);
            let leaves: Vec<H> = set.iter().map(|i| t[n - 1 + i]).collect();
            let mut p = VerifyProofPayload {
                verify_type:           half,
                transactions_root:     merge(&rt[0], &wt[0]),
                witnesses_root:        wt[0],
                raw_transactions_root: rt[0],
                proof:                 Proof { indices, lemmas, leaves },
            };
            let how = c.choose(7);
            let (k, m) = (p.proof.leaves.len(), p.proof.lemmas.len());
            let mut good = how == 0;
            match how {
                0 => {}
                1 => p.proof.leaves[k - 1][31] ^= 1,
                2 => match p.proof.lemmas.last_mut() {
                    Some(l) => l[0] ^= 1,
                    None => good = true,
                },
                3 if m > 0 => p.proof.lemmas[0][9] ^= 0x40,
                3 => good = true,
                4 => p.transactions_root[1] ^= 2,
                5 => {
                    p.raw_transactions_root[1] ^= 2;
                    p.witnesses_root[1] ^= 2;
                }
                _ => p.proof.indices[k / 2] ^= 1 << 16,
            }
            c.state();
            if good {
                c.nontrivial();
            }
            c.outcome((n, how, k));
            let q = p.clone();
            let ok = mc::no_panic(|| verify_proof(q).is_ok())?;
            ensure!(ok == good, "a proof over {n} transactions is judged wrongly: {k} leaves, change {how}, type {half}, equal halves {same}");
            Ok(())
        });
    check
        .part("payload", "the call data of a proof lists its five parts in order", "0..=3, 33 or 300 indices, lemmas and leaves, every verify type class")
        .explore(|c| {
            const LENS: [usize; 6] = [0, 1, 2, 3, 33, 300];
            let ids: Vec<u32> = (0..*c.pick(&LENS)).map(|i| [0u32, 127, u32::MAX, 65_536][i % 4]).collect();
            let lem: Vec<H> = (0..*c.pick(&LENS)).map(|i| leaf(3, i)).collect();
            let lea: Vec<H> = (0..*c.pick(&LENS)).map(|i| leaf(4, i)).collect();
            let kind = *c.pick(&[0u8, 1, 127, 128, 255]);
            let p = VerifyProofPayload {
                verify_type:           kind,
                transactions_root:     leaf(5, 0),
                witnesses_root:        leaf(5, 1),
                raw_transactions_root: leaf(5, 2),
                proof:                 Proof { indices: ids.clone(), lemmas: lem.clone(), leaves: lea.clone() },
            };
            let want = rf::l(vec![
                rf::u(kind as u64),
                rf::b(leaf(5, 0)),
                rf::b(leaf(5, 1)),
                rf::b(leaf(5, 2)),
                rf::l(vec![
                    rf::l(ids.iter().map(|i| rf::u(*i as u64)).collect()),
                    rf::l(lem.iter().map(rf::b).collect()),
                    rf::l(lea.iter().map(rf::b).collect()),
                ]),
            ]);
            c.nontrivial();
            c.outcome(want.encode());
            ensure_eq!(mc::hex(rlp::encode(&p)), mc::hex(want.encode()), "the bytes of a proof payload: {p:?}");
            Ok(())
        });
    check
        .part("range", "a metadata range contains its first and last block and those between", "every start, end and number out of 8 boundary values")
        .explore(|c| {
            let vals = [0u64, 1, 2, 5, 6, 1 << 32, u64::MAX - 1, u64::MAX];
            let (s, e, x) = (*c.pick(&vals), *c.pick(&vals), *c.pick(&vals));
            c.nontrivial();
            let want = !(x < s || x > e);
            ensure_eq!(axon_tools::types::MetadataVersion::new(s, e).contains(x), want, "the range {s}..={e} and {x}");
            ensure_eq!(protocol::types::MetadataVersion { start: s, end: e }.contains(x), want, "the node's range {s}..={e} and {x}");
            c.outcome(want);
            Ok(())
        });
    check.assume("the 256-bit BLAKE2b of ckb-hash is a correct hash function without collisions on the explored inputs");
}
