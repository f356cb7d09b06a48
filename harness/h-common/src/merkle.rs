//! B01: the roots that stand for ordered lists, and the proofs of membership under them.

use common_merkle::{Merkle, TrieMerkle};
use mc::{ensure, ensure_eq, Check, Outcome};
use protocol::types::{Bytes, Hash, RLP_NULL};

fn key(i: usize) -> Vec<u8> {
    rf::u(i as u64).encode()
}

fn value(len: usize, tag: u64) -> Vec<u8> {
    // The value of an item never starts the same way as that of another item, whatever its length.
    let mut v = tag.to_be_bytes()[5..].to_vec();
    v.resize(len.max(3), (tag % 251) as u8);
    v
}

fn tree_root(leaves: &[[u8; 32]]) -> Option<[u8; 32]> {
    if leaves.is_empty() {
        return None;
    }
    let n = leaves.len();
    let mut nodes = vec![[0u8; 32]; 2 * n - 1];
    nodes[n - 1..].copy_from_slice(leaves);
    for i in (0..n - 1).rev() {
        nodes[i] = rf::keccak256(&[nodes[2 * i + 1], nodes[2 * i + 2]].concat());
    }
    Some(nodes[0])
}

pub fn roots(check: &Check) {
    let sizes: Vec<usize> = if check.thorough() {
        (0..=600).collect()
    } else {
        (0..=140).chain([200, 255, 256, 257, 258, 300]).collect()
    };
    let lens = [3usize, 26, 27, 28, 29, 30, 31, 32, 33, 34, 54, 55, 56, 57, 255, 256, 1000];

    check
        .part(
            "trie-receipts",
            "the list has at least two items, so that order and position matter",
            "every list length in the stated set x value lengths around the trie's inline limit and RLP size classes x \
             which item has the odd length",
        )
        .explore(|c| {
            let n = *c.pick(&sizes);
            let len = *c.pick(&lens);
            let odd = c.choose(3);
            let items: Vec<Vec<u8>> = (0..n)
                .map(|i| {
                    let l = match odd {
                        0 => len,
                        1 if i % 2 == 0 => 40,
                        2 if i % 16 == 0 => 3,
                        _ => len,
                    };
                    value(l, i as u64 + 1)
                })
                .collect();
            c.note(|| format!("{n} items of {len} bytes"));
            if n >= 2 {
                c.nontrivial();
            }
            let receipts: Vec<Bytes> = items.iter().map(|v| Bytes::from(v.clone())).collect();
            let mut t = TrieMerkle::from_receipts(&receipts);
            let root = t.root_hash().map_err(|e| format!("root fails: {e}"))?;
            let pairs: Vec<_> = items.iter().enumerate().map(|(i, v)| (key(i), v.clone())).collect();
            ensure_eq!(root.0, rf::mpt_root(&pairs), "root of an item list ({n} x {len})");
            if n == 0 {
                ensure_eq!(root, RLP_NULL, "root of the empty list");
            }
            c.outcome(root.0);
            // Proofs: each position proves exactly its item; positions past the end prove absence.
            let positions: Vec<usize> = if n <= 20 { (0..n + 2).collect() } else { vec![0, 1, n / 2, 127, 128, n - 2, n - 1, n, n + 1] };
            for p in positions {
                let proof = match t.get_proof_by_index(p) {
                    Ok(x) => x,
                    Err(e) => return Err(format!("proof fails: index {p} of {n}: {e}").into()),
                };
                match rf::mpt_lookup(&root.0, &key(p), &proof) {
                    Ok(got) => ensure!(got.as_ref() == items.get(p), "proof shows another item: index {p} of {n}"),
                    Err(e) if n == 0 => ensure!(proof.len() <= 1, "proof of the empty list: {e}"),
                    Err(e) => return Err(format!("proof does not lead from the root: index {p} of {n} ({len} bytes): {e}").into()),
                }
            }
            Ok(())
        });

    check
        .part(
            "trie-hashes",
            "the list has at least two items",
            "every list length in the stated set x distinct or repeated hashes",
        )
        .explore(|c| {
            let n = *c.pick(&sizes);
            let same = c.flip();
            let hashes: Vec<Hash> = (0..n).map(|i| Hash::from(rf::keccak256(&[if same { 7 } else { i as u8 }, (i >> 8) as u8 * !same as u8]))).collect();
            if n >= 2 {
                c.nontrivial();
            }
            let mut t = TrieMerkle::from_iter(hashes.iter().enumerate());
            let root = t.root_hash().map_err(|e| format!("root fails: {e}"))?;
            // The stored value is the canonical encoding of a hash: the 32 bytes under an RLP string head.
            let pairs: Vec<_> = hashes.iter().enumerate().map(|(i, h)| (key(i), rf::b(h.0).encode())).collect();
            let wrapped = rf::mpt_root(&pairs);
            ensure_eq!(root.0, wrapped, "root of a hash list ({n} hashes)");
            c.outcome(root.0);
            Ok(())
        });

    check
        .part(
            "trie-long",
            "the list or an item is long",
            "3000, 4096, 4097, 32 769 and 65 537 short items, or 1 to 20 items of 1 024 to 300 000 bytes; the roots as receipts and as hashes, and the proofs \
             of the first, some middle and the last items",
        )
        .explore(|c| {
            let (n, len) = if c.flip() {
                (*c.pick(&[3000usize, 4096, 4097, 32_769, 65_537]), 4)
            } else {
                (*c.pick(&[1usize, 2, 17, 20]), *c.pick(&[1024usize, 1025, 4097, 16_385, 65_535, 65_536, 70_000, 300_000]))
            };
            let items: Vec<Vec<u8>> = (0..n).map(|i| value(len, i as u64 + 1)).collect();
            c.nontrivial();
            c.outcome((n, len));
            let receipts: Vec<Bytes> = items.iter().map(|v| Bytes::from(v.clone())).collect();
            let mut t = TrieMerkle::from_receipts(&receipts);
            let root = t.root_hash().map_err(|e| format!("root fails: {e}"))?;
            let pairs: Vec<_> = items.iter().enumerate().map(|(i, v)| (key(i), v.clone())).collect();
            ensure_eq!(root.0, rf::mpt_root(&pairs), "root of a long item list ({n} x {len})");
            for p in [0, 1, n / 2, n / 2 + 1, n - 1, n, n + 1] {
                let proof = t.get_proof_by_index(p).map_err(|e| format!("proof fails: index {p} of {n}: {e}"))?;
                match rf::mpt_lookup(&root.0, &key(p), &proof) {
                    Ok(got) => ensure!(got.as_ref() == items.get(p), "proof shows another item: index {p} of {n}"),
                    Err(e) => return Err(format!("proof does not lead from the root: index {p} of {n} ({len} bytes): {e}").into()),
                }
            }
            if len == 4 {
                let hashes: Vec<Hash> = items.iter().map(|v| Hash::from(rf::keccak256(v))).collect();
                let root = TrieMerkle::from_iter(hashes.iter().enumerate()).root_hash().map_err(|e| format!("root fails: {e}"))?;
                let pairs: Vec<_> = hashes.iter().enumerate().map(|(i, h)| (key(i), rf::b(h.0).encode())).collect();
                ensure_eq!(root.0, rf::mpt_root(&pairs), "root of a long hash list ({n} hashes)");
            }
            Ok(())
        });

    // Commitment: the root tells any two lists over a small alphabet apart.
    let max = check.by_tier(4, 6);
    check
        .part(
            "trie-commits",
            "two different lists, one edit apart",
            "all lists up to the stated length over three values x every single edit (change, swap, insert, delete, duplicate)",
        )
        .explore(|c| {
            let n = c.choose(max + 1);
            let vals = [value(3, 1), value(40, 2), value(33, 3)];
            let list: Vec<usize> = (0..n).map(|_| c.choose(3)).collect();
            let root = |l: &[usize]| -> std::result::Result<[u8; 32], String> {
                let b: Vec<Bytes> = l.iter().map(|i| Bytes::from(vals[*i].clone())).collect();
                Ok(TrieMerkle::from_receipts(&b).root_hash().map_err(|e| e.to_string())?.0)
            };
            let base = root(&list)?;
            let mut edits: Vec<Vec<usize>> = vec![];
            for i in 0..=n {
                for v in 0..3 {
                    let mut x = list.clone();
                    x.insert(i, v);
                    edits.push(x);
                    if i < n {
                        let mut x = list.clone();
                        x[i] = v;
                        edits.push(x);
                    }
                }
                if i < n {
                    let mut x = list.clone();
                    x.remove(i);
                    edits.push(x);
                    for j in 0..i {
                        let mut x = list.clone();
                        x.swap(i, j);
                        edits.push(x);
                    }
                }
            }
            edits.retain(|e| e != &list);
            for e in edits {
                c.nontrivial();
                ensure!(root(&e)? != base, "two lists share a root: {list:?} and {e:?}");
            }
            ensure_eq!(root(&list)?, base, "the root of the same list");
            Ok(())
        });

    check
        .part(
            "binary-tree",
            "the tree has at least two leaves",
            "every leaf count up to the stated bound, and 5 up to 65 537; every leaf's proof; every other leaf under that proof",
        )
        .explore(|c| {
            let few = check.by_tier(80, 300);
            let n = c.choose(few + 5);
            let n = n.checked_sub(few).map_or(n, |k| [1000, 4096, 4097, 32_769, 65_537][k]);
            let same = n > 0 && c.flip();
            let leaves: Vec<[u8; 32]> = (0..n).map(|i| rf::keccak256(&if same { [0; 3] } else { [i as u8, (i >> 8) as u8, (i >> 16) as u8] })).collect();
            if n >= 2 {
                c.nontrivial();
            }
            let t = Merkle::from_hashes(leaves.iter().map(|h| Hash::from(*h)).collect());
            let root = tree_root(&leaves);
            ensure_eq!(t.get_root_hash().map(|h| h.0), root, "root of {n} hashes");
            for i in (0..n).filter(|i| n <= 300 || [0, 1, n / 2, n - 2, n - 1].contains(i)) {
                let p = t.get_proof_by_input_index(i).ok_or(format!("no proof: leaf {i} of {n}"))?;
                let up = |leaf: [u8; 32]| {
                    p.iter().fold(leaf, |h, s| {
                        let (a, b) = if s.is_right { (h, s.hash.0) } else { (s.hash.0, h) };
                        rf::keccak256(&[a, b].concat())
                    })
                };
                ensure!(Some(up(leaves[i])) == root, "proof does not give the root: leaf {i} of {n}");
                if !same {
                    let other = leaves[(i + 1) % n];
                    ensure!(n == 1 || Some(up(other)) != root, "proof accepts another leaf: {i} of {n}");
                }
            }
            for i in [n, n + 1, 2 * n + 1] {
                // An empty tree answers index 0 with an empty proof, which proves nothing.
                let p = t.get_proof_by_input_index(i);
                ensure!(p.map(|p| p.is_empty()).unwrap_or(true), "proof of a missing leaf: {i} of {n}");
            }
            c.outcome((n, same));
            Ok(())
        });
    check.assume("keccak-256 has no collisions on the explored inputs");
}
