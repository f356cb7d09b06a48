//! C01: a light client accepts exactly the blocks that the validators agreed on. C02: storage proofs.

use std::sync::OnceLock;

use axon_tools::types as t;
use blst::min_pk::{AggregateSignature, SecretKey, Signature};
use mc::{ensure, ensure_eq, Check};
use protocol::types as p;
use rlp::Encodable;

const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";

fn keys() -> &'static Vec<SecretKey> {
    static KEYS: OnceLock<Vec<SecretKey>> = OnceLock::new();
    KEYS.get_or_init(|| (0..300u16).map(|i| SecretKey::key_gen(&rf::keccak256(&i.to_be_bytes()), &[]).unwrap()).collect())
}

/// The order of the public keys differs from the order of the BLS keys and of the indices.
fn pub_key(i: usize) -> Vec<u8> {
    let mut k = vec![2u8; 33];
    k[1] = [0x70, 0x10, 0x90, 0x30, 0xa0, 0x20, 0x80, 0x40, 0x60, 0x08, 0xe0, 0x50, 0x75, 0x15, 0xb0, 0x35, 0x05, 0xf0][i % 18];
    // the rest of a long list differ in later bytes
    k[2] = ((i / 18 * 7) % 17) as u8;
    k[32] = i as u8;
    k
}

fn validator(i: usize, weight: u32) -> t::ValidatorExtend {
    t::ValidatorExtend {
        bls_pub_key:    keys()[i].sk_to_pk().to_bytes().to_vec().into(),
        pub_key:        pub_key(i).into(),
        address:        p::H160::repeat_byte((i as u8).wrapping_mul(7)),
        propose_weight: 7,
        vote_weight:    weight,
    }
}

/// The position of each validator in the agreed order: that of the public keys.
fn position(i: usize, n: usize) -> usize {
    let k = pub_key(i);
    (0..n).filter(|j| pub_key(*j) < k).count()
}

fn bitmap(signers: &[usize], n: usize) -> Vec<u8> {
    let mut b = vec![0u8; (n + 7) / 8];
    for s in signers {
        let pos = position(*s, n);
        b[pos / 8] |= 0x80 >> (pos % 8);
    }
    b
}

fn vote_hash(height: u64, round: u64, kind: u64, hash: &[u8]) -> [u8; 32] {
    rf::keccak256(&rf::l(vec![rf::u(height), rf::u(round), rf::u(kind), rf::b(hash)]).encode())
}

fn sign(signers: &[usize], msg: &[u8; 32]) -> Vec<u8> {
    let sigs: Vec<Signature> = signers.iter().map(|s| keys()[*s].sign(msg, DST, &[])).collect();
    match AggregateSignature::aggregate(&sigs.iter().collect::<Vec<_>>(), false) {
        Ok(a) => a.to_signature().to_bytes().to_vec(),
        Err(_) => vec![0xc0; 96],
    }
}

pub fn header(n: u64) -> p::Header {
    let h = |i: u8| p::H256(rf::keccak256(&[&n.to_be_bytes()[..], &[i]].concat()));
    p::Header {
        version:                  p::BlockVersion::V0,
        prev_hash:                h(1),
        proposer:                 p::H160::from_slice(&h(2).0[..20]),
        state_root:               h(3),
        transactions_root:        h(4),
        signed_txs_hash:          h(5),
        receipts_root:            h(6),
        log_bloom:                p::Bloom::from_low_u64_be(n),
        timestamp:                1_690_000_000_000u64.wrapping_add(n),
        number:                   n,
        gas_used:                 21000u64.wrapping_mul(n).into(),
        gas_limit:                30_000_000u64.into(),
        extra_data:               (0..n % 3).map(|i| p::ExtraData { inner: vec![i as u8; 40 * i as usize].into() }).collect(),
        base_fee_per_gas:         1337u64.into(),
        proof:                    p::Proof {
            number:     n.saturating_sub(1),
            round:      n % 5,
            block_hash: h(7),
            signature:  h(8).0.repeat(3).into(),
            bitmap:     vec![n as u8].into(),
        },
        call_system_script_count: n as u32,
        chain_id:                 **protocol::lazy::CHAIN_ID.load(),
    }
}

pub fn to_tools_header(h: &p::Header) -> t::Header {
    t::Header {
        version:                  t::BlockVersion::V0,
        prev_hash:                h.prev_hash,
        proposer:                 h.proposer,
        state_root:               h.state_root,
        transactions_root:        h.transactions_root,
        signed_txs_hash:          h.signed_txs_hash,
        receipts_root:            h.receipts_root,
        log_bloom:                h.log_bloom,
        timestamp:                h.timestamp,
        number:                   h.number,
        gas_used:                 h.gas_used,
        gas_limit:                h.gas_limit,
        extra_data:               h.extra_data.iter().map(|e| t::ExtraData { inner: e.inner.clone() }).collect(),
        base_fee_per_gas:         h.base_fee_per_gas,
        proof:                    to_tools_proof(&h.proof),
        call_system_script_count: h.call_system_script_count,
        chain_id:                 h.chain_id,
    }
}

pub fn to_tools_proof(x: &p::Proof) -> t::Proof {
    t::Proof {
        number:        x.number,
        round:         x.round,
        proposal_hash: x.block_hash,
        signature:     x.signature.clone(),
        bitmap:        x.bitmap.clone(),
    }
}

struct Case {
    block:      t::Block,
    prev_root:  p::H256,
    validators: Vec<t::ValidatorExtend>,
    proof:      t::Proof,
}

fn tx_hashes(k: usize) -> Vec<p::H256> {
    (0..k).map(|i| p::H256(rf::keccak256(&[0x55, i as u8, (i >> 8) as u8]))).collect()
}

fn prev_root(n: u64) -> p::H256 {
    p::H256(rf::keccak256(&[&[0x77], &n.to_be_bytes()[..]].concat()))
}

fn case(h: &p::Header, txs: usize, round: u64, signers: &[usize], weights: &[u32]) -> Case {
    let hashes = tx_hashes(txs);
    // What validators vote on: the proposal as the node itself builds and hashes it.
    let hash = p::Proposal::new_with_state_root(h, prev_root(h.number), hashes.clone()).hash();
    let n = weights.len();
    Case {
        block:      t::Block { header: to_tools_header(h), tx_hashes: hashes },
        prev_root:  prev_root(h.number),
        validators: weights.iter().enumerate().map(|(i, w)| validator(i, *w)).collect(),
        proof:      t::Proof {
            number:        h.number,
            round,
            proposal_hash: hash,
            signature:     sign(signers, &vote_hash(h.number, round, 2, &hash.0)).into(),
            bitmap:        bitmap(signers, n).into(),
        },
    }
}

fn verify(c: &Case, order: usize) -> Result<bool, String> {
    let mut v = c.validators.clone();
    match order {
        0 => {}
        1 => v.reverse(),
        _ => {
            let half = v.len() / 2;
            v.rotate_left(half)
        }
    }
    mc::no_panic(|| axon_tools::verify_proof(c.block.clone(), c.prev_root, &mut v, c.proof.clone()).is_ok())
}

pub fn light_client(check: &Check) {
    let max = check.by_tier(4usize, 6);
    check
        .part(
            "quorum",
            "the signers are neither none nor all",
            "every number of validators up to the bound (plus 8 of equal weight), every assignment of weights from the stated set, \
             every subset of signers, three orders of the validator list, a bitmap with or without a spare byte",
        )
        .explore(|c| {
            let n = 1 + c.choose(max);
            let weights: Vec<u32> = if n <= 3 || check.thorough() && n <= 4 {
                (0..n).map(|_| *c.pick(&[1u32, 0, 2, 5, u32::MAX])).collect()
            } else {
                c.pick(&[vec![1; 6], vec![1, 2, 3, 4, 5, 6], vec![u32::MAX; 6], vec![9, 1, 1, 1, 1, 1], vec![0, 1, 1, 1, 0, 1]])[..n].to_vec()
            };
            let mask = c.choose(1 << n);
            let signers: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
            let order = c.choose(3);
            let spare = c.flip();
            if !signers.is_empty() && signers.len() < n {
                c.nontrivial();
            }
            let mut k = case(&header(3), 2, 1, &signers, &weights);
            if spare {
                let mut b = k.proof.bitmap.to_vec();
                b.push(0);
                k.proof.bitmap = b.into();
            }
            let total: u64 = weights.iter().map(|w| *w as u64).sum();
            let signed: u64 = signers.iter().map(|s| weights[*s] as u64).sum();
            let expect = signed * 3 > total * 2;
            c.note(|| format!("weights {weights:?} signers {signers:?}"));
            let got = verify(&k, order)?;
            ensure_eq!(got, expect, "a block signed by validators of weight {signed} of {total}");
            c.outcome((n, got));
            Ok(())
        });

    check
        .part(
            "many",
            "the bitmap has another length than the list needs",
            "7, 8, 9, 15, 16 and 17 validators x equal weights, one or two heavy ones x the first to the last k in the list missing, for every k, or the \
             bits of one whole byte x a bitmap cut to every shorter length, exact, or one or two bytes longer x signed by all of them or by those the bitmap names",
        )
        .explore(|c| {
            let n = *c.pick(&[7usize, 8, 9, 15, 16, 17]);
            let weights: Vec<u32> = match c.choose(3) {
                0 => vec![1; n],
                1 => (0..n).map(|i| if position(i, n) + 1 == n { n as u32 } else { 1 }).collect(),
                _ => (0..n).map(|i| if position(i, n) == 0 || position(i, n) + 1 == n { 4 } else { 1 }).collect(),
            };
            let in_order: Vec<usize> = (0..n).map(|p| (0..n).find(|i| position(*i, n) == p).unwrap()).collect();
            let cut = c.choose(n);
            let signers: Vec<usize> = match c.choose(3) {
                0 => in_order[..n - cut].to_vec(),
                1 => in_order[cut..].to_vec(),
                _ => in_order.iter().copied().filter(|i| position(*i, n) != cut).collect(),
            };
            let mut k = case(&header(3), 2, 1, &signers, &weights);
            let bytes = c.choose((n + 7) / 8 + 3);
            let mut b = k.proof.bitmap.to_vec();
            b.resize(bytes, 0);
            k.proof.bitmap = b.into();
            let named: Vec<usize> = signers.iter().copied().filter(|s| position(*s, n) < bytes * 8).collect();
            if c.flip() {
                let hash = k.proof.proposal_hash;
                k.proof.signature = sign(&named, &vote_hash(3, 1, 2, &hash.0)).into();
            } else if named != signers {
                c.nontrivial();
                ensure_eq!(verify(&k, 0)?, false, "a proof that names others than signed");
                return Ok(());
            }
            if bytes != (n + 7) / 8 {
                c.nontrivial();
            }
            let total: u64 = weights.iter().map(|w| *w as u64).sum();
            let signed: u64 = named.iter().map(|s| weights[*s] as u64).sum();
            let got = verify(&k, 0)?;
            ensure_eq!(got, signed * 3 > total * 2, "a block signed by validators of weight {signed} of {total}, {n} of them, {bytes} bytes of bitmap");
            c.outcome((n, bytes, got));
            Ok(())
        });

    check
        .part(
            "who-signed",
            "the bitmap names another set than signed",
            "four validators: every pair of (named set, set that signed); accepted only if they agree and are a quorum",
        )
        .explore(|c| {
            let n = 4;
            let (a, b) = (c.choose(16), c.choose(16));
            let set = |m: usize| (0..n).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>();
            let mut k = case(&header(4), 1, 0, &set(b), &[1, 1, 1, 1]);
            k.proof.bitmap = bitmap(&set(a), n).into();
            if a != b {
                c.nontrivial();
            }
            let got = verify(&k, 0)?;
            ensure_eq!(got, a == b && set(a).len() == 3 || a == b && a == 15, "named {:?}, signed by {:?}", set(a), set(b));
            Ok(())
        });

    check
        .part(
            "large",
            "the list is longer than any word",
            "18 to 300 validators (8 lengths) x the first or the last of them in the agreed order, as many as are just enough, one fewer, or all x \
             one of them, first, in the middle or last, did not sign",
        )
        .explore(|c| {
            let n = *c.pick(&[18usize, 31, 33, 64, 65, 129, 257, 300]);
            let mut in_order: Vec<usize> = (0..n).collect();
            in_order.sort_by_key(|i| pub_key(*i));
            let k = [n * 2 / 3 + 1, n * 2 / 3, n][c.choose(3)];
            let named = if c.flip() { &in_order[..k] } else { &in_order[n - k..] };
            let lost = c.choose(4);
            let mut x = case(&header(3), 2, 1, &[0], &vec![1; n]);
            let mut signed = named.to_vec();
            if lost > 0 {
                signed.remove([0, k / 2, k - 1][lost - 1]);
            }
            let mut bits = vec![0u8; (n + 7) / 8];
            in_order.iter().enumerate().filter(|(_, i)| named.contains(i)).for_each(|(pos, _)| bits[pos / 8] |= 0x80 >> (pos % 8));
            x.proof.bitmap = bits.into();
            let hash = x.proof.proposal_hash;
            x.proof.signature = sign(&signed, &vote_hash(3, 1, 2, &hash.0)).into();
            c.nontrivial();
            c.outcome((n, k, lost));
            ensure_eq!(verify(&x, 1)?, k * 3 > n * 2 && lost == 0, "a block that {k} of {n} validators signed, without one of them: {lost}");
            Ok(())
        });
    check
        .part(
            "sizes",
            "a large block is signed",
            "4 to 3000 transactions (9 lengths), or 0 to 300 extra data of 0 to 2000 bytes x unchanged, or the first, middle or last of them changed or dropped",
        )
        .explore(|c| {
            let mut h = header(6);
            let txs = c.flip();
            let n = if txs { *c.pick(&[4usize, 16, 31, 32, 33, 64, 256, 257, 3000]) } else { *c.pick(&[0usize, 1, 2, 8, 33, 300]) };
            if !txs {
                let len = *c.pick(&[0usize, 1, 31, 32, 33, 55, 56, 255, 256, 2000]);
                h.extra_data = (0..n).map(|i| p::ExtraData { inner: vec![i as u8; len].into() }).collect();
            }
            let mut x = case(&h, if txs { n } else { 1 }, 1, &[0, 1, 2], &[1, 1, 1]);
            let how = if n == 0 { 0 } else { c.choose(7) };
            let at = [0, n / 2, n.saturating_sub(1)][how.saturating_sub(1) % 3];
            let mut changed = how > 0;
            match (txs, how) {
                (_, 0) => {}
                (true, 1..=3) => x.block.tx_hashes[at].0[17] ^= 4,
                (true, _) => {
                    x.block.tx_hashes.remove(at);
                }
                (false, 1..=3) => {
                    let mut b = x.block.header.extra_data[at].inner.to_vec();
                    changed = !b.is_empty();
                    b.last_mut().map(|b| *b ^= 1);
                    x.block.header.extra_data[at].inner = b.into();
                }
                _ => {
                    x.block.header.extra_data.remove(at);
                }
            }
            if changed {
                c.nontrivial();
            }
            c.outcome((txs, n, how));
            ensure_eq!(verify(&x, 0)?, !changed, "a block with {n} transactions or extra data: change {how}, transactions {txs}");
            Ok(())
        });

    type Edit = (&'static str, fn(&mut Case, u8));
    fn flip(h: &mut p::H256, k: u8) {
        h.0[[0, 31, 13][k as usize]] ^= [1, 0x80, 0x10][k as usize];
    }
    const EDITS: [Edit; 22] = [
        ("nothing", |_, _| {}),
        ("prev_hash", |c, k| flip(&mut c.block.header.prev_hash, k)),
        ("proposer", |c, k| c.block.header.proposer.0[(k * 9) as usize] ^= 1),
        ("transactions_root", |c, k| flip(&mut c.block.header.transactions_root, k)),
        ("signed_txs_hash", |c, k| flip(&mut c.block.header.signed_txs_hash, k)),
        ("timestamp", |c, k| c.block.header.timestamp ^= 1 << (k * 31)),
        ("number", |c, k| c.block.header.number ^= 1 << (k * 31)),
        ("gas_limit", |c, k| c.block.header.gas_limit = (c.block.header.gas_limit.low_u64() ^ 1 << (k * 31)).into()),
        ("extra_data added", |c, k| c.block.header.extra_data.push(t::ExtraData { inner: vec![k; k as usize].into() })),
        ("extra_data first", |c, k| match c.block.header.extra_data.first_mut() {
            Some(e) => e.inner = vec![k + 9].into(),
            None => c.block.header.extra_data.push(t::ExtraData { inner: vec![1].into() }),
        }),
        ("extra_data last", |c, k| match c.block.header.extra_data.last_mut() {
            Some(e) => e.inner = vec![k + 9; 2].into(),
            None => c.block.header.extra_data.push(t::ExtraData { inner: vec![1].into() }),
        }),
        ("parent proof number", |c, k| c.block.header.proof.number ^= 1 << (k * 31)),
        ("parent proof round", |c, k| c.block.header.proof.round ^= 1 << (k * 31)),
        ("parent proof hash", |c, k| flip(&mut c.block.header.proof.proposal_hash, k)),
        ("parent proof signature", |c, k| c.block.header.proof.signature = vec![k; 96].into()),
        ("parent proof bitmap", |c, k| c.block.header.proof.bitmap = vec![k; 2].into()),
        ("script count", |c, k| c.block.header.call_system_script_count ^= 1 << (k * 15)),
        ("tx added", |c, k| c.block.tx_hashes.insert(0, p::H256::repeat_byte(k + 1))),
        ("tx changed", |c, k| match c.block.tx_hashes.last_mut() {
            Some(h) => flip(h, k),
            None => c.block.tx_hashes.push(p::H256::zero()),
        }),
        ("previous state root", |c, k| flip(&mut c.prev_root, k)),
        ("tx dropped or repeated", |c, k| {
            if k == 0 || c.block.tx_hashes.is_empty() {
                c.block.tx_hashes.push(*c.block.tx_hashes.first().unwrap_or(&p::H256::zero()));
            } else {
                c.block.tx_hashes.pop();
            }
        }),
        ("proposal hash in the proof", |c, k| flip(&mut c.proof.proposal_hash, k)),
    ];
    check
        .part(
            "block-bound",
            "some field of the block differs from what was signed",
            "blocks 0..=5 (with different extra data) x 0..=2 transactions x every signed field x three changes of it",
        )
        .explore(|c| {
            let h = header(c.choose(6) as u64);
            let txs = c.choose(3);
            let e = c.choose(EDITS.len());
            let k = if e == 0 { 0 } else { c.choose(3) as u8 };
            let mut x = case(&h, txs, 2, &[0, 1, 2], &[1, 1, 1, 0]);
            EDITS[e].1(&mut x, k);
            c.note(|| EDITS[e].0.to_string());
            if e > 0 {
                c.nontrivial();
            }
            ensure_eq!(verify(&x, 0)?, e == 0, "a block whose {} was changed after signing", EDITS[e].0);
            Ok(())
        });

    check
        .part(
            "vote-bound",
            "the vote signed is not the vote claimed",
            "signatures over a vote of another height, round, kind or block, over the bare hash, by a stranger's key, or under \
             another validator's key, or empty or zero x 9 block numbers up to the largest x 4 rounds",
        )
        .explore(|c| {
            let h = header(*c.pick(&[5u64, 0, 1, 2, 255, 256, u32::MAX as u64, 1 << 32, u64::MAX]));
            let round = *c.pick(&[0u64, 1, u32::MAX as u64, u64::MAX]);
            let kind = c.choose(14);
            let signers = [0usize, 1, 2];
            let mut x = case(&h, 1, round, &signers, &[1, 1, 1]);
            let hash = x.proof.proposal_hash.0;
            let s = |m: &[u8; 32]| bytes::Bytes::from(sign(&signers, m));
            match kind {
                0 => {}
                1 => x.proof.signature = s(&vote_hash(h.number.wrapping_add(1), round, 2, &hash)),
                2 => x.proof.signature = s(&vote_hash(h.number, round ^ 1, 2, &hash)),
                3 => x.proof.signature = s(&vote_hash(h.number, round, 1, &hash)),
                4 => x.proof.signature = s(&vote_hash(h.number, round, 3, &hash)),
                5 => x.proof.signature = s(&vote_hash(h.number, round, 2, &rf::keccak256(&hash))),
                6 => x.proof.signature = s(&hash),
                7 => x.proof.signature = sign(&[0, 1, 3], &vote_hash(h.number, round, 2, &hash)).into(),
                8 => x.proof.signature = sign(&[0, 1, 1], &vote_hash(h.number, round, 2, &hash)).into(),
                9 => x.proof.number ^= 1,
                10 => x.proof.round ^= 1,
                11 => x.proof.signature = vec![].into(),
                12 => x.proof.signature = vec![0; 96].into(),
                _ => x.validators[1].bls_pub_key = keys()[4].sk_to_pk().to_bytes().to_vec().into(),
            }
            if kind > 0 {
                c.nontrivial();
            }
            ensure_eq!(verify(&x, 0)?, kind == 0, "a proof whose signature is not that of the claimed vote (kind {kind})");
            Ok(())
        });

    check
        .part(
            "malformed",
            "some part of the proof or of the validator list has an impossible form",
            "every listed form of the signature x of a validator's BLS key x of the bitmap, and of an empty validator list",
        )
        .explore(|c| {
            let mut x = case(&header(1), 1, 0, &[0, 1, 2], &[1, 1, 1]);
            let good = x.proof.signature.to_vec();
            let sig = c.choose(9);
            x.proof.signature = match sig {
                0 => good.clone(),
                1 => vec![],
                2 => good[..95].to_vec(),
                3 => [&good[..], &[0]].concat(),
                4 => vec![0; 96],
                5 => vec![0xff; 96],
                6 => {
                    let mut v = vec![0; 96];
                    v[0] = 0xc0;
                    v
                }
                7 => good.iter().enumerate().map(|(i, b)| if i == 0 { b ^ 0x20 } else { *b }).collect(),
                _ => vec![0x80; 192],
            }
            .into();
            let key = c.choose(8);
            let pk = keys()[1].sk_to_pk().to_bytes().to_vec();
            x.validators[1].bls_pub_key = match key {
                0 => pk.clone(),
                1 => vec![],
                2 => pk[..47].to_vec(),
                3 => [&pk[..], &[0]].concat(),
                4 => vec![0; 48],
                5 => vec![0xff; 48],
                6 => {
                    let mut v = vec![0; 48];
                    v[0] = 0xc0;
                    v
                }
                _ => keys()[1].sk_to_pk().serialize().to_vec(),
            }
            .into();
            let map = c.choose(5);
            x.proof.bitmap = match map {
                0 => x.proof.bitmap.clone(),
                1 => vec![].into(),
                2 => vec![0; 4].into(),
                3 => vec![0xff].into(),
                _ => vec![0xff; 40].into(),
            };
            let empty = c.flip();
            if empty {
                x.validators.clear();
            }
            let plain = sig == 0 && key == 0 && map != 1 && map != 2 && !empty;
            if !plain {
                c.nontrivial();
            }
            let got = verify(&x, 0)?;
            if plain {
                ensure!(got, "a good proof is refused: bitmap form {map}");
            } else if key == 7 && sig == 0 && map != 1 && map != 2 && !empty {
                // The uncompressed form of the right key: accepting it is harmless.
            } else {
                ensure!(!got, "a malformed proof is accepted: signature form {sig}, key form {key}, bitmap form {map}, empty {empty}");
            }
            Ok(())
        });

    check
        .part(
            "same-hash",
            "the two sides encode the same value",
            "proposals built from headers 0..=40 x 0..=3 transactions: the tool's encoding, its hash and the node's hash",
        )
        .explore(|c| {
            let h = header(c.choose(41) as u64);
            let txs = tx_hashes(c.choose(4));
            let node = p::Proposal::new_with_state_root(&h, prev_root(h.number), txs.clone());
            let th = to_tools_header(&h);
            let tool = t::Proposal {
                version:                  th.version,
                prev_hash:                th.prev_hash,
                proposer:                 th.proposer,
                prev_state_root:          prev_root(h.number),
                transactions_root:        th.transactions_root,
                signed_txs_hash:          th.signed_txs_hash,
                timestamp:                th.timestamp,
                number:                   th.number,
                gas_limit:                th.gas_limit,
                extra_data:               th.extra_data.clone(),
                base_fee_per_gas:         th.base_fee_per_gas,
                proof:                    th.proof.clone(),
                chain_id:                 th.chain_id,
                call_system_script_count: th.call_system_script_count,
                tx_hashes:                txs,
            };
            c.nontrivial();
            ensure_eq!(mc::hex(tool.rlp_bytes()), mc::hex(node.rlp_bytes()), "the encoding of a proposal");
            ensure_eq!(axon_tools::keccak_256(&tool.rlp_bytes()), node.hash().0, "the hash of a proposal");
            c.outcome(node.hash());
            let vote = t::Vote { height: h.number, round: h.proof.round, vote_type: 2, proposal_hash: node.hash().0.to_vec().into() };
            let back: overlord::types::Vote = rlp::decode(&vote.rlp_bytes()).map_err(|e| format!("the node cannot read a vote: {e}"))?;
            ensure!(back.height == vote.height && back.round == vote.round && back.block_hash == vote.proposal_hash, "the node reads another vote: {back:?}");
            ensure_eq!(mc::hex(rlp::encode(&back)), mc::hex(vote.rlp_bytes()), "the encoding of a vote");
            Ok(())
        });
    check.assume("BLS12-381 signatures cannot be forged and keccak-256 has no collisions on the explored inputs");
}

pub fn storage_proofs(check: &Check) {
    use hasher::HasherKeccak;
    use std::sync::Arc;
    use trie::{MemoryDB, PatriciaTrie, Trie};

    let keysets: Vec<Vec<Vec<u8>>> = vec![
        vec![],
        vec![b"\x12\x34".to_vec()],
        vec![b"\x12\x34".to_vec(), b"\x12\x35".to_vec()],
        vec![b"\x12\x34".to_vec(), b"\x12".to_vec(), b"\x22\x34".to_vec()],
        vec![b"\x12\x34".to_vec(), b"\x12\x34\x56".to_vec(), b"\x12\x34\x57".to_vec(), b"\x13".to_vec(), b"\x82".to_vec()],
        (0..17u8).map(|i| vec![i * 15, i]).collect(),
        (0..40u8).map(|i| rf::keccak256(&[i]).to_vec()).collect(),
    ];
    let probes: Vec<Vec<u8>> = vec![
        vec![0x12, 0x34], vec![0x12], vec![0x12, 0x35], vec![0x12, 0x34, 0x56], vec![0x12, 0x34, 0x5f], vec![0x22, 0x34], vec![0x22, 0x35], vec![],
        vec![0xff; 32], rf::keccak256(&[3]).to_vec(), rf::keccak256(&[200]).to_vec(), vec![15, 1],
    ];
    check
        .part(
            "proofs",
            "the proof was altered",
            "7 sets of entries x short or long values, or of up to 70 000 bytes x 12 keys (present, absent, prefixes) x every alteration: none, each node dropped, each \
             node changed in its first, middle or last byte, nodes reversed, a foreign node added, another root; the answer is the true \
             one or an error",
        )
        .explore(|c| {
            let keys = c.pick(&keysets).clone();
            let long = c.choose(3);
            let key = c.pick(&probes).clone();
            let pairs: Vec<(Vec<u8>, Vec<u8>)> = keys
                .iter()
                .enumerate()
                .map(|(i, k)| (k.clone(), vec![i as u8 + 1; [1 + i % 3, 40, 70_000 >> (3 * i % 10)][long]]))
                .collect();
            let mut tr = PatriciaTrie::new(Arc::new(MemoryDB::new(false)), Arc::new(HasherKeccak::new()));
            for (k, v) in &pairs {
                tr.insert(k.clone(), v.clone()).map_err(|e| e.to_string())?;
            }
            let root = tr.root().map_err(|e| e.to_string())?;
            let proof = tr.get_proof(&key).map_err(|e| e.to_string())?;
            let truth = pairs.iter().find(|(k, _)| k == &key).map(|(_, v)| v.clone());
            let mut root = p::H256::from_slice(&root);
            ensure_eq!(root.0, rf::mpt_root(&pairs), "the root of a trie");
            let n = proof.len();
            let alter = c.choose(4 + 4 * n);
            let mut altered = proof.clone();
            let mut same = false;
            match alter {
                0 => same = true,
                1 => {
                    altered.reverse();
                    same = true;
                }
                2 => {
                    altered.push(vec![0xc1, 0x05]);
                    same = true;
                }
                3 => root.0[5] ^= 1,
                x => {
                    let (i, how) = ((x - 4) / 4, (x - 4) % 4);
                    let l = altered[i].len();
                    match how {
                        0 => {
                            altered.remove(i);
                        }
                        1 => altered[i][0] ^= 1,
                        2 => altered[i][l / 2] ^= 4,
                        _ => altered[i][l - 1] ^= 1,
                    }
                }
            }
            if alter > 0 {
                c.nontrivial();
            }
            let got = mc::no_panic(|| axon_tools::verify_trie_proof(root, &key, altered))?;
            match got {
                Ok(v) => {
                    ensure!(root.0 == rf::mpt_root(&pairs), "a proof is accepted under another root: {v:?}");
                    ensure_eq!(v, truth, "the value shown by a proof (alteration {alter})");
                }
                // nothing can be shown of an empty trie: its proof has no nodes
                Err(e) => ensure!(!same || pairs.is_empty(), "a good proof is refused: {} nodes, alteration {alter}: {e:?}", n),
            }
            c.outcome((n, alter.min(4), same));
            Ok(())
        });
    check.assume("keccak-256 has no collisions on the explored inputs");
}
