//! What transactions, blocks and receipts mean: signing, hashing, assembling, text forms.

use std::collections::HashMap;
use std::str::FromStr;
use std::sync::Mutex;

use crate::gen;
use ethers_core::k256::ecdsa::SigningKey;
use mc::{ensure, ensure_eq, Check, Chooser, Fail, Outcome};
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rf::Item;

// ------------------------------------------------------------------------------------------- A04

/// The account of a secret key, computed with another implementation of the curve.
fn address_of(key: &[u8; 32]) -> (H160, Vec<u8>) {
    let k = SigningKey::from_slice(key).unwrap();
    let p = k.verifying_key().to_encoded_point(false);
    let pub64 = p.as_bytes()[1..].to_vec();
    let h = rf::keccak256(&pub64);
    (H160::from_slice(&h[12..]), pub64)
}

/// Signs Ethereum's signing payload with another implementation of the curve.
pub fn foreign_sign(u: &UnsignedTransaction, chain_id: Option<u64>, key: &[u8; 32]) -> UnverifiedTransaction {
    let hash = rf::keccak256(&gen::rf_tx(u, chain_id, None));
    let k = SigningKey::from_slice(key).unwrap();
    let (sig, id) = k.sign_prehash_recoverable(&hash).unwrap();
    UnverifiedTransaction {
        unsigned: u.clone(),
        signature: Some(SignatureComponents {
            r: sig.r().to_bytes().to_vec().into(),
            s: sig.s().to_bytes().to_vec().into(),
            standard_v: id.to_byte(),
        }),
        chain_id,
        hash: H256::zero(),
    }
}

fn authentic(c: &mut Chooser) -> Outcome {
    let u = gen::unsigned(c);
    authentic_of(c, u)
}

fn authentic_of(c: &mut Chooser, u: UnsignedTransaction) -> Outcome {
    let id = gen::chain_id(c, u.is_legacy());
    let key = *c.pick_dev(&gen::KEYS);
    c.nontrivial();
    c.note(|| format!("{} chain {:?}", mc::short(&u), id));
    let mut t = foreign_sign(&u, id, &key);
    let want = gen::rf_signed(&t);
    let want_hash = H256(rf::keccak256(&want));
    let (addr, public) = address_of(&key);
    ensure_eq!(
        t.signature_hash(true),
        H256(rf::keccak256(&gen::rf_tx(&u, id, None))),
        "signing hash is not the one Ethereum defines"
    );
    if u.is_legacy() {
        ensure_eq!(
            t.signature_hash(false),
            H256(rf::keccak256(&gen::rf_tx(&u, None, None))),
            "signing hash without chain id"
        );
    }
    ensure_eq!(t.get_hash(), want_hash, "transaction hash is not the hash of its signed encoding");
    ensure!(t.check_hash().is_err(), "a wrong recorded hash passes the hash check: {}", mc::short(&u));
    t = t.calc_hash();
    ensure_eq!(t.hash, want_hash, "recorded hash");
    ensure!(t.check_hash().is_ok(), "the right hash fails the hash check: {}", mc::short(&u));
    let mut wrong = t.clone();
    wrong.hash.0[31] ^= 1;
    ensure!(wrong.check_hash().is_err(), "a wrong recorded hash passes the hash check: last bit");
    let p = t.recover_public(true).map_err(|e| Fail::from(format!("valid signature rejected: {e}")))?;
    ensure_eq!(p.as_bytes(), &public[..], "recovered public key");
    let mut forged = t.clone();
    forged.hash = H256::repeat_byte(0x77);
    let st = SignedTransaction::from_unverified(forged).map_err(|e| Fail::from(format!("valid signature rejected: {e}")))?;
    ensure_eq!(st.sender, addr, "sender is not the signer's account");
    ensure_eq!(st.transaction.hash, want_hash, "a hash supplied from outside is kept");
    ensure_eq!(st.public.map(|p| p.as_bytes().to_vec()), Some(public.clone()), "recorded public key");
    ensure_eq!(public_to_address(&p), addr, "account of a public key");
    let full = recover_intact_pub_key(&p);
    ensure!(full[0] == 4 && full[1..] == public[..], "uncompressed public key: {full:?}");
    ensure_eq!(st.is_eip155(), id.is_some(), "replay protection flag");
    // through the wire
    let d = UnverifiedTransaction::decode(&want).map_err(|e| Fail::from(format!("valid transaction rejected: {e}")))?;
    ensure!(d.check_hash().is_ok(), "hash check of a decoded transaction");
    let st2 = SignedTransaction::from_unverified(d).map_err(|e| Fail::from(format!("valid signature rejected: {e}")))?;
    ensure_eq!(st2, st, "transaction after the wire");
    c.outcome(st.transaction.hash);
    Ok(())
}

/// One change of one signed field; `None` when the transaction has no such field.
fn tamper(u: &UnsignedTransaction, id: Option<u64>, m: usize) -> Option<(UnsignedTransaction, Option<u64>, &'static str)> {
    let mut t = u.clone();
    macro_rules! all {
        ($f:ident, $e:expr) => {
            match &mut t {
                UnsignedTransaction::Legacy(x) => $e(&mut x.$f),
                UnsignedTransaction::Eip2930(x) => $e(&mut x.$f),
                UnsignedTransaction::Eip1559(x) => $e(&mut x.$f),
            }
        };
    }
    let bump = |v: &mut U64| *v = U64::from(v.as_u64().wrapping_add(1));
    let top = |v: &mut U64| *v = U64::from(v.as_u64() ^ (1 << 63));
    let what = match m {
        0 => {
            all!(nonce, bump);
            "nonce"
        }
        1 => {
            all!(nonce, top);
            "nonce high bit"
        }
        2 => {
            all!(gas_price, bump);
            "gas price"
        }
        3 => {
            all!(gas_limit, bump);
            "gas limit"
        }
        4 => {
            all!(value, |v: &mut U256| *v = v.overflowing_add(U256::one()).0);
            "value"
        }
        5 => {
            all!(value, |v: &mut U256| *v = *v ^ (U256::one() << 255));
            "value high bit"
        }
        6 => {
            all!(data, |d: &mut Bytes| {
                let mut v = d.to_vec();
                v.push(0);
                *d = v.into();
            });
            "data longer"
        }
        7 => {
            all!(data, |d: &mut Bytes| {
                let mut v = d.to_vec();
                if let Some(x) = v.first_mut() {
                    *x ^= 0x80;
                } else {
                    v.push(1);
                }
                *d = v.into();
            });
            "data"
        }
        8 => {
            all!(action, |a: &mut TransactionAction| {
                *a = match a {
                    TransactionAction::Create => TransactionAction::Call(H160::zero()),
                    TransactionAction::Call(_) => TransactionAction::Create,
                };
            });
            "call or create"
        }
        9 => {
            all!(action, |a: &mut TransactionAction| {
                *a = match a {
                    TransactionAction::Create => TransactionAction::Call(H160::repeat_byte(1)),
                    TransactionAction::Call(h) => {
                        let mut h = *h;
                        h.0[19] ^= 1;
                        TransactionAction::Call(h)
                    }
                };
            });
            "recipient"
        }
        10 => match &mut t {
            UnsignedTransaction::Eip1559(x) => {
                bump(&mut x.max_priority_fee_per_gas);
                "priority fee"
            }
            _ => return None,
        },
        11 | 12 | 13 | 14 => {
            let l = match &mut t {
                UnsignedTransaction::Legacy(_) => return None,
                UnsignedTransaction::Eip2930(x) => &mut x.access_list,
                UnsignedTransaction::Eip1559(x) => &mut x.access_list,
            };
            match m {
                11 => l.push(AccessListItem {
                    address: H160::zero(),
                    storage_keys: vec![],
                }),
                12 => {
                    let x = l.last_mut()?;
                    x.storage_keys.push(H256::zero());
                }
                13 => {
                    let x = l.first_mut()?;
                    x.address.0[0] ^= 1;
                }
                _ => {
                    let x = l.first_mut()?;
                    x.storage_keys.first_mut()?.0[31] ^= 1;
                }
            }
            "access list"
        }
        15 => {
            let id = match id {
                Some(i) if i < (1 << 62) => Some(i + 1),
                Some(i) => Some(i - 1),
                None => Some(1),
            };
            return Some((t, id, "chain id"));
        }
        16 => {
            if id.is_some() && t.is_legacy() {
                return Some((t, None, "replay protection removed"));
            }
            return None;
        }
        17 => {
            // the same fields as another kind of transaction
            t = match &t {
                // a legacy `v` cannot carry the largest chain ids
                UnsignedTransaction::Eip2930(_) if id.unwrap_or(0) > (u64::MAX - 36) / 2 => return None,
                UnsignedTransaction::Eip2930(x) => UnsignedTransaction::Legacy(LegacyTransaction {
                    nonce: x.nonce,
                    gas_price: x.gas_price,
                    gas_limit: x.gas_limit,
                    action: x.action,
                    value: x.value,
                    data: x.data.clone(),
                }),
                UnsignedTransaction::Legacy(x) => UnsignedTransaction::Eip2930(Eip2930Transaction {
                    nonce: x.nonce,
                    gas_price: x.gas_price,
                    gas_limit: x.gas_limit,
                    action: x.action,
                    value: x.value,
                    data: x.data.clone(),
                    access_list: vec![],
                }),
                UnsignedTransaction::Eip1559(x) => UnsignedTransaction::Eip2930(Eip2930Transaction {
                    nonce: x.nonce,
                    gas_price: x.gas_price,
                    gas_limit: x.gas_limit,
                    action: x.action,
                    value: x.value,
                    data: x.data.clone(),
                    access_list: x.access_list.clone(),
                }),
            };
            "transaction kind"
        }
        _ => return None,
    };
    Some((t, id, what))
}

pub fn authentication(k: &Check) {
    k.part(
        "recover",
        "every transaction of the domain, signed by another implementation over Ethereum's payload: signing hash, \
         transaction hash, sender and public key agree with it, directly and after the wire",
        "fields away from default",
    )
    .deviations(k.by_tier(2, 3))
    .explore(authentic);
    k.part("large", "as recover, for transactions of each kind with long data or a long access list", "data up to 140 000 bytes, 1000 entries, 1000 keys")
        .explore(|c| {
            let u = gen::large(c);
            authentic_of(c, u)
        });
    k.part(
        "tamper",
        "every transaction of the domain x every single change of a signed field, keeping the signature: the result is \
         rejected or belongs to another sender, has another hash and fails the check of the original hash",
        "fields away from default; one change",
    )
    .deviations(k.by_tier(2, 3))
    .explore(|c| {
        let u = gen::unsigned(c);
        let id = gen::chain_id(c, u.is_legacy());
        let key = *c.pick_dev(&gen::KEYS);
        let t = foreign_sign(&u, id, &key).calc_hash();
        let addr = address_of(&key).0;
        let m = c.choose(18);
        let Some((u2, id2, what)) = tamper(&u, id, m) else {
            return Ok(());
        };
        c.nontrivial();
        c.note(|| format!("{} chain {:?}: change of {what}", mc::short(&u), id));
        let t2 = UnverifiedTransaction {
            unsigned: u2,
            signature: t.signature.clone(),
            chain_id: id2,
            hash: t.hash,
        };
        if (&t2.unsigned, t2.chain_id) == (&t.unsigned, t.chain_id) {
            return Ok(());
        }
        // A typed transaction has chain id 0 when none is given: that is no change.
        if !t2.unsigned.is_legacy() && t2.unsigned == t.unsigned && t2.chain_id.unwrap_or(0) == t.chain_id.unwrap_or(0) {
            return Ok(());
        }
        ensure!(
            t2.check_hash().is_err(),
            "a changed {what} keeps the transaction hash: {} -> {}", mc::short(&t.unsigned), mc::short(&t2.unsigned)
        );
        if let Ok(s) = SignedTransaction::from_unverified(t2.clone()) {
            ensure!(
                s.sender != addr,
                "a changed {what} keeps the sender: {} -> {}", mc::short(&t.unsigned), mc::short(&t2.unsigned)
            );
            c.outcome(s.sender);
        }
        Ok(())
    });
    const N: [u8; 32] = gen::ORDER;
    k.part(
        "bad_signature",
        "for each kind of transaction every signature built from boundary values of r, s and v around the group order \
         (and the wrong lengths): rejected, or at least not attributed to the signer; never a panic",
        "r, s, v from boundary sets",
    )
    .explore(|c| {
        let base = [0usize, 1, 2];
        let kind = *c.pick(&base);
        let u = mc::with_choices(&[kind as u32], 0, |c| gen::unsigned(c));
        let key = gen::KEYS[0];
        let good = foreign_sign(&u, Some(5), &key);
        let sig = good.signature.clone().unwrap();
        let addr = address_of(&key).0;
        let nums = |c: &mut Chooser, own: &Bytes| -> Option<Vec<u8>> {
            Some(match c.choose(10) {
                0 => own.to_vec(),
                1 => vec![0; 32],
                2 => {
                    let mut v = vec![0; 32];
                    v[31] = 1;
                    v
                }
                3 => N.to_vec(),
                4 => {
                    let mut v = N.to_vec();
                    v[31] += 1;
                    v
                }
                5 => {
                    let mut v = N.to_vec();
                    v[31] -= 1;
                    v
                }
                6 => vec![0xff; 32],
                7 => own[..31].to_vec(),
                8 => {
                    let mut v = own.to_vec();
                    v.push(0);
                    v
                }
                _ => vec![],
            })
        };
        let r = nums(c, &sig.r).unwrap();
        let s = nums(c, &sig.s).unwrap();
        let v = match c.choose(6) {
            0 => sig.standard_v,
            1 => sig.standard_v ^ 1,
            2 => 2,
            3 => 3,
            4 => 27,
            _ => 255,
        };
        let same = r == sig.r && s == sig.s && v == sig.standard_v;
        if same {
            return Ok(());
        }
        c.nontrivial();
        c.note(|| format!("kind {kind} r={} s={} v={v}", mc::hex(&r), mc::hex(&s)));
        let mut t = good.clone();
        t.signature = Some(SignatureComponents {
            r: r.clone().into(),
            s: s.clone().into(),
            standard_v: v,
        });
        let got = mc::no_panic(|| SignedTransaction::from_unverified(t.clone()).map(|t| t.sender))
            .map_err(|p| Fail::new("signature check panics", format!("r={} s={} v={v}: {p}", mc::hex(&r), mc::hex(&s))))?;
        if let Ok(sender) = got {
            ensure!(sender != addr, "a wrong signature is attributed to the signer: r={} s={} v={v}", mc::hex(&r), mc::hex(&s));
            let zero = |x: &Vec<u8>| x.iter().all(|b| *b == 0);
            ensure!(
                !(r.len() == 32 && s.len() == 32 && (zero(&r) || zero(&s) || r[..] >= N[..] || s[..] >= N[..])),
                "an out-of-range signature is accepted: r={} s={} v={v}", mc::hex(&r), mc::hex(&s)
            );
        }
        Ok(())
    });
    k.part("unsigned", "a transaction without signature of every kind is not accepted as signed", "3 kinds").explore(|c| {
        let u = gen::unsigned(c);
        c.nontrivial();
        let t = UnverifiedTransaction {
            unsigned: u,
            signature: None,
            chain_id: Some(1),
            hash: H256::zero(),
        };
        ensure!(SignedTransaction::from_unverified(t.clone()).is_err(), "an unsigned transaction is accepted");
        ensure!(t.recover_public(true).is_err(), "an unsigned transaction has a signer");
        Ok(())
    });
    k.part(
        "v_mapping",
        "every v below 2^16 and around the ends of the range: chain id and parity extracted as EIP-155 says, and v rebuilt from them",
        "65536 + 64 values of v",
    )
    .explore(|c| {
        let v = match c.choose(2) {
            0 => c.choose(1 << 16) as u64,
            _ => u64::MAX - c.choose(64) as u64,
        };
        c.nontrivial();
        let (want_id, want_y) = match v {
            27 | 28 => (None, Some((v - 27) as u8)),
            v if v >= 35 => (Some((v - 35) / 2), Some(((v - 35) % 2) as u8)),
            _ => (None, None),
        };
        ensure_eq!(SignatureComponents::extract_standard_v(v), want_y, "parity in v={v}");
        if v >= 27 {
            ensure_eq!(SignatureComponents::extract_chain_id(v), want_id, "chain id in v={v}");
        }
        if let Some(y) = want_y {
            let s = SignatureComponents {
                r: vec![1; 32].into(),
                s: vec![1; 32].into(),
                standard_v: y,
            };
            ensure_eq!(s.add_chain_replay_protection(want_id), v, "v rebuilt");
        }
        Ok(())
    });
    k.part(
        "cross_chain",
        "cross-chain transactions: sender derived from the key named in the signature; signatures of other forms rejected without panic",
        "first bytes of r, and truncations",
    )
    .explore(|c| {
        let u = gen::unsigned(c);
        let keylen = *c.pick(&[0usize, 1, 33, 64, 65]);
        let key = gen::bytes_of(keylen, 3);
        let dep = rf::l(vec![rf::l(vec![rf::b([7u8; 32]), rf::u(1), rf::u(0)]), rf::b(&key)]).encode();
        let flag = *c.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]);
        let mut r = vec![flag];
        r.extend(&dep);
        let cut = c.choose(r.len() + 1);
        r.truncate(cut);
        let t = UnverifiedTransaction {
            unsigned: u,
            signature: Some(SignatureComponents {
                r: r.clone().into(),
                s: vec![0x5a; 100].into(),
                standard_v: 0,
            }),
            chain_id: Some(5),
            hash: H256::zero(),
        };
        c.nontrivial();
        let got = mc::no_panic(|| SignedTransaction::from_unverified(t.clone()))
            .map_err(|p| Fail::new("cross-chain signature panics", format!("r={}: {p}", mc::hex(&r))))?;
        let good = flag == 0 && cut == dep.len() + 1;
        match got {
            Ok(s) => {
                ensure!(good, "a malformed cross-chain signature is accepted: r={}", mc::hex(&r));
                ensure_eq!(s.sender.as_bytes(), &rf::keccak256(&key)[12..], "cross-chain sender");
                ensure_eq!(s.transaction.hash, H256(rf::keccak256(&ref_interop(&s.transaction))), "cross-chain hash");
            }
            Err(e) => ensure!(!good, "a cross-chain signature is rejected: {e}"),
        }
        Ok(())
    });
}

fn ref_interop(t: &UnverifiedTransaction) -> Vec<u8> {
    let s = t.signature.as_ref().unwrap();
    gen::rf_tx(&t.unsigned, t.chain_id, Some((s.standard_v as u64, rf::b(&s.r), rf::b(&s.s))))
}

// ------------------------------------------------------------------------------------------- A05

fn injective<T: Clone + PartialEq + std::fmt::Debug>(seen: &Mutex<HashMap<H256, T>>, hash: H256, v: &T, what: &str) -> Outcome {
    let mut s = seen.lock().unwrap();
    match s.get(&hash) {
        Some(other) => {
            ensure!(other == v, "two different {what} have one hash: {} and {}", mc::short(other), mc::short(v));
        }
        None => {
            s.insert(hash, v.clone());
        }
    }
    Ok(())
}

pub fn hash_binding(k: &Check) {
    let d = k.by_tier(2, 3);
    let seen = Mutex::new(HashMap::new());
    k.part(
        "header",
        "headers over the boundary domains: the block hash is Keccak-256 of the canonical encoding of all 17 fields, \
         and no two headers of the domain share it",
        "2 fields away from default",
    )
    .deviations(d)
    .explore(|c| {
        let h = gen::header(c);
        c.nontrivial();
        let hash = h.hash();
        c.outcome(hash);
        ensure_eq!(hash, H256(rf::keccak256(&gen::rf_header(&h).encode())), "block hash");
        ensure_eq!(h.size(), gen::rf_header(&h).encode().len(), "header size");
        let b = Block {
            header: h.clone(),
            tx_hashes: gen::hash_list(c),
        };
        ensure_eq!(b.hash(), hash, "hash of a block is its header's");
        injective(&seen, hash, &h, "headers")
    });
    let seen = Mutex::new(HashMap::new());
    k.part(
        "proposal",
        "proposals over the boundary domains: the hash validators vote on is Keccak-256 of the canonical encoding, \
         and no two proposals of the domain (the two fields fixed per chain aside) share it",
        "2 fields away from default",
    )
    .deviations(d)
    .explore(|c| {
        let mut p = gen::proposal(c);
        c.nontrivial();
        let hash = p.hash();
        c.outcome(hash);
        ensure_eq!(hash, H256(rf::keccak256(&gen::rf_proposal(&p).encode())), "proposal hash");
        p.base_fee_per_gas = U64::zero();
        p.chain_id = 0;
        injective(&seen, hash, &p, "proposals")
    });
    let seen = Mutex::new(HashMap::new());
    k.part(
        "transaction",
        "signed transactions over the boundary domains: no two share a hash",
        "2 fields away from default",
    )
    .deviations(d)
    .explore(|c| {
        let u = gen::unsigned(c);
        let id = gen::chain_id(c, u.is_legacy());
        // one signature for all: the hash must bind the content itself
        let t = UnverifiedTransaction {
            unsigned: u,
            signature: Some(SignatureComponents {
                r: vec![0x11; 32].into(),
                s: vec![0x22; 32].into(),
                standard_v: c.deviate(2) as u8,
            }),
            chain_id: id,
            hash: H256::zero(),
        };
        c.nontrivial();
        let hash = t.get_hash();
        c.outcome(hash);
        injective(&seen, hash, &t, "transactions")
    });
    k.part("digest", "the hash function on every length up to the bound is Keccak-256", "every length 0..=1100 and 12 up to 1 000 001, three fills").explore(
        |c| {
            const LONG: [usize; 12] = [4095, 4096, 4097, 8192, 16_384, 32_769, 65_535, 65_536, 65_537, 100_001, 262_144, 1_000_001];
            let n = c.choose(1101 + LONG.len());
            let n = n.checked_sub(1101).map_or(n, |i| LONG[i]);
            let v: Vec<u8> = match c.choose(3) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                _ => gen::bytes_of(n, 7),
            };
            c.nontrivial();
            ensure_eq!(Hasher::digest(&v), H256(rf::keccak256(&v)), "digest of {n} bytes");
            ensure_eq!(common_hasher::keccak256(&v), rf::keccak256(&v), "keccak of {n} bytes");
            Ok(())
        },
    );
    k.part("constants", "hashes of the empty string, of RLP null and of the empty list", "3 constants").explore(|c| {
        c.nontrivial();
        ensure_eq!(NIL_DATA, H256(rf::keccak256(&[])), "hash of nothing");
        ensure_eq!(RLP_NULL, H256(rf::keccak256(&[0x80])), "hash of RLP null");
        ensure_eq!(RLP_EMPTY_LIST, H256(rf::keccak256(&[0xc0])), "hash of the empty list");
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- A06

fn sample_txs() -> Vec<SignedTransaction> {
    (0..3usize)
        .map(|i| {
            let u = mc::with_choices(&[i as u32], 0, |c| gen::unsigned(c));
            SignedTransaction::from_unverified(foreign_sign(&u, Some(5), &gen::KEYS[i])).unwrap()
        })
        .collect()
}

fn small_resp(c: &mut Chooser, i: usize) -> TxResp {
    let nlogs = c.choose(3);
    let logs = (0..nlogs)
        .map(|j| {
            let nt = c.choose(3);
            receipt::Log {
                address: H160::repeat_byte((i * 3 + j) as u8 + 1),
                topics: (0..nt).map(|t| H256::repeat_byte((i * 9 + j * 3 + t) as u8 + 0x40)).collect(),
                data: vec![j as u8; j * 7],
            }
        })
        .collect();
    TxResp {
        exit_reason: gen::exit(c),
        ret: vec![i as u8],
        gas_used: 21_000 + i as u64,
        remain_gas: 5,
        fee_cost: U256::from(9),
        logs,
        code_address: if c.deviate(2) == 1 { Some(H256::repeat_byte(8)) } else { None },
        removed: c.deviate(2) == 1,
    }
}

pub fn assembly(k: &Check) {
    k.part(
        "from_proposal",
        "proposals over the boundary domains x execution results: every field of the block comes from the right place",
        "2 fields away from default",
    )
    .deviations(k.by_tier(2, 3))
    .explore(|c| {
        let p = gen::proposal(c);
        let resp = ExecResp {
            state_root: gen::h256s(c, 0x91),
            receipt_root: gen::h256s(c, 0x92),
            gas_used: gen::u64s(c),
            tx_resp: (0..c.deviate(3)).map(|i| small_fixed(i)).collect(),
        };
        c.nontrivial();
        let b = Block::new(p.clone(), resp.clone());
        let h = &b.header;
        let want = Header {
            version: p.version,
            prev_hash: p.prev_hash,
            proposer: p.proposer,
            state_root: resp.state_root,
            transactions_root: p.transactions_root,
            signed_txs_hash: p.signed_txs_hash,
            receipts_root: resp.receipt_root,
            log_bloom: h.log_bloom,
            timestamp: p.timestamp,
            number: p.number,
            gas_used: resp.gas_used.into(),
            gas_limit: p.gas_limit,
            extra_data: p.extra_data.clone(),
            base_fee_per_gas: p.base_fee_per_gas,
            proof: p.proof.clone(),
            call_system_script_count: p.call_system_script_count,
            chain_id: p.chain_id,
        };
        ensure_eq!(*h, want, "header built from a proposal");
        ensure_eq!(b.tx_hashes, p.tx_hashes, "transactions of the block");
        // The proposal that a follower rebuilds from the header is the one that was voted on.
        let back = Proposal::new_with_state_root(h, p.prev_state_root, b.tx_hashes.clone());
        ensure_eq!(back, p, "proposal rebuilt from the block");
        ensure_eq!(back.hash(), p.hash(), "hash of the rebuilt proposal");
        let blank = Proposal::new_without_state_root(h);
        let want = Proposal {
            prev_state_root: H256::zero(),
            tx_hashes: vec![],
            ..p.clone()
        };
        ensure_eq!(blank, want, "proposal rebuilt without state root");
        let cx: ExecutorContext = p.clone().into();
        let cy: ExecutorContext = h.into();
        ensure_eq!(cx, cy, "execution context of a proposal and of its block differ");
        let want = ExecutorContext {
            block_number: p.number.into(),
            block_coinbase: p.proposer,
            block_timestamp: p.timestamp.into(),
            chain_id: p.chain_id.into(),
            origin: p.proposer,
            gas_price: U256::one(),
            block_gas_limit: p.gas_limit,
            block_base_fee_per_gas: p.base_fee_per_gas,
            extra_data: p.extra_data.clone(),
        };
        ensure_eq!(cx, want, "execution context");
        Ok(())
    });
    let txs = sample_txs();
    k.part(
        "receipts",
        "blocks of 0 to 3 transactions with 0 to 2 logs of 0 to 2 topics each: every receipt names its transaction, block, \
         position, first log position, gas, result, and its bloom holds exactly its logs",
        "3 transactions x 2 logs x 2 topics; 1 field away from default",
    )
    .deviations(k.by_tier(1, 2))
    .explore(|c| {
        let n = c.choose(4);
        let resp = ExecResp {
            state_root: H256::repeat_byte(0x91),
            receipt_root: H256::repeat_byte(0x92),
            gas_used: 3,
            tx_resp: (0..n).map(|i| small_resp(c, i)).collect(),
        };
        c.nontrivial();
        let p = Proposal {
            number: 77,
            tx_hashes: txs[..n].iter().map(|t| t.transaction.hash).collect(),
            ..Default::default()
        };
        let b = Block::new(p, resp.clone());
        let (rs, logs) = b.generate_receipts_and_logs(&txs[..n], &resp);
        ensure_eq!(rs.len(), n, "number of receipts");
        ensure_eq!(logs.len(), n, "number of log groups");
        let mut first = 0u32;
        for (i, r) in rs.iter().enumerate() {
            let t = &resp.tx_resp[i];
            let want = Receipt {
                tx_hash: txs[i].transaction.hash,
                block_number: 77,
                block_hash: b.header.hash(),
                tx_index: i as u32,
                state_root: H256::repeat_byte(0x91),
                used_gas: t.gas_used.into(),
                logs_bloom: bloom_of(&t.logs),
                logs: t.logs.clone(),
                log_index: first,
                code_address: t.code_address,
                sender: txs[i].sender,
                ret: t.exit_reason.clone(),
                removed: t.removed,
            };
            ensure_eq!(*r, want, "receipt");
            ensure_eq!(logs[i], t.logs, "logs of a transaction");
            let ok = matches!(t.exit_reason, ExitReason::Succeed(_));
            ensure_eq!(r.status(), U64::from(ok as u64), "status");
            first += t.logs.len() as u32;
            // consensus encoding of the receipt
            let mut want = match i {
                0 => vec![],
                i => vec![i as u8],
            };
            want.extend(
                rf::l(vec![rf::u(ok as u64), rf::u(t.gas_used), rf::b(bloom_of(&t.logs).0), gen::rf_logs(&t.logs)]).encode(),
            );
            let got = txs[i].encode_receipt(t, r.logs_bloom);
            ensure!(got[..] == want[..], "consensus encoding of a receipt: {} instead of {}", mc::hex(&got), mc::hex(&want));
        }
        c.outcome(b.header.hash());
        Ok(())
    });
    k.part(
        "many",
        "blocks of many transactions, of which some have many logs: every receipt keeps its number and its first log position",
        "255 to 70 000 transactions (6 numbers), every one, every hundredth or only the first with 0 to 70 000 logs (6 numbers), at most 400 000 in all",
    )
    .explore(|c| {
        let n = *c.pick(&[255usize, 256, 257, 1000, 65_537, 70_000]);
        let m = *c.pick(&[0usize, 1, 3, 255, 257, 70_000]);
        let every = *c.pick(&[1usize, 100, 1 << 20]);
        if (n + every - 1) / every * m > 400_000 {
            return Ok(());
        }
        let logs = |i: usize| if i % every == 0 { m } else { 0 };
        let tx_resp: Vec<TxResp> = (0..n)
            .map(|i| TxResp {
                gas_used: i as u64,
                logs: vec![receipt::Log { address: H160::zero(), topics: vec![], data: vec![] }; logs(i)],
                ..Default::default()
            })
            .collect();
        let many: Vec<SignedTransaction> = (0..n).map(|i| txs[i % 3].clone()).collect();
        let resp = ExecResp { state_root: H256::zero(), receipt_root: H256::zero(), gas_used: 3, tx_resp };
        let p = Proposal { number: 77, tx_hashes: many.iter().map(|t| t.transaction.hash).collect(), ..Default::default() };
        let b = Block::new(p, resp.clone());
        let (rs, _) = b.generate_receipts_and_logs(&many, &resp);
        c.nontrivial();
        c.outcome((n, m, every));
        ensure_eq!(rs.len(), n, "number of receipts");
        let mut first = 0;
        for (i, r) in rs.iter().enumerate() {
            ensure!(
                (r.tx_index as usize, r.log_index as usize, r.used_gas.low_u64(), r.logs.len(), r.tx_hash) == (i, first, i as u64, logs(i), many[i].transaction.hash),
                "a receipt of a long block: number {i} of {n}, {first} logs before, is {} and {}", r.tx_index, r.log_index
            );
            first += logs(i);
        }
        Ok(())
    });
    k.part(
        "header_bloom",
        "blocks of one or two transactions with logs: the bloom in the header answers for every address and topic",
        "2 transactions x 2 logs x 2 topics",
    )
    .explore(|c| {
        let n = c.choose(2) + 1;
        let tx_resp: Vec<TxResp> = (0..n)
            .map(|i| {
                let m = c.choose(2) + 1;
                let nt = c.choose(3);
                TxResp {
                    logs: (0..m)
                        .map(|j| receipt::Log {
                            address: H160::repeat_byte((i * 3 + j) as u8 + 1),
                            topics: (0..nt).map(|t| H256::repeat_byte((i * 9 + j * 3 + t) as u8 + 0x40)).collect(),
                            data: vec![],
                        })
                        .collect(),
                    ..Default::default()
                }
            })
            .collect();
        c.nontrivial();
        let b_logs: Vec<Vec<_>> = tx_resp.iter().map(|t| t.logs.clone()).collect();
        let logs: Vec<_> = b_logs.iter().flatten().cloned().collect();
        let b = Block::new(
            Proposal::default(),
            ExecResp {
                state_root: H256::zero(),
                receipt_root: H256::zero(),
                gas_used: 1,
                tx_resp,
            },
        );
        let have = b.header.log_bloom.0;
        let need = bloom_of(&logs).0;
        let covered = have.iter().zip(need.iter()).all(|(h, n)| h & n == *n);
        // The recorded finding is this one computation; anything else that misses a log is another violation.
        let recorded = {
            let per_tx: Vec<Item> = b_logs
                .iter()
                .map(|l| rf::b(rf::bloom(&[gen::rf_logs(l).encode()])))
                .collect();
            rf::bloom(&[rf::l(per_tx).encode()])
        };
        if !covered && have != recorded {
            return Err(Fail::new(
                "the header's bloom misses a log in a new way",
                format!("the header's bloom misses a log, and not in the recorded way: {}", mc::short(&logs)),
            ));
        }
        ensure!(covered, "the header's bloom misses a log: {}", mc::short(&logs));
        Ok(())
    });
    k.part("bloom", "the log bloom of up to two logs with up to four topics each, from boundary values, against the yellow paper", "2 fields")
        .deviations(2)
        .explore(|c| {
            let l = gen::logs(c);
            c.nontrivial();
            ensure_eq!(logs_bloom(l.iter()), bloom_of(&l), "log bloom");
            Ok(())
        });
}

fn small_fixed(i: usize) -> TxResp {
    TxResp {
        logs: vec![receipt::Log {
            address: H160::repeat_byte(i as u8),
            topics: vec![],
            data: vec![],
        }],
        ..Default::default()
    }
}

fn bloom_of(logs: &[receipt::Log]) -> Bloom {
    let mut e: Vec<Vec<u8>> = vec![];
    for l in logs {
        e.push(l.address.as_bytes().to_vec());
        for t in &l.topics {
            e.push(t.as_bytes().to_vec());
        }
    }
    Bloom(rf::bloom(&e))
}

// ------------------------------------------------------------------------------------------- A07

fn model_hex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2)
        .map(|p| {
            let d = |x: u8| (x as char).to_digit(16).map(|d| d as u8);
            Some(d(p[0])? * 16 + d(p[1])?)
        })
        .collect()
}

const ALPHA: [&str; 9] = ["0", "x", "X", "a", "A", "7", "g", "é", " "];

fn text(c: &mut Chooser, max: usize) -> String {
    let n = c.choose(max + 1);
    (0..n).map(|_| *c.pick(&ALPHA)).collect()
}

/// Changes of a valid text.
fn mangle(c: &mut Chooser, s: &str) -> String {
    let ch: Vec<char> = s.chars().collect();
    match c.choose(7) {
        0 => s.to_string(),
        1 => {
            let i = c.choose(ch.len());
            let mut v = ch.clone();
            v[i] = *c.pick(&['g', 'x', ' ', 'é', '-', '0', 'F']);
            v.into_iter().collect()
        }
        2 => {
            let i = c.choose(ch.len());
            let mut v = ch.clone();
            v.remove(i);
            v.into_iter().collect()
        }
        3 => {
            let i = c.choose(ch.len() + 1);
            let mut v = ch.clone();
            v.insert(i, *c.pick(&['0', 'x', 'é', 'a']));
            v.into_iter().collect()
        }
        4 => {
            let i = c.choose(ch.len());
            let mut v = ch.clone();
            v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
            v.into_iter().collect()
        }
        5 => {
            let pre = *c.pick(&["0x", "0X", "0x0x", "0x0X", "", "00", " "]);
            format!("{pre}{}", &s[2..])
        }
        _ => {
            let n = *c.pick(&[1usize, 2, 24, 25, 26, 40, 100]);
            format!("{s}{}", "a".repeat(n))
        }
    }
}

pub fn texts(k: &Check) {
    let hex_rule = |s: &str| -> Option<Vec<u8>> { s.strip_prefix("0x").and_then(model_hex) };
    let check_hex = |s: &str| -> Outcome {
        let got = mc::no_panic(|| Hex::from_str(s)).map_err(|p| Fail::new("hex text panics", format!("{s:?}: {p}")))?;
        match (got, hex_rule(s)) {
            (Ok(h), Some(w)) => ensure_eq!(h.as_bytes().to_vec(), w, "hex text {s:?}"),
            (Err(_), None) => {}
            (Ok(h), None) => return Err(Fail::new("malformed hex accepted", format!("malformed hex accepted: {s:?} as {h:?}"))),
            (Err(e), Some(_)) => return Err(Fail::new("valid hex rejected", format!("valid hex rejected: {s:?}: {e}"))),
        }
        let json = serde_json::to_string(s).unwrap();
        let got = mc::no_panic(|| serde_json::from_str::<Hex>(&json))
            .map_err(|p| Fail::new("hex text panics", format!("JSON {s:?}: {p}")))?;
        ensure_eq!(got.ok().map(|h| h.as_bytes().to_vec()), hex_rule(s), "hex text in JSON {s:?}");
        Ok(())
    };
    let addr_body = |b: &str| -> Option<[u8; 20]> { model_hex(b).and_then(|v| v.try_into().ok()) };
    let check_addr = |s: &str| -> Outcome {
        let got = mc::no_panic(|| Address::from_hex(s)).map_err(|p| Fail::new("address text panics", format!("{s:?}: {p}")))?;
        let want = s.strip_prefix("0x").or(s.strip_prefix("0X")).and_then(addr_body);
        ensure_eq!(got.ok().map(|a| a.0 .0), want, "address text {s:?}");
        let strict = s.strip_prefix("0x").and_then(addr_body).filter(|a| rf::eip55(a) == s);
        let got = mc::no_panic(|| Address::from_str(s)).map_err(|p| Fail::new("address text panics", format!("{s:?}: {p}")))?;
        ensure_eq!(got.ok().map(|a| a.0 .0), strict, "checksummed address text {s:?}");
        let json = serde_json::to_string(s).unwrap();
        let got = mc::no_panic(|| serde_json::from_str::<Address>(&json).is_ok())
            .map_err(|p| Fail::new("address text panics", format!("JSON {s:?}: {p}")))?;
        if strict.is_some() {
            ensure!(got, "a checksummed address is rejected in JSON: {s:?}");
        }
        if let (true, Some(a)) = (got, want) {
            ensure!(
                rf::eip55(&a)[2..] == s[2..],
                "a wrongly checksummed address is accepted in JSON: {s:?}"
            );
        }
        let got = mc::no_panic(|| protocol::codec::decode_256bits_key(s))
            .map_err(|p| Fail::new("key text panics", format!("{s:?}: {p}")))?;
        let want: Option<[u8; 32]> = s
            .strip_prefix("0x")
            .or(s.strip_prefix("0X"))
            .and_then(model_hex)
            .and_then(|v| v.try_into().ok());
        ensure_eq!(got.ok().map(|k| *k), want, "key text {s:?}");
        Ok(())
    };
    k.part("hex/short", "all texts over an alphabet of digits, prefixes, non-digits and a non-ASCII letter up to the bound", "length 5 (6)")
        .explore(|c| {
            let s = text(c, k.by_tier(5, 6));
            c.nontrivial();
            check_hex(&s)?;
            check_addr(&s)
        });
    k.part("hex/bytes", "every length of bytes up to 300, and every single byte: text and back", "lengths 0..=300 and 9 up to 1 000 003; bytes 0..=255").explore(
        |c| {
            let v = match c.choose(2) {
                0 => {
                    const LONG: [usize; 9] = [2047, 2048, 4095, 4097, 32_768, 65_535, 65_536, 131_073, 1_000_003];
                    let n = c.choose(301 + LONG.len());
                    gen::bytes_of(n.checked_sub(301).map_or(n, |i| LONG[i]), 0xf0)
                }
                _ => vec![c.choose(256) as u8],
            };
            c.nontrivial();
            let h = Hex::encode(&v);
            let want = format!("0x{}", rf::hex(&v));
            ensure_eq!(h.as_string(), want, "hex text of bytes");
            ensure_eq!(h.as_string_trim0x(), want[2..], "hex text without prefix");
            ensure_eq!(serde_json::to_value(&h).unwrap(), serde_json::json!(want), "hex in JSON");
            ensure_eq!(Hex::from_str(&want).ok().map(|h| h.as_bytes().to_vec()), Some(v.clone()), "hex text and back");
            ensure_eq!(h.len(), v.len(), "length");
            ensure_eq!(h.is_empty(), v.is_empty(), "emptiness");
            ensure_eq!(protocol::codec::hex_encode(&v), want[2..], "hex_encode");
            ensure_eq!(protocol::codec::hex_decode(&want).ok(), Some(v.clone()), "hex_decode with prefix");
            ensure_eq!(protocol::codec::hex_decode(&want[2..]).ok(), Some(v), "hex_decode");
            Ok(())
        },
    );
    k.part("address/mangle", "every single edit of addresses and keys of several shapes", "one edit").explore(|c| {
        let addr: [u8; 20] = match c.choose(5) {
            0 => [0; 20],
            1 => [0xff; 20],
            2 => gen::bytes_of(20, 0xa5).try_into().unwrap(),
            3 => *b"\x5a\xAe\xb6\x05\x3F\x3E\x94\xC9\xb9\xA0\x9f\x33\x66\x94\x35\xE7\xEf\x1B\xeA\xed",
            _ => [0x11; 20],
        };
        let good = match c.choose(3) {
            0 => rf::eip55(&addr),
            1 => format!("0x{}", rf::hex(&addr)),
            _ => format!("0x{}", rf::hex(&addr).to_uppercase()),
        };
        let s = mangle(c, &good);
        c.nontrivial();
        check_addr(&s)?;
        check_hex(&s)
    });
    k.part("key/mangle", "every single edit of a 256-bit key", "one edit").explore(|c| {
        let key = *c.pick(&[[0u8; 32], [0xab; 32], [0xff; 32]]);
        let good = format!("0x{}", rf::hex(&key));
        let s = mangle(c, &good);
        c.nontrivial();
        check_addr(&s)
    });
    k.part("address/values", "addresses from 20 byte patterns x 20 positions: all text forms agree with EIP-55", "400 addresses").explore(
        |c| {
            let mut a = [*c.pick(&[0u8, 0x5a, 0xa5, 0xff]); 20];
            let i = c.choose(20);
            a[i] = *c.pick(&[0u8, 0x0a, 0xa0, 0xaf, 0x7b]);
            c.nontrivial();
            let x = Address(H160(a));
            let want = rf::eip55(&a);
            ensure_eq!(x.eip55(), want, "EIP-55 text");
            ensure_eq!(x.to_string(), want, "displayed text");
            ensure_eq!(serde_json::to_value(&x).unwrap(), serde_json::json!(want), "JSON text");
            ensure_eq!(serde_json::from_str::<Address>(&format!("{want:?}")).ok(), Some(x.clone()), "JSON and back");
            ensure_eq!(Address::from_str(&want).ok(), Some(x.clone()), "text and back");
            ensure_eq!(Address::from_bytes(a.to_vec().into()).ok(), Some(x.clone()), "address of bytes");
            ensure_eq!(x.as_slice(), &a[..], "bytes of an address");
            let mut h = [0xeeu8; 32];
            h[12..].copy_from_slice(&a);
            ensure_eq!(Address::from_hash(H256(h)), x, "address of a hash");
            for n in [0usize, 19, 21, 32] {
                ensure!(Address::from_bytes(vec![1; n].into()).is_err(), "an address of {n} bytes is accepted");
            }
            Ok(())
        },
    );
    k.part("address/keys", "addresses of public keys, compressed and not, of every length", "3 keys x forms x lengths").explore(|c| {
        let key = *c.pick(&gen::KEYS);
        let (addr, pub64) = address_of(&key);
        let sk = SigningKey::from_slice(&key).unwrap();
        let full = sk.verifying_key().to_encoded_point(false).as_bytes().to_vec();
        let comp = sk.verifying_key().to_encoded_point(true).as_bytes().to_vec();
        let form = c.choose(2);
        let mut b = if form == 0 { full.clone() } else { comp.clone() };
        let n = c.choose(70);
        b.resize(n, 0);
        c.nontrivial();
        let got = mc::no_panic(|| Address::from_pubkey_bytes(&b)).map_err(|p| Fail::new("public key panics", p))?;
        if b == full || b == comp {
            ensure_eq!(got.ok().map(|a| a.0), Some(addr), "address of a public key");
        } else if n != 33 && n != 65 {
            ensure!(got.is_err(), "a public key of {n} bytes is accepted");
        }
        let p = Public::from_slice(&pub64);
        ensure_eq!(public_to_address(&p), addr, "address of a raw public key");
        Ok(())
    });
    k.part("quantity", "integers on the boundary of every nibble: JSON text without leading zeros", "65 x 3 values").explore(|c| {
        let bit = c.choose(257);
        let v = match c.choose(3) {
            0 if bit < 256 => U256::one() << bit,
            1 if bit < 256 => (U256::one() << bit) - 1,
            2 if bit < 256 => (U256::one() << bit) | U256::one(),
            _ => U256::MAX,
        };
        c.nontrivial();
        let got = protocol::codec::serialize_uint(&v, serde_json::value::Serializer).unwrap();
        let want = format!("0x{v:x}");
        ensure_eq!(got, serde_json::json!(want), "quantity text");
        Ok(())
    });
    k.part("json", "headers, proposals and chain metadata over the boundary domains: integers appear as minimal hex", "1 field away from default")
        .deviations(k.by_tier(1, 2))
        .explore(|c| {
            c.nontrivial();
            let h = gen::header(c);
            let v = serde_json::to_value(&h).map_err(|e| Fail::from(format!("header in JSON: {e}")))?;
            ensure_eq!(v["number"], serde_json::json!(rf::quantity(h.number)), "number in JSON");
            ensure_eq!(v["timestamp"], serde_json::json!(rf::quantity(h.timestamp)), "timestamp in JSON");
            ensure_eq!(v["chain_id"], serde_json::json!(rf::quantity(h.chain_id)), "chain_id in JSON");
            ensure_eq!(
                v["call_system_script_count"],
                serde_json::json!(rf::quantity(h.call_system_script_count as u64)),
                "count in JSON"
            );
            ensure_eq!(v["proof"]["number"], serde_json::json!(rf::quantity(h.proof.number)), "proof number in JSON");
            ensure_eq!(v["proof"]["round"], serde_json::json!(rf::quantity(h.proof.round)), "proof round in JSON");
            ensure_eq!(
                v["proof"]["signature"],
                serde_json::json!(format!("0x{}", rf::hex(&h.proof.signature))),
                "proof signature in JSON"
            );
            ensure_eq!(v["proof"]["bitmap"], serde_json::json!(format!("0x{}", rf::hex(&h.proof.bitmap))), "bitmap in JSON");
            let m = gen::metadata(c);
            let v = serde_json::to_value(&m).map_err(|e| Fail::from(format!("metadata in JSON: {e}")))?;
            ensure_eq!(v["epoch"], serde_json::json!(rf::quantity(m.epoch)), "epoch in JSON");
            ensure_eq!(v["version"]["start"], serde_json::json!(rf::quantity(m.version.start)), "start in JSON");
            ensure_eq!(v["version"]["end"], serde_json::json!(rf::quantity(m.version.end)), "end in JSON");
            let g = &m.consensus_config;
            for (name, x) in [
                ("gas_limit", g.gas_limit),
                ("interval", g.interval),
                ("propose_ratio", g.propose_ratio),
                ("prevote_ratio", g.prevote_ratio),
                ("precommit_ratio", g.precommit_ratio),
                ("brake_ratio", g.brake_ratio),
                ("tx_num_limit", g.tx_num_limit),
                ("max_tx_size", g.max_tx_size),
                ("max_contract_limit", g.max_contract_limit),
            ] {
                ensure_eq!(v["consensus_config"][name], serde_json::json!(rf::quantity(x)), "{name} in JSON");
            }
            for (i, x) in m.verifier_list.iter().enumerate() {
                let y = &v["verifier_list"][i];
                ensure_eq!(y["propose_weight"], serde_json::json!(rf::quantity(x.propose_weight as u64)), "propose weight in JSON");
                ensure_eq!(y["vote_weight"], serde_json::json!(rf::quantity(x.vote_weight as u64)), "vote weight in JSON");
                ensure_eq!(y["bls_pub_key"], serde_json::json!(x.bls_pub_key.as_string()), "BLS key in JSON");
            }
            Ok(())
        });
}

// ------------------------------------------------------------------------------------------- A08

pub fn transaction_views(k: &Check) {
    k.part(
        "views",
        "every transaction of the domain: each view answers from the right field for its kind; the most it can cost is \
         price times gas plus value, saturating",
        "fields away from default",
    )
    .deviations(k.by_tier(2, 3))
    .explore(|c| {
        let u = gen::unsigned(c);
        c.nontrivial();
        c.note(|| mc::short(&u));
        let (kind, nonce, price, prio, limit, action, value, data, list) = match &u {
            UnsignedTransaction::Legacy(t) => {
                (0u64, t.nonce, t.gas_price, t.gas_price, t.gas_limit, t.action, t.value, t.data.clone(), vec![])
            }
            UnsignedTransaction::Eip2930(t) => {
                (1, t.nonce, t.gas_price, t.gas_price, t.gas_limit, t.action, t.value, t.data.clone(), t.access_list.clone())
            }
            UnsignedTransaction::Eip1559(t) => (
                2,
                t.nonce,
                t.gas_price.max(t.max_priority_fee_per_gas),
                t.max_priority_fee_per_gas,
                t.gas_limit,
                t.action,
                t.value,
                t.data.clone(),
                t.access_list.clone(),
            ),
        };
        let to = match action {
            TransactionAction::Call(a) => Some(a),
            TransactionAction::Create => None,
        };
        ensure_eq!(u.type_(), kind, "type");
        ensure_eq!(u.is_legacy(), kind == 0, "is_legacy");
        ensure_eq!(u.is_eip1559(), kind == 2, "is_eip1559");
        ensure_eq!(*u.nonce(), nonce, "nonce");
        ensure_eq!(u.gas_price(), price, "gas price");
        ensure_eq!(*u.max_priority_fee_per_gas(), prio, "priority fee");
        ensure_eq!(*u.gas_limit(), limit, "gas limit");
        ensure_eq!(*u.action(), action, "action");
        ensure_eq!(*u.value(), value, "value");
        ensure_eq!(u.data(), &data[..], "data");
        ensure_eq!(u.access_list(), list, "access list");
        ensure_eq!(u.to(), to, "recipient");
        ensure_eq!(u.get_legacy().is_some(), kind == 0, "legacy view");
        if kind != 0 {
            ensure_eq!(u.as_u8() as u64, kind, "type byte");
        }
        let gas = U512::from(price.as_u64()) * U512::from(limit.as_u64());
        let total = gas + U512::from(value);
        let want = if total > U512::from(U256::MAX) { U256::MAX } else { U256::try_from(total).unwrap() };
        ensure_eq!(u.may_cost().ok(), Some(want), "the most a transaction can cost");
        c.outcome(want);
        let mut v = u.clone();
        v.set_data(vec![9, 9].into());
        ensure_eq!(v.data(), &[9u8, 9][..], "changed data");
        v.set_action(TransactionAction::Call(H160::repeat_byte(0x99)));
        ensure_eq!(v.to(), Some(H160::repeat_byte(0x99)), "changed recipient");
        ensure_eq!(*v.value(), value, "value after changes");
        ensure_eq!(*v.nonce(), nonce, "nonce after changes");
        ensure_eq!(
            u.encode(Some(5), None).to_vec(),
            gen::rf_tx(&u, Some(5), None),
            "unsigned encoding"
        );
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- A09

pub fn hardforks(k: &Check) {
    let depth = k.by_tier(4, 5);
    k.part(
        "announce",
        "all sequences of up to the bounded number of announcements over 4 heights x 5 feature sets: the recorded history \
         is ordered, never loses a feature, and equals the model's answer at every height",
        "sequences of announcements",
    )
    .explore(|c| {
        let flags = [0u64, 1, 2, 3, 4];
        let n = c.choose(depth) + 1;
        let mut info = HardforkInfo::default();
        // model: the effective announcements as (height, features so far)
        let mut model: Vec<(u64, u64)> = vec![];
        let mut hist = vec![];
        for _ in 0..n {
            let h = c.choose(4) as u64;
            let f = *c.pick(&flags);
            hist.push((h, f));
            let before = info.clone();
            info.push(HardforkInfoInner {
                block_number: h,
                flags: H256::from_low_u64_be(f),
            });
            c.transition();
            match model.last().copied() {
                None => model.push((h, f)),
                Some((lh, lf)) => {
                    if h >= lh && (f | lf) != lf {
                        if h == lh {
                            model.last_mut().unwrap().1 |= f;
                        } else {
                            model.push((h, f | lf));
                        }
                    } else {
                        ensure_eq!(info, before, "an announcement without effect changes the record {hist:?}");
                    }
                }
            }
            let got: Vec<(u64, u64)> = info.inner.iter().map(|i| (i.block_number, i.flags.to_low_u64_be())).collect();
            ensure_eq!(got, model, "hardfork record after {hist:?}");
            for w in got.windows(2) {
                ensure!(w[0].0 < w[1].0, "hardfork record out of order: {got:?}");
                ensure!(w[0].1 & w[1].1 == w[0].1, "a feature is lost: {got:?}");
            }
            c.state();
        }
        c.nontrivial();
        c.note(|| format!("{hist:?} -> {model:?}"));
        c.outcome(model);
        Ok(())
    });
    k.part(
        "long",
        "many announcements of one feature each, at growing heights, among announcements that have no effect: none is forgotten",
        "8 lengths up to 256 features x 5 distances x 5 starts of the feature bits x 4 patterns",
    )
    .explore(|c| {
        let n = *c.pick(&[2u64, 5, 8, 9, 16, 33, 100, 256]);
        let gap = *c.pick(&[1u64, 2, 1001, 1 << 32, 1 << 55]);
        let start = *c.pick(&[0u64, 8, 63, 64, 200]);
        let pattern = c.choose(4);
        // two features per announcement: all of them different
        let n = if pattern == 3 { n.min(84) } else { n };
        let flag = |i: u64| H256::from_uint(&(U256::one() << ((start + i * 3) % 256)));
        let mut info = HardforkInfo::default();
        let mut model: Vec<(u64, H256)> = vec![];
        for i in 0..n {
            let h = i * gap;
            let all = model.last().map_or(H256::zero(), |l| l.1) | flag(i);
            info.push(HardforkInfoInner { block_number: h, flags: flag(i) });
            model.push((h, all));
            match pattern {
                // what is known is announced again, later
                1 => info.push(HardforkInfoInner { block_number: h + 1, flags: flag(i / 2) }),
                // something new for a block that is past
                2 if i > 0 => info.push(HardforkInfoInner { block_number: h - gap, flags: flag(i + 1) }),
                // another feature at the same block
                3 => {
                    let f = H256::from_uint(&(U256::one() << ((start + i * 3 + 1) % 256)));
                    info.push(HardforkInfoInner { block_number: h, flags: f });
                    model.last_mut().unwrap().1 |= f;
                }
                _ => {}
            }
            c.transition();
        }
        c.state();
        c.nontrivial();
        c.outcome((n, gap, start, pattern));
        let got: Vec<(u64, H256)> = info.inner.iter().map(|i| (i.block_number, i.flags)).collect();
        ensure!(got == model, "hardfork record of {n} announcements {gap} apart, pattern {pattern}: {} entries", got.len());
        Ok(())
    });
    k.part("version_range", "all ranges and heights below 6 and at the ends of the integers", "9^3").explore(|c| {
        let vals = [0u64, 1, 2, 3, 4, 5, u64::MAX - 1, u64::MAX, 1 << 63];
        let (a, b, x) = (*c.pick(&vals), *c.pick(&vals), *c.pick(&vals));
        c.nontrivial();
        let v = MetadataVersion::new(a, b);
        ensure_eq!((v.start, v.end), (a, b), "bounds");
        ensure_eq!(v.contains(x), a <= x && x <= b, "{x} in [{a},{b}]");
        Ok(())
    });
    k.part("metadata_split", "chain metadata over the boundary domains: splitting off the configuration and joining again, and the old configuration format", "2 fields")
        .deviations(k.by_tier(2, 2))
        .explore(|c| {
            let m = gen::metadata(c);
            c.nontrivial();
            let (inner, config) = m.clone().into_part();
            ensure_eq!(inner.version, m.version, "version");
            ensure_eq!(inner.epoch, m.epoch, "epoch");
            ensure_eq!(inner.verifier_list, m.verifier_list, "validators");
            ensure_eq!(inner.propose_counter, m.propose_counter, "counters");
            ensure_eq!(config, m.consensus_config, "configuration");
            ensure_eq!(Metadata::from_parts(inner, config.clone()), m, "joined metadata");
            let v0: ConsensusConfigV0 = config.clone().into();
            let back: ConsensusConfig = v0.clone().into();
            let want = ConsensusConfig {
                max_contract_limit: 0x6000,
                ..config.clone()
            };
            ensure_eq!(back, want, "configuration through the old format");
            ensure_eq!(default_max_contract_limit(), 0x6000, "contract size limit");
            let d: overlord::DurationConfig = m.clone().into();
            ensure_eq!(
                (d.propose_ratio, d.prevote_ratio, d.precommit_ratio, d.brake_ratio),
                (config.propose_ratio, config.prevote_ratio, config.precommit_ratio, config.brake_ratio),
                "round durations"
            );
            for v in &m.verifier_list {
                let x: ConsensusValidator = v.into();
                ensure_eq!(
                    (x.pub_key, x.propose_weight, x.vote_weight),
                    (v.pub_key.as_bytes(), v.propose_weight, v.vote_weight),
                    "consensus view of a validator"
                );
            }
            Ok(())
        });
    k.part("genesis_validator", "validators of the chain specification with three keys in both forms: the account is the key's", "12").explore(
        |c| {
            let key = *c.pick(&gen::KEYS);
            let sk = SigningKey::from_slice(&key).unwrap();
            let comp = c.flip();
            let pk = sk.verifying_key().to_encoded_point(comp).as_bytes().to_vec();
            c.nontrivial();
            let v = Validator {
                bls_pub_key: Hex::encode([3; 48]),
                pub_key: Hex::encode(&pk),
                propose_weight: 3,
                vote_weight: 4,
            };
            let n = c.choose(2);
            let s = SpecMetadata {
                version: MetadataVersion::new(1, 9),
                epoch: 5,
                verifier_list: vec![v.clone(); n],
                propose_counter: vec![ProposeCount::from((H160::zero(), 3))],
                consensus_config: ConsensusConfig::default(),
            };
            let m: Metadata = s.clone().into();
            ensure_eq!((m.version, m.epoch), (s.version, s.epoch), "metadata of the specification");
            ensure_eq!(m.propose_counter, s.propose_counter, "counters");
            ensure_eq!(m.verifier_list.len(), n, "validators");
            for x in &m.verifier_list {
                ensure_eq!(x.address, address_of(&key).0, "account of a validator");
                ensure_eq!(
                    (&x.bls_pub_key, &x.pub_key, x.propose_weight, x.vote_weight),
                    (&v.bls_pub_key, &v.pub_key, 3, 4),
                    "validator"
                );
            }
            Ok(())
        },
    );
}

#[allow(dead_code)]
fn unused(_: Item) {}
