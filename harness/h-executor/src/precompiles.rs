//! F06: the built-in contracts, called from a transaction, against their public definitions.
use core_executor::AxonExecutor;
use evm::{ExitError, ExitReason, ExitSucceed};
use mc::{ensure, ensure_eq, Check};
use primitive_types::U512;
use protocol::traits::Executor;
use protocol::types::{ExecutorContext, TxResp, H160, U256};
use sha2::Digest;

use crate::world::*;

type R = Result<(), mc::Fail>;

pub fn intrinsic(data: &[u8]) -> u64 {
    21_000 + data.iter().map(|b| if *b == 0 { 4 } else { 16 }).sum::<u64>()
}

pub fn low(n: u16) -> H160 {
    H160::from_low_u64_be(n as u64)
}

pub fn ask(w: &World, to: H160, data: &[u8], gas: u64) -> Result<TxResp, mc::Fail> {
    let _g = rt().enter();
    let ctx = ExecutorContext::from(w.proposal(1));
    let ad = w.reader(w.root, ctx);
    mc::no_panic(|| AxonExecutor.call(&ad, intrinsic(data) + gas, Some(addr(0xa1)), Some(to), U256::zero(), data.to_vec(), false))
        .map_err(|e| mc::Fail::new("panic", format!("panic: {e}: contract {to:?} given {}", mc::hex(data))))
}

/// Some(output) costs exactly `gas` and is refused one unit below; None is refused however much is offered.
pub fn expect(w: &World, to: H160, data: &[u8], want: Option<(Vec<u8>, u64)>) -> R {
    let r = ask(w, to, data, 20_000_000)?;
    match want {
        Some((out, gas)) => {
            ensure!(
                r.exit_reason == ExitReason::Succeed(ExitSucceed::Returned),
                "refused: contract {to:?} given {} answers {:?}",
                mc::hex(data),
                r.exit_reason
            );
            ensure_eq!(mc::hex(&r.ret), mc::hex(&out), "answer: contract {to:?} given {}", mc::hex(data));
            ensure_eq!(r.gas_used - intrinsic(data), gas, "price: contract {to:?} given {}", mc::hex(data));
            let r = ask(w, to, data, gas)?;
            ensure!(r.exit_reason.is_succeed(), "price: contract {to:?} refuses {gas} gas for {}", mc::hex(data));
            let r = ask(w, to, data, gas - 1)?;
            ensure!(
                r.exit_reason == ExitReason::Error(ExitError::OutOfGas),
                "price: contract {to:?} runs for less than {gas} gas, {:?}",
                r.exit_reason
            );
            ensure!(r.ret.is_empty(), "price: contract {to:?} answers although unpaid");
        }
        None => {
            ensure!(
                !r.exit_reason.is_succeed() && r.ret.is_empty(),
                "accepted: contract {to:?} given {} answers {:?} {}",
                mc::hex(data),
                r.exit_reason,
                mc::hex(&r.ret)
            );
        }
    }
    Ok(())
}

fn bytes(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed)).collect()
}

// --- modular exponentiation, from EIP-198 and EIP-2565

fn modexp_reference(b: U256, e: U256, m: U256) -> U256 {
    if m.is_zero() {
        return U256::zero();
    }
    let mm = U512::from(m);
    let mut acc = U512::one() % mm;
    for i in (0..256).rev() {
        acc = acc * acc % mm;
        if e.bit(i) {
            acc = acc * U512::from(b) % mm;
        }
    }
    U256::try_from(acc).unwrap()
}

fn modexp_gas(bl: usize, el: usize, ml: usize, head: U256) -> u64 {
    if bl == 0 && ml == 0 {
        return 200;
    }
    let words = ((bl.max(ml) + 7) / 8) as u128;
    let iterations: u128 = if el <= 32 {
        if head.is_zero() {
            0
        } else {
            head.bits() as u128 - 1
        }
    } else {
        8 * (el as u128 - 32) + (head.bits() as u128).saturating_sub(1)
    };
    ((words * words * iterations.max(1) / 3).max(200)).min(u64::MAX as u128) as u64
}

fn left(n: U256, len: usize) -> Vec<u8> {
    let b = be(&n);
    if len >= 32 {
        let mut v = vec![0; len - 32];
        v.extend(b);
        v
    } else {
        b[32 - len..].to_vec()
    }
}

// --- the compression function, from RFC 7693

fn blake2_f(rounds: u32, h: &mut [u64; 8], m: &[u64; 16], t: [u64; 2], last: bool) {
    const S: [[usize; 16]; 10] = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3], [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8], [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9], [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10], [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]];
    // the first 64 bits of the fractional parts of the square roots of the first primes
    const IV: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t[0];
    v[13] ^= t[1];
    if last {
        v[14] ^= u64::MAX;
    }
    for r in 0..rounds as usize {
        for (j, (a, b, c, d)) in
            [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]
                .into_iter()
                .enumerate()
        {
            for (k, (p, q)) in [(32, 24), (16, 63)].into_iter().enumerate() {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[S[r % 10][2 * j + k]]);
                v[d] = (v[d] ^ v[a]).rotate_right(p);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(q);
            }
        }
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

fn ckb_hash(data: &[u8]) -> [u8; 32] {
    // BLAKE2b, 32 bytes, personalised "ckb-default-hash", from the compression function above
    let mut h: [u64; 8] = [
        0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f,
        0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
    ];
    h[0] ^= 0x0101_0020;
    h[6] ^= u64::from_le_bytes(*b"ckb-defa");
    h[7] ^= u64::from_le_bytes(*b"ult-hash");
    let blocks = ((data.len() + 127) / 128).max(1);
    for i in 0..blocks {
        let mut block = [0u8; 128];
        let end = data.len().min(128 * (i + 1));
        block[..end - 128 * i].copy_from_slice(&data[128 * i..end]);
        let mut m = [0u64; 16];
        for (j, x) in m.iter_mut().enumerate() {
            *x = u64::from_le_bytes(block[8 * j..8 * j + 8].try_into().unwrap());
        }
        blake2_f(12, &mut h, &m, [end as u64, 0], i + 1 == blocks);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}

fn g1(k: u64) -> Vec<u8> {
    // multiples of (1, 2) on y^2 = x^3 + 3, by the textbook formulas
    let p = U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap();
    let mul = |a: U256, b: U256| U256::try_from(a.full_mul(b) % U512::from(p)).unwrap();
    let add = |a: U256, b: U256| U256::try_from((U512::from(a) + U512::from(b)) % U512::from(p)).unwrap();
    let neg = |a: U256| if a.is_zero() { a } else { p - a };
    let inv = |a: U256| modexp_reference(a, p - U256::from(2), p);
    let mut acc: Option<(U256, U256)> = None;
    for _ in 0..k {
        let (x2, y2) = (U256::one(), U256::from(2));
        acc = match acc {
            None => Some((x2, y2)),
            Some((x1, y1)) => {
                let slope = if x1 == x2 {
                    mul(mul(U256::from(3), mul(x1, x1)), inv(mul(U256::from(2), y1)))
                } else {
                    mul(add(y2, neg(y1)), inv(add(x2, neg(x1))))
                };
                let x = add(mul(slope, slope), add(neg(x1), neg(x2)));
                let y = add(mul(slope, add(x1, neg(x))), neg(y1));
                Some((x, y))
            }
        };
    }
    match acc {
        None => vec![0; 64],
        Some((x, y)) => [be(&x), be(&y)].concat(),
    }
}

fn g1_neg(p: &[u8]) -> Vec<u8> {
    let f = U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap();
    let y = U256::from_big_endian(&p[32..]);
    [p[..32].to_vec(), be(&if y.is_zero() { y } else { f - y })].concat()
}

pub fn hashes(k: &Check) {
    k.part("hashing and copying", "every length listed, four fillings", "lengths 0-33, 63-65, 127-129, 255-257, 1000").explore(|c| {
        let w = World::new(64);
        let lens: Vec<usize> = (0..=33).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]).collect();
        let n = *c.pick(&lens);
        let data = match c.choose(4) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => bytes(n, 1),
            _ => bytes(n, 99),
        };
        let words = ((n + 31) / 32) as u64;
        expect(&w, low(2), &data, Some((sha2::Sha256::digest(&data).to_vec(), 60 + 12 * words)))?;
        let mut r = vec![0; 12];
        r.extend(ripemd::Ripemd160::digest(&data).to_vec());
        expect(&w, low(3), &data, Some((r, 600 + 120 * words)))?;
        expect(&w, low(4), &data, Some((data.clone(), 15 + 3 * words)))?;
        expect(&w, low(0x106), &data, Some((ckb_hash(&data).to_vec(), 60 + 12 * words)))?;
        c.nontrivial();
        Ok(())
    });
    k.part("known answers", "published vectors", "one each").explore(|c| {
        let w = World::new(64);
        let r = ask(&w, low(2), b"abc", 1000)?;
        ensure_eq!(mc::hex(&r.ret), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "answer: SHA-256 of abc");
        let r = ask(&w, low(3), b"abc", 1000)?;
        ensure_eq!(mc::hex(&r.ret), "0000000000000000000000008eb208f7e05d987a9b044a8e98c6b087f15a0bfc", "answer: RIPEMD-160 of abc");
        c.nontrivial();
        Ok(())
    });
}

pub fn run(k: &Check) {
    k.assume("big-number, pairing-curve and hash crates that cannot be fetched here are stood in for by small reimplementations; SHA-256 and RIPEMD-160 come from the crates the node uses");
    hashes(k);
    k.part("modular exponentiation", "all triples of lengths and all values listed, whole, cut short and with extra bytes", "lengths 0-3, 8, 9, 32, 33, 40; 6 values each; 3 tails")
        .deviations(2)
        .explore(|c| {
            let w = World::new(64);
            let lens = [1usize, 0, 2, 3, 8, 9, 32, 33, 40];
            let (bl, el, ml) = (*c.pick(&lens), *c.pick(&lens), *c.pick(&lens));
            let vals = [U256::from(3), U256::zero(), U256::one(), U256::from(2), U256::from(0xfe), U256::max_value() - U256::from(188)];
            let fit = |v: U256, n: usize| if n >= 32 { v } else if n == 0 { U256::zero() } else { v & ((U256::one() << (8 * n)) - U256::one()) };
            let b = fit(*c.pick_dev(&vals), bl);
            let e = fit(*c.pick_dev(&vals), el);
            let m = fit(*c.pick_dev(&[U256::from(7), U256::zero(), U256::one(), U256::from(2), U256::from(0xfd), U256::max_value()]), ml);
            let mut data = [word(bl as u64), word(el as u64), word(ml as u64)].concat();
            data.extend(left(b, bl));
            data.extend(left(e, el));
            data.extend(left(m, ml));
            // `head` is the first 32 bytes of the exponent
            let ebytes = left(e, el);
            let head = U256::from_big_endian(&ebytes[..el.min(32)]);
            let tail = c.deviate(3);
            let (mut mm, mut cut) = (m, false);
            match tail {
                1 => data.extend([9; 5]),
                2 if ml > 0 => {
                    data.pop();
                    mm = m & !U256::from(0xff);
                    cut = true;
                }
                _ => {}
            }
            let _ = cut;
            let out = if bl == 0 && ml == 0 { vec![] } else { left(modexp_reference(b, e, mm), ml) };
            c.outcome((out.len(), mm.is_zero()));
            c.nontrivial();
            expect(&w, low(5), &data, Some((out, modexp_gas(bl, el, ml, head))))
        });
    k.part("absurd lengths", "every triple of lengths from a list reaching the largest representable; no answer may crash or be cheap", "8^3 triples, 2 fillings")
        .explore(|c| {
            let w = World::new(64);
            let lens = [
                U256::zero(),
                U256::one(),
                U256::from(33),
                U256::from(1u64 << 40),
                U256::from(u64::MAX),
                U256::from(u64::MAX / 8 + 33),
                U256::one() << 64,
                U256::max_value(),
            ];
            let (bl, el, ml) = (*c.pick(&lens), *c.pick(&lens), *c.pick(&lens));
            let fill = *c.pick(&[0u8, 0xff]);
            let mut data = [be(&bl), be(&el), be(&ml)].concat();
            data.extend(vec![fill; 80]);
            let r = ask(&w, low(5), &data, 20_000_000)?;
            let big = U256::from(1u64 << 39);
            let free = bl.is_zero() && ml.is_zero();
            if !free && (bl > big || ml > big || (el > big)) {
                ensure!(!r.exit_reason.is_succeed(), "cheap: lengths {bl} {el} {ml} were accepted for 20,000,000 gas");
                c.nontrivial();
            }
            Ok(())
        });
    k.part("signatures", "every listed signature, whole, with each byte region disturbed and cut to every listed length", "3 keys x 3 messages x 12 disturbances").explore(|c| {
        let w = World::new(64);
        let key = [c.choose(3) as u8 + 1; 32];
        let msg = rf::keccak256(&[c.choose(3) as u8]);
        let s = common_crypto::Secp256k1RecoverablePrivateKey::try_from(&key[..]).unwrap();
        use common_crypto::{PrivateKey, PublicKey, Signature, ToPublicKey, UncompressedPublicKey};
        let sig = s.sign_message(&common_crypto::HashValue::from_bytes_unchecked(msg)).to_bytes();
        let public = s.pub_key().to_uncompressed_bytes();
        let _ = s.pub_key().to_bytes();
        let who = addr_word(H160::from_slice(&rf::keccak256(&public[1..])[12..])).to_vec();
        let mut data = msg.to_vec();
        data.extend(word(27 + sig[64] as u64));
        data.extend(&sig[..64]);
        let n = c.choose(12);
        let r;
        match n {
            0 => r = Some(who),
            1 => {
                data.extend([1, 2, 3]);
                r = Some(who);
            }
            2 => {
                data[63] = 26;
                r = None;
            }
            3 => {
                data[63] = 29;
                r = None;
            }
            4 => {
                data[32] = 1;
                r = None;
            }
            5 => {
                data[64..96].fill(0);
                r = None;
            }
            6 => {
                data[96..].fill(0);
                r = None;
            }
            7 => {
                data[64..96].fill(0xff);
                r = None;
            }
            8 => {
                data[63] = 0;
                r = None;
            }
            9 => {
                data[63] -= 27;
                r = None;
            }
            10 => {
                data.truncate(64);
                r = None;
            }
            _ => {
                // the other parity names another key
                data[63] = 55 - data[63];
                let a = ask(&w, low(1), &data, 5000)?;
                if a.exit_reason.is_succeed() {
                    ensure!(a.ret.len() == 32 && a.ret != who && a.ret[..12] == [0; 12], "answer: other parity names the same key");
                    c.nontrivial();
                }
                return Ok(());
            }
        }
        c.outcome(n);
        c.nontrivial();
        expect(&w, low(1), &data, r.map(|x| (x, 3000)))
    });
    k.part("curve sums and multiples", "all small multiples of the generator, their negatives, points off the curve and coordinates beyond the field", "8 x 8 sums, 8 x 12 products").explore(|c| {
        let w = World::new(64);
        let (i, j) = (c.choose(8) as u64, c.choose(8) as u64);
        let mode = c.choose(6);
        let (a, b) = (g1(i), g1(j));
        let minus = |k: u64| if k == 0 { g1(0) } else { g1_neg(&g1(k)) };
        match mode {
            0 => expect(&w, low(6), &[a, b].concat(), Some((g1(i + j), 150)))?,
            1 => {
                let d = if i >= j { g1(i - j) } else { minus(j - i) };
                expect(&w, low(6), &[a, minus(j), vec![7; 3]].concat(), Some((d, 150)))?
            }
            2 => expect(&w, low(7), &[a, word(j).to_vec()].concat(), Some((g1(i * j), 6000)))?,
            3 => {
                let order = U256::from_dec_str("21888242871839275222246405745257275088548364400416034343698204186575808495617").unwrap();
                let s = order - U256::from(j);
                expect(&w, low(7), &[a, be(&s)].concat(), Some((minus(i * j), 6000)))?
            }
            4 => {
                let mut bad = g1(i + 1);
                bad[63 - j as usize] ^= 1;
                expect(&w, low(6), &[bad.clone(), a.clone()].concat(), None)?;
                expect(&w, low(6), &[a, bad.clone()].concat(), None)?;
                expect(&w, low(7), &[bad, word(3).to_vec()].concat(), None)?
            }
            _ => {
                let f = U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap();
                let x = U256::from_big_endian(&g1(i + 1)[..32]);
                let beyond = [be(&(x + f)), g1(i + 1)[32..].to_vec()].concat();
                expect(&w, low(6), &[beyond.clone(), b].concat(), None)?;
                expect(&w, low(7), &[beyond, word(j).to_vec()].concat(), None)?
            }
        }
        c.nontrivial();
        Ok(())
    });
    k.part("pairings", "products of pairings of small multiples that do and do not cancel, zero points, malformed lengths and points", "12 cases").serial().explore(|c| {
        let w = World::new(64);
        let g2 = |s: &[&str]| -> Vec<u8> { s.iter().flat_map(|x| be(&U256::from_dec_str(x).unwrap())).collect() };
        let p2 = g2(&[
            "11559732032986387107991004021392285783925812861821192530917403151452391805634",
            "10857046999023057135944570762232829481370756359578518086990519993285655852781",
            "4082367875863433681332203403145435568316851327593401208105741076214120093531",
            "8495653923123431417604973247489272438418190587263600148770280649306958101930",
        ]);
        let zero2 = vec![0; 128];
        let yes = word(1).to_vec();
        let no = word(0).to_vec();
        let n = c.choose(14);
        c.note(|| format!("case {n}"));
        let pair = |k: u64| [g1(k), p2.clone()].concat();
        let minus = |k: u64| [g1_neg(&g1(k)), p2.clone()].concat();
        let (data, want) = match n {
            0 => (vec![], Some((yes, 45_000))),
            1 => (pair(1), Some((no, 79_000))),
            2 => ([pair(2), minus(2)].concat(), Some((yes, 113_000))),
            3 => ([pair(2), pair(1), minus(3)].concat(), Some((yes, 147_000))),
            4 => ([pair(2), minus(3)].concat(), Some((no, 113_000))),
            5 => ([g1(0), p2.clone()].concat(), Some((yes, 79_000))),
            6 => ([g1(3), zero2.clone()].concat(), Some((yes, 79_000))),
            7 => (vec![0; 191], None),
            8 => (vec![0; 1], None),
            9 => ([vec![0; 192], vec![0; 100]].concat(), None),
            10 => ([g1(1), vec![0; 127], vec![1]].concat(), None),
            11 => {
                let mut p = pair(1);
                p[63] ^= 1;
                (p, None)
            }
            12 => {
                let mut p = pair(1);
                p[191] ^= 1;
                (p, None)
            }
            _ => {
                // the two halves of the second point's coordinates exchanged
                let p = [g1(1), p2[32..64].to_vec(), p2[..32].to_vec(), p2[64..].to_vec()].concat();
                (p, None)
            }
        };
        c.nontrivial();
        let r = ask(&w, low(8), &data, 20_000_000)?;
        match want {
            Some((out, gas)) => {
                ensure!(r.exit_reason.is_succeed(), "refused: pairing case {n}: {:?}", r.exit_reason);
                ensure_eq!(mc::hex(&r.ret), mc::hex(&out), "answer: pairing case {n}");
                ensure_eq!(r.gas_used - intrinsic(&data), gas, "price: pairing case {n}");
                let r = ask(&w, low(8), &data, gas - 1)?;
                ensure!(!r.exit_reason.is_succeed(), "price: pairing case {n} runs for less");
            }
            None => ensure!(!r.exit_reason.is_succeed(), "accepted: pairing case {n} (malformed, {} bytes) answers {}", data.len(), mc::hex(&r.ret)),
        }
        Ok(())
    });
    k.part("compression function", "rounds, both flags, counters and fillings listed, every other length, every other flag", "9 x 2 x 4 x 4 plus lengths 0-4, 212, 214, 426").explore(|c| {
        let w = World::new(64);
        let rounds = *c.pick(&[12u32, 0, 1, 2, 9, 10, 11, 21, 300]);
        let fill = c.choose(4) as u8;
        let t = *c.pick(&[[3u64, 0], [0, 0], [u64::MAX, 1], [0, u64::MAX]]);
        let flag = *c.pick(&[1u8, 0, 2, 255]);
        let words: Vec<u64> = (0..24u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(fill as u64).rotate_left(fill as u32 * 7)).collect();
        let mut data = rounds.to_be_bytes().to_vec();
        for x in &words {
            data.extend(x.to_le_bytes());
        }
        data.extend(t[0].to_le_bytes());
        data.extend(t[1].to_le_bytes());
        data.push(flag);
        c.nontrivial();
        if flag > 1 {
            return expect(&w, low(9), &data, None);
        }
        let mut h: [u64; 8] = words[..8].try_into().unwrap();
        let m: [u64; 16] = words[8..].try_into().unwrap();
        blake2_f(rounds, &mut h, &m, t, flag == 1);
        let out: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes()).collect();
        if rounds == 0 {
            let r = ask(&w, low(9), &data, 0)?;
            ensure_eq!(mc::hex(&r.ret), mc::hex(&out), "answer: no rounds");
        } else {
            expect(&w, low(9), &data, Some((out, rounds as u64)))?;
        }
        for n in [0usize, 1, 3, 4, 212] {
            expect(&w, low(9), &data[..n], None)?;
        }
        expect(&w, low(9), &[&data[..], &[0]].concat(), None)
    });
}
