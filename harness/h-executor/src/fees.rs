//! F05: how collected fees are shared out, and how a reverted call's reason is read.
use core_executor::{code_address, decode_revert_msg, DefaultFeeAllocator, FeeAllocate};
use mc::{ensure, ensure_eq, Check};
use protocol::types::{H160, U256};

use crate::world::*;

pub fn run(k: &Check) {
    k.part(
        "sharing",
        "every vector of weights up to the bound, every fee listed, in the first block and in a later one",
        "up to 4 validators with weights from {0, 1, 2, 3, 5, 1000, 2^32-1}; 9 fees",
    )
    .explore(|c| {
        let n = c.choose(5);
        let w: Vec<u32> = (0..n).map(|_| *c.pick(&[0u32, 1, 2, 3, 5, 1000, u32::MAX])).collect();
        let fee = *c.pick(&[
            U256::zero(),
            U256::one(),
            2u64.into(),
            7u64.into(),
            100u64.into(),
            1_000_003u64.into(),
            U256::from(u64::MAX) + 1,
            U256::max_value() / 3,
            U256::max_value(),
        ]);
        let block = *c.pick(&[0u64, 1, 99]);
        let who: Vec<(u8, u32)> = w.iter().enumerate().map(|(i, x)| (0x10 + i as u8, *x)).collect();
        let vals = validators(&who);
        let got = mc::no_panic(|| DefaultFeeAllocator.allocate(block.into(), fee, addr(0x10), &vals))
            .map_err(|e| mc::Fail::new("panic", format!("panic: {e} sharing {fee} among {w:?}")))?;
        if block == 0 {
            ensure!(got.iter().all(|i| i.amount.is_zero()), "genesis: fees handed out in it");
            return Ok(());
        }
        let sum: u64 = w.iter().map(|x| *x as u64).sum();
        let share = |a: H160| got.iter().filter(|i| i.address == a).fold(U256::zero(), |s, i| s + i.amount);
        ensure!(got.iter().all(|i| who.iter().any(|(n, _)| addr(*n) == i.address)), "outsider: a fee goes to somebody else");
        let mut out = U256::zero();
        for (n, x) in &who {
            let s = share(addr(*n));
            // no more than the exact proportion, and short of it by less than one unit per unit of weight
            let exact = |v: U256| v.full_mul(sum.into());
            let due = fee.full_mul((*x as u64).into());
            ensure!(exact(s) <= due, "share: weight {x} of {w:?} gets {s} of {fee}, more than its part");
            if sum > 0 {
                ensure!(
                    due - exact(s) < primitive_types::U512::from(sum) * primitive_types::U512::from((*x as u64).max(1)),
                    "share: weight {x} of {w:?} gets {s} of {fee}, less than its part"
                );
            }
            out += s;
        }
        ensure!(out <= fee, "sum: {out} handed out of {fee} among {w:?}");
        if sum > 0 {
            ensure!(fee - out < sum.into(), "rest: {} of {fee} kept back among {w:?}", fee - out);
            c.nontrivial();
        }
        for (a, x) in &who {
            for (b, y) in &who {
                ensure!(x != y || share(addr(*a)) == share(addr(*b)), "equal: weights {w:?} of {fee}");
                ensure!(x >= y || share(addr(*a)) <= share(addr(*b)), "order: weights {w:?} of {fee}");
            }
        }
        c.outcome((n, sum == 0, fee.is_zero()));
        Ok(())
    });
    k.part(
        "reasons",
        "return data of every length up to the bound around the encoded message, with every length word listed",
        "lengths 0-140; 16 length words",
    )
    .explore(|c| {
        let len = c.choose(141);
        let claim = *c.pick(&[
            U256::zero(),
            U256::one(),
            2u64.into(),
            31u64.into(),
            32u64.into(),
            33u64.into(),
            64u64.into(),
            71u64.into(),
            72u64.into(),
            73u64.into(),
            255u64.into(),
            U256::from(u64::MAX - 68),
            U256::from(u64::MAX - 67),
            U256::from(u64::MAX),
            U256::from(u64::MAX) + 1,
            U256::max_value(),
        ]);
        let mut data = vec![0x08, 0xc3, 0x79, 0xa0];
        data.extend(word(32));
        data.extend(be(&claim));
        let text: Vec<u8> = (0..80u8).map(|i| b'0' + i % 75).collect();
        data.extend(&text);
        data.truncate(len);
        let got = mc::no_panic(|| decode_revert_msg(&data))
            .map_err(|e| mc::Fail::new("panic", format!("panic: {e} reading {} bytes that announce {claim}", len)))?;
        let head = "execution reverted: ";
        ensure!(got.starts_with(head), "reason: {got:?}");
        let body = &got[head.len()..];
        if len >= 68 && claim <= U256::from(len - 68) {
            c.nontrivial();
            let n = claim.as_usize();
            ensure_eq!(body.as_bytes(), &text[..n], "reason: message of {n} bytes in {len}");
        } else {
            // not a message: the raw bytes, one character each
            let raw: String = data.iter().map(|b| *b as char).collect();
            ensure_eq!(body, raw, "reason: raw bytes of {len}, announcing {claim}");
        }
        c.outcome(len >= 68);
        Ok(())
    });
    k.part("new contracts", "the address of a created contract for every sender and count listed", "5 senders x 14 counts").explore(|c| {
        let s = *c.pick(&[H160::zero(), addr(1), addr(0x7f), addr(0x80), addr(0xff)]);
        let n = *c.pick(&[
            U256::zero(),
            U256::one(),
            0x7fu64.into(),
            0x80u64.into(),
            0xffu64.into(),
            0x100u64.into(),
            0xffffu64.into(),
            0x10000u64.into(),
            U256::from(u64::MAX),
            U256::from(u64::MAX) + 1,
            U256::from(u128::MAX),
            U256::max_value(),
            U256::max_value() - 1,
            U256::one() << 255,
        ]);
        let want = rf::keccak256(&rf::l(vec![rf::b(s.as_bytes()), rf::uint(&be(&n))]).encode());
        let got: H160 = code_address(&s, &n).into();
        ensure_eq!(got, H160::from_slice(&want[12..]), "address: sender {s:?}, count {n}");
        c.nontrivial();
        Ok(())
    });
}
