//! D01: what a CKB-VM program run by the node returns and costs.

#[path = "vm_more.rs"]
mod more;

use std::collections::HashMap;

use ckb_traits::CellDataProvider;
use ckb_types::packed;
use core_interoperation::{cycle_to_gas, gas_to_cycle, BlockchainType, InteroperationImpl};
use mc::{ensure, ensure_eq, Check};
use protocol::traits::{Context, Interoperation};
use protocol::types::{Bytes, CellDep, H256};

struct Cells(HashMap<(H256, u32), Bytes>);

impl CellDataProvider for Cells {
    fn get_cell_data(&self, out_point: &packed::OutPoint) -> Option<Bytes> {
        use ckb_types::prelude::*;
        let index: u32 = out_point.index().unpack();
        self.0.get(&(H256::from_slice(out_point.tx_hash().as_slice()), index)).cloned()
    }

    fn get_cell_data_hash(&self, _: &packed::OutPoint) -> Option<packed::Byte32> {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum I {
    Inc,
    Shift,
    Mul,
    Div,
    SetB,
    Argc,
    Argv,
    Byte,
    Store,
    Load,
    SkipIfZero,
    BackUnlessEqual,
    Jump,
    Exit,
    Bad,
}

const ALL: [I; 15] = [
    I::Inc, I::Shift, I::Mul, I::Div, I::SetB, I::Argc, I::Argv, I::Byte, I::Store, I::Load, I::SkipIfZero, I::BackUnlessEqual, I::Jump,
    I::Exit, I::Bad,
];

const A0: u32 = 10;
const A1: u32 = 11;
const A2: u32 = 12;
const A7: u32 = 17;
const SP: u32 = 2;

fn itype(op: u32, f3: u32, rd: u32, rs: u32, imm: i32) -> u32 {
    op | rd << 7 | f3 << 12 | rs << 15 | (imm as u32) << 20
}

fn branch(f3: u32, a: u32, b: u32, off: i32) -> u32 {
    let o = off as u32;
    0x63 | (o >> 11 & 1) << 7 | (o >> 1 & 15) << 8 | f3 << 12 | a << 15 | b << 20 | (o >> 5 & 63) << 25 | (o >> 12 & 1) << 31
}

impl I {
    fn word(self) -> u32 {
        match self {
            I::Inc => itype(0x13, 0, A0, A0, 1),
            I::Shift => itype(0x13, 1, A0, A0, 4),
            I::Mul => 0x33 | A0 << 7 | A0 << 15 | A1 << 20 | 1 << 25,
            I::Div => 0x33 | A0 << 7 | 5 << 12 | A0 << 15 | A1 << 20 | 1 << 25,
            I::SetB => itype(0x13, 0, A1, A1, 3),
            I::Argc => itype(0x03, 3, A0, SP, 0),
            I::Argv => itype(0x03, 3, A2, SP, 8),
            I::Byte => itype(0x03, 4, A0, A2, 0),
            I::Store => 0x23 | 0x18 << 7 | 3 << 12 | SP << 15 | A0 << 20 | 0x7f << 25,
            I::Load => itype(0x03, 3, A1, SP, -8),
            I::SkipIfZero => branch(0, A0, 0, 8),
            I::BackUnlessEqual => branch(1, A0, A1, -4),
            I::Jump => 0x6f | (8 >> 1) << 21,
            I::Exit => 0x73,
            I::Bad => 0,
        }
    }

    /// The published cost of each instruction.
    fn cost(self) -> u64 {
        match self {
            I::Mul => 5,
            I::Div => 32,
            I::Argc | I::Argv | I::Load | I::Store => 2,
            I::Byte | I::SkipIfZero | I::BackUnlessEqual | I::Jump => 3,
            I::Exit => 500,
            _ => 1,
        }
    }
}

fn elf(code: &[I]) -> Vec<u8> {
    let mut text = itype(0x13, 0, A7, 0, 93).to_le_bytes().to_vec();
    for i in code {
        text.extend(i.word().to_le_bytes());
    }
    file(text)
}

/// An ELF file with one executable segment at 0x10000.
fn file(mut text: Vec<u8>) -> Vec<u8> {
    text.extend([0; 16]);
    let mut e = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    e.extend(2u16.to_le_bytes());
    e.extend(243u16.to_le_bytes());
    e.extend(1u32.to_le_bytes());
    e.extend(0x10000u64.to_le_bytes());
    e.extend(64u64.to_le_bytes());
    e.extend(0u64.to_le_bytes());
    e.extend(0u32.to_le_bytes());
    for x in [64u16, 56, 1, 64, 0, 0] {
        e.extend(x.to_le_bytes());
    }
    e.extend(1u32.to_le_bytes());
    e.extend(5u32.to_le_bytes());
    for x in [0x1000u64, 0x10000, 0x10000, text.len() as u64, text.len() as u64, 0x1000] {
        e.extend(x.to_le_bytes());
    }
    e.resize(0x1000, 0);
    e.extend(text);
    e
}

/// Exit code and cycles; `None` when the program fails or costs more than `max`.
fn model(code: &[I], args: &[Bytes], max: u64) -> Option<(i8, u64)> {
    let (mut a0, mut a1, mut argv, mut slot) = (0u64, 0u64, false, 0u64);
    let mut cycles = 1u64;
    let mut pc = 0i64;
    if cycles > max {
        return None;
    }
    loop {
        // before the program is the instruction that selects the system call
        let i = if pc == -1 {
            cycles += 1;
            pc = 0;
            if cycles > max {
                return None;
            }
            continue;
        } else {
            *code.get(pc as usize)?
        };
        cycles += i.cost();
        if cycles > max {
            return None;
        }
        pc += 1;
        match i {
            I::Inc => a0 = a0.wrapping_add(1),
            I::Shift => a0 <<= 4,
            I::Mul => a0 = a0.wrapping_mul(a1),
            I::Div => a0 = if a1 == 0 { u64::MAX } else { a0 / a1 },
            I::SetB => a1 = a1.wrapping_add(3),
            I::Argc => a0 = args.len() as u64,
            I::Argv => argv = !args.is_empty(),
            I::Byte => a0 = if argv { args[0].first().copied().unwrap_or(0) as u64 } else { 0 },
            I::Store => slot = a0,
            I::Load => a1 = slot,
            I::SkipIfZero => pc += (a0 == 0) as i64,
            I::BackUnlessEqual => pc -= 2 * (a0 != a1) as i64,
            I::Jump => pc += 1,
            I::Exit => return Some((a0 as i8, cycles)),
            I::Bad => return None,
        }
    }
}

fn dep(i: u32) -> CellDep {
    CellDep { tx_hash: H256::repeat_byte(7), index: i, dep_type: 0 }
}

fn run(program: Vec<u8>, args: &[Bytes], max: u64) -> Result<Option<(i8, u64)>, String> {
    let mut cells = HashMap::new();
    cells.insert((H256::repeat_byte(7), 3), Bytes::from(program));
    // another cell of the same transaction holds a program that always exits with 99
    cells.insert((H256::repeat_byte(7), 0), Bytes::from(elf(&[I::Exit])));
    let cells = Cells(cells);
    mc::no_panic(|| InteroperationImpl::call_ckb_vm(Context::new(), &cells, dep(3), args, max).ok().map(|r| (r.exit_code, r.cycles)))
}

pub fn programs(check: &Check) {
    let len = check.by_tier(3, 4);
    check
        .part(
            "programs",
            "the program exits",
            &format!(
                "every program of {len} instructions out of 15 (arithmetic, memory, arguments, branches back and forth, exit, an illegal one) and a \
                 final exit, with 3 argument lists, run with ample cycles, with exactly its cost, with one less, and \
                 with none, one and the largest numbers of cycles"
            ),
        )
        .explore(|c| {
            let mut code: Vec<I> = (0..len).map(|_| *c.pick(&ALL)).collect();
            code.push(I::Exit);
            let args: Vec<Bytes> = match c.choose(3) {
                0 => vec![],
                1 => vec![Bytes::from_static(&[0x85]), Bytes::from_static(b"zz")],
                _ => vec![Bytes::new()],
            };
            const AMPLE: u64 = 4000;
            let (max, want) = match (c.choose(4), model(&code, &args, AMPLE)) {
                (0, w) => (AMPLE, w),
                (1, Some((e, n))) => (n, Some((e, n))),
                (2, Some((_, n))) => (n - 1, None),
                (3, Some((e, n))) => {
                    let max = *c.pick(&[0, 1, u32::MAX as u64, 1 << 32, u64::MAX]);
                    (max, (max >= n).then_some((e, n)))
                }
                _ => return Ok(()),
            };
            c.state();
            let got = run(elf(&code), &args, max)?;
            if want.is_some() {
                c.nontrivial();
            }
            c.outcome(want);
            ensure!(got == want, "what a program returns: {code:?} args {args:?} max {max}: got (exit, cycles) {got:?}, want {want:?}");
            Ok(())
        });
    check
        .part(
            "malformed",
            "the file is not the program any more",
            "a valid program with each of its first 128 bytes set to each of 6 values, cut at each length up to 140, and an empty one: an answer or an \
             error within the cycles",
        )
        .explore(|c| {
            let mut e = elf(&[I::Inc, I::Exit]);
            let cut = c.choose(2) == 0;
            if !cut {
                let at = c.choose(128);
                let v = *c.pick(&[0u8, 1, 0x7f, 0x80, 0xfe, 0xff]);
                if e[at] != v {
                    c.nontrivial();
                }
                e[at] = v;
            } else {
                c.nontrivial();
                e.truncate(c.choose(141));
            }
            c.state();
            let max = 10_000;
            let got = match run(e, &[], max) {
                Ok(g) => g,
                Err(e) => {
                    ensure!(false, "a malformed program crashes: {e}");
                    None
                }
            };
            c.outcome(got);
            ensure!(got.map(|g| g.1 <= max) != Some(false), "more cycles than allowed: {got:?}");
            ensure!(!cut || got.is_none(), "a file without a program runs: {got:?}");
            Ok(())
        });
    more::parts(check);
    check.part("absent", "no such cell", "two missing cells next to two existing ones, and cells whose number or transaction differs from theirs in one byte").explore(|c| {
        let i = c.choose(4) as u32;
        if c.flip() {
            let mut cells = HashMap::new();
            cells.insert((H256::repeat_byte(7), i), Bytes::from(elf(&[I::Inc, I::Exit])));
            let mut d = dep(i);
            let at = c.choose(36);
            if at < 32 {
                d.tx_hash.0[at] ^= 1;
            } else {
                d.index ^= 1 << (8 * (at - 32));
            }
            let got = InteroperationImpl::call_ckb_vm(Context::new(), &Cells(cells), d, &[], 1000).is_ok();
            c.nontrivial();
            ensure!(!got, "a program is read from another cell: byte {at}");
            return Ok(());
        }
        let mut cells = HashMap::new();
        cells.insert((H256::repeat_byte(7), 1), Bytes::from(elf(&[I::Inc, I::Exit])));
        cells.insert((H256::repeat_byte(7), 2), Bytes::from(elf(&[I::Inc, I::Inc, I::Exit])));
        let got = InteroperationImpl::call_ckb_vm(Context::new(), &Cells(cells), dep(i), &[], 1000).ok().map(|r| r.exit_code);
        c.nontrivial();
        c.outcome(got);
        ensure_eq!(got, [None, Some(1), Some(2), None][i as usize], "which cell a program is read from: {i}");
        Ok(())
    });
    check
        .part("gas", "gas and cycles convert at 6000 cycles per gas, rounding down", "22 values of gas up to the largest that has cycles, cycles around each multiple; every chain number")
        .explore(|c| {
            let g = *c.pick(&[0u64, 1, 2, 3, 7, 100, 5999, 6000, 6001, 20_999, 21_000, 56_000, 65_535, 65_536, 1 << 20, 12_345_678, 29_999_999, 30_000_000, u32::MAX as u64, 1 << 32, (1 << 32) + 7, u64::MAX / 6000 - 1]);
            c.nontrivial();
            ensure_eq!(gas_to_cycle(g), (g as u128 * 6000) as u64, "cycles for gas {g}");
            let d = *c.pick(&[0u64, 1, 2999, 3000, 5999]);
            ensure_eq!(cycle_to_gas(g * 6000 + d), g, "gas for cycles {}", g * 6000 + d);
            c.outcome((g, d));
            let chain = c.choose(256) as u8;
            ensure_eq!(BlockchainType::try_from(chain).is_ok(), chain < 2, "known chains: {chain}");
            Ok(())
        });
}
