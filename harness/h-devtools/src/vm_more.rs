//! Every instruction, long runs, arguments and faults.

use mc::{ensure, Check};
use protocol::types::Bytes;

use super::{file, itype, run};

const A0: u32 = 10;
const A1: u32 = 11;
const A2: u32 = 12;
const A3: u32 = 13;
const A7: u32 = 17;
const T0: u32 = 5;
const SP: u32 = 2;

fn rtype(op: u32, f7: u32, f3: u32) -> u32 {
    op | A0 << 7 | f3 << 12 | A1 << 15 | A2 << 20 | f7 << 25
}

/// Assembles instructions of 2 or 4 bytes.
#[derive(Default, Clone)]
struct Asm(Vec<u8>);

impl Asm {
    fn w(mut self, w: u32) -> Asm {
        self.0.extend(w.to_le_bytes());
        self
    }

    fn h(mut self, h: u16) -> Asm {
        self.0.extend(h.to_le_bytes());
        self
    }

    /// Loads a 64-bit constant that lies `at` bytes after the start of the program.
    fn ld(self, rd: u32, at: usize) -> Asm {
        let off = at as i32 - self.0.len() as i32;
        self.w(0x17 | T0 << 7).w(itype(0x03, 3, rd, T0, off))
    }

    fn exit(self) -> Asm {
        self.w(itype(0x13, 0, A7, 0, 93)).w(0x73)
    }
}

type F = fn(u64, u64) -> u64;

fn sx(v: u64) -> u64 {
    v as u32 as i32 as i64 as u64
}

fn wide(a: i128, b: i128) -> u64 {
    (a.wrapping_mul(b) >> 64) as u64
}

fn clmul(a: u64, b: u64) -> u128 {
    (0..64).filter(|i| b >> i & 1 == 1).fold(0u128, |r, i| r ^ (a as u128) << i)
}

/// Name, instruction a0 <- a1, a2, its published cost, its result.
fn table() -> Vec<(&'static str, u32, u64, F)> {
    let r = rtype;
    let i = |op, f3, imm| itype(op, f3, A0, A1, imm);
    vec![
        ("add", r(0x33, 0, 0), 1, |a, b| a.wrapping_add(b)),
        ("sub", r(0x33, 0x20, 0), 1, |a, b| a.wrapping_sub(b)),
        ("sll", r(0x33, 0, 1), 1, |a, b| a << (b & 63)),
        ("slt", r(0x33, 0, 2), 1, |a, b| ((a as i64) < b as i64) as u64),
        ("sltu", r(0x33, 0, 3), 1, |a, b| (a < b) as u64),
        ("xor", r(0x33, 0, 4), 1, |a, b| a ^ b),
        ("srl", r(0x33, 0, 5), 1, |a, b| a >> (b & 63)),
        ("sra", r(0x33, 0x20, 5), 1, |a, b| (a as i64 >> (b & 63)) as u64),
        ("or", r(0x33, 0, 6), 1, |a, b| a | b),
        ("and", r(0x33, 0, 7), 1, |a, b| a & b),
        ("mul", r(0x33, 1, 0), 5, |a, b| a.wrapping_mul(b)),
        ("mulh", r(0x33, 1, 1), 5, |a, b| wide(a as i64 as i128, b as i64 as i128)),
        ("mulhsu", r(0x33, 1, 2), 5, |a, b| wide(a as i64 as i128, b as i128)),
        ("mulhu", r(0x33, 1, 3), 5, |a, b| (a as u128 * b as u128 >> 64) as u64),
        ("div", r(0x33, 1, 4), 32, |a, b| if b == 0 { u64::MAX } else { (a as i64).wrapping_div(b as i64) as u64 }),
        ("divu", r(0x33, 1, 5), 32, |a, b| a.checked_div(b).unwrap_or(u64::MAX)),
        ("rem", r(0x33, 1, 6), 32, |a, b| if b == 0 { a } else { (a as i64).wrapping_rem(b as i64) as u64 }),
        ("remu", r(0x33, 1, 7), 32, |a, b| a.checked_rem(b).unwrap_or(a)),
        ("addw", r(0x3b, 0, 0), 1, |a, b| sx(a.wrapping_add(b))),
        ("subw", r(0x3b, 0x20, 0), 1, |a, b| sx(a.wrapping_sub(b))),
        ("sllw", r(0x3b, 0, 1), 1, |a, b| sx((a as u32 as u64) << (b & 31))),
        ("srlw", r(0x3b, 0, 5), 1, |a, b| sx((a as u32 >> (b & 31)) as u64)),
        ("sraw", r(0x3b, 0x20, 5), 1, |a, b| (a as i32 >> (b & 31)) as i64 as u64),
        ("mulw", r(0x3b, 1, 0), 5, |a, b| sx(a.wrapping_mul(b))),
        ("divw", r(0x3b, 1, 4), 32, |a, b| if b as u32 == 0 { u64::MAX } else { (a as i32).wrapping_div(b as i32) as i64 as u64 }),
        ("divuw", r(0x3b, 1, 5), 32, |a, b| sx((a as u32).checked_div(b as u32).unwrap_or(u32::MAX) as u64)),
        ("remw", r(0x3b, 1, 6), 32, |a, b| if b as u32 == 0 { sx(a) } else { (a as i32).wrapping_rem(b as i32) as i64 as u64 }),
        ("remuw", r(0x3b, 1, 7), 32, |a, b| sx((a as u32).checked_rem(b as u32).unwrap_or(a as u32) as u64)),
        ("addi", i(0x13, 0, -5), 1, |a, _| a.wrapping_sub(5)),
        ("slti", i(0x13, 2, 40), 1, |a, _| ((a as i64) < 40) as u64),
        ("sltiu", i(0x13, 3, 40), 1, |a, _| (a < 40) as u64),
        ("xori", i(0x13, 4, -1), 1, |a, _| !a),
        ("ori", i(0x13, 6, 0x55), 1, |a, _| a | 0x55),
        ("andi", i(0x13, 7, 0x3c), 1, |a, _| a & 0x3c),
        ("slli", i(0x13, 1, 33), 1, |a, _| a << 33),
        ("srli", i(0x13, 5, 33), 1, |a, _| a >> 33),
        ("srai", i(0x13, 5, 0x400 | 33), 1, |a, _| (a as i64 >> 33) as u64),
        ("addiw", i(0x1b, 0, 7), 1, |a, _| sx(a.wrapping_add(7))),
        ("slliw", i(0x1b, 1, 3), 1, |a, _| sx(a << 3)),
        ("srliw", i(0x1b, 5, 3), 1, |a, _| sx((a as u32 >> 3) as u64)),
        ("sraiw", i(0x1b, 5, 0x400 | 3), 1, |a, _| (a as i32 >> 3) as i64 as u64),
        ("lui", 0x37 | A0 << 7 | 0x8_0001 << 12, 1, |_, _| 0x8000_1000u32 as i32 as i64 as u64),
        ("fence", 0x0f, 1, |_, _| 0),
        ("add.uw", r(0x3b, 4, 0), 1, |a, b| (a as u32 as u64).wrapping_add(b)),
        ("sh1add", r(0x33, 0x10, 2), 1, |a, b| (a << 1).wrapping_add(b)),
        ("sh2add", r(0x33, 0x10, 4), 1, |a, b| (a << 2).wrapping_add(b)),
        ("sh3add", r(0x33, 0x10, 6), 1, |a, b| (a << 3).wrapping_add(b)),
        ("sh1add.uw", r(0x3b, 0x10, 2), 1, |a, b| ((a as u32 as u64) << 1).wrapping_add(b)),
        ("sh2add.uw", r(0x3b, 0x10, 4), 1, |a, b| ((a as u32 as u64) << 2).wrapping_add(b)),
        ("sh3add.uw", r(0x3b, 0x10, 6), 1, |a, b| ((a as u32 as u64) << 3).wrapping_add(b)),
        ("slli.uw", i(0x1b, 1, 0x080 | 9), 1, |a, _| (a as u32 as u64) << 9),
        ("andn", r(0x33, 0x20, 7), 1, |a, b| a & !b),
        ("orn", r(0x33, 0x20, 6), 1, |a, b| a | !b),
        ("xnor", r(0x33, 0x20, 4), 1, |a, b| !(a ^ b)),
        ("clz", i(0x13, 1, 0x600), 1, |a, _| a.leading_zeros() as u64),
        ("ctz", i(0x13, 1, 0x601), 1, |a, _| a.trailing_zeros() as u64),
        ("cpop", i(0x13, 1, 0x602), 1, |a, _| a.count_ones() as u64),
        ("sext.b", i(0x13, 1, 0x604), 1, |a, _| a as i8 as i64 as u64),
        ("sext.h", i(0x13, 1, 0x605), 1, |a, _| a as i16 as i64 as u64),
        ("zext.h", 0x3b | A0 << 7 | 4 << 12 | A1 << 15 | 4 << 25, 1, |a, _| a as u16 as u64),
        ("clzw", i(0x1b, 1, 0x600), 1, |a, _| (a as u32).leading_zeros() as u64),
        ("ctzw", i(0x1b, 1, 0x601), 1, |a, _| (a as u32).trailing_zeros() as u64),
        ("cpopw", i(0x1b, 1, 0x602), 1, |a, _| (a as u32).count_ones() as u64),
        ("max", r(0x33, 5, 6), 1, |a, b| (a as i64).max(b as i64) as u64),
        ("maxu", r(0x33, 5, 7), 1, |a, b| a.max(b)),
        ("min", r(0x33, 5, 4), 1, |a, b| (a as i64).min(b as i64) as u64),
        ("minu", r(0x33, 5, 5), 1, |a, b| a.min(b)),
        ("rol", r(0x33, 0x30, 1), 1, |a, b| a.rotate_left(b as u32 & 63)),
        ("ror", r(0x33, 0x30, 5), 1, |a, b| a.rotate_right(b as u32 & 63)),
        ("rori", i(0x13, 5, 0x600 | 13), 1, |a, _| a.rotate_right(13)),
        ("rolw", r(0x3b, 0x30, 1), 1, |a, b| sx((a as u32).rotate_left(b as u32 & 31) as u64)),
        ("rorw", r(0x3b, 0x30, 5), 1, |a, b| sx((a as u32).rotate_right(b as u32 & 31) as u64)),
        ("roriw", i(0x1b, 5, 0x600 | 13), 1, |a, _| sx((a as u32).rotate_right(13) as u64)),
        ("orc.b", i(0x13, 5, 0x287), 1, |a, _| u64::from_le_bytes(a.to_le_bytes().map(|b| if b == 0 { 0 } else { 255 }))),
        ("rev8", i(0x13, 5, 0x6b8), 1, |a, _| a.swap_bytes()),
        ("clmul", r(0x33, 5, 1), 1, |a, b| clmul(a, b) as u64),
        ("clmulh", r(0x33, 5, 3), 1, |a, b| (clmul(a, b) >> 64) as u64),
        ("clmulr", r(0x33, 5, 2), 1, |a, b| (clmul(a, b) >> 63) as u64),
        ("bclr", r(0x33, 0x24, 1), 1, |a, b| a & !(1 << (b & 63))),
        ("bext", r(0x33, 0x24, 5), 1, |a, b| a >> (b & 63) & 1),
        ("binv", r(0x33, 0x34, 1), 1, |a, b| a ^ 1 << (b & 63)),
        ("bset", r(0x33, 0x14, 1), 1, |a, b| a | 1 << (b & 63)),
        ("bclri", i(0x13, 1, 0x480 | 63), 1, |a, _| a & !(1 << 63)),
        ("bexti", i(0x13, 5, 0x480 | 63), 1, |a, _| a >> 63),
        ("binvi", i(0x13, 1, 0x680 | 2), 1, |a, _| a ^ 4),
        ("bseti", i(0x13, 1, 0x280 | 8), 1, |a, _| a | 256),
    ]
}

fn store(f3: u32, off: i32) -> u32 {
    0x23 | (off as u32 & 31) << 7 | f3 << 12 | SP << 15 | A1 << 20 | (off as u32 >> 5 & 127) << 25
}

fn branch(f3: u32, a: u32, b: u32, off: i32) -> u32 {
    super::branch(f3, a, b, off)
}

/// Name, instructions that leave a0 as told from a1 and a2, their published cost.
fn sequences() -> Vec<(&'static str, Asm, u64, F)> {
    let a = Asm::default;
    let load = |f3| itype(0x03, f3, A0, SP, -16);
    let st = |f3| store(f3, -16);
    // skips one instruction that would set a0 to 1
    let skip = |b: u32| a().w(itype(0x13, 0, A0, 0, 0)).w(b).w(itype(0x13, 0, A0, 0, 1));
    let mut v: Vec<(&'static str, Asm, u64, F)> = vec![
        ("sd, ld", a().w(st(3)).w(load(3)), 4, |a, _| a),
        ("sd, lb", a().w(st(3)).w(load(0)), 5, |a, _| a as i8 as i64 as u64),
        ("sd, lh", a().w(st(3)).w(load(1)), 5, |a, _| a as i16 as i64 as u64),
        ("sd, lw", a().w(st(3)).w(load(2)), 5, |a, _| a as i32 as i64 as u64),
        ("sd, lbu", a().w(st(3)).w(load(4)), 5, |a, _| a as u8 as u64),
        ("sd, lhu", a().w(st(3)).w(load(5)), 5, |a, _| a as u16 as u64),
        ("sd, lwu", a().w(st(3)).w(load(6)), 5, |a, _| a as u32 as u64),
        ("sb, ld", a().w(st(0)).w(load(3)), 5, |a, _| a as u8 as u64),
        ("sh, ld", a().w(st(1)).w(load(3)), 5, |a, _| a as u16 as u64),
        ("sw, ld", a().w(st(2)).w(load(3)), 5, |a, _| a as u32 as u64),
        // an auipc, a jump that returns past the next instruction
        ("jal", skip(0x6f | 8 << 20), 4, |_, _| 0),
        ("jalr", a().w(0x17 | T0 << 7).w(itype(0x13, 0, A3, T0, 0)).w(itype(0x67, 0, 1, A3, 16)).w(0).w(itype(0x13, 0, A0, 0, 9)), 6, |_, _| 9),
        ("auipc, jalr", a().w(0x17 | T0 << 7).w(itype(0x67, 0, 1, T0, 12)).w(0).w(itype(0x13, 0, A0, 0, 9)), 4, |_, _| 9),
        ("lui, addiw", a().w(0x37 | A0 << 7 | 0x12345 << 12).w(itype(0x1b, 0, A0, A0, 0x678)), 1, |_, _| 0x1234_5678),
        ("lui, addi", a().w(0x37 | A0 << 7 | 0x12345 << 12).w(itype(0x13, 0, A0, A0, 0x678)), 2, |_, _| 0x1234_5678),
        ("mulhu, mul", a().w(rtype(0x33, 1, 3) - (A0 << 7) + (A3 << 7)).w(rtype(0x33, 1, 0)), 5, |a, b| a.wrapping_mul(b)),
        ("mulh, mul", a().w(rtype(0x33, 1, 1) - (A0 << 7) + (A3 << 7)).w(rtype(0x33, 1, 0)), 5, |a, b| a.wrapping_mul(b)),
        ("mulhsu, mul", a().w(rtype(0x33, 1, 2) - (A0 << 7) + (A3 << 7)).w(rtype(0x33, 1, 0)), 5, |a, b| a.wrapping_mul(b)),
        ("mul, mulhu", a().w(rtype(0x33, 1, 0) - (A0 << 7) + (A3 << 7)).w(rtype(0x33, 1, 3)), 10, |a, b| (a as u128 * b as u128 >> 64) as u64),
        ("divu, remu", a().w(rtype(0x33, 1, 5) - (A0 << 7) + (A3 << 7)).w(rtype(0x33, 1, 7)), 32, |a, b| a.checked_rem(b).unwrap_or(a)),
        ("div, rem", a().w(rtype(0x33, 1, 4) - (A0 << 7) + (A3 << 7)).w(rtype(0x33, 1, 6)), 32, |a, b| {
            if b == 0 {
                a
            } else {
                (a as i64).wrapping_rem(b as i64) as u64
            }
        }),
        ("ebreak", a().w(0x0010_0073), 500, |_, _| 0),
        ("c.nop", a().h(1).h(1), 2, |_, _| 0),
        ("c.li, c.addi", a().h(0x4515).h(0x0505), 2, |_, _| 6),
        ("c.mv", a().h(0x852e).h(1), 2, |a, _| a),
        ("c.mv, c.add", a().h(0x852e).h(0x9532), 2, |a, b| a.wrapping_add(b)),
        ("c.mv, c.sub", a().h(0x852e).h(0x8d11), 2, |a, b| a.wrapping_sub(b)),
        ("c.mv, c.and", a().h(0x852e).h(0x8d71), 2, |a, b| a & b),
        ("c.mv, c.or", a().h(0x852e).h(0x8d51), 2, |a, b| a | b),
        ("c.mv, c.xor", a().h(0x852e).h(0x8d31), 2, |a, b| a ^ b),
        ("c.mv, c.addw", a().h(0x852e).h(0x9d31), 2, |a, b| sx(a.wrapping_add(b))),
        ("c.lui", a().h(0x6505).h(1), 2, |_, _| 4096),
        ("c.addi16sp", a().h(0x7139).h(0x6121), 2, |_, _| 0),
        ("c.slli", a().h(0x852e).h(0x050e), 2, |a, _| a << 3),
        ("c.srli", a().h(0x852e).h(0x810d), 2, |a, _| a >> 3),
        ("c.srai", a().h(0x852e).h(0x850d), 2, |a, _| (a as i64 >> 3) as u64),
    ];
    for (n, f3) in [("beq", 0), ("bne", 1), ("blt", 4), ("bge", 5), ("bltu", 6), ("bgeu", 7)] {
        // both ways cost the same: jump to a c.nop, or set a0 and go on
        let f: F = match f3 {
            0 => |a, b| (a != b) as u64,
            1 => |a, b| (a == b) as u64,
            4 => |a, b| (a as i64 >= b as i64) as u64,
            5 => |a, b| ((a as i64) < b as i64) as u64,
            6 => |a, b| (a >= b) as u64,
            _ => |a, b| (a < b) as u64,
        };
        v.push((n, skip(branch(f3, A1, A2, 8)), u64::MAX, f));
    }
    v
}

/// Exit code `a0 >> 8 * byte` after the code, with the operands in a1 and a2 and a0 zero.
fn program(code: &Asm, a1: u64, a2: u64, byte: u32) -> Vec<u8> {
    let mut p = Asm::default().ld(A1, 0x100).ld(A2, 0x108);
    p.0.extend(&code.0);
    let mut p = p.w(itype(0x13, 5, A0, A0, 8 * byte as i32)).exit();
    assert!(p.0.len() <= 0x100);
    p.0.resize(0x100, 0);
    p.0.extend(a1.to_le_bytes());
    p.0.extend(a2.to_le_bytes());
    file(p.0)
}

pub fn parts(check: &Check) {
    let values: [(u64, u64); 6] = [(37, 5), (u64::MAX - 6, 3), (1 << 63 | 0x1234_5678, 40), (5, 0), (0x80c0_ffee_8000_7f80, u64::MAX), (9, 9)];
    let mut all: Vec<(&'static str, Asm, u64, F)> = table().into_iter().map(|(n, w, c, f)| (n, Asm::default().w(w), c, f)).collect();
    all.extend(sequences());
    let n = all.len();
    check
        .part(
            "instructions",
            "the program exits with the result of the instruction",
            &format!(
                "{n} instructions and short sequences (all of the base, multiplication, bit and compressed sets that have costs of their own, and the \
                 fused pairs) x 6 operand pairs x each byte of the result, with exactly their cost in cycles and with one less"
            ),
        )
        .explore(|c| {
            let (name, code, cost, f) = &all[c.choose(n)];
            let (a1, a2) = *c.pick(&values);
            let byte = c.choose(8) as u32;
            let r = f(a1, a2);
            // a branch that is not taken is followed by the instruction it would skip
            let cost = if *cost == u64::MAX { 4 + r } else { *cost };
            let want = ((r >> (8 * byte)) as i8, 6 + cost + 1 + 1 + 500);
            let tight = c.flip();
            c.state();
            c.nontrivial();
            let got = run(program(code, a1, a2, byte), &[], want.1 - tight as u64)?;
            c.outcome(got);
            ensure!(
                got == (!tight).then_some(want),
                "what an instruction does and costs: {name} {a1:#x} {a2:#x} byte {byte} of {r:#x}: got {got:?}, want {want:?} tight {tight}"
            );
            Ok(())
        });
    // divu (32), addi (1), bnez (3)
    let loops: u64 = (1 << 32) / 36 + 2;
    let long = {
        let mut p = Asm::default().ld(A1, 0x100);
        p = p.w(rtype(0x33, 1, 5)).w(itype(0x13, 0, A1, A1, -1)).w(branch(1, A1, 0, -8)).exit();
        p.0.resize(0x100, 0);
        file({
            p.0.extend(loops.to_le_bytes());
            p.0
        })
    };
    let cost = 3 + 36 * loops + 501;
    check
        .part("long", "more cycles than 32 bits count", "one loop of 2^32 cycles: with exactly its cost, one less, 70 million, twice and without a limit")
        .explore(|c| {
            let max = *c.pick(&[cost, cost - 1, 70_000_000, 2 * cost, u64::MAX]);
            c.state();
            c.nontrivial();
            let got = run(long.clone(), &[], max)?;
            c.outcome(got);
            // divu by a2 = 0 leaves all ones
            ensure!(got == (max >= cost).then_some((-1, cost)), "a long run: max {max}: got {got:?}, cost {cost}");
            Ok(())
        });
    let counts = [0usize, 1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 64, 65, 200, 256, 257, 1000];
    let lens = [0usize, 1, 2, 31, 32, 33, 255, 256, 257, 1023, 1024, 1025, 4096, 5000, 30_000];
    check
        .part(
            "arguments",
            "a byte of an argument is returned",
            "17 numbers of arguments up to 1000 of 3 bytes each, and one to three arguments of 15 lengths up to 30 000 bytes with zero bytes among them; the \
             count, and the first, second, middle, last and end byte of the first, second, middle and last argument",
        )
        .explore(|c| {
            let args: Vec<Bytes> = if c.flip() {
                let n = *c.pick(&counts);
                (0..n).map(|i| Bytes::from(vec![i as u8, (i >> 8) as u8, 0x5a])).collect()
            } else {
                let len = *c.pick(&lens);
                let n = 1 + c.choose(3);
                (0..n).map(|i| Bytes::from((0..len).map(|k| if k % 7 == 3 { 0 } else { (k * 31 + i * 7 + 1) as u8 }).collect::<Vec<_>>())).collect()
            };
            let n = args.len();
            c.state();
            if n == 0 || c.flip() {
                let byte = c.choose(4) as u32;
                let p = Asm::default().w(itype(0x03, 3, A0, SP, 0)).w(itype(0x13, 5, A0, A0, 8 * byte as i32)).exit();
                let got = run(file(p.0), &args, 10_000)?;
                ensure!(got == Some(((n >> (8 * byte)) as i8, 504)), "how many arguments a program gets: {n} byte {byte}: {got:?}");
                c.outcome((n, byte));
                return Ok(());
            }
            c.nontrivial();
            let i = [0, 1.min(n - 1), n / 2, n - 1][c.choose(4)];
            let len = args[i].len();
            let k = [0, 1.min(len), len / 2, len.saturating_sub(1), len][c.choose(5)];
            let want = args[i].get(k).copied().unwrap_or(0);
            let mut p = Asm::default().ld(A1, 0x100).ld(A2, 0x108);
            p = p.w(0x33 | A0 << 7 | SP << 15 | A1 << 20); // a0 = sp + a1
            p = p.w(itype(0x03, 3, A0, A0, 0)).w(0x33 | A0 << 7 | A0 << 15 | A2 << 20).w(itype(0x03, 4, A0, A0, 0)).exit();
            p.0.resize(0x100, 0);
            p.0.extend((8 + 8 * i as u64).to_le_bytes());
            p.0.extend((k as u64).to_le_bytes());
            let got = run(file(p.0), &args, 10_000)?;
            c.outcome((n, i, k, got));
            ensure!(got == Some((want as i8, 514)), "an argument as the program gets it: argument {i} of {n}, byte {k} of {len}: got {got:?}, want {want}");
            Ok(())
        });
    let faults: Vec<(&str, Asm)> = vec![
        ("an illegal instruction", Asm::default().w(0).exit()),
        ("an atomic instruction", Asm::default().w(0x2f | A0 << 7 | 3 << 12 | SP << 15 | A1 << 20).exit()),
        ("a floating point instruction", Asm::default().w(0x53).exit()),
        ("a reserved instruction", Asm::default().w(0x0000_007f).exit()),
        ("an unknown system call", Asm::default().w(itype(0x13, 0, A7, 0, 94)).w(0x73).exit()),
        ("no system call number", Asm::default().w(0x73).exit()),
        ("a system call of a script", Asm::default().w(0x37 | A7 << 7 | 1 << 12).w(itype(0x13, 0, A7, A7, 2177 - 4096)).w(0x73).exit()),
        ("a write to the program", Asm::default().w(0x17 | T0 << 7).w(0x23 | 3 << 12 | T0 << 15 | A0 << 20).exit()),
        ("a write past the memory", Asm::default().w(0x37 | T0 << 7 | 0x400 << 12).w(0x23 | 3 << 12 | T0 << 15 | A0 << 20).exit()),
        ("a read past the memory", Asm::default().w(0x37 | T0 << 7 | 0x400 << 12).w(itype(0x03, 3, A0, T0, 0)).exit()),
        ("a read before the memory", Asm::default().w(itype(0x03, 3, A0, 0, -8)).exit()),
        ("a jump to the stack", Asm::default().w(itype(0x67, 0, 1, SP, -64)).exit()),
        ("a jump past the memory", Asm::default().w(0x37 | T0 << 7 | 0x400 << 12).w(itype(0x67, 0, 1, T0, 0)).exit()),
        ("a jump to zero", Asm::default().w(itype(0x67, 0, 1, 0, 0)).exit()),
        ("running off the end", Asm::default().w(itype(0x13, 0, A0, A0, 1))),
        ("an endless loop", Asm::default().w(0x6f).exit()),
        ("a loop of calls to nothing", Asm::default().w(0x0010_0073).w(branch(0, 0, 0, -4)).exit()),
    ];
    check.part("faults", "the program faults", &format!("{} faults x 4 limits of cycles: an error each", faults.len())).explore(|c| {
        let (name, p) = &faults[c.choose(faults.len())];
        let max = *c.pick(&[0, 1, 600, 1_000_000]);
        c.state();
        c.nontrivial();
        let got = run(file(p.0.clone()), &[], max)?;
        ensure!(got.is_none(), "a fault is taken for an exit: {name}: {got:?}");
        Ok(())
    });
}
