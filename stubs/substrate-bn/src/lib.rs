//! Stand-in for substrate-bn (not available offline): alt_bn128, written for clarity and not for speed.
//! Fq12 is Fq[w]/(w^12 - 18 w^6 + 82); the pairing is the ate pairing with a textbook Miller loop.

use ethereum_types::{U256, U512};
use std::ops::{Add, Mul, Neg, Sub};

fn p() -> U256 {
    U256::from_dec_str("21888242871839275222246405745257275088696311157297823662689037894645226208583").unwrap()
}

fn r() -> U256 {
    U256::from_dec_str("21888242871839275222246405745257275088548364400416034343698204186575808495617").unwrap()
}

fn mulmod(a: U256, b: U256, m: U256) -> U256 {
    let v: U512 = a.full_mul(b) % U512::from(m);
    let mut bytes = [0u8; 64];
    v.to_big_endian(&mut bytes);
    U256::from_big_endian(&bytes[32..])
}

fn addmod(a: U256, b: U256, m: U256) -> U256 {
    // a, b < m < 2^254
    let s = a + b;
    if s >= m {
        s - m
    } else {
        s
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FieldError {
    InvalidSliceLength,
    InvalidU512Encoding,
    NotMember,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CurveError {
    InvalidEncoding,
    NotMember,
    ToAffineConversion,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum GroupError {
    NotOnCurve,
    NotInSubgroup,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fq(U256);

impl Fq {
    pub fn zero() -> Self {
        Fq(U256::zero())
    }

    pub fn one() -> Self {
        Fq(U256::one())
    }

    pub fn is_zero(&self) -> bool {
        self.0.is_zero()
    }

    pub fn from_slice(s: &[u8]) -> Result<Self, FieldError> {
        if s.len() != 32 {
            return Err(FieldError::InvalidSliceLength);
        }
        let v = U256::from_big_endian(s);
        if v >= p() {
            return Err(FieldError::NotMember);
        }
        Ok(Fq(v))
    }

    pub fn to_big_endian(&self, out: &mut [u8]) -> Result<(), FieldError> {
        if out.len() != 32 {
            return Err(FieldError::InvalidSliceLength);
        }
        self.0.to_big_endian(out);
        Ok(())
    }

    fn pow(self, mut e: U256) -> Fq {
        let mut b = self;
        let mut out = Fq::one();
        while !e.is_zero() {
            if e.bit(0) {
                out = out * b;
            }
            b = b * b;
            e = e >> 1;
        }
        out
    }

    fn inv(self) -> Fq {
        self.pow(p() - 2)
    }

    fn small(n: u64) -> Fq {
        Fq(n.into())
    }
}

impl Add for Fq {
    type Output = Fq;

    fn add(self, o: Fq) -> Fq {
        Fq(addmod(self.0, o.0, p()))
    }
}

impl Neg for Fq {
    type Output = Fq;

    fn neg(self) -> Fq {
        if self.0.is_zero() {
            self
        } else {
            Fq(p() - self.0)
        }
    }
}

impl Sub for Fq {
    type Output = Fq;

    fn sub(self, o: Fq) -> Fq {
        self + -o
    }
}

impl Mul for Fq {
    type Output = Fq;

    fn mul(self, o: Fq) -> Fq {
        Fq(mulmod(self.0, o.0, p()))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fr(U256);

impl Fr {
    pub fn from_slice(s: &[u8]) -> Result<Self, FieldError> {
        if s.len() != 32 {
            return Err(FieldError::InvalidSliceLength);
        }
        // as the real crate: scalars are reduced, not refused
        Ok(Fr(U256::from_big_endian(s) % r()))
    }
}

/// a + b i, i^2 = -1
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fq2(Fq, Fq);

impl Fq2 {
    pub fn new(a: Fq, b: Fq) -> Self {
        Fq2(a, b)
    }

    pub fn zero() -> Self {
        Fq2(Fq::zero(), Fq::zero())
    }

    pub fn one() -> Self {
        Fq2(Fq::one(), Fq::zero())
    }

    pub fn is_zero(&self) -> bool {
        self.0.is_zero() && self.1.is_zero()
    }

    pub fn real(&self) -> Fq {
        self.0
    }

    pub fn imaginary(&self) -> Fq {
        self.1
    }

    fn inv(self) -> Fq2 {
        let n = (self.0 * self.0 + self.1 * self.1).inv();
        Fq2(self.0 * n, -(self.1 * n))
    }
}

impl Add for Fq2 {
    type Output = Fq2;

    fn add(self, o: Fq2) -> Fq2 {
        Fq2(self.0 + o.0, self.1 + o.1)
    }
}

impl Neg for Fq2 {
    type Output = Fq2;

    fn neg(self) -> Fq2 {
        Fq2(-self.0, -self.1)
    }
}

impl Sub for Fq2 {
    type Output = Fq2;

    fn sub(self, o: Fq2) -> Fq2 {
        self + -o
    }
}

impl Mul for Fq2 {
    type Output = Fq2;

    fn mul(self, o: Fq2) -> Fq2 {
        Fq2(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}

trait Field: Copy + PartialEq + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> {
    fn inverse(self) -> Self;
}

impl Field for Fq {
    fn inverse(self) -> Self {
        self.inv()
    }
}

impl Field for Fq2 {
    fn inverse(self) -> Self {
        self.inv()
    }
}

fn affine_add<F: Field>(a: Option<(F, F)>, b: Option<(F, F)>) -> Option<(F, F)> {
    let (a, b) = match (a, b) {
        (None, x) | (x, None) => return x,
        (Some(a), Some(b)) => (a, b),
    };
    let l = if a.0 == b.0 {
        if a.1 != b.1 || a.1 == -a.1 {
            return None;
        }
        let xx = a.0 * a.0;
        (xx + xx + xx) * (a.1 + a.1).inverse()
    } else {
        (b.1 - a.1) * (b.0 - a.0).inverse()
    };
    let x = l * l - a.0 - b.0;
    Some((x, l * (a.0 - x) - a.1))
}

fn affine_mul<F: Field>(a: Option<(F, F)>, k: U256) -> Option<(F, F)> {
    let mut out = None;
    for i in (0..256).rev() {
        out = affine_add(out, out);
        if k.bit(i) {
            out = affine_add(out, a);
        }
    }
    out
}

pub trait Group: Sized {
    fn zero() -> Self;
    fn one() -> Self;
    fn is_zero(&self) -> bool;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct G1(Option<(Fq, Fq)>);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct AffineG1(Fq, Fq);

impl AffineG1 {
    pub fn new(x: Fq, y: Fq) -> Result<Self, GroupError> {
        if y * y == x * x * x + Fq::small(3) {
            Ok(AffineG1(x, y))
        } else {
            Err(GroupError::NotOnCurve)
        }
    }

    pub fn x(&self) -> Fq {
        self.0
    }

    pub fn y(&self) -> Fq {
        self.1
    }

    pub fn from_jacobian(g: G1) -> Option<Self> {
        g.0.map(|(x, y)| AffineG1(x, y))
    }
}

impl From<AffineG1> for G1 {
    fn from(a: AffineG1) -> G1 {
        G1(Some((a.0, a.1)))
    }
}

impl Group for G1 {
    fn zero() -> Self {
        G1(None)
    }

    fn one() -> Self {
        G1(Some((Fq::one(), Fq::small(2))))
    }

    fn is_zero(&self) -> bool {
        self.0.is_none()
    }
}

impl Add for G1 {
    type Output = G1;

    fn add(self, o: G1) -> G1 {
        G1(affine_add(self.0, o.0))
    }
}

impl Neg for G1 {
    type Output = G1;

    fn neg(self) -> G1 {
        G1(self.0.map(|(x, y)| (x, -y)))
    }
}

impl Mul<Fr> for G1 {
    type Output = G1;

    fn mul(self, k: Fr) -> G1 {
        G1(affine_mul(self.0, k.0))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct G2(Option<(Fq2, Fq2)>);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct AffineG2(Fq2, Fq2);

impl AffineG2 {
    pub fn new(x: Fq2, y: Fq2) -> Result<Self, GroupError> {
        let b = Fq2(Fq::small(3), Fq::zero()) * Fq2(Fq::small(9), Fq::one()).inv();
        if y * y != x * x * x + b {
            return Err(GroupError::NotOnCurve);
        }
        if affine_mul(Some((x, y)), r()).is_some() {
            return Err(GroupError::NotInSubgroup);
        }
        Ok(AffineG2(x, y))
    }

    pub fn x(&self) -> Fq2 {
        self.0
    }

    pub fn y(&self) -> Fq2 {
        self.1
    }

    pub fn from_jacobian(g: G2) -> Option<Self> {
        g.0.map(|(x, y)| AffineG2(x, y))
    }
}

impl From<AffineG2> for G2 {
    fn from(a: AffineG2) -> G2 {
        G2(Some((a.0, a.1)))
    }
}

impl Group for G2 {
    fn zero() -> Self {
        G2(None)
    }

    fn one() -> Self {
        let n = |s: &str| Fq(U256::from_dec_str(s).unwrap());
        G2(Some((
            Fq2(
                n("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
                n("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
            ),
            Fq2(
                n("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
                n("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
            ),
        )))
    }

    fn is_zero(&self) -> bool {
        self.0.is_none()
    }
}

impl Add for G2 {
    type Output = G2;

    fn add(self, o: G2) -> G2 {
        G2(affine_add(self.0, o.0))
    }
}

impl Neg for G2 {
    type Output = G2;

    fn neg(self) -> G2 {
        G2(self.0.map(|(x, y)| (x, -y)))
    }
}

impl Mul<Fr> for G2 {
    type Output = G2;

    fn mul(self, k: Fr) -> G2 {
        G2(affine_mul(self.0, k.0))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Gt([Fq; 12]);

impl Gt {
    pub fn one() -> Self {
        Gt::scalar(Fq::one())
    }

    fn scalar(a: Fq) -> Self {
        let mut c = [Fq::zero(); 12];
        c[0] = a;
        Gt(c)
    }

    /// a + b i with i = w^6 - 9
    fn from_fq2(v: Fq2) -> Self {
        let mut c = [Fq::zero(); 12];
        c[0] = v.0 - Fq::small(9) * v.1;
        c[6] = v.1;
        Gt(c)
    }

    fn shift(self, n: usize) -> Self {
        let mut c = [Fq::zero(); 12];
        c[n] = Fq::one();
        self * Gt(c)
    }

    fn pow(self, bits: &[bool]) -> Gt {
        let mut out = Gt::one();
        for b in bits {
            out = out * out;
            if *b {
                out = out * self;
            }
        }
        out
    }
}

impl Add for Gt {
    type Output = Gt;

    fn add(mut self, o: Gt) -> Gt {
        for i in 0..12 {
            self.0[i] = self.0[i] + o.0[i];
        }
        self
    }
}

impl Neg for Gt {
    type Output = Gt;

    fn neg(mut self) -> Gt {
        for i in 0..12 {
            self.0[i] = -self.0[i];
        }
        self
    }
}

impl Sub for Gt {
    type Output = Gt;

    fn sub(self, o: Gt) -> Gt {
        self + -o
    }
}

impl Mul for Gt {
    type Output = Gt;

    fn mul(self, o: Gt) -> Gt {
        let mut c = [Fq::zero(); 23];
        for i in 0..12 {
            if self.0[i].is_zero() {
                continue;
            }
            for j in 0..12 {
                if o.0[j].is_zero() {
                    continue;
                }
                c[i + j] = c[i + j] + self.0[i] * o.0[j];
            }
        }
        for i in (12..23).rev() {
            let t = c[i];
            c[i - 6] = c[i - 6] + Fq::small(18) * t;
            c[i - 12] = c[i - 12] - Fq::small(82) * t;
        }
        let mut out = [Fq::zero(); 12];
        out.copy_from_slice(&c[..12]);
        Gt(out)
    }
}

/// Bits, most significant first, of (p^12 - 1) / r.
fn final_exponent() -> Vec<bool> {
    fn mul(a: &[u32], b: U256) -> Vec<u32> {
        let b: Vec<u32> = (0..8).map(|i| (b >> (32 * i)).low_u32()).collect();
        let mut out = vec![0u32; a.len() + 9];
        for (i, x) in a.iter().enumerate() {
            let mut carry = 0u64;
            for (j, y) in b.iter().enumerate() {
                let t = *x as u64 * *y as u64 + out[i + j] as u64 + carry;
                out[i + j] = t as u32;
                carry = t >> 32;
            }
            out[i + 8] = carry as u32;
        }
        out
    }
    let mut n = vec![1u32];
    for _ in 0..12 {
        n = mul(&n, p());
    }
    n[0] -= 1; // p^12 is odd
    let mut bits = Vec::new();
    let mut rem = U256::zero();
    for i in (0..n.len() * 32).rev() {
        rem = rem << 1 | U256::from((n[i / 32] >> (i % 32)) & 1);
        let one = rem >= r();
        if one {
            rem = rem - r();
        }
        if one || !bits.is_empty() {
            bits.push(one);
        }
    }
    bits
}

fn miller(q: (Fq2, Fq2), pt: (Fq, Fq)) -> Gt {
    // the numerator of the line through a and b of the twisted curve at pt, up to a factor of a subfield
    // (killed by the final exponentiation); coordinates on the curve over Fq12 are (x w^2, y w^3)
    let line = |l: Fq2, a: (Fq2, Fq2)| -> Gt {
        // l * w * (xp - xa w^2) - (yp - ya w^3)
        Gt::from_fq2(l).shift(1) * (Gt::scalar(pt.0) - Gt::from_fq2(a.0).shift(2))
            - (Gt::scalar(pt.1) - Gt::from_fq2(a.1).shift(3))
    };
    let double = |a: (Fq2, Fq2)| {
        let xx = a.0 * a.0;
        (xx + xx + xx) * (a.1 + a.1).inv()
    };
    let next = |l: Fq2, a: (Fq2, Fq2), b: (Fq2, Fq2)| {
        let x = l * l - a.0 - b.0;
        (x, l * (a.0 - x) - a.1)
    };
    let count = U256::from_dec_str("29793968203157093288").unwrap();
    let mut t = q;
    let mut f = Gt::one();
    for i in (0..64).rev() {
        let l = double(t);
        f = f * f * line(l, t);
        t = next(l, t, t);
        if count.bit(i) {
            let l = (q.1 - t.1) * (q.0 - t.0).inv();
            f = f * line(l, t);
            t = next(l, t, q);
        }
    }
    // Frobenius images of q
    let xi = Fq2(Fq::small(9), Fq::one());
    let pow = |b: Fq2, e: U256| {
        let mut out = Fq2::one();
        for i in (0..256).rev() {
            out = out * out;
            if e.bit(i) {
                out = out * b;
            }
        }
        out
    };
    let gx = pow(xi, (p() - 1) / 3);
    let gy = pow(xi, (p() - 1) / 2);
    let conj = |a: Fq2| Fq2(a.0, -a.1);
    let frob = |a: (Fq2, Fq2)| (conj(a.0) * gx, conj(a.1) * gy);
    let q1 = frob(q);
    let q2 = frob(q1);
    let nq2 = (q2.0, -q2.1);
    let l = (q1.1 - t.1) * (q1.0 - t.0).inv();
    f = f * line(l, t);
    t = next(l, t, q1);
    let l = (nq2.1 - t.1) * (nq2.0 - t.0).inv();
    f * line(l, t)
}

pub fn pairing_batch(pairs: &[(G1, G2)]) -> Gt {
    let mut f = Gt::one();
    let mut any = false;
    for (a, b) in pairs {
        if let (Some(a), Some(b)) = (a.0, b.0) {
            f = f * miller(b, a);
            any = true;
        }
    }
    if !any {
        return Gt::one();
    }
    f.pow(&final_exponent())
}

pub fn pairing(a: G1, b: G2) -> Gt {
    pairing_batch(&[(a, b)])
}

#[cfg(test)]
mod tests {
    use super::*;

    fn fr(n: u64) -> Fr {
        Fr(n.into())
    }

    #[test]
    fn bilinear() {
        assert!((G1::one() * Fr(r())).is_zero());
        assert!((G2::one() * Fr(r())).is_zero());
        let g2 = AffineG2::from_jacobian(G2::one()).unwrap();
        assert!(AffineG2::new(g2.0, g2.1).is_ok());
        let e = pairing(G1::one(), G2::one());
        assert_ne!(e, Gt::one());
        assert_eq!(pairing_batch(&[(G1::one() * fr(2), G2::one() * fr(3)), (-(G1::one() * fr(6)), G2::one())]), Gt::one());
        assert_ne!(pairing_batch(&[(G1::one() * fr(2), G2::one() * fr(3)), (-(G1::one() * fr(5)), G2::one())]), Gt::one());
    }
}
