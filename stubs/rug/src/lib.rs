//! Stand-in for rug (needs GMP, not available offline): non-negative big integers.

use std::cmp::Ordering;
use std::ops::{Add, BitAnd, Div, Mul, Rem, Sub};

pub mod integer {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Order {
        Lsf,
        LsfLe,
        LsfBe,
        Msf,
        MsfLe,
        MsfBe,
    }
}

pub mod ops {
    pub trait Pow<Rhs> {
        type Output;
        fn pow(self, rhs: Rhs) -> Self::Output;
    }
}

use integer::Order;
use ops::Pow;

/// Little endian limbs, no leading (high) zero limb.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Integer(Vec<u32>);

pub struct AbsIncomplete<'a>(&'a Integer);

impl<'a> From<AbsIncomplete<'a>> for Integer {
    fn from(v: AbsIncomplete<'a>) -> Integer {
        v.0.clone()
    }
}

impl Integer {
    pub const ZERO: Integer = Integer(Vec::new());

    pub fn new() -> Self {
        Self::ZERO
    }

    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }

    pub fn from_digits(digits: &[u8], order: Order) -> Self {
        let bytes: Vec<u8> = match order {
            Order::Msf | Order::MsfBe | Order::MsfLe => digits.iter().rev().copied().collect(),
            _ => digits.to_vec(),
        };
        let limbs = bytes
            .chunks(4)
            .map(|c| {
                let mut b = [0u8; 4];
                b[..c.len()].copy_from_slice(c);
                u32::from_le_bytes(b)
            })
            .collect();
        Integer(limbs).norm()
    }

    pub fn to_digits<T: From<u8>>(&self, order: Order) -> Vec<T> {
        let mut bytes: Vec<u8> = self.0.iter().flat_map(|l| l.to_le_bytes()).collect();
        while bytes.last() == Some(&0) {
            bytes.pop();
        }
        if matches!(order, Order::Msf | Order::MsfBe | Order::MsfLe) {
            bytes.reverse();
        }
        bytes.into_iter().map(T::from).collect()
    }

    pub fn significant_bits(&self) -> u32 {
        match self.0.last() {
            None => 0,
            Some(top) => self.0.len() as u32 * 32 - top.leading_zeros(),
        }
    }

    pub fn abs_ref(&self) -> AbsIncomplete<'_> {
        AbsIncomplete(self)
    }

    pub fn is_odd(&self) -> bool {
        self.0.first().map_or(false, |l| l & 1 == 1)
    }

    fn bit(&self, i: u32) -> bool {
        self.0.get((i / 32) as usize).map_or(false, |l| (l >> (i % 32)) & 1 == 1)
    }

    fn as_u128(&self) -> Option<u128> {
        if self.0.len() > 4 {
            return None;
        }
        Some(self.0.iter().rev().fold(0u128, |a, l| a << 32 | *l as u128))
    }

    fn div_rem(&self, d: &Integer) -> (Integer, Integer) {
        assert!(!d.0.is_empty(), "division by zero");
        if (self as &Integer) < d {
            return (Integer::ZERO, self.clone());
        }
        if d.0.len() == 1 {
            let dv = d.0[0] as u64;
            let mut q = vec![0u32; self.0.len()];
            let mut r = 0u64;
            for i in (0..self.0.len()).rev() {
                let cur = r << 32 | self.0[i] as u64;
                q[i] = (cur / dv) as u32;
                r = cur % dv;
            }
            return (Integer(q).norm(), Integer::from(r));
        }
        // shift and subtract
        let mut q = vec![0u32; self.0.len()];
        let mut r: Vec<u32> = vec![0; d.0.len() + 1];
        let mut dd = d.0.clone();
        dd.push(0);
        for i in (0..self.significant_bits()).rev() {
            let mut carry = self.bit(i) as u32;
            for l in r.iter_mut() {
                let next = *l >> 31;
                *l = *l << 1 | carry;
                carry = next;
            }
            if r.iter().rev().cmp(dd.iter().rev()) != Ordering::Less {
                let mut borrow = 0i64;
                for (l, s) in r.iter_mut().zip(dd.iter()) {
                    let t = *l as i64 - *s as i64 - borrow;
                    borrow = (t < 0) as i64;
                    *l = t as u32;
                }
                q[(i / 32) as usize] |= 1 << (i % 32);
            }
        }
        (Integer(q).norm(), Integer(r).norm())
    }

    /// `Err` exactly when rug has no result: a zero modulus.
    pub fn pow_mod(self, exponent: &Integer, modulo: &Integer) -> Result<Integer, Integer> {
        if modulo.0.is_empty() {
            return Err(self);
        }
        let mut result = Integer::from(1u64).div_rem(modulo).1;
        let base = self.div_rem(modulo).1;
        for i in (0..exponent.significant_bits()).rev() {
            result = (result.clone() * result).div_rem(modulo).1;
            if exponent.bit(i) {
                result = (result * base.clone()).div_rem(modulo).1;
            }
        }
        Ok(result)
    }
}

impl PartialOrd for Integer {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Integer {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

impl Add for Integer {
    type Output = Integer;

    fn add(self, o: Integer) -> Integer {
        let mut out = Vec::new();
        let mut carry = 0u64;
        for i in 0..self.0.len().max(o.0.len()) {
            let s = *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64 + carry;
            out.push(s as u32);
            carry = s >> 32;
        }
        out.push(carry as u32);
        Integer(out).norm()
    }
}

impl Sub for Integer {
    type Output = Integer;

    fn sub(self, o: Integer) -> Integer {
        assert!(self >= o, "negative integers are not supported by this stand-in");
        let mut out = Vec::new();
        let mut borrow = 0i64;
        for i in 0..self.0.len() {
            let t = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - borrow;
            borrow = (t < 0) as i64;
            out.push(t as u32);
        }
        Integer(out).norm()
    }
}

impl Mul for Integer {
    type Output = Integer;

    fn mul(self, o: Integer) -> Integer {
        let mut out = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut carry = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                let t = *a as u64 * *b as u64 + out[i + j] as u64 + carry;
                out[i + j] = t as u32;
                carry = t >> 32;
            }
            let mut k = i + o.0.len();
            while carry > 0 {
                let t = out[k] as u64 + carry;
                out[k] = t as u32;
                carry = t >> 32;
                k += 1;
            }
        }
        Integer(out).norm()
    }
}

impl Div for Integer {
    type Output = Integer;

    fn div(self, o: Integer) -> Integer {
        self.div_rem(&o).0
    }
}

impl Rem for Integer {
    type Output = Integer;

    fn rem(self, o: Integer) -> Integer {
        self.div_rem(&o).1
    }
}

impl BitAnd for Integer {
    type Output = Integer;

    fn bitand(self, o: Integer) -> Integer {
        Integer(self.0.iter().zip(o.0.iter()).map(|(a, b)| a & b).collect()).norm()
    }
}

impl Pow<u32> for Integer {
    type Output = Integer;

    fn pow(self, n: u32) -> Integer {
        (0..n).fold(Integer::from(1u64), |a, _| a * self.clone())
    }
}

macro_rules! prim {
    ($($t: ty),*) => {$(
        impl From<$t> for Integer {
            fn from(v: $t) -> Integer {
                let v = v as u128;
                Integer((0..4).map(|i| (v >> (32 * i)) as u32).collect()).norm()
            }
        }
        impl PartialEq<$t> for Integer {
            fn eq(&self, o: &$t) -> bool {
                *self == Integer::from(*o)
            }
        }
        impl PartialOrd<$t> for Integer {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                Some(self.cmp(&Integer::from(*o)))
            }
        }
        impl Add<$t> for Integer {
            type Output = Integer;
            fn add(self, o: $t) -> Integer {
                self + Integer::from(o)
            }
        }
        impl Sub<$t> for Integer {
            type Output = Integer;
            fn sub(self, o: $t) -> Integer {
                self - Integer::from(o)
            }
        }
        impl Mul<$t> for Integer {
            type Output = Integer;
            fn mul(self, o: $t) -> Integer {
                self * Integer::from(o)
            }
        }
        impl Mul<Integer> for $t {
            type Output = Integer;
            fn mul(self, o: Integer) -> Integer {
                Integer::from(self) * o
            }
        }
        impl Div<$t> for Integer {
            type Output = Integer;
            fn div(self, o: $t) -> Integer {
                self / Integer::from(o)
            }
        }
    )*};
}

prim!(u8, u16, u32, u64, u128, usize, i32, i64);

macro_rules! cast {
    ($($t: ty),*) => {$(
        impl az::SaturatingCast<$t> for Integer {
            fn saturating_cast(self) -> $t {
                match self.as_u128() {
                    Some(v) if v <= <$t>::MAX as u128 => v as $t,
                    _ => <$t>::MAX,
                }
            }
        }
        impl az::SaturatingCast<$t> for &Integer {
            fn saturating_cast(self) -> $t {
                self.clone().saturating_cast()
            }
        }
    )*};
}

cast!(u8, u16, u32, u64, usize);
