//! Stand-in: the proto3 wire format for the kinds of fields the node's messages have.
use bytes::{Buf, BufMut};
use std::collections::HashMap;

pub use prost_derive::{Message, Oneof};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DecodeError(pub &'static str);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct EncodeError;

impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "failed to decode Protobuf message: {}", self.0)
    }
}

impl std::fmt::Display for EncodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "failed to encode Protobuf message: insufficient buffer capacity")
    }
}

impl std::error::Error for DecodeError {}
impl std::error::Error for EncodeError {}

pub trait Message: Default + std::fmt::Debug + Send + Sync {
    fn put(&self, out: &mut Vec<u8>);
    fn field(&mut self, tag: u32, v: &Wire) -> Result<(), DecodeError>;

    fn encoded_len(&self) -> usize {
        let mut v = vec![];
        self.put(&mut v);
        v.len()
    }

    fn encode<B: BufMut>(&self, buf: &mut B) -> Result<(), EncodeError> {
        let mut v = vec![];
        self.put(&mut v);
        if v.len() > buf.remaining_mut() {
            return Err(EncodeError);
        }
        buf.put_slice(&v);
        Ok(())
    }

    fn encode_to_vec(&self) -> Vec<u8> {
        let mut v = vec![];
        self.put(&mut v);
        v
    }

    fn decode<B: Buf>(mut buf: B) -> Result<Self, DecodeError> {
        let data = buf.copy_to_bytes(buf.remaining());
        let mut m = Self::default();
        wire::merge(&mut m, &data)?;
        Ok(m)
    }
}

pub trait Oneof: Sized {
    fn put(&self, out: &mut Vec<u8>);
    fn field(old: &mut Option<Self>, tag: u32, v: &Wire) -> Result<bool, DecodeError>;
}

pub enum Wire<'a> {
    Varint(u64),
    Bytes(&'a [u8]),
    Other,
}

pub mod wire {
    use super::*;

    pub fn varint(out: &mut Vec<u8>, mut n: u64) {
        while n >= 0x80 {
            out.push(n as u8 | 0x80);
            n >>= 7;
        }
        out.push(n as u8);
    }

    pub fn put_varint(out: &mut Vec<u8>, tag: u32, n: u64) {
        varint(out, u64::from(tag) << 3);
        varint(out, n);
    }

    pub fn put_bytes(out: &mut Vec<u8>, tag: u32, b: &[u8]) {
        varint(out, u64::from(tag) << 3 | 2);
        varint(out, b.len() as u64);
        out.extend_from_slice(b);
    }

    pub fn put_message<M: Message>(out: &mut Vec<u8>, tag: u32, m: &M) {
        let mut v = vec![];
        m.put(&mut v);
        put_bytes(out, tag, &v);
    }

    pub fn put_map(out: &mut Vec<u8>, tag: u32, m: &HashMap<String, Vec<u8>>) {
        for (k, b) in m {
            let mut v = vec![];
            if !k.is_empty() {
                put_bytes(&mut v, 1, k.as_bytes());
            }
            if !b.is_empty() {
                put_bytes(&mut v, 2, b);
            }
            put_bytes(out, tag, &v);
        }
    }

    fn take(data: &mut &[u8]) -> Result<u64, DecodeError> {
        let mut v = 0u64;
        for i in 0..10 {
            let (b, rest) = data.split_first().ok_or(DecodeError("invalid varint"))?;
            *data = rest;
            if i == 9 && *b > 1 {
                return Err(DecodeError("invalid varint"));
            }
            v |= u64::from(b & 0x7f) << (7 * i);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(DecodeError("invalid varint"))
    }

    fn chunk<'a>(data: &mut &'a [u8], n: u64) -> Result<&'a [u8], DecodeError> {
        if n > data.len() as u64 {
            return Err(DecodeError("buffer underflow"));
        }
        let (a, b) = data.split_at(n as usize);
        *data = b;
        Ok(a)
    }

    fn key(data: &mut &[u8]) -> Result<(u32, u64), DecodeError> {
        let k = take(data)?;
        if k > u64::from(u32::MAX) {
            return Err(DecodeError("invalid key value"));
        }
        if k >> 3 == 0 {
            return Err(DecodeError("invalid tag value: 0"));
        }
        Ok(((k >> 3) as u32, k & 7))
    }

    fn group(data: &mut &[u8], tag: u32, depth: u32) -> Result<(), DecodeError> {
        if depth == 0 {
            return Err(DecodeError("recursion limit reached"));
        }
        loop {
            let (t, w) = key(data)?;
            match w {
                0 => drop(take(data)?),
                1 => drop(chunk(data, 8)?),
                2 => {
                    let n = take(data)?;
                    chunk(data, n)?;
                }
                3 => group(data, t, depth - 1)?,
                4 if t == tag => return Ok(()),
                4 => return Err(DecodeError("unexpected end group tag")),
                5 => drop(chunk(data, 4)?),
                _ => return Err(DecodeError("invalid wire type value")),
            }
        }
    }

    pub fn merge<M: Message>(m: &mut M, mut data: &[u8]) -> Result<(), DecodeError> {
        each(&mut data, |t, v| m.field(t, v))
    }

    pub fn each(data: &mut &[u8], mut f: impl FnMut(u32, &Wire) -> Result<(), DecodeError>) -> Result<(), DecodeError> {
        while !data.is_empty() {
            let (tag, w) = key(data)?;
            match w {
                0 => f(tag, &Wire::Varint(take(data)?))?,
                1 => {
                    chunk(data, 8)?;
                    f(tag, &Wire::Other)?
                }
                2 => {
                    let n = take(data)?;
                    f(tag, &Wire::Bytes(chunk(data, n)?))?
                }
                3 => {
                    group(data, tag, 100)?;
                    f(tag, &Wire::Other)?
                }
                4 => return Err(DecodeError("unexpected end group tag")),
                5 => {
                    chunk(data, 4)?;
                    f(tag, &Wire::Other)?
                }
                _ => return Err(DecodeError("invalid wire type value")),
            }
        }
        Ok(())
    }

    const TYPE: DecodeError = DecodeError("invalid wire type");

    pub fn number(v: &Wire) -> Result<u64, DecodeError> {
        match v {
            Wire::Varint(n) => Ok(*n),
            _ => Err(TYPE),
        }
    }

    pub fn bytes<'a>(v: &Wire<'a>) -> Result<&'a [u8], DecodeError> {
        match v {
            Wire::Bytes(b) => Ok(b),
            _ => Err(TYPE),
        }
    }

    pub fn string(v: &Wire) -> Result<String, DecodeError> {
        std::str::from_utf8(bytes(v)?)
            .map(str::to_owned)
            .map_err(|_| DecodeError("invalid string value: data is not UTF-8 encoded"))
    }

    pub fn map_entry(m: &mut HashMap<String, Vec<u8>>, v: &Wire) -> Result<(), DecodeError> {
        let (mut k, mut b) = (String::new(), vec![]);
        let mut data = bytes(v)?;
        each(&mut data, |t, v| {
            match t {
                1 => k = string(v)?,
                2 => b = bytes(v)?.to_vec(),
                _ => (),
            }
            Ok(())
        })?;
        m.insert(k, b);
        Ok(())
    }
}
