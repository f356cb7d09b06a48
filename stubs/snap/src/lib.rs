//! Stand-in: the raw Snappy block format, written from its description.
pub mod raw {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        TooBig,
        Empty,
        Header,
        Literal,
        Copy,
        Offset,
        Length,
        BufferTooSmall,
    }

    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }

    impl std::error::Error for Error {}

    fn varint(input: &[u8]) -> Option<(u64, usize)> {
        let mut v = 0u64;
        for (i, b) in input.iter().take(10).enumerate() {
            v |= u64::from(b & 0x7f).checked_shl(7 * i as u32)?;
            if b & 0x80 == 0 {
                return Some((v, i + 1));
            }
        }
        None
    }

    pub fn decompress_len(input: &[u8]) -> Result<usize, Error> {
        if input.is_empty() {
            return Ok(0);
        }
        let (v, _) = varint(input).ok_or(Error::Header)?;
        if v > u64::from(u32::MAX) {
            return Err(Error::TooBig);
        }
        Ok(v as usize)
    }

    pub fn max_compress_len(n: usize) -> usize {
        32 + n + n / 6
    }

    #[derive(Default)]
    pub struct Encoder;

    impl Encoder {
        pub fn new() -> Self {
            Encoder
        }

        pub fn compress_vec(&mut self, input: &[u8]) -> Result<Vec<u8>, Error> {
            let mut out = vec![];
            let mut n = input.len() as u64;
            loop {
                let b = (n & 0x7f) as u8;
                n >>= 7;
                if n == 0 {
                    out.push(b);
                    break;
                }
                out.push(b | 0x80);
            }
            for block in input.chunks(1 << 16) {
                let mut table = vec![usize::MAX; 1 << 12];
                let (mut start, mut i) = (0, 0);
                while i + 4 <= block.len() {
                    let word = u32::from_le_bytes([block[i], block[i + 1], block[i + 2], block[i + 3]]);
                    let slot = (word.wrapping_mul(0x1e35_a7bd) >> 20) as usize;
                    let prev = std::mem::replace(&mut table[slot], i);
                    if prev != usize::MAX && block[prev..prev + 4] == block[i..i + 4] {
                        literal(&mut out, &block[start..i]);
                        let mut len = 4;
                        while i + len < block.len() && block[prev + len] == block[i + len] {
                            len += 1;
                        }
                        copy(&mut out, i - prev, len);
                        i += len;
                        start = i;
                    } else {
                        i += 1;
                    }
                }
                literal(&mut out, &block[start..]);
            }
            Ok(out)
        }
    }

    fn literal(out: &mut Vec<u8>, data: &[u8]) {
        if data.is_empty() {
            return;
        }
        let n = data.len() - 1;
        if n < 60 {
            out.push((n as u8) << 2);
        } else if n < 256 {
            out.extend_from_slice(&[60 << 2, n as u8]);
        } else {
            out.extend_from_slice(&[61 << 2, n as u8, (n >> 8) as u8]);
        }
        out.extend_from_slice(data);
    }

    fn copy(out: &mut Vec<u8>, offset: usize, mut len: usize) {
        while len > 0 {
            let n = len.min(64);
            out.extend_from_slice(&[((n - 1) as u8) << 2 | 2, offset as u8, (offset >> 8) as u8]);
            len -= n;
        }
    }

    #[derive(Default)]
    pub struct Decoder;

    impl Decoder {
        pub fn new() -> Self {
            Decoder
        }

        pub fn decompress(&mut self, input: &[u8], output: &mut [u8]) -> Result<usize, Error> {
            if input.is_empty() {
                return Err(Error::Empty);
            }
            let want = decompress_len(input)?;
            if want > output.len() {
                return Err(Error::BufferTooSmall);
            }
            let (_, mut s) = varint(input).ok_or(Error::Header)?;
            let mut d = 0;
            while s < input.len() {
                let tag = input[s];
                s += 1;
                let le = |s: usize, n: usize| -> Option<usize> {
                    let b = input.get(s..s + n)?;
                    Some(b.iter().rev().fold(0usize, |a, b| a << 8 | *b as usize))
                };
                if tag & 3 == 0 {
                    let mut n = (tag >> 2) as usize;
                    if n >= 60 {
                        let k = n - 59;
                        n = le(s, k).ok_or(Error::Literal)?;
                        s += k;
                    }
                    n += 1;
                    let src = input.get(s..s + n).ok_or(Error::Literal)?;
                    output.get_mut(d..d + n).filter(|_| d + n <= want).ok_or(Error::Literal)?.copy_from_slice(src);
                    s += n;
                    d += n;
                } else {
                    let (n, off, k) = match tag & 3 {
                        1 => (
                            ((tag >> 2) & 7) as usize + 4,
                            le(s, 1).ok_or(Error::Copy)? | ((tag >> 5) as usize) << 8,
                            1,
                        ),
                        2 => ((tag >> 2) as usize + 1, le(s, 2).ok_or(Error::Copy)?, 2),
                        _ => ((tag >> 2) as usize + 1, le(s, 4).ok_or(Error::Copy)?, 4),
                    };
                    s += k;
                    if off == 0 || off > d {
                        return Err(Error::Offset);
                    }
                    if d + n > want {
                        return Err(Error::Copy);
                    }
                    for i in 0..n {
                        output[d + i] = output[d + i - off];
                    }
                    d += n;
                }
            }
            if d != want {
                return Err(Error::Length);
            }
            Ok(d)
        }
    }
}
