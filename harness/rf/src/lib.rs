//! Reference models, written from the specifications and independent of the code under test:
//! Keccak-256, RLP, Ethereum transaction payloads, log blooms, EIP-55.

/// Keccak-f[1600] with the original (pre-SHA3) padding, straight from the definition.
pub fn keccak256(data: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut a = [0u64; 25];
    let mut msg = data.to_vec();
    msg.push(0x01);
    while msg.len() % RATE != 0 {
        msg.push(0);
    }
    let last = msg.len() - 1;
    msg[last] |= 0x80;
    for block in msg.chunks(RATE) {
        for (i, lane) in block.chunks(8).enumerate() {
            let mut v = 0u64;
            for (j, b) in lane.iter().enumerate() {
                v |= (*b as u64) << (8 * j);
            }
            a[i] ^= v;
        }
        keccak_f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    out
}

fn keccak_f(a: &mut [u64; 25]) {
    // round constants from the LFSR of the specification
    fn rc_bit(t: usize) -> u64 {
        let mut r: u16 = 1;
        for _ in 0..t % 255 {
            r <<= 1;
            if r & 0x100 != 0 {
                r ^= 0x171;
            }
        }
        (r & 1) as u64
    }
    static RC: std::sync::OnceLock<[u64; 24]> = std::sync::OnceLock::new();
    let rc = RC.get_or_init(|| {
        let mut o = [0u64; 24];
        for (ir, v) in o.iter_mut().enumerate() {
            for j in 0..7 {
                *v |= rc_bit(j + 7 * ir) << ((1usize << j) - 1);
            }
        }
        o
    });
    for round in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        let (mut x, mut y) = (1usize, 0usize);
        b[0] = a[0];
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            b[nx + 5 * ny] = a[x + 5 * y].rotate_left(r);
            x = nx;
            y = ny;
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= rc[round];
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    S(Vec<u8>),
    L(Vec<Item>),
}

impl Item {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Item::S(b) => {
                if b.len() == 1 && b[0] < 0x80 {
                    b.clone()
                } else {
                    let mut o = len_prefix(0x80, b.len());
                    o.extend(b);
                    o
                }
            }
            Item::L(items) => {
                let body: Vec<u8> = items.iter().flat_map(|i| i.encode()).collect();
                let mut o = len_prefix(0xc0, body.len());
                o.extend(body);
                o
            }
        }
    }
}

fn len_prefix(base: u8, n: usize) -> Vec<u8> {
    if n < 56 {
        vec![base + n as u8]
    } else {
        let be = trim(&(n as u64).to_be_bytes()).to_vec();
        let mut o = vec![base + 55 + be.len() as u8];
        o.extend(be);
        o
    }
}

fn trim(b: &[u8]) -> &[u8] {
    let n = b.iter().take_while(|x| **x == 0).count();
    &b[n..]
}

/// An unsigned integer, big endian without leading zeros.
pub fn uint(be: &[u8]) -> Item {
    Item::S(trim(be).to_vec())
}

pub fn u(n: u64) -> Item {
    uint(&n.to_be_bytes())
}

pub fn b(x: impl AsRef<[u8]>) -> Item {
    Item::S(x.as_ref().to_vec())
}

pub fn l(items: Vec<Item>) -> Item {
    Item::L(items)
}

/// Strict decoding of one item that takes up all of `data`.
pub fn decode(data: &[u8]) -> Option<Item> {
    let (i, rest) = decode_one(data, 0)?;
    rest.is_empty().then_some(i)
}

fn decode_one(d: &[u8], depth: usize) -> Option<(Item, &[u8])> {
    if depth > 64 {
        return None;
    }
    let h = *d.first()?;
    let (is_list, n, off) = match h {
        0..=0x7f => return Some((Item::S(vec![h]), &d[1..])),
        0x80..=0xb7 => (false, (h - 0x80) as usize, 1),
        0xb8..=0xbf => long(d, (h - 0xb7) as usize)?.with(false),
        0xc0..=0xf7 => (true, (h - 0xc0) as usize, 1),
        0xf8..=0xff => long(d, (h - 0xf7) as usize)?.with(true),
    };
    let body = d.get(off..off.checked_add(n)?)?;
    let rest = &d[off + n..];
    if is_list {
        let mut items = vec![];
        let mut r = body;
        while !r.is_empty() {
            let (i, rr) = decode_one(r, depth + 1)?;
            items.push(i);
            r = rr;
        }
        Some((Item::L(items), rest))
    } else {
        if n == 1 && off == 1 && body[0] < 0x80 {
            return None;
        }
        Some((Item::S(body.to_vec()), rest))
    }
}

struct Long(usize, usize);
impl Long {
    fn with(self, l: bool) -> (bool, usize, usize) {
        (l, self.0, self.1)
    }
}

fn long(d: &[u8], k: usize) -> Option<Long> {
    let b = d.get(1..1 + k)?;
    if b[0] == 0 {
        return None;
    }
    let mut n = 0usize;
    for x in b {
        n = n.checked_mul(256)?.checked_add(*x as usize)?;
    }
    (n >= 56).then_some(Long(n, 1 + k))
}

/// EIP-55: the mixed-case checksum encoding of an address.
pub fn eip55(addr: &[u8; 20]) -> String {
    let lower: String = addr.iter().map(|b| format!("{b:02x}")).collect();
    let h = keccak256(lower.as_bytes());
    let mut o = String::from("0x");
    for (i, ch) in lower.chars().enumerate() {
        let nibble = if i % 2 == 0 { h[i / 2] >> 4 } else { h[i / 2] & 15 };
        o.push(if nibble >= 8 { ch.to_ascii_uppercase() } else { ch });
    }
    o
}

/// The 2048-bit bloom of the yellow paper: three 11-bit indices of the hash of each entry.
pub fn bloom(entries: &[Vec<u8>]) -> [u8; 256] {
    let mut o = [0u8; 256];
    for e in entries {
        let h = keccak256(e);
        for k in 0..3 {
            let bit = (((h[2 * k] as usize) << 8) | h[2 * k + 1] as usize) % 2048;
            o[255 - bit / 8] |= 1 << (bit % 8);
        }
    }
    o
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Ethereum "quantity" JSON form of an integer.
pub fn quantity(n: u64) -> String {
    format!("0x{n:x}")
}

#[cfg(test)]
mod tests {
    #[test]
    fn keccak() {
        assert_eq!(
            super::hex(&super::keccak256(b"")),
            "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
        );
    }
}

/// Root of the Merkle-Patricia trie holding these pairs (keys distinct, values not empty).
pub fn mpt_root(pairs: &[(Vec<u8>, Vec<u8>)]) -> [u8; 32] {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = pairs
        .iter()
        .map(|(k, x)| (k.iter().flat_map(|b| [b >> 4, b & 15]).collect(), x.clone()))
        .collect();
    v.sort();
    keccak256(&mpt_node(&v, 0).encode())
}

fn hex_prefix(path: &[u8], leaf: bool) -> Item {
    let flag = if leaf { 2u8 } else { 0 };
    let mut out = vec![];
    let rest = if path.len() % 2 == 1 {
        out.push((flag + 1) << 4 | path[0]);
        &path[1..]
    } else {
        out.push(flag << 4);
        path
    };
    out.extend(rest.chunks(2).map(|p| p[0] << 4 | p[1]));
    Item::S(out)
}

fn mpt_ref(n: Item) -> Item {
    let e = n.encode();
    if e.len() < 32 {
        n
    } else {
        Item::S(keccak256(&e).to_vec())
    }
}

fn mpt_node(v: &[(Vec<u8>, Vec<u8>)], at: usize) -> Item {
    match v {
        [] => Item::S(vec![]),
        [(k, x)] => l(vec![hex_prefix(&k[at..], true), b(x)]),
        _ => {
            let first = &v[0].0;
            let last = &v[v.len() - 1].0;
            let common = first[at..].iter().zip(&last[at..]).take_while(|(a, b)| a == b).count();
            if common > 0 {
                return l(vec![hex_prefix(&first[at..at + common], false), mpt_ref(mpt_node(v, at + common))]);
            }
            let mut slots = vec![];
            for d in 0..16u8 {
                let sub: Vec<_> = v.iter().filter(|(k, _)| k.len() > at && k[at] == d).cloned().collect();
                slots.push(if sub.is_empty() { Item::S(vec![]) } else { mpt_ref(mpt_node(&sub, at + 1)) });
            }
            slots.push(Item::S(v.iter().find(|(k, _)| k.len() == at).map(|(_, x)| x.clone()).unwrap_or_default()));
            l(slots)
        }
    }
}

/// Follows a proof (a set of nodes) from the root; `Err` when a node is missing or malformed.
pub fn mpt_lookup(root: &[u8; 32], key: &[u8], proof: &[Vec<u8>]) -> Result<Option<Vec<u8>>, String> {
    let path: Vec<u8> = key.iter().flat_map(|b| [b >> 4, b & 15]).collect();
    let find = |h: &[u8]| -> Result<Item, String> {
        let raw = proof.iter().find(|n| keccak256(n)[..] == *h).ok_or("node missing")?;
        decode(raw).ok_or_else(|| "node malformed".to_string())
    };
    let mut node = find(root)?;
    let mut at = 0;
    loop {
        let items = match &node {
            Item::S(s) if s.is_empty() => return Ok(None),
            Item::S(_) => return Err("not a node".into()),
            Item::L(v) => v.clone(),
        };
        let next = match items.len() {
            17 if at == path.len() => {
                return match &items[16] {
                    Item::S(s) if s.is_empty() => Ok(None),
                    Item::S(s) => Ok(Some(s.clone())),
                    _ => Err("value is a list".into()),
                }
            }
            17 => {
                at += 1;
                items[path[at - 1] as usize].clone()
            }
            2 => {
                let Item::S(p) = &items[0] else { return Err("path is a list".into()) };
                let mut nib: Vec<u8> = p.iter().flat_map(|b| [b >> 4, b & 15]).collect();
                if nib.is_empty() {
                    return Err("empty path".into());
                }
                let flag = nib.remove(0);
                if flag & 1 == 0 {
                    nib.remove(0);
                }
                if path[at..].len() < nib.len() || path[at..at + nib.len()] != nib[..] {
                    return Ok(None);
                }
                at += nib.len();
                if flag & 2 != 0 {
                    return match (&items[1], at == path.len()) {
                        (Item::S(s), true) => Ok(Some(s.clone())),
                        (Item::S(_), false) => Ok(None),
                        _ => Err("value is a list".into()),
                    };
                }
                items[1].clone()
            }
            _ => return Err("node of wrong size".into()),
        };
        node = match next {
            Item::S(h) if h.len() == 32 => find(&h)?,
            Item::S(h) if h.is_empty() => return Ok(None),
            Item::S(_) => return Err("bad reference".into()),
            n => n,
        };
    }
}
