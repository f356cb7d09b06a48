//! F08: the mirror of CKB's headers and cells.
use std::collections::BTreeMap;

use core_executor::{AxonExecutor, DataProvider};
use ethabi::Token;
use mc::{ensure, ensure_eq, Check, Chooser};
use protocol::ckb_blake2b_256;
use protocol::traits::{Backend, Executor};
use protocol::types::{ExecutorContext, H160, H256, U256};

use crate::govern::{call, n, system, system_tx};
use crate::world::*;

type R = Result<(), mc::Fail>;

fn hash(k: u8) -> [u8; 32] {
    rf::keccak256(&[k, 0xcb])
}

fn fixed(h: [u8; 32]) -> Token {
    Token::FixedBytes(h.to_vec())
}

#[derive(Clone, Debug, PartialEq)]
struct Header {
    k: u8,
    ext: Vec<u8>,
}

impl Header {
    fn key(&self) -> [u8; 32] {
        hash(self.k)
    }
    fn token(&self) -> Vec<Token> {
        let k = self.k;
        let x = |i: u8| fixed(rf::keccak256(&[k, i, self.ext.len() as u8]));
        vec![
            n(k as u64),
            n(0x1e01_5555 + k as u64),
            n(1_600_000_000_000 + k as u64),
            n(u64::MAX - k as u64),
            n(0x0708_0000_0000_0000 + k as u64),
            x(1),
            x(2),
            x(3),
            x(4),
            x(5),
            Token::Uint((U256::from(k as u64) << 100) + 7),
            Token::Bytes(self.ext.clone()),
            fixed(self.key()),
        ]
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Cell {
    capacity: u64,
    lock: (u8, u8, Vec<u8>),
    kind: Option<(u8, u8, Vec<u8>)>,
    data: Vec<u8>,
    created: u64,
    consumed: Option<u64>,
}

type Point = (u8, u32);

fn point(p: &Point) -> Token {
    Token::Tuple(vec![fixed(hash(p.0)), n(p.1 as u64)])
}

fn point_key(p: &Point) -> Vec<u8> {
    let mut k = hash(p.0).to_vec();
    k.extend(p.1.to_le_bytes());
    k
}

fn cells() -> Vec<(Point, Cell)> {
    let c = |capacity, lock, kind, data: &[u8]| Cell { capacity, lock, kind, data: data.to_vec(), created: 0, consumed: None };
    vec![
        ((1, 0), c(61_0000_0000, (0x11, 1, vec![1, 2, 3]), None, b"")),
        ((1, 1), c(1, (0x12, 0, vec![]), Some((0x13, 2, vec![9; 40])), b"some data")),
        ((2, 0x0100), c(u64::MAX, (0x14, 1, vec![0; 20]), Some((0x15, 1, vec![])), &[0u8; 70])),
    ]
}

fn script(s: &(u8, u8, Vec<u8>)) -> Token {
    Token::Tuple(vec![fixed(hash(s.0)), n(s.1 as u64), Token::Bytes(s.2.clone())])
}

fn cell_token(p: &Point, c: &Cell) -> Token {
    Token::Tuple(vec![
        point(p),
        Token::Tuple(vec![n(c.capacity), script(&c.lock), Token::Array(c.kind.iter().map(script).collect())]),
        Token::Bytes(c.data.clone()),
    ])
}

/// CKB's own serialization, from its specification.
fn molecule_table(fields: &[Vec<u8>]) -> Vec<u8> {
    let head = 4 * (fields.len() + 1);
    let total: usize = head + fields.iter().map(|f| f.len()).sum::<usize>();
    let mut out = (total as u32).to_le_bytes().to_vec();
    let mut at = head;
    for f in fields {
        out.extend((at as u32).to_le_bytes());
        at += f.len();
    }
    for f in fields {
        out.extend(f);
    }
    out
}

fn molecule_script(s: &(u8, u8, Vec<u8>)) -> Vec<u8> {
    let mut args = (s.2.len() as u32).to_le_bytes().to_vec();
    args.extend(&s.2);
    molecule_table(&[hash(s.0).to_vec(), vec![s.1], args])
}

fn molecule_output(c: &Cell) -> Vec<u8> {
    molecule_table(&[
        c.capacity.to_le_bytes().to_vec(),
        molecule_script(&c.lock),
        c.kind.as_ref().map(molecule_script).unwrap_or_default(),
    ])
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Mirror {
    headers: BTreeMap<u8, Header>,
    cells: BTreeMap<Point, Cell>,
    touched: bool,
}

#[derive(Clone, Debug)]
enum Op {
    Headers(Vec<Header>),
    DropHeaders(Vec<u8>),
    Cells(Vec<(u64, Vec<Point>, Vec<usize>)>),
    DropCells(Vec<(Vec<Point>, Vec<Point>)>),
    State(u8, bool),
    Junk(u8),
}

fn menu() -> Vec<Op> {
    let a = Header { k: 1, ext: vec![] };
    let b = Header { k: 2, ext: vec![7; 33] };
    let a2 = Header { k: 1, ext: vec![1] };
    vec![
        Op::Headers(vec![a.clone()]),
        Op::Headers(vec![a.clone(), b.clone()]),
        Op::Headers(vec![b, a2]),
        Op::Headers(vec![]),
        Op::DropHeaders(vec![1]),
        Op::DropHeaders(vec![2, 1]),
        Op::DropHeaders(vec![1, 1]),
        Op::Cells(vec![(5, vec![], vec![0])]),
        Op::Cells(vec![(5, vec![], vec![0, 1])]),
        // consumed in the block that creates it, and one that is unknown
        Op::Cells(vec![(6, vec![(1, 1), (3, 3)], vec![1])]),
        // two blocks at once
        Op::Cells(vec![(7, vec![], vec![2]), (8, vec![(2, 0x0100), (1, 0)], vec![])]),
        Op::Cells(vec![(9, vec![(1, 0)], vec![])]),
        Op::DropCells(vec![(vec![(1, 0)], vec![])]),
        Op::DropCells(vec![(vec![], vec![(1, 0)])]),
        Op::DropCells(vec![(vec![(1, 1)], vec![(1, 1)])]),
        Op::DropCells(vec![(vec![(1, 0), (2, 0x0100)], vec![]), (vec![], vec![(2, 0x0100)])]),
        // the second half cannot be done, so nothing is
        Op::DropCells(vec![(vec![(1, 1)], vec![(1, 0)]), (vec![], vec![(3, 3)])]),
        Op::State(2, true),
        Op::State(3, true),
        Op::Junk(2),
        Op::Junk(3),
    ]
}

impl Op {
    fn tx(&self) -> (u8, Vec<u8>) {
        let points = |v: &Vec<Point>| Token::Array(v.iter().map(point).collect());
        match self {
            Op::Headers(h) => (
                2,
                call(
                    "update((uint32,uint32,uint64,uint64,uint64,bytes32,bytes32,bytes32,bytes32,bytes32,uint128,bytes,bytes32)[])",
                    &[Token::Array(h.iter().map(|x| Token::Tuple(x.token())).collect())],
                ),
            ),
            Op::DropHeaders(h) => {
                (2, call("rollback(bytes32[])", &[Token::Array(h.iter().map(|k| fixed(hash(*k))).collect())]))
            }
            Op::Cells(blocks) => {
                let all = cells();
                let blocks = blocks
                    .iter()
                    .map(|(num, ins, outs)| {
                        let outs = outs.iter().map(|i| cell_token(&all[*i].0, &all[*i].1)).collect();
                        Token::Tuple(vec![n(*num), points(ins), Token::Array(outs)])
                    })
                    .collect();
                (
                    3,
                    call(
                        "update((uint64,(bytes32,uint32)[],((bytes32,uint32),(uint64,(bytes32,uint8,bytes),(bytes32,uint8,bytes)[]),bytes)[])[])",
                        &[Token::Array(blocks)],
                    ),
                )
            }
            Op::DropCells(blocks) => {
                let blocks = blocks.iter().map(|(ins, outs)| Token::Tuple(vec![points(ins), points(outs)])).collect();
                (3, call("rollback(((bytes32,uint32)[],(bytes32,uint32)[])[])", &[Token::Array(blocks)]))
            }
            Op::State(to, on) => (*to, call("setState(bool)", &[Token::Bool(*on)])),
            Op::Junk(to) => (*to, vec![0xde, 0xad]),
        }
    }

    /// What the mirror should be afterwards; None if the operation has to be refused.
    fn apply(&self, m: &Mirror) -> Option<Mirror> {
        let mut m = m.clone();
        match self {
            Op::Headers(h) => {
                for x in h {
                    m.headers.insert(x.k, x.clone());
                }
            }
            Op::DropHeaders(h) => {
                for k in h {
                    m.headers.remove(k)?;
                }
            }
            Op::Cells(blocks) => {
                for (num, ins, outs) in blocks {
                    for i in outs {
                        let (p, c) = cells()[*i].clone();
                        m.cells.insert(p, Cell { created: *num, ..c });
                    }
                    for p in ins {
                        if let Some(c) = m.cells.get_mut(p) {
                            c.consumed = Some(*num);
                        }
                    }
                }
            }
            Op::DropCells(blocks) => {
                for (ins, outs) in blocks {
                    for p in outs {
                        m.cells.remove(p)?;
                    }
                    for p in ins {
                        if let Some(c) = m.cells.get_mut(p) {
                            c.consumed = None;
                        }
                    }
                }
            }
            Op::State(..) => return Some(m),
            Op::Junk(_) => return None,
        }
        m.touched = true;
        Some(m)
    }
}

/// The root of the mirror, from its contents alone.
fn root_of(m: &Mirror) -> H256 {
    if !m.touched {
        return H256::zero();
    }
    let mut pairs = vec![];
    for h in m.headers.values() {
        pairs.push((rf::keccak256(&h.key()).to_vec(), ethabi::encode(&h.token())));
    }
    for (p, c) in &m.cells {
        let consumed = rf::l(c.consumed.iter().map(|x| rf::u(*x)).collect());
        let v = rf::l(vec![rf::b(molecule_output(c)), rf::b(&c.data), rf::u(c.created), consumed]).encode();
        pairs.push((rf::keccak256(&point_key(p)).to_vec(), v));
    }
    if pairs.is_empty() {
        return H256(rf::keccak256(&[0x80]));
    }
    H256(rf::mpt_root(&pairs))
}

pub fn ckb_root(w: &World, root: H256, which: u8) -> H256 {
    let ad = w.reader(root, ExecutorContext::default());
    ad.storage(system(which), H256(rf::keccak256(b"header_cell_mpt_root")))
}

fn precompile(k: u8) -> H160 {
    let mut b = [0u8; 20];
    b[18] = 1;
    b[19] = k;
    H160(b)
}

/// Everything that can be asked about the mirror.
fn same_mirror(w: &World, root: H256, m: &Mirror) -> R {
    use ckb_traits::{CellDataProvider, ExtensionProvider, HeaderProvider};
    use ckb_types::core::cell::{CellProvider, CellStatus};
    use ckb_types::packed;
    use ckb_types::prelude::*;
    let _g = rt().enter();
    let provider = DataProvider::new(ckb_root(w, root, 2));
    let ad = w.reader(root, ExecutorContext::from(w.proposal(99)));
    let ask = |k: u8, data: Vec<u8>| {
        mc::no_panic(|| AxonExecutor.call(&ad, 1_000_000, None, Some(precompile(k)), U256::zero(), data, false))
            .map_err(|e| mc::Fail::new("panic", format!("panic: {e} asking contract {k}")))
    };
    for k in [1u8, 2, 3] {
        let got = provider.get_header(&hash(k).pack());
        let r = ask(2, ethabi::encode(&[fixed(hash(k))]))?;
        match m.headers.get(&k) {
            None => {
                ensure!(got.is_none() && !r.exit_reason.is_succeed(), "header: {k} is there although it should not be");
                ensure!(provider.get_block_extension(&hash(k).pack()).is_none(), "header: {k} has an extension");
            }
            Some(h) => {
                ensure!(r.exit_reason.is_succeed(), "header: {k} cannot be read by contracts: {:?}", r.exit_reason);
                ensure_eq!(
                    mc::hex(&r.ret),
                    mc::hex(&ethabi::encode(&[Token::Tuple(h.token())])),
                    "header: {k} as contracts see it"
                );
                let got = match got {
                    Some(x) => x,
                    None => return Err(mc::Fail::new("header", format!("header: {k} is missing"))),
                };
                let x = |i: u8| rf::keccak256(&[k, i, h.ext.len() as u8]).pack();
                let same = got.version() == k as u32
                    && got.compact_target() == 0x1e01_5555 + k as u32
                    && got.timestamp() == 1_600_000_000_000 + k as u64
                    && got.number() == u64::MAX - k as u64
                    && { let e: u64 = got.data().raw().epoch().unpack(); e == 0x0708_0000_0000_0000 + k as u64 }
                    && got.parent_hash() == x(1)
                    && got.transactions_root() == x(2)
                    && got.proposals_hash() == x(3)
                    && got.extra_hash() == x(4)
                    && got.dao() == x(5)
                    && got.nonce() == ((k as u128) << 100) + 7;
                ensure!(same, "header: {k} differs as programs see it: {got:?}");
                let e = provider.get_block_extension(&hash(k).pack());
                ensure!(e.map(|b| b.raw_data().to_vec()) == Some(h.ext.clone()), "header: extension of {k}");
            }
        }
    }
    let mut points: Vec<Point> = cells().iter().map(|c| c.0).collect();
    points.extend([(3, 3), (1, 2), (2, 1), (1, 0x0100_0000)]);
    for p in &points {
        let op = packed::OutPoint::new_builder().tx_hash(hash(p.0).pack()).index(p.1.pack()).build();
        let got = provider.cell(&op, true);
        let data = provider.get_cell_data(&op);
        match m.cells.get(p) {
            None => {
                ensure!(
                    matches!(got, CellStatus::Unknown) && data.is_none() && provider.get_cell_data_hash(&op).is_none(),
                    "cell: {p:?} is there although it should not be"
                );
            }
            Some(c) => {
                let meta = match got {
                    CellStatus::Live(x) => x,
                    _ => return Err(mc::Fail::new("cell", format!("cell: {p:?} is missing"))),
                };
                ensure_eq!(mc::hex(meta.cell_output.as_slice()), mc::hex(&molecule_output(c)), "cell: output of {p:?}");
                ensure!(meta.out_point == op && meta.data_bytes == c.data.len() as u64, "cell: description of {p:?}");
                ensure!(data.as_deref() == Some(&c.data[..]), "cell: data of {p:?}");
                let want = if c.data.is_empty() { [0u8; 32] } else { ckb_blake2b_256(&c.data) };
                ensure!(provider.get_cell_data_hash(&op) == Some(want.pack()), "cell: data hash of {p:?}");
                ensure!(meta.mem_cell_data_hash == Some(want.pack()), "cell: data hash in the description of {p:?}");
            }
        }
    }
    Ok(())
}

fn history(c: &mut Chooser, blocks: usize, slots: usize, all: bool) -> R {
    let mut w = World::new(64);
    let vals = validators(&VALIDATORS);
    let mut m = Mirror::default();
    let mut seen = vec![(w.root, m.clone())];
    let menu = menu();
    for _ in 0..blocks {
        let mut txs = vec![];
        let mut want = vec![];
        let mut done = 0u64;
        for _ in 0..slots {
            let op = if all { c.pick(&menu) } else {
                let i = c.deviate(menu.len() + 1);
                if i == 0 { continue; }
                &menu[i - 1]
            };
            let (to, data) = op.tx();
            txs.push(system_tx(addr(0xa1), to, data));
            let next = op.apply(&m);
            want.push(next.is_some());
            c.note(|| format!("{op:?}"));
            if let Some(x) = next {
                m = x;
                done += 1;
                c.nontrivial();
            }
        }
        let before = {
            let _g = rt().enter();
            w.reader(w.root, ExecutorContext::default()).basic(addr(0xa1)).nonce
        };
        let (resp, _) = mc::no_panic(|| w.run(&txs, &vals)).map_err(|e| mc::Fail::new("panic", format!("panic: {e}")))?;
        for (i, r) in resp.tx_resp.iter().enumerate() {
            ensure_eq!(r.exit_reason.is_succeed(), want[i], "accepted: operation {i} of a block");
        }
        let _g = rt().enter();
        let after = w.reader(w.root, ExecutorContext::default()).basic(addr(0xa1)).nonce;
        ensure_eq!(after, before + U256::from(done), "nonce: of the sender");
        ensure_eq!(ckb_root(&w, w.root, 2), ckb_root(&w, w.root, 3), "roots: of headers and of cells differ");
        ensure_eq!(ckb_root(&w, w.root, 2), root_of(&m), "root: of {m:?}");
        same_mirror(&w, w.root, &m)?;
        seen.push((w.root, m.clone()));
        c.transition();
    }
    for (root, m) in &seen {
        same_mirror(&w, *root, m)?;
    }
    c.state();
    c.outcome((m.headers.len(), m.cells.len(), m.cells.values().filter(|c| c.consumed.is_some()).count()));
    Ok(())
}

pub fn run(k: &Check) {
    k.part(
        "headers and cells",
        "every sequence of operations of the menu, one per block: the contents, as contracts and programs see them and as the root commits to them, after each block and at every earlier state",
        "21 operations; 3 blocks (2 quick)",
    )
    .explore(|c| history(c, k.by_tier(2, 3), 1, true));
    k.part("several in a block", "the same with up to three operations spread over two blocks of two", "3 operations in 2 blocks of 2")
        .deviations(k.by_tier(2, 3))
        .explore(|c| history(c, 2, 2, false));
}
