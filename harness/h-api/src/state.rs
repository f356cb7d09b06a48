//! J03: questions about the state are answered from the block they name.
use std::collections::BTreeMap;
use std::sync::Arc;

use core_executor::{AxonExecutor, AxonExecutorApplyAdapter, AxonExecutorReadOnlyAdapter};
use evm::backend::{Apply, Basic};
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::traits::{ApplyBackend, Executor, ExecutorAdapter};
use protocol::types::*;
use rocksdb::control;
use serde_json::{json, Value};

use crate::world::*;

#[derive(Clone, Debug, Default, PartialEq)]
struct Acct {
    balance: U256,
    nonce:   u64,
    code:    Vec<u8>,
    slots:   BTreeMap<u64, U256>,
}

type Table = BTreeMap<H160, Acct>;

fn at(n: u8) -> H160 {
    H160::repeat_byte(n)
}

fn code(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Answers storage[word 0 of the question].
const KEEPER: u8 = 0xd1;
/// Answers what it sees around it.
const ENV: u8 = 0xd2;
/// Reverts with two bytes.
const REVERTS: u8 = 0xd3;
const FAILS: u8 = 0xd4;
/// Comes and goes.
const GUEST: u8 = 0xd5;
/// Goes on as often as storage[0] of its own says.
const LOOPS: u8 = 0xd6;
const NOBODY: u8 = 0xd7;

fn env_code() -> Vec<u8> {
    let seen = ["43", "42", "41", "48", "46", "32", "3a", "33", "34", "3331", "6001430340", "47"];
    let mut v = vec![];
    for (i, op) in seen.iter().enumerate() {
        v.extend(code(op));
        v.extend([0x61, ((i * 32) >> 8) as u8, (i * 32) as u8, 0x52]);
    }
    let len = seen.len() * 32;
    v.extend([0x61, (len >> 8) as u8, len as u8, 0x60, 0, 0xf3]);
    v
}

fn start() -> Table {
    let mut t = Table::new();
    let mut put = |n: u8, c: Vec<u8>| {
        t.insert(at(n), Acct { nonce: 1, code: c, ..Default::default() });
    };
    put(KEEPER, code("600035 54 600052 60206000f3"));
    put(ENV, env_code());
    put(REVERTS, code("61abcd600052 6002601efd"));
    put(FAILS, code("fe"));
    // n = sload(0); while n { n -= 1 }
    put(LOOPS, code("600054 5b 80 600d57 00 00000000 5b 6001 9003 6003 56"));
    for (i, b) in [(1u8, 24), (2, 24)] {
        t.insert(kit::sender(i), Acct { balance: U256::exp10(b), ..Default::default() });
    }
    t
}

async fn grow(chain: &mut Chain, was: &Table, now: &Table) {
    let last = &chain.last().block;
    let mut h = header(last, 0);
    let ctx = Proposal::new_without_state_root(&h).into();
    let mut ad = AxonExecutorApplyAdapter::from_root(last.header.state_root, Arc::clone(&chain.disk.trie), Arc::clone(&chain.disk.storage), ctx).unwrap();
    let mut changes = vec![];
    for (a, x) in now {
        if was.get(a) != Some(x) {
            let mut slots: BTreeMap<u64, U256> = was.get(a).map(|w| w.slots.keys().map(|k| (*k, U256::zero())).collect()).unwrap_or_default();
            slots.extend(x.slots.clone());
            let word = |v: U256| {
                let mut b = [0; 32];
                v.to_big_endian(&mut b);
                H256(b)
            };
            changes.push(Apply::Modify {
                address:       *a,
                basic:         Basic { balance: x.balance, nonce: x.nonce.into() },
                code:          was.get(a).map(|w| w.code != x.code).unwrap_or(true).then(|| x.code.clone()),
                storage:       slots.into_iter().map(|(k, v)| (kit::h256(k), word(v))).collect::<Vec<_>>(),
                reset_storage: false,
            });
        }
    }
    changes.extend(was.keys().filter(|a| !now.contains_key(a)).map(|a| Apply::Delete { address: *a }));
    ad.apply(changes, Vec::<Log>::new(), false);
    h.state_root = ad.commit();
    drop(ad);
    chain.push_with(h, vec![], vec![]).await;
}

const CHANGES: usize = 7;

fn change(t: &Table, kind: usize, n: u64) -> Table {
    let mut t = t.clone();
    match kind {
        0 => {}
        1 => {
            let a = t.get_mut(&kit::sender(1)).unwrap();
            (a.balance, a.nonce) = (a.balance - n * 1000, a.nonce + n);
        }
        2 => drop(t.get_mut(&at(KEEPER)).unwrap().slots.insert(1, n.into())),
        3 => {
            let k = t.get_mut(&at(KEEPER)).unwrap();
            k.slots.remove(&1);
            k.slots.insert(2, U256::MAX - n);
        }
        4 => drop(t.insert(at(GUEST), Acct { balance: n.into(), nonce: 1, code: vec![0x60, n as u8, 0], ..Default::default() })),
        5 => drop(t.remove(&at(GUEST))),
        _ => drop(t.get_mut(&at(LOOPS)).unwrap().slots.insert(0, (n * 3).into())),
    }
    t
}

fn word(n: u64) -> String {
    format!("{n:064x}")
}

/// The ways to name a block.
fn names(chain: &Chain, n: u64) -> Vec<Value> {
    let mut v = vec![qty(n), json!({ "blockNumber": qty(n) }), json!({ "blockHash": hex(chain.blocks[n as usize].block.hash()) })];
    if n == 0 {
        v.push(json!("earliest"));
    }
    if n == chain.latest() {
        v.extend([json!("latest"), json!("pending")]);
    }
    v
}

/// What is left out means the latest.
fn with(mut params: Vec<Value>, name: &Option<Value>) -> Value {
    params.extend(name.clone());
    Value::Array(params)
}

async fn accounts(chain: &Chain, node: &Node, tables: &[Table]) -> Result<(), Fail> {
    let everyone = [kit::sender(1), kit::sender(2), at(KEEPER), at(GUEST), at(LOOPS), at(NOBODY)];
    for (n, table) in tables.iter().enumerate() {
        let h = &chain.blocks[n].block.header;
        let mut ids: Vec<Option<Value>> = names(chain, n as u64).into_iter().map(Some).collect();
        if n as u64 == chain.latest() {
            ids.push(None);
        }
        for id in &ids {
            for a in everyone {
                let x = table.get(&a).cloned().unwrap_or_default();
                let who = hex(a);
                same("balance", &node.ask("eth_getBalance", with(vec![who.clone()], id)).await?, &qty256(x.balance))?;
                same("nonce", &node.ask("eth_getTransactionCount", with(vec![who.clone()], id)).await?, &qty(x.nonce))?;
                same("code", &node.ask("eth_getCode", with(vec![who.clone()], id)).await?, &hex(&x.code))?;
                let mut keys = vec![];
                for slot in [0u64, 1, 2] {
                    let v = x.slots.get(&slot).copied().unwrap_or_default();
                    let got = node.ask("eth_getStorageAt", with(vec![who.clone(), qty(slot)], id)).await?;
                    same("storage", &got, &json!(format!("0x{v:064x}")))?;
                    keys.push(qty(slot));
                }
                let Some(id) = id else { continue };
                let p = node.ask("eth_getProof", json!([who, keys, id])).await?;
                proved(&p, h.state_root, a, table.get(&a))?;
            }
            // other answers come from running at that block
            for slot in [0u64, 1, 2] {
                let v = table.get(&at(KEEPER)).and_then(|k| k.slots.get(&slot).copied()).unwrap_or_default();
                let got = node.ask("eth_call", with(vec![json!({ "to": hex(at(KEEPER)), "data": format!("0x{}", word(slot)) })], id)).await?;
                let there = table.contains_key(&at(KEEPER));
                same("call", &got, &json!(if there { format!("0x{v:064x}") } else { "0x".into() }))?;
            }
            let req = json!({ "from": hex(kit::sender(1)), "to": hex(at(ENV)), "gasPrice": "0x64", "value": "0x5" });
            let got = node.ask("eth_call", with(vec![req], id)).await?;
            if n == 0 {
                continue;
            }
            let seen = got.as_str().unwrap()[2..].as_bytes().chunks(64).map(|c| std::str::from_utf8(c).unwrap().to_string()).collect::<Vec<_>>();
            let from = format!("{:0>64}", rf::hex(kit::sender(1).as_bytes()));
            let before = (n > 0).then(|| rf::hex(chain.blocks[n - 1].block.hash().as_bytes())).unwrap_or_else(|| word(0));
            if table.contains_key(&at(ENV)) {
                let want = [
                    ("number", word(h.number)),
                    ("time", word(h.timestamp)),
                    ("coinbase", format!("{:0>64}", rf::hex(h.proposer.as_bytes()))),
                    ("base fee", word(h.base_fee_per_gas.as_u64())),
                    ("chain id", word(h.chain_id)),
                    ("origin", from.clone()),
                    ("gas price", word(100)),
                    ("caller", from),
                    ("value", word(5)),
                    ("caller's balance", format!("{:064x}", table[&kit::sender(1)].balance - 5)),
                    ("hash of the block before", before),
                    ("own balance", word(5)),
                ];
                ensure_eq!(seen.len(), want.len(), "call: surroundings");
                for ((what, w), s) in want.iter().zip(&seen) {
                    ensure!(w == s, "call, {what}: {s} for {w}");
                }
            }
            // how much gas it takes
            for req in [
                json!({ "from": hex(kit::sender(1)), "to": hex(at(LOOPS)) }),
                json!({ "from": hex(kit::sender(2)), "to": hex(at(GUEST)), "value": "0x7", "gasPrice": "0x1" }),
                json!({ "from": hex(kit::sender(2)), "data": "0x6001600055", "gas": "0x30d40" }),
            ] {
                let got = node.ask("eth_estimateGas", with(vec![req.clone()], id)).await?;
                same("estimate", &got, &qty(takes(chain, n, &req)))?;
                // and it does take no more
                let mut again = req.clone();
                again["gas"] = got;
                let done = node.http.call("eth_call", &with(vec![again.clone()], id).to_string()).await;
                ensure!(done.is_ok(), "estimate: is not enough, {again}: {:?}", done);
            }
        }
    }
    Ok(())
}

/// What the executor itself says.
fn takes(chain: &Chain, n: usize, req: &Value) -> u64 {
    let get = |k: &str| req.get(k).map(|v| v.as_str().unwrap()[2..].to_string());
    let a = |k: &str| get(k).map(|s| H160::from_slice(&code(&s)));
    let num = |k: &str| get(k).map(|s| u64::from_str_radix(&s, 16).unwrap());
    let h = &chain.blocks[n].block.header;
    let mut ctx = ExecutorContext::from(Proposal::new_without_state_root(h));
    ctx.origin = a("from").unwrap();
    ctx.gas_price = num("gasPrice").unwrap_or(1).into();
    let ad = AxonExecutorReadOnlyAdapter::from_root(h.state_root, Arc::clone(&chain.disk.trie), Arc::clone(&chain.disk.storage), ctx).unwrap();
    let data = get("data").map(|s| code(&s)).unwrap_or_default();
    let r = AxonExecutor.call(&ad, num("gas").unwrap_or(30_000_000), a("from"), a("to"), num("value").unwrap_or(0).into(), data, true);
    assert!(r.exit_reason.is_succeed(), "{r:?}");
    r.gas_used
}

fn bytes(v: &Value) -> Vec<u8> {
    code(&v.as_str().unwrap()[2..])
}

/// A proof is enough for one who knows nothing but the state root.
fn proved(p: &Value, root: H256, a: H160, x: Option<&Acct>) -> Result<(), Fail> {
    let proof: Vec<Vec<u8>> = p["accountProof"].as_array().unwrap().iter().map(bytes).collect();
    let leaf = rf::mpt_lookup(&root.0, &rf::keccak256(a.as_bytes()), &proof);
    same("proof.address", &p["address"], &hex(a))?;
    let Ok(leaf) = leaf else {
        return Err(Fail::new("proof: does not lead anywhere", format!("proof: does not lead anywhere for {a:?}: {leaf:?}")));
    };
    ensure_eq!(leaf.is_some(), x.is_some(), "proof: of whether the account is there");
    let zero = Acct::default();
    let y = x.unwrap_or(&zero);
    same("proof.balance", &p["balance"], &qty256(y.balance))?;
    same("proof.nonce", &p["nonce"], &qty(y.nonce))?;
    let Some(leaf) = leaf else { return Ok(()) };
    let storage = H256::from_slice(&bytes(&p["storageHash"]));
    let hash = bytes(&p["codeHash"]);
    let want = rf::l(vec![rf::u(y.nonce), rf::uint(&{
        let mut b = [0; 32];
        y.balance.to_big_endian(&mut b);
        b
    }), rf::b(storage), rf::b(&hash)]);
    ensure_eq!(mc::hex(&leaf), mc::hex(want.encode()), "proof: of another account");
    ensure_eq!(mc::hex(&hash), mc::hex(rf::keccak256(&y.code)), "proof: of other code");
    for (slot, s) in p["storageProof"].as_array().unwrap().iter().enumerate() {
        let want = y.slots.get(&(slot as u64)).copied().unwrap_or_default();
        same("proof.slot", &s["key"], &qty(slot as u64))?;
        same("proof.slot value", &s["value"], &qty256(want))?;
        let proof: Vec<Vec<u8>> = s["proof"].as_array().unwrap().iter().map(bytes).collect();
        let held = rf::mpt_lookup(&storage.0, &rf::keccak256(kit::h256(slot as u64).as_bytes()), &proof);
        // an empty trie needs no nodes
        let held = if storage.0 == rf::keccak256(&[0x80]) { Ok(None) } else { held };
        let Ok(held) = held else {
            return Err(Fail::new("proof: of a slot leads nowhere", format!("proof: of a slot leads nowhere: {held:?}")));
        };
        match held {
            None => ensure!(want.is_zero(), "proof: of an empty slot that is not"),
            Some(v) => {
                let mut b = [0; 32];
                want.to_big_endian(&mut b);
                ensure_eq!(mc::hex(&v), mc::hex(rf::uint(&b).encode()), "proof: of another value");
            }
        }
    }
    Ok(())
}

async fn histories(c: &mut Chooser, blocks: usize) -> Result<(), Fail> {
    let mut chain = Chain::new("j03");
    let mut tables = vec![[1u8, 2].map(|i| (kit::sender(i), Acct { balance: U256::exp10(24), ..Default::default() })).into_iter().collect::<Table>()];
    let first = start();
    grow(&mut chain, &tables[0], &first).await;
    tables.push(first);
    for i in 0..blocks {
        let now = change(tables.last().unwrap(), c.choose(CHANGES), i as u64 + 1);
        grow(&mut chain, tables.last().unwrap(), &now).await;
        tables.push(now);
        c.state();
    }
    let node = Node::over(&chain, 100).await;
    let before = (control::journal_len(&chain.disk.path), control::dump(&chain.disk.path));
    c.nontrivial();
    c.outcome(format!("{:?}", tables.last()));
    accounts(&chain, &node, &tables).await?;
    pending(&chain, &node, &tables).await?;
    unknown(&chain, &node).await?;
    ensure!(before == (control::journal_len(&chain.disk.path), control::dump(&chain.disk.path)), "a question wrote to the database");
    Ok(())
}

/// The next nonce counts what waits in the pool.
async fn pending(chain: &Chain, node: &Node, tables: &[Table]) -> Result<(), Fail> {
    let who = kit::sender(1);
    let ask = json!([hex(who), "pending"]);
    for waiting in [0usize, 3] {
        for (n, t) in tables.iter().enumerate() {
            node.pool.counts.lock().unwrap().insert(who, (waiting, Some(n as u64)));
            same("pending nonce", &node.ask("eth_getTransactionCount", ask.clone()).await?, &qty(t[&who].nonce + waiting as u64))?;
        }
        node.pool.counts.lock().unwrap().insert(who, (waiting, None));
        let now = tables.last().unwrap()[&who].nonce;
        same("pending nonce", &node.ask("eth_getTransactionCount", ask.clone()).await?, &qty(now + waiting as u64))?;
    }
    let _ = chain;
    Ok(())
}

/// A block that is not there has no state, and system contracts answer nobody.
async fn unknown(_chain: &Chain, node: &Node) -> Result<(), Fail> {
    let no = json!({ "blockHash": hex(kit::h256(0xdead)) });
    let a = hex(kit::sender(1));
    let call = json!({ "from": a, "to": hex(at(KEEPER)) });
    for (method, params) in [
        ("eth_getBalance", json!([a, no])),
        ("eth_getTransactionCount", json!([a, no])),
        ("eth_getCode", json!([a, no])),
        ("eth_getStorageAt", json!([a, "0x1", no])),
        ("eth_getProof", json!([a, ["0x1"], no])),
        ("eth_call", json!([call, no])),
        ("eth_estimateGas", json!([call, no])),
    ] {
        ensure_eq!(node.refused(method, params).await?, -40014, "of an unknown block, {method}");
    }
    for last in [1u8, 2, 3] {
        let mut sys = [0xffu8; 20];
        sys[19] = last;
        let call = json!({ "from": a, "to": hex(sys) });
        for (method, params) in [
            ("eth_getStorageAt", json!([hex(sys), "0x1"])),
            ("eth_getProof", json!([hex(sys), ["0x1"], "latest"])),
            ("eth_call", json!([call])),
            ("eth_estimateGas", json!([call])),
        ] {
            ensure_eq!(node.refused(method, params).await?, -40023, "of a system contract, {method}");
        }
    }
    Ok(())
}

fn limits(k: &Check) {
    k.part(
        "what runs and what is refused",
        "every combination of the fields of a request to run code: refused with the reason where a field is beyond its limit, answered as the code ends otherwise",
        "5 destinations, 8 amounts of gas, 6 prices, with and without a sender",
    )
    .explore(|c| {
        let to = *c.pick(&[Some(KEEPER), Some(REVERTS), Some(FAILS), Some(NOBODY), None]);
        let gas = *c.pick(&[None, Some(0u64), Some(20_999), Some(21_000), Some(60_000), Some(30_000_000), Some(30_000_001), Some(u64::MAX)]);
        let price = *c.pick(&[None, Some(0u64), Some(1), Some(500_000_000_000), Some(500_000_000_001), Some(u64::MAX)]);
        let from = c.flip();
        let estimate = c.flip();
        node::rt().block_on(async {
            let mut chain = Chain::new("j03");
            let t: Table = [1u8, 2].map(|i| (kit::sender(i), Acct { balance: U256::exp10(24), ..Default::default() })).into_iter().collect();
            grow(&mut chain, &t, &start()).await;
            let node = Node::over(&chain, 100).await;
            let mut req = json!({});
            if let Some(n) = to {
                req["to"] = hex(at(n));
            }
            if from {
                req["from"] = hex(kit::sender(1));
            }
            if let Some(g) = gas {
                req["gas"] = qty(g);
            }
            if let Some(p) = price {
                req["gasPrice"] = qty(p);
            }
            if to.is_none() {
                req["data"] = json!("0x");
            } else {
                req["data"] = json!(format!("0x{}", word(1)));
            }
            let method = if estimate { "eth_estimateGas" } else { "eth_call" };
            let params = json!([req]);
            let got = node.http.call(method, &params.to_string()).await;
            let code = got.as_ref().err().map(|e| e.code());
            let mut why = vec![];
            if estimate && gas.map(|g| g < 21_000).unwrap_or(false) {
                why.push(-40008);
            }
            if gas.unwrap_or(0) > 30_000_000 {
                why.push(-40009);
            }
            if price.unwrap_or(0) > 500_000_000_000 {
                why.push(-40007);
            }
            if to.is_none() && !from {
                why.push(-49999);
            }
            c.note(|| format!("{method} {params}: {got:?}"));
            c.outcome(code);
            if !why.is_empty() {
                ensure!(code.map(|x| why.contains(&x)).unwrap_or(false), "refusal: {method} {params} answered {got:?}");
                return Ok(());
            }
            // what there is of gas pays for the request first
            let enough = gas.unwrap_or(30_000_000) >= 60_000 || (to == Some(NOBODY) && gas.unwrap() >= 22_000);
            if !enough {
                ensure!(code.is_none() || code == Some(-49998), "too little gas: {method} {params} answered {got:?}");
                return Ok(());
            }
            c.nontrivial();
            match to {
                Some(REVERTS) => {
                    ensure_eq!(code, Some(-49998), "a revert: {method} {params}");
                    ensure_eq!(got.unwrap_err().data().map(|d| d.get().to_string()), Some("\"0xabcd\"".to_string()), "what a revert says");
                }
                Some(FAILS) => ensure_eq!(code, Some(-49998), "a failure: {method} {params}"),
                _ => {
                    ensure!(code.is_none(), "answer: {method} {params} answered {got:?}");
                    if !estimate {
                        let want = if to == Some(KEEPER) { format!("\"0x{}\"", word(0)) } else { "\"0x\"".to_string() };
                        ensure_eq!(got.unwrap(), want, "answer: {method} {params}");
                    }
                }
            }
            Ok(())
        })
    });
}

pub fn run(k: &Check) {
    genesis();
    k.assume("what the executor says of a call is its own business (F04); the tries are those the node keeps (B properties)");
    k.part(
        "the state at each block",
        "every history of changes to the state: each account, slot, piece of code and proof, and the outcome of running code, asked for at each block in each way to name it, is as it was at that block; no question changes the database",
        "3 (thorough: 4) blocks of 7 kinds of changes after the first two; 6 accounts, 3 slots",
    )
    .explore(|c| {
        let blocks = k.by_tier(3, 4);
        node::rt().block_on(histories(c, blocks))
    });
    limits(k);
}
