//! K01: a chain begins as its specification says.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use common_config_parser::types::spec::{ChainSpec, Genesis as Head, HardforkName, InitialAccount};
use core_executor::system_contract::metadata::HARDFORK_INFO;
use core_executor::{AxonExecutorReadOnlyAdapter, MetadataHandle};
use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use node::{val, Disk, Val};
use protocol::traits::{Context, ReadOnlyStorage};
use protocol::types::*;
use rocksdb::control;
use run_consensus::Started;
use serde_json::Value;

use crate::world::*;

pub fn spec(vals: &[Val], hardforks: Vec<HardforkName>, accounts: &[(u8, U256)], start: u64, end: u64) -> ChainSpec {
    ChainSpec {
        genesis:  Head { timestamp: 1, hardforks, base_fee_per_gas: 0x539u64.into(), chain_id: kit::CHAIN },
        accounts: accounts.iter().map(|(i, b)| InitialAccount { address: kit::sender(*i), balance: *b }).collect(),
        params:   SpecMetadata {
            version:          MetadataVersion { start, end },
            epoch:            0,
            verifier_list:    vals
                .iter()
                .map(|v| {
                    let e = node::validator(v);
                    Validator { bls_pub_key: e.bls_pub_key, pub_key: e.pub_key, propose_weight: e.propose_weight, vote_weight: e.vote_weight }
                })
                .collect(),
            propose_counter:  vec![],
            consensus_config: node::consensus_config(),
        },
    }
}

/// `axon init`, as a new process does it.
pub fn init(dir: &Dir, spec: &ChainSpec) -> Result<(), String> {
    HARDFORK_INFO.swap(Arc::new(H256::zero()));
    let r = core_run::init(config(dir, 0, (false, false)), spec.clone()).map_err(|e| e.to_string());
    r
}

pub fn path(dir: &Dir) -> PathBuf {
    dir.0.join("rocksdb")
}

/// The store of the database is kept in memory; its directory has to be there for the node to see.
pub fn place(dir: &Dir) {
    std::fs::create_dir_all(path(dir)).unwrap();
}

pub fn block_of(dir: &Dir) -> Block {
    let disk = Disk::open(path(dir));
    node::rt().block_on(disk.storage.get_latest_block(Context::new())).unwrap()
}

fn number(v: &Value) -> Option<U256> {
    let s = v.as_str()?;
    U256::from_str_radix(s.strip_prefix("0x")?, 16).ok()
}

async fn json(method: &str, params: String) -> Value {
    let text = ask(HTTP, method, &params).await;
    serde_json::from_str(&text).unwrap_or(Value::String(text))
}

async fn told(method: &str, params: String, want: U256) -> Result<(), Fail> {
    let got = json(method, params.clone()).await;
    ensure!(number(&got) == Some(want), "the genesis is not the one of the specification: {}{} is {} instead of {:#x}", method, params, got, want);
    Ok(())
}

fn metadata(path: &std::path::Path) -> MetadataHandle {
    let disk = Disk::open(path.to_owned());
    let header = futures::executor::block_on(disk.storage.get_latest_block(Context::new())).unwrap().header;
    let root = AxonExecutorReadOnlyAdapter::from_root(header.state_root, disk.trie, disk.storage, Proposal::new_without_state_root(&header).into())
        .unwrap()
        .get_metadata_root();
    MetadataHandle::new(root)
}

fn field(v: &Value, name: &str, want: U256) -> Result<(), Fail> {
    ensure!(number(&v[name]) == Some(want), "the genesis is not the one of the specification: {} is {} instead of {:#x}", name, v[name], want);
    Ok(())
}

/// What a node that starts on the new chain sees and tells.
async fn looks(s: Started, spec: ChainSpec, vals: Vec<Val>, place: PathBuf) -> Result<H256, Fail> {
    ensure_eq!(s.height, 0, "height of a new chain");
    let got: Vec<_> = s.validators.iter().map(|v| (v.pub_key.clone(), v.propose_weight, v.vote_weight)).collect();
    let want: Vec<_> = vals.iter().map(|v| (node::public(v.key), v.propose, v.vote)).collect();
    ensure!(got == want, "the first block is not left to the validators of the specification: {:?}", got);
    let k = &spec.params.consensus_config;
    let t = s.timer.as_ref().ok_or_else(|| Fail::new("no timer is set", String::new()))?;
    ensure!(
        (s.interval, t.propose_ratio, t.prevote_ratio, t.precommit_ratio, t.brake_ratio) == (k.interval, k.propose_ratio, k.prevote_ratio, k.precommit_ratio, k.brake_ratio),
        "the timers are not those of the specification: {} {:?}", s.interval, (t.propose_ratio, t.prevote_ratio, t.precommit_ratio, t.brake_ratio)
    );
    let st = s.status.inner();
    ensure!((st.tx_num_limit, st.max_tx_size) == (k.tx_num_limit, k.max_tx_size.into()), "the limits are not those of the specification: {:?}", st);
    ensure!(st.proof == Proof::default() && st.last_number == 0, "the status is not that of a new chain: {:?}", st);

    let b = json("eth_getBlockByNumber", "[\"0x0\", true]".into()).await;
    field(&b, "number", 0.into())?;
    field(&b, "timestamp", spec.genesis.timestamp.into())?;
    field(&b, "baseFeePerGas", spec.genesis.base_fee_per_gas.low_u64().into())?;
    field(&b, "parentHash", 0.into())?;
    field(&b, "gasUsed", 0.into())?;
    ensure!(b["transactions"] == Value::Array(vec![]), "the genesis has transactions: {}", b["transactions"]);
    let hash = number(&b["hash"]).ok_or_else(|| Fail::new("the genesis has no hash", b.to_string()))?;
    let mut bytes = [0u8; 32];
    hash.to_big_endian(&mut bytes);
    let hash = H256(bytes);
    ensure!(st.prev_hash == hash, "the first block is built on another genesis: {:?} instead of {:?}", st.prev_hash, hash);
    told("eth_blockNumber", "[]".into(), 0.into()).await?;
    told("eth_chainId", "[]".into(), spec.genesis.chain_id.into()).await?;
    ensure_eq!(s.node_info.chain_id, spec.genesis.chain_id, "chain id of the consensus");

    let wanted: BTreeMap<H160, U256> = spec.accounts.iter().map(|a| (a.address, a.balance)).collect();
    for i in 10..14u8 {
        let who = format!("[\"0x{}\", \"latest\"]", rf::hex(kit::sender(i).as_bytes()));
        told("eth_getBalance", who.clone(), wanted.get(&kit::sender(i)).copied().unwrap_or_default()).await?;
        told("eth_getTransactionCount", who.clone(), 0.into()).await?;
        let code = json("eth_getCode", who).await;
        ensure!(code == Value::String("0x".into()), "an account of the genesis has code: {}", code);
    }

    let end = spec.params.version.end;
    let meta = metadata(&place);
    for (n, epoch, range) in [
        (1, 0u64, (spec.params.version.start, end)),
        (end, 0, (spec.params.version.start, end)),
        (end + 1, 1, (end + 1, 2 * end)),
        (2 * end, 1, (end + 1, 2 * end)),
    ] {
        let m = meta.get_metadata_by_block_number(n).map_err(|e| Fail::new("the specification gives a block no validators", format!("{n}: {e}")))?;
        ensure!(
            m.epoch == epoch && (m.version.start, m.version.end) == range,
            "block {} is not in the epoch of the specification: {} {:?} instead of {} {:?}", n, m.epoch, m.version, epoch, range
        );
        let want: Vec<_> = vals.iter().map(node::validator).collect();
        ensure!(m.verifier_list == want, "the validators of block {} are {:?} instead of {:?}", n, m.verifier_list, want);
        let mut c = m.consensus_config.clone();
        c.max_contract_limit = k.max_contract_limit;
        ensure!(c == *k, "the settings are {:?} instead of {:?}", m.consensus_config, k);
        let max = if flags(&spec.genesis.hardforks) == 1 { k.max_contract_limit } else { 0x6000 };
        ensure!(
            m.consensus_config.max_contract_limit == max,
            "the limit of contract sizes in the specification is lost: {:#x} instead of {:#x}", m.consensus_config.max_contract_limit, max
        );
    }
    ensure!(meta.get_metadata_by_block_number(2 * end + 1).is_err(), "a block after the two epochs has metadata");
    let m = json("axon_getCurrentMetadata", "[]".into()).await;
    ensure!(
        number(&m["epoch"]) == Some(0.into()) && m["verifier_list"].as_array().map(Vec::len) == Some(vals.len()),
        "users are told of another epoch: {}", m
    );

    let forks = json("axon_getHardforkInfo", "[]".into()).await;
    let want = if flags(&spec.genesis.hardforks) == 1 { "{\"Andromeda\":\"enabled\"}" } else { "{}" };
    ensure!(forks.to_string() == want, "the hardforks are {} instead of {}", forks, want);
    ensure!(s.node_info.hardfork_proposals.read().unwrap().is_none(), "a new chain announces a hardfork");
    Ok(hash)
}

/// An empty list asks for every hardfork.
pub fn flags(list: &[HardforkName]) -> u64 {
    if list.is_empty() || list.contains(&HardforkName::Andromeda) {
        1
    } else {
        0
    }
}

fn begins(dir: &Dir, spec: &ChainSpec, vals: &[Val], me: u8) -> Result<H256, Fail> {
    let (s, v, p) = (spec.clone(), vals.to_vec(), path(dir));
    let (r, seen) = run_node(config(dir, me, (true, false)), None, move |started, _| async move { looks(started, s, v, p).await });
    r.map_err(|e| Fail::new("a new chain cannot be run", e.to_string()))?;
    seen.ok_or_else(|| Fail::new("the consensus is not started", String::new()))?
}

fn sets() -> [Vec<Val>; 4] {
    [vec![val(0, 1, 1)], vec![val(1, 2, 3), val(0, 1, 1)], vec![val(2, 3, 4), val(0, 1, 2), val(1, 2, 1)], vec![val(0, 1, 1), val(1, 1, 1), val(2, 1, 1), val(3, 1, 1)]]
}

fn lists() -> [Vec<(u8, U256)>; 7] {
    let big = U256::MAX;
    [
        vec![(10, 1000.into()), (11, 5.into())],
        vec![],
        vec![(10, 1000.into())],
        vec![(11, 5.into()), (10, 1000.into())],
        vec![(10, 0.into())],
        vec![(10, big), (11, 1.into())],
        vec![(10, 1.into()), (11, 2.into()), (12, 3.into()), (13, 4.into())],
    ]
}

type Seen = Mutex<(BTreeMap<String, H256>, BTreeMap<H256, String>)>;

fn specified(c: &mut Chooser, seen: &Seen) -> Result<(), Fail> {
    let accounts = lists()[c.deviate(7)].clone();
    let vals = sets()[c.deviate(4)].clone();
    let hardforks = [vec![], vec![HardforkName::None], vec![HardforkName::Andromeda], vec![HardforkName::None, HardforkName::Andromeda]][c.deviate(4)].clone();
    let (start, end) = *c.pick_dev(&[(1, 2), (0, 2), (1, 1), (1, 100_000_000)]);
    let mut s = spec(&vals, hardforks, &accounts, start, end);
    s.genesis.timestamp = *c.pick_dev(&[1, 0, 1_700_000_000]);
    s.genesis.base_fee_per_gas = (*c.pick_dev(&[0x539u64, 0, 7])).into();
    s.genesis.chain_id = *c.pick_dev(&[kit::CHAIN, 1, 0x4178_6f6e]);
    let k = &mut s.params.consensus_config;
    match c.deviate(5) {
        0 => {}
        1 => k.gas_limit = 31_000_000,
        2 => (k.interval, k.tx_num_limit) = (1500, 777),
        3 => (k.propose_ratio, k.prevote_ratio, k.precommit_ratio, k.brake_ratio) = (1, 2, 3, 4),
        _ => k.max_tx_size = 3000,
    }
    let me = *c.pick_dev(&[0u8, 1, 6]);
    let basic = spec(&sets()[0], vec![], &lists()[0], 1, 2);
    if format!("{s:?}") != format!("{basic:?}") {
        c.nontrivial();
    }
    c.note(|| format!("{s:?}"));
    c.transition();
    let dir = Dir::new();
    init(&dir, &s).map_err(|e| Fail::new("a chain cannot be begun", e))?;
    place(&dir);
    let made = control::dump(&path(&dir));
    let hash = begins(&dir, &s, &vals, me)?;
    // another node with the same specification has the same chain
    let other = Dir::new();
    init(&other, &s).map_err(|e| Fail::new("a chain cannot be begun", e))?;
    ensure!(control::dump(&path(&other)) == made, "two nodes with one specification begin differently");
    // and one with another has another
    let mut same = s.clone();
    same.accounts.sort_by_key(|a| a.address);
    let what = format!("{:?} {:?} {:?} {}", same.genesis.timestamp, same.genesis.base_fee_per_gas, same.genesis.chain_id, flags(&same.genesis.hardforks)) + &format!("{:?} {:?}", same.accounts, same.params);
    let mut all = seen.lock().unwrap();
    let first = *all.0.entry(what.clone()).or_insert(hash);
    ensure!(first == hash, "the genesis depends on more than the specification says: {} has {:?} and {:?}", what, first, hash);
    let owner = all.1.entry(hash).or_insert_with(|| what.clone()).clone();
    ensure!(owner == what, "two specifications begin the same chain: {} and {}", owner, what);
    c.outcome(hash);
    Ok(())
}

fn settings(c: &mut Chooser) -> Result<(), Fail> {
    let vals = sets()[0].clone();
    let mut s = spec(&vals, vec![HardforkName::Andromeda], &lists()[0], 1, 2);
    s.params.consensus_config.max_contract_limit = *c.pick(&[0x6000u64, 0x8000, 0x100]);
    if s.params.consensus_config.max_contract_limit != 0x6000 {
        c.nontrivial();
    }
    c.note(|| format!("limit {:#x}", s.params.consensus_config.max_contract_limit));
    let dir = Dir::new();
    init(&dir, &s).map_err(|e| Fail::new("a chain cannot be begun", e))?;
    place(&dir);
    c.transition();
    begins(&dir, &s, &vals, 0)?;
    c.outcome(s.params.consensus_config.max_contract_limit);
    Ok(())
}

/// The node dies, or the disk fails, while the chain is begun.
fn cut(c: &mut Chooser) -> Result<(), Fail> {
    let vals = sets()[c.choose(2)].clone();
    let s = spec(&vals, [vec![], vec![HardforkName::None]][c.choose(2)].clone(), &lists()[[1, 0, 6][c.choose(3)]], 1, 2);
    let whole = Dir::new();
    init(&whole, &s).map_err(|e| Fail::new("a chain cannot be begun", e))?;
    let steps = control::journal_len(&path(&whole));
    let complete = control::dump(&path(&whole));
    let dir = Dir::new();
    let fails = c.flip();
    let at = c.choose(steps + usize::from(!fails));
    c.note(|| format!("{} validators, {} accounts, {} {at} of {steps}", vals.len(), s.accounts.len(), if fails { "write fails:" } else { "dies after" }));
    if fails {
        control::load(&path(&dir), Default::default());
        control::fail_write(&path(&dir), Some(at));
        let r = mc::no_panic(|| init(&dir, &s));
        ensure!(!matches!(r, Ok(Ok(()))), "a chain is begun although the disk failed: {} of {}", at, steps);
        control::fail_write(&path(&dir), None);
    } else {
        init(&dir, &s).map_err(|e| Fail::new("a chain cannot be begun", e))?;
        control::truncate(&path(&dir), at);
    }
    place(&dir);
    if at < steps {
        c.nontrivial();
    }
    c.transition();
    // what is left is refused, or it is the whole chain
    let (s2, v2, p) = (s.clone(), vals.clone(), path(&dir));
    let (r, seen) = run_node(config(&dir, 0, (true, false)), None, move |started, _| async move { looks(started, s2, v2, p).await });
    c.outcome((steps, at, r.is_ok()));
    match (r, seen) {
        (Err(_), None) => {
            ensure!(at < steps || fails, "a new chain cannot be run");
            Ok(())
        }
        (_, None) => Err(Fail::new("the consensus is not started", String::new())),
        (_, Some(r)) => {
            r?;
            let left = control::dump(&path(&dir));
            for (column, was) in &complete {
                for k in was.keys() {
                    ensure!(left.get(column).is_some_and(|x| x.contains_key(k)), "a chain begun in part is run: {} {} is missing after {} of {} steps", column, rf::hex(k), at, steps);
                }
            }
            Ok(())
        }
    }
}

fn again(c: &mut Chooser) -> Result<(), Fail> {
    let vals = sets()[0].clone();
    let first = spec(&vals, vec![], &lists()[0], 1, 2);
    let second = spec(&sets()[c.choose(2)], vec![], &lists()[c.choose(2)], 1, 2);
    let there = c.choose(4);
    c.note(|| format!("{} is there", ["nothing", "an empty directory", "a file", "a chain"][there]));
    c.transition();
    let dir = Dir::new();
    match there {
        0 => {
            // nothing to run, and nothing comes of trying
            let (r, seen) = run_node(config(&dir, 0, (true, false)), None, |_, _| async {});
            ensure!(r.is_err() && seen.is_none(), "a node runs without a chain");
            ensure!(!path(&dir).exists() && !control::exists(&path(&dir)), "a node without a chain makes one");
            init(&dir, &second).map_err(|e| Fail::new("a chain cannot be begun", e))?;
        }
        _ => {
            c.nontrivial();
            match there {
                1 => place(&dir),
                2 => std::fs::write(path(&dir), b"x").unwrap(),
                _ => {
                    init(&dir, &first).map_err(|e| Fail::new("a chain cannot be begun", e))?;
                    place(&dir);
                }
            }
            let before = control::exists(&path(&dir)).then(|| control::dump(&path(&dir)));
            let r = init(&dir, &second);
            ensure!(r.is_err(), "a chain is begun over another");
            let after = control::exists(&path(&dir)).then(|| control::dump(&path(&dir)));
            ensure!(before == after, "a chain that was there is changed");
            if there == 3 {
                begins(&dir, &first, &vals, 0)?;
            }
        }
    }
    c.outcome(there);
    Ok(())
}

pub fn run(check: &Check) {
    let seen = Seen::default();
    check
        .part(
            "genesis",
            "the specification differs from the basic one",
            "specifications that differ from a basic one in up to some of nine parts: accounts, validators, hardforks, epoch, time, fee, chain id, settings, the node's key",
        )
        .deviations(check.by_tier(2, 3))
        .serial()
        .explore(|c| specified(c, &seen));
    check.part("limit", "the limit is not the usual one", "three limits of contract sizes in a specification that has them").serial().explore(settings);
    check
        .part("cut", "the chain is not begun whole", "twelve specifications x the process dies after, or the disk fails at, every step of writing the genesis")
        .serial()
        .explore(cut);
    check.part("again", "something is there", "nothing, an empty directory, a file or a chain is there x four specifications").serial().explore(again);
}
