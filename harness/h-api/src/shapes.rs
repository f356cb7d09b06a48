//! J05: what is asked of the chain as a whole, and of the node, is answered from what they are.
use std::sync::OnceLock;

use core_consensus::{SyncStatus, SYNC_STATUS};
use mc::{ensure, ensure_eq, Check, Fail};
use node::{Disk, Genesis};
use protocol::types::*;
use serde_json::{json, Value};

use crate::queries::{outcome, tx, OUTCOMES};
use crate::world::*;

const NEXT_FEE: u64 = 0x539;

/// A block in one of a few ways filled.
async fn fill(chain: &mut Chain, kind: usize) {
    let n = chain.latest() * 10;
    let count = [0, 1, 3][kind % 3] as u64;
    let outcomes: Vec<_> = (0..count).map(|i| outcome((n + i) as usize % OUTCOMES, n + i)).collect();
    let mut h = header(&chain.last().block, outcomes.iter().map(|o| o.gas).sum());
    if kind == 3 {
        h.gas_limit = U64::zero();
    }
    chain.push_with(h, (0..count).map(|i| tx((i % 4) as usize, n + i)).collect(), outcomes).await
}

fn fees(k: &Check) {
    k.part(
        "the history of fees",
        "every count of blocks, newest block and list of percentiles over every chain: the blocks asked for that there are, the lowest first, with their fees and that of the next, how full they were, and a reward for each percentile; refused where the newest is not there or the percentiles do not rise within 0 to 100",
        "chains of 0 to 3 (thorough: 4) blocks of 4 kinds; 10 counts, each number up to 2 after the last and 4 names, 9 lists",
    )
    .explore(|c| {
        let len = c.choose(k.by_tier(4, 5));
        let kinds: Vec<usize> = (0..len).map(|_| c.choose(4)).collect();
        let latest = len as u64;
        let counts = [json!("0x0"), json!("0x1"), json!("0x2"), json!(2), json!("0x4"), json!(5), json!("0x400"), json!("0x401"), json!(100_000), json!(format!("0x{}", "f".repeat(64)))];
        let which = c.choose(counts.len());
        let count = [0u64, 1, 2, 2, 4, 5, 1024, 1024, 1024, 1024][which];
        let mut ids: Vec<(Value, Option<u64>)> = vec![(json!("latest"), Some(latest)), (json!("pending"), Some(latest)), (json!("earliest"), Some(0))];
        ids.extend((0..latest + 3).map(|n| (qty(n), (n <= latest).then_some(n))));
        ids.push((qty(u64::MAX), None));
        let (id, newest) = c.pick(&ids).clone();
        // whether they are as they must be, where that is clear
        let lists = [
            (None, Some(true)),
            (Some(json!([])), Some(true)),
            (Some(json!([50])), Some(true)),
            (Some(json!([0, 99.5, 100])), Some(true)),
            (Some(json!([10, 10])), None),
            (Some(json!([20, 10])), Some(false)),
            (Some(json!([-1, 10])), Some(false)),
            (Some(json!([10, 100.1])), Some(false)),
            (Some(json!([10, 30, 20, 40])), Some(false)),
        ];
        let (list, sound) = c.pick(&lists).clone();
        let mut ask = vec![counts[which].clone(), id.clone()];
        ask.extend(list.clone());
        let ask = Value::Array(ask);
        paused(async {
            let mut chain = Chain::new("j05");
            for kind in &kinds {
                fill(&mut chain, *kind).await;
            }
            let node = Node::over(&chain, 100).await;
            let got = node.http.call("eth_feeHistory", &ask.to_string()).await;
            c.note(|| format!("{kinds:?} {ask}: {got:?}"));
            if sound == Some(false) {
                ensure_eq!(got.err().map(|e| e.code()), Some(-40020), "percentiles that do not rise: {ask}");
                return Ok(());
            }
            if sound.is_none() && got.is_err() {
                return Ok(());
            }
            let Some(newest) = newest else {
                ensure!(got.is_err() || count == 0, "of a block that is not there: {ask} {got:?}");
                return Ok(());
            };
            let got: Value = match got {
                Ok(text) => serde_json::from_str(&text).unwrap(),
                Err(e) => return Err(Fail::new("refused", format!("refused: {ask} {}", e.message()))),
            };
            if count == 0 {
                ensure!(got["gasUsedRatio"].as_array().map(|a| a.is_empty()).unwrap_or(true), "of no blocks: {got}");
                return Ok(());
            }
            c.nontrivial();
            let oldest = (newest + 1).saturating_sub(count);
            let blocks: Vec<_> = (oldest..=newest).map(|n| &chain.blocks[n as usize]).collect();
            same("oldestBlock", &got["oldestBlock"], &qty(oldest))?;
            let mut want: Vec<Value> = blocks.iter().map(|b| qty(b.block.header.base_fee_per_gas.as_u64())).collect();
            let of_next = got["baseFeePerGas"].as_array().and_then(|a| a.last()).cloned().unwrap_or_default();
            let known = chain.blocks.get(newest as usize + 1).map(|b| qty(b.block.header.base_fee_per_gas.as_u64()));
            ensure!(of_next == qty(NEXT_FEE) || Some(&of_next) == known.as_ref(), "fee of the block after: {of_next}");
            want.push(of_next);
            same("baseFeePerGas", &got["baseFeePerGas"], &Value::Array(want))?;
            let full: Vec<f64> = blocks
                .iter()
                .map(|b| {
                    let h = &b.block.header;
                    if h.gas_limit.is_zero() { 0.0 } else { h.gas_used.as_u64() as f64 / h.gas_limit.as_u64() as f64 }
                })
                .collect();
            let told: Vec<f64> = got["gasUsedRatio"].as_array().unwrap().iter().map(|v| v.as_f64().unwrap()).collect();
            ensure_eq!(told.len(), full.len(), "gasUsedRatio: how many");
            for (a, b) in told.iter().zip(&full) {
                ensure!((a - b).abs() < 1e-9, "gasUsedRatio: {a} for {b}");
            }
            let per = list.as_ref().map(|l| l.as_array().unwrap().len()).unwrap_or(0);
            if per > 0 {
                let rows = got["reward"].as_array().cloned().unwrap_or_default();
                ensure_eq!(rows.len(), blocks.len(), "reward: rows");
                for (row, b) in rows.iter().zip(&blocks) {
                    let row = row.as_array().unwrap();
                    ensure_eq!(row.len(), per, "reward: in a row");
                    ensure!(!b.txs.is_empty() || row.iter().all(|v| *v == json!("0x0")), "reward: of an empty block");
                }
            } else {
                ensure!(got.get("reward").map(|v| v.is_null()).unwrap_or(true), "reward: not asked for");
            }
            c.outcome((oldest, newest, per));
            Ok(())
        })
    });
}

/// A chain whose first epoch is short.
fn epochs() -> &'static Genesis {
    static G: OnceLock<Genesis> = OnceLock::new();
    G.get_or_init(|| {
        let meta = |epoch, start, end, keys: &[u8]| {
            let vals: Vec<_> = keys.iter().map(|k| node::val(*k, 1, 1)).collect();
            node::metadata(epoch, start, end, &vals)
        };
        node::genesis("api-epochs", &[(1, U256::exp10(24))], [meta(0, 0, 2, &[0]), meta(1, 3, 199, &[1, 2])])
    })
}

fn metadata(k: &Check) {
    k.part(
        "who makes the blocks",
        "the metadata of every block there is, and of the latest, is that of its epoch; that of no other is given",
        "chains of 0 to 5 blocks across the end of an epoch",
    )
    .explore(|c| {
        let len = c.choose(6) as u64;
        paused(async {
            let g = epochs();
            let first = Held { block: g.block.clone(), txs: vec![], outcomes: vec![] };
            let mut chain = Chain { disk: Disk::new("j05m", &g.dump), blocks: vec![first] };
            for _ in 0..len {
                chain.push(vec![], vec![]).await;
            }
            let node = Node::over(&chain, 100).await;
            let of = |n: u64| {
                let mut v = serde_json::to_value(&g.metas[(n > 2) as usize]).unwrap();
                // who proposed how often is counted as the chain goes on
                v.as_object_mut().unwrap().remove("propose_counter");
                v
            };
            for n in 0..len + 3 {
                if n > len {
                    node.refused("axon_getMetadataByNumber", json!([qty(n)])).await?;
                    continue;
                }
                c.nontrivial();
                let got = node.ask("axon_getMetadataByNumber", json!([qty(n)])).await?;
                same("metadata", &got, &of(n))?;
                // who they are can be told from it by anyone
                let m = &g.metas[(n > 2) as usize];
                let who: Vec<Value> = m.verifier_list.iter().map(|v| hex(v.address)).collect();
                let told: Vec<Value> = got["verifier_list"].as_array().unwrap().iter().map(|v| v["address"].clone()).collect();
                ensure_eq!(told, who, "who");
                ensure_eq!(got["epoch"].clone(), json!(rf::quantity(m.epoch)), "epoch");
            }
            let got = node.ask("axon_getCurrentMetadata", json!([])).await?;
            same("metadata of the latest", &got, &of(len))?;
            let got = node.ask("axon_getHardforkInfo", json!([])).await?;
            ensure!(got.as_object().map(|o| !o.values().any(|v| v == "enabled" || v == "determined")).unwrap_or(false), "hardforks: {got}");
            c.outcome(len);
            Ok(())
        })
    });
}

fn simple(k: &Check) {
    k.part(
        "the node itself",
        "every state of synchronization, with two chain ids: each question about the node is answered from what it is",
        "4 states, 2 chain ids, 20 questions, 5 texts to digest",
    )
    .serial()
    .explore(|c| {
        let id = *c.pick(&[7u64, 0x7fff_ffff_ffff]);
        let state = c.choose(4);
        let (was_id, was) = (protocol::lazy::CHAIN_ID.load_full(), SYNC_STATUS.read().clone());
        protocol::lazy::CHAIN_ID.store(std::sync::Arc::new(id));
        let q = |n: u64| U256::from(n);
        let syncing = |a: u64, b: u64, d: u64| json!({ "startingBlock": qty(a), "currentBlock": qty(b), "highestBlock": qty(d) });
        let (set, want) = match state {
            0 => (SyncStatus::False, json!(false)),
            1 => (SyncStatus::Syncing { start: q(0), current: q(0), highest: q(9) }, syncing(0, 0, 9)),
            2 => (SyncStatus::Syncing { start: q(3), current: q(5), highest: q(9) }, syncing(3, 5, 9)),
            _ => (SyncStatus::Syncing { start: q(1), current: q(2), highest: q(u64::MAX) }, syncing(1, 2, u64::MAX)),
        };
        *SYNC_STATUS.write() = set;
        let r = paused(async {
            let mut chain = Chain::new("j05");
            fill(&mut chain, 1).await;
            let node = Node::over(&chain, 100).await;
            c.nontrivial();
            let hash = hex(chain.last().block.hash());
            for (method, params, want) in [
                ("eth_syncing", json!([]), want),
                ("eth_chainId", json!([]), qty(id)),
                ("net_version", json!([]), json!(id.to_string())),
                ("web3_clientVersion", json!([]), json!(VERSION)),
                ("net_listening", json!([]), json!(true)),
                ("net_peerCount", json!([]), json!("0x3")),
                ("eth_mining", json!([]), json!(false)),
                ("eth_coinbase", json!([]), json!(format!("0x{}", "0".repeat(40)))),
                ("eth_accounts", json!([]), json!([])),
                ("eth_hashrate", json!([]), json!("0x1")),
                ("eth_gasPrice", json!([]), json!("0x8")),
                ("eth_protocolVersion", json!([]), serde_json::to_value(&**protocol::lazy::PROTOCOL_VERSION.load()).unwrap()),
                ("eth_submitWork", json!(["0x1", hash, "0x02"]), json!(true)),
                ("eth_submitHashrate", json!(["0x01", "0x02"]), json!(true)),
                ("eth_getUncleByBlockHashAndIndex", json!([hash, "0x0"]), Value::Null),
                ("eth_getUncleByBlockNumberAndIndex", json!(["0x1", "0x0"]), Value::Null),
                ("eth_getUncleCountByBlockHash", json!([hash]), json!("0x0")),
                ("eth_getUncleCountByBlockNumber", json!(["0x1"]), json!("0x0")),
                ("eth_blockNumber", json!([]), json!("0x1")),
            ] {
                for server in [&node.http, &node.ws] {
                    let got = server.call(method, &params.to_string()).await;
                    let got: Value = match got {
                        Ok(t) => serde_json::from_str(&t).unwrap(),
                        Err(e) => return Err(Fail::new("refused", format!("refused: {method} {}", e.message()))),
                    };
                    same(method, &got, &want)?;
                }
            }
            for len in [0usize, 1, 31, 136, 300] {
                let text: Vec<u8> = (0..len).map(|i| i as u8).collect();
                same("web3_sha3", &node.ask("web3_sha3", json!([hex(&text)])).await?, &hex(rf::keccak256(&text)))?;
            }
            c.outcome((state, id));
            Ok(())
        });
        *SYNC_STATUS.write() = was;
        protocol::lazy::CHAIN_ID.store(was_id);
        r
    });
}

pub fn run(k: &Check) {
    genesis();
    epochs();
    k.assume("the values of the rewards are not judged: the documents and the code differ in what they are of");
    fees(k);
    metadata(k);
    simple(k);
}
