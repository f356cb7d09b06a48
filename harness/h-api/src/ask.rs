//! J04: every request is answered, and none takes the service away from the others.
use std::time::Duration;

use mc::{ensure, ensure_eq, Check, Chooser, Fail};
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use serde_json::{json, Value};

use crate::queries::{outcome, tx};
use crate::world::*;

/// A well-formed request of each kind.
fn requests(chain: &Chain, filter: &Value) -> Vec<(&'static str, Value)> {
    let b = chain.last();
    let (block, txh) = (hex(b.block.hash()), hex(b.txs[0].transaction.hash));
    let who = hex(kit::sender(1));
    let raw = hex(tx(0, 77).transaction.encode().unwrap());
    let logs = json!({ "fromBlock": "0x0", "toBlock": "latest", "address": [hex(kit::h160(1))], "topics": [null, hex(kit::h256(1)), [hex(kit::h256(2)), null]] });
    let call = json!({
        "type": "0x2", "from": who, "to": hex(kit::h160(0xabcd)), "gasPrice": "0x8", "maxFeePerGas": "0x8", "gas": "0xffff", "value": "0x1", "data": "0x0102",
        "nonce": "0x0", "accessList": [{ "address": who, "storageKeys": [txh] }], "chainId": "0x7", "maxPriorityFeePerGas": "0x1",
    });
    vec![
        ("eth_sendRawTransaction", json!([raw])),
        ("eth_getTransactionByHash", json!([txh])),
        ("eth_getBlockByNumber", json!(["0x1", true])),
        ("eth_getBlockByHash", json!([block, true])),
        ("eth_blockNumber", json!([])),
        ("eth_getTransactionCount", json!([who, "pending"])),
        ("eth_getBlockTransactionCountByNumber", json!(["0x1"])),
        ("eth_getBalance", json!([who, { "blockHash": block }])),
        ("eth_call", json!([call, "latest"])),
        ("eth_estimateGas", json!([call, { "blockNumber": "0x1" }])),
        ("eth_getCode", json!([who, "0x1"])),
        ("eth_getTransactionReceipt", json!([txh])),
        ("eth_gasPrice", json!([])),
        ("eth_getLogs", json!([logs])),
        ("eth_getLogs", json!([{ "blockHash": block }])),
        ("eth_feeHistory", json!(["0x2", "latest", [10.0, 50.5]])),
        ("eth_accounts", json!([])),
        ("eth_getBlockTransactionCountByHash", json!([block])),
        ("eth_getTransactionByBlockHashAndIndex", json!([block, "0x0"])),
        ("eth_getTransactionByBlockNumberAndIndex", json!(["latest", "0x0"])),
        ("net_peerCount", json!([])),
        ("eth_getStorageAt", json!([who, "0x0", "latest"])),
        ("eth_protocolVersion", json!([])),
        ("eth_getUncleByBlockHashAndIndex", json!([block, "0x0"])),
        ("eth_getUncleByBlockNumberAndIndex", json!(["latest", "0x0"])),
        ("eth_getUncleCountByBlockHash", json!([block])),
        ("eth_getUncleCountByBlockNumber", json!(["0x1"])),
        ("eth_getProof", json!([who, ["0x0", "0x1"], "latest"])),
        ("eth_newFilter", json!([logs])),
        ("eth_newBlockFilter", json!([])),
        ("eth_getFilterLogs", json!([filter])),
        ("eth_getFilterChanges", json!([filter])),
        ("eth_uninstallFilter", json!([filter])),
        ("eth_chainId", json!([])),
        ("net_version", json!([])),
        ("web3_clientVersion", json!([])),
        ("net_listening", json!([])),
        ("eth_syncing", json!([])),
        ("eth_mining", json!([])),
        ("eth_coinbase", json!([])),
        ("eth_hashrate", json!([])),
        ("eth_submitWork", json!(["0x1", txh, "0x02"])),
        ("eth_submitHashrate", json!(["0x01", "0x02"])),
        ("web3_sha3", json!(["0x01"])),
        ("pprof", json!([false])),
        ("axon_getBlockById", json!(["latest"])),
        ("axon_getProofById", json!(["0x1"])),
        ("axon_getMetadataByNumber", json!(["0x1"])),
        ("axon_getProposalByNumber", json!(["0x1"])),
        ("axon_getCurrentMetadata", json!([])),
        ("axon_getCkbRelatedInfo", json!([])),
        ("axon_getHardforkInfo", json!([])),
        ("ckb_getBlockHeaderByHash", json!([txh])),
        ("ckb_getLiveCell", json!([{ "tx_hash": txh, "index": "0x0" }, true])),
        ("eth_subscribe", json!(["logs", { "address": who, "topics": [null, hex(kit::h256(1))] }])),
        ("eth_subscribe", json!(["newHeads"])),
        ("eth_subscribe", json!(["syncing"])),
        ("eth_unsubscribe", json!(["0x00"])),
    ]
}

fn odd() -> Vec<Value> {
    let mut v: Vec<Value> = ["", "0", "0x", "x", "0x0", "0x1", "0X1", "0x01", "0x+1", "0x-1", "-0x1", " 0x1", "0x1 ", "0xg", "00", "1", "é", "0é", "0xé", "日本", "\u{0}", "latest", "pending", "earliest", "safe", "Latest"]
        .iter()
        .map(|s| json!(s))
        .collect();
    for n in [15usize, 16, 17, 39, 40, 41, 63, 64, 65, 66, 128, 1000] {
        v.push(json!(format!("0x{}", "f".repeat(n))));
    }
    v.extend([
        json!(format!("0x8{}", "0".repeat(15))),
        json!(format!("0x1{}", "0".repeat(16))),
        json!(format!("0x8{}", "0".repeat(63))),
        json!("f".repeat(64)),
        json!("0xffffffffffffffffffffffffffffffffffffff01"),
        json!("0x0000000000000000000000000000000000000001"),
        json!("0x0000000000000000000000000000000000000102"),
        Value::Null,
        json!(true),
        json!(0),
        json!(-1),
        json!(1),
        json!(1.5),
        json!(101),
        json!(1e300),
        json!(u64::MAX),
        json!([]),
        json!([null]),
        json!([[]]),
        json!({}),
        json!({ "blockNumber": "0x1", "blockHash": "0x" }),
        json!({ "blockHash": "0xé" }),
        json!({ "blockNumber": 1 }),
        json!({ "unknown": "0x1" }),
        json!(vec![Value::Null; 300]),
    ]);
    v
}

/// Every place in a value.
fn places(v: &Value, at: &mut Vec<String>, all: &mut Vec<Vec<String>>) {
    all.push(at.clone());
    let inner: Vec<(String, &Value)> = match v {
        Value::Array(a) => a.iter().enumerate().map(|(i, x)| (i.to_string(), x)).collect(),
        Value::Object(o) => o.iter().map(|(k, x)| (k.clone(), x)).collect(),
        _ => return,
    };
    for (k, x) in inner {
        at.push(k);
        places(x, at, all);
        at.pop();
    }
}

/// The value with what is at the place replaced, or taken out.
fn put(v: &mut Value, at: &[String], x: Option<&Value>) {
    let Some((first, rest)) = at.split_first() else {
        if let Some(x) = x {
            *v = x.clone();
        }
        return;
    };
    match v {
        Value::Array(a) => {
            let i: usize = first.parse().unwrap();
            match x {
                None if rest.is_empty() => drop(a.remove(i)),
                _ => put(&mut a[i], rest, x),
            }
        }
        Value::Object(o) => match x {
            None if rest.is_empty() => drop(o.remove(first)),
            _ => put(o.get_mut(first).unwrap(), rest, x),
        },
        _ => {}
    }
}

/// The others are served as ever.
async fn served(chain: &mut Chain, node: &Node, client: &mut jsonrpsee::server::Client, sub: &str, subscribed: bool) -> Result<(), Fail> {
    let id = node.ask("eth_newBlockFilter", json!([])).await?;
    let logs = node.ask("eth_newFilter", json!([{}])).await?;
    chain.push(vec![], vec![]).await;
    let hash = hex(chain.last().block.hash());
    same("blocks to others", &node.ask("eth_getFilterChanges", json!([id])).await?, &json!([hash]))?;
    same("logs to others", &node.ask("eth_getFilterChanges", json!([logs])).await?, &json!([]))?;
    same("number", &node.ask("eth_blockNumber", json!([])).await?, &qty(chain.latest()))?;
    if subscribed {
        tokio::time::sleep(Duration::from_secs(3)).await;
        let told: Vec<Value> = client.notices().into_iter().filter(|n| n.subscription == sub).map(|n| n.value["number"].clone()).collect();
        ensure_eq!(told.last().cloned(), Some(qty(chain.latest())), "notices to others");
    }
    Ok(())
}

async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}

async fn world() -> (Chain, Node) {
    let mut chain = Chain::new("j04");
    chain.push(vec![tx(0, 1), tx(3, 2)], vec![outcome(0, 1), outcome(1, 2)]).await;
    let node = Node::over(&chain, 100).await;
    settle().await;
    (chain, node)
}

async fn put_oddly(c: &mut Chooser, chain: &mut Chain, node: &Node, which: usize, subscribes: bool) -> Result<(), Fail> {
    let mut other = node.ws.connect();
    let sub = other.call("eth_subscribe", "[\"newHeads\"]").await.map_err(|e| Fail::new("refused", format!("refused: {}", e.message())))?;
    settle().await;
    let filter = node.ask("eth_newFilter", json!([{}])).await?;
    let (method, good) = requests(chain, &filter)[which].clone();
    let mut all = vec![];
    places(&good, &mut vec![], &mut all);
    let odd = odd();
    let mut params = good.clone();
    // which place, and what is put there
    let mut sound = true;
    for _ in 0..2 {
        let n = c.pick_dev(&(0..=all.len()).collect::<Vec<_>>()).clone();
        if n == 0 {
            break;
        }
        sound = false;
        let place = &all[n - 1];
        // it may be gone with what was replaced before
        let mut here = Some(&params);
        for k in place {
            here = here.and_then(|v| v.get(k).or_else(|| k.parse::<usize>().ok().and_then(|i| v.get(i))));
        }
        if here.is_none() {
            continue;
        }
        let x = c.choose(odd.len() + 1);
        put(&mut params, place, odd.get(x));
    }
    let text = match sound {
        true => match c.choose(5) {
            0 => params.to_string(),
            1 => String::new(),
            2 => "[".to_string(),
            3 => "\"0x1\"".to_string(),
            // one too many
            _ => {
                let mut a = params.as_array().unwrap().clone();
                a.push(json!("0x1"));
                Value::Array(a).to_string()
            }
        },
        false => params.to_string(),
    };
    c.note(|| format!("{method} {}", &text[..text.len().min(300)]));
    let mut one = node.ws.connect();
    let (a, b) = if method.contains("subscribe") {
        (one.call(method, &text).await, None)
    } else {
        (node.http.call(method, &text).await, Some(one.call(method, &text).await))
    };
    if text == good.to_string() && !["eth_unsubscribe", "axon_getCkbRelatedInfo"].contains(&method) {
        c.nontrivial();
        ensure!(a.is_ok(), "refused: {method} {text}: {a:?}");
    }
    c.outcome((method, a.as_ref().err().map(|e| e.code())));
    drop(b);
    one.notices();
    drop(one);
    served(chain, node, &mut other, &sub, subscribes).await
}

fn oddly(k: &Check) {
    let total = {
        let rt = node::rt();
        rt.block_on(async {
            let (chain, _) = world().await;
            requests(&chain, &json!("0x1")).len()
        })
    };
    k.part(
        "requests of any kind",
        "every method with any part of its parameters left out or replaced by any of many values: answered with a result or an error, by both servers, and the others are served as before",
        "58 requests of 55 methods, each place in their parameters, 63 replacements; 1 place at once (thorough: 2)",
    )
    .deviations(k.by_tier(1, 2))
    .explore(|c| {
        let which = c.choose(total);
        let body = |c: &mut Chooser, runs: bool| {
            let f = async {
                let (mut chain, node) = world().await;
                put_oddly(c, &mut chain, &node, which, !runs).await
            };
            if runs {
                node::rt().block_on(f)
            } else {
                paused(f)
            }
        };
        // what runs code needs more than one thread
        body(c, [8, 9].contains(&which))
    });
}

fn leaving(k: &Check) {
    k.part(
        "clients that leave",
        "every pair of requests whose clients leave at any point while they are answered: the others are served as before",
        "pairs of 9 requests, each left after 0 to 7 turns",
    )
    .explore(|c| {
        paused(async {
            let (mut chain, node) = world().await;
            let mut other = node.ws.connect();
            let sub = other.call("eth_subscribe", "[\"newHeads\"]").await.map_err(|e| Fail::new("refused", format!("refused: {}", e.message())))?;
            settle().await;
            let f = node.ask("eth_newFilter", json!([{}])).await?;
            let b = node.ask("eth_newBlockFilter", json!([])).await?;
            let menu = [
                ("eth_newFilter", json!([{}])),
                ("eth_newBlockFilter", json!([])),
                ("eth_getFilterChanges", json!([f])),
                ("eth_getFilterLogs", json!([b])),
                ("eth_getFilterChanges", json!(["0x1"])),
                ("eth_uninstallFilter", json!([f])),
                ("eth_subscribe", json!(["logs", {}])),
                ("eth_subscribe", json!(["newHeads"])),
                ("eth_sendRawTransaction", json!([hex(tx(0, 77).transaction.encode().unwrap())])),
            ];
            for _ in 0..2 {
                let (method, params) = c.pick(&menu).clone();
                let turns = c.choose(8);
                c.note(|| format!("{method} left after {turns}"));
                let (http, ws) = (node.http.clone(), node.ws.clone());
                let task = tokio::spawn(async move {
                    if method == "eth_subscribe" {
                        let client = ws.connect();
                        drop(client.call(method, &params.to_string()).await);
                    } else {
                        drop(http.call(method, &params.to_string()).await);
                    }
                });
                for _ in 0..turns {
                    tokio::task::yield_now().await;
                }
                if !task.is_finished() {
                    c.nontrivial();
                }
                task.abort();
                c.transition();
            }
            served(&mut chain, &node, &mut other, &sub, true).await
        })
    });
}

fn sending(k: &Check) {
    k.part(
        "transactions sent in",
        "every combination of price, gas, form and damage: one within the limits that is signed is put in the pool as it is and its hash given; any other is refused with the reason, and not put there",
        "4 forms, 7 prices, 7 amounts of gas, 8 kinds of damage; pools that take it and that do not",
    )
    .explore(|c| {
        let form = c.choose(5);
        let price = *c.pick(&[0u64, 1, 8, 499_999_999_999, 500_000_000_000, 500_000_000_001, u64::MAX]);
        let gas = *c.pick(&[0u64, 20_999, 21_000, 1_000_000, GAS_CAP, GAS_CAP + 1, u64::MAX]);
        let refuses = c.flip();
        let to = Some(kit::h160(3));
        let unsigned = match form {
            0 => kit::legacy(1, price, gas, to, 5, &[1, 2]),
            1 => kit::legacy(1, price, gas, None, 0, &[]),
            2 => UnsignedTransaction::Eip2930(Eip2930Transaction {
                nonce: 1.into(),
                gas_price: price.into(),
                gas_limit: gas.into(),
                action: kit::action(to),
                value: 7.into(),
                data: Bytes::new(),
                access_list: vec![],
            }),
            3 => kit::dynamic(1, 0, price, gas, to, 5, &[1]),
            _ => kit::dynamic(1, price, price, gas, None, 5, &[1]),
        };
        let stx = kit::sign(unsigned, (form != 1).then_some(kit::CHAIN), 1);
        let raw = stx.transaction.encode().unwrap().to_vec();
        let damage = c.choose(8);
        let mut sent = raw.clone();
        match damage {
            1 => drop(sent.pop()),
            2 => sent.push(0),
            3 => sent.clear(),
            4 => drop(sent.remove(0)),
            5 => sent[0] ^= 0x80,
            // the signature is of no key
            6 => {
                let n = sent.len();
                sent[n - 64..].fill(0xff);
            }
            7 => {
                let n = sent.len();
                sent[n - 32..].fill(0);
            }
            _ => {}
        }
        paused(async {
            let (_chain, node) = world().await;
            node.pool.refuses.store(refuses, std::sync::atomic::Ordering::SeqCst);
            let text = json!([hex(&sent)]).to_string();
            let got = node.http.call("eth_sendRawTransaction", &text).await;
            let code = got.as_ref().err().map(|e| e.code());
            let held = node.pool.inserted.lock().unwrap().clone();
            c.note(|| format!("price {price} gas {gas} damage {damage}: {got:?}"));
            c.outcome((code, held.len()));
            let mut why = vec![];
            if price == 0 {
                why.push(-40006);
            }
            if price > 500_000_000_000 {
                why.push(-40007);
            }
            if gas < 21_000 {
                why.push(-40008);
            }
            if gas > GAS_CAP {
                why.push(-40009);
            }
            if damage != 0 {
                // what is not the encoding of a transaction may seem beyond any limit
                ensure!(code.is_some(), "damaged, taken: {damage} {text}");
                ensure!(held.is_empty(), "damaged, in the pool: {damage} {text}");
                return Ok(());
            }
            if !why.is_empty() {
                ensure!(code.map(|x| why.contains(&x)).unwrap_or(false), "beyond the limits: {got:?} for {why:?}");
                ensure!(held.is_empty(), "beyond the limits, in the pool");
                return Ok(());
            }
            if refuses {
                ensure_eq!(code, Some(-49999), "refused by the pool");
                return Ok(());
            }
            c.nontrivial();
            let want = format!("\"0x{}\"", rf::hex(&rf::keccak256(&raw)));
            ensure_eq!(got.map_err(|e| e.message().to_string()), Ok(want), "the hash given");
            ensure_eq!(held.len(), 1, "put in the pool");
            ensure!(held[0] == stx, "put in the pool: {:?} for {stx:?}", held[0]);
            ensure_eq!(held[0].sender, kit::sender(1), "the sender");
            Ok(())
        })
    });
}

pub fn run(k: &Check) {
    genesis();
    k.assume("jsonrpsee's reading of sockets is not run: requests come in as a method's name and the text of its parameters");
    oddly(k);
    leaving(k);
    sending(k);
}
