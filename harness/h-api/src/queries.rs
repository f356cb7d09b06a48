//! J01: blocks, transactions and receipts are answered as the chain holds them.
use mc::{Check, Chooser, Fail};
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use serde_json::{json, Value};

use crate::world::*;

pub const KINDS: usize = 8;

/// A transaction of one of the kinds there are; the number makes it apart from all others.
pub fn tx(kind: usize, n: u64) -> SignedTransaction {
    let to = Some(kit::h160(0xaa00 + n));
    let list = vec![AccessListItem { address: kit::h160(9), storage_keys: vec![kit::h256(1), kit::h256(n)] }];
    let berlin = |to, data: &[u8]| {
        UnsignedTransaction::Eip2930(Eip2930Transaction {
            nonce: n.into(),
            gas_price: (10 + n).into(),
            gas_limit: (50_000 + n).into(),
            action: kit::action(to),
            value: (n * 3).into(),
            data: Bytes::from(data.to_vec()),
            access_list: list.clone(),
        })
    };
    let who = (n % 2) as u8 + 1;
    match kind {
        0 => kit::sign(kit::legacy(n, 8 + n, 21_000 + n, to, 5 + n as u128, &[]), Some(kit::CHAIN), who),
        1 => kit::sign(kit::legacy(n, 8 + n, 21_000 + n, to, 0, &[n as u8, 2, 3]), None, who),
        2 => kit::sign(berlin(to, &[9]), Some(kit::CHAIN), who),
        3 => kit::sign(kit::dynamic(n, 2 + n, 20 + n, 60_000, to, 7, &[]), Some(kit::CHAIN), who),
        4 => kit::sign(kit::legacy(n, 8 + n, 90_000, None, 0, &[0x60, 0x00]), Some(kit::CHAIN), who),
        5 => kit::sign(kit::dynamic(n, 2 + n, 20 + n, 80_000, None, 1 << 90, &[0x60, 0x01]), Some(kit::CHAIN), who),
        6 => kit::sign(kit::dynamic(n, 30 + n, 20 + n, 60_000, to, 7, &[]), Some(kit::CHAIN), who),
        _ => {
            // verified by a cell of another chain, which the signature names
            let cell = rf::l(vec![rf::l(vec![rf::b(kit::h256(n)), rf::u(1), rf::u(1)]), rf::b([7; 33])]);
            let r = [vec![0], cell.encode()].concat();
            let utx = UnverifiedTransaction {
                unsigned:  kit::dynamic(n, 3, 20 + n, 60_000, to, 0, &[1]),
                signature: Some(SignatureComponents { r: r.into(), s: Bytes::from(vec![n as u8; 20]), standard_v: 0 }),
                chain_id:  Some(kit::CHAIN),
                hash:      H256::zero(),
            };
            let stx = SignedTransaction::from_unverified(utx.calc_hash()).unwrap();
            SignedTransaction::decode(stx.encode().unwrap()).unwrap()
        }
    }
}

pub fn log(a: u64, topics: &[u64], data: &[u8]) -> Log {
    Log { address: kit::h160(a), topics: topics.iter().map(|t| kit::h256(*t)).collect(), data: data.to_vec() }
}

pub const OUTCOMES: usize = 7;

pub fn outcome(kind: usize, n: u64) -> Outcome {
    let one = log(0xa1, &[1, n], &[n as u8]);
    let gas = 21_000 + 100 * n;
    match kind {
        0 => Outcome::ok(gas, vec![one]),
        1 => Outcome::ok(gas, vec![]),
        2 => Outcome::ok(gas, vec![one, log(0xa2, &[], &[]), log(0xa1, &[1, 2, 3, 4], &[0; 40])]),
        3 => Outcome { exit: ExitReason::Revert(ExitRevert::Reverted), ..Outcome::ok(gas, vec![]) },
        4 => Outcome { exit: ExitReason::Error(ExitError::OutOfGas), ..Outcome::ok(gas, vec![]) },
        5 => Outcome { created: Some(kit::h160(0xcafe00 + n).into()), ..Outcome::ok(gas, vec![one]) },
        _ => Outcome { exit: ExitReason::Succeed(ExitSucceed::Suicided), ..Outcome::ok(gas, vec![]) },
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub blocks:  Vec<Vec<(usize, usize)>>,
    pub pending: Vec<usize>,
}

fn plan(c: &mut Chooser) -> Plan {
    let blocks = *c.pick_dev(&[2, 1, 0, 3]);
    let blocks = (0..blocks)
        .map(|_| {
            let txs = *c.pick_dev(&[2, 1, 0, 3]);
            (0..txs).map(|_| (c.deviate(KINDS), c.deviate(OUTCOMES))).collect()
        })
        .collect();
    let pending = *c.pick_dev(&[1, 0, 2]);
    Plan { blocks, pending: (0..pending).map(|_| c.deviate(KINDS)).collect() }
}

fn want_tx(t: &SignedTransaction, at: Option<(&Block, usize)>) -> Value {
    let u = &t.transaction.unsigned;
    let sig = t.transaction.signature.clone().unwrap();
    let eth = sig.r.len() == 32 && sig.s.len() == 32;
    let part = |b: &Bytes| if eth { qty256(U256::from_big_endian(b)) } else { hex(b) };
    let raw = t.transaction.encode().unwrap();
    assert_eq!(rf::keccak256(&raw), t.transaction.hash.0);
    let mut v = json!({
        "hash": hex(t.transaction.hash),
        "type": qty(match u {
            UnsignedTransaction::Legacy(_) => 0,
            UnsignedTransaction::Eip2930(_) => 1,
            UnsignedTransaction::Eip1559(_) => 2,
        }),
        "from": hex(t.sender),
        "r": part(&sig.r),
        "s": part(&sig.s),
        "raw": hex(&raw),
        "chainId": t.transaction.chain_id.map(qty),
        "publicKey": t.public.map(|p| hex(p.0)),
        "blockNumber": at.map(|(b, _)| qty(b.header.number)),
        "blockHash": at.map(|(b, _)| hex(b.hash())),
        "transactionIndex": at.map(|(_, i)| qty(i as u64)),
    });
    let (nonce, gas, action, value, data) = match u {
        UnsignedTransaction::Legacy(x) => (x.nonce, x.gas_limit, &x.action, x.value, &x.data),
        UnsignedTransaction::Eip2930(x) => (x.nonce, x.gas_limit, &x.action, x.value, &x.data),
        UnsignedTransaction::Eip1559(x) => (x.nonce, x.gas_limit, &x.action, x.value, &x.data),
    };
    let o = v.as_object_mut().unwrap();
    o.insert("nonce".into(), qty(nonce.as_u64()));
    o.insert("gas".into(), qty(gas.as_u64()));
    o.insert("value".into(), qty256(value));
    o.insert("input".into(), hex(data));
    o.insert("to".into(), match action {
        TransactionAction::Call(a) => hex(a),
        TransactionAction::Create => Value::Null,
    });
    o.insert("gasPrice".into(), qty(price(u)));
    match u {
        UnsignedTransaction::Legacy(_) => {
            let odd = sig.standard_v as u64;
            o.insert("v".into(), qty(t.transaction.chain_id.map(|c| 35 + 2 * c + odd).unwrap_or(27 + odd)));
        }
        UnsignedTransaction::Eip1559(x) => {
            o.insert("maxPriorityFeePerGas".into(), qty(x.max_priority_fee_per_gas.as_u64()));
            o.insert("maxFeePerGas".into(), qty(x.gas_price.as_u64()));
        }
        UnsignedTransaction::Eip2930(x) => {
            let list: Vec<_> = x
                .access_list
                .iter()
                .map(|i| json!({ "address": hex(i.address), "storageKeys": i.storage_keys.iter().map(hex).collect::<Vec<_>>() }))
                .collect();
            o.insert("accessList".into(), json!(list));
        }
    }
    v
}

/// What each unit of gas is paid.
fn price(u: &UnsignedTransaction) -> u64 {
    match u {
        UnsignedTransaction::Legacy(x) => x.gas_price.as_u64(),
        UnsignedTransaction::Eip2930(x) => x.gas_price.as_u64(),
        UnsignedTransaction::Eip1559(x) => x.gas_price.as_u64().max(x.max_priority_fee_per_gas.as_u64()),
    }
}

pub fn want_log(b: &Held, i: usize, nth: usize) -> Value {
    let before: usize = b.outcomes[..i].iter().map(|o| o.logs.len()).sum();
    let l = &b.outcomes[i].logs[nth];
    json!({
        "address": hex(l.address),
        "topics": l.topics.iter().map(hex).collect::<Vec<_>>(),
        "data": hex(&l.data),
        "blockNumber": qty(b.block.header.number),
        "blockHash": hex(b.block.hash()),
        "transactionHash": hex(b.txs[i].transaction.hash),
        "transactionIndex": qty(i as u64),
        "logIndex": qty((before + nth) as u64),
        "removed": false,
    })
}

fn want_receipt(b: &Held, i: usize) -> Value {
    let (t, o) = (&b.txs[i], &b.outcomes[i]);
    let u = &t.transaction.unsigned;
    let sum: u64 = b.outcomes[..=i].iter().map(|o| o.gas).sum();
    let to = want_tx(t, None)["to"].clone();
    json!({
        "blockNumber": qty(b.block.header.number),
        "blockHash": hex(b.block.hash()),
        "transactionHash": hex(t.transaction.hash),
        "transactionIndex": qty(i as u64),
        "from": hex(t.sender),
        "to": to,
        "gasUsed": qty(o.gas),
        "cumulativeGasUsed": qty(sum),
        "effectiveGasPrice": qty(price(u)),
        "contractAddress": o.created.map(|a| hex(&a.as_bytes()[12..])),
        "status": qty(matches!(o.exit, ExitReason::Succeed(_)) as u64),
        "logs": (0..o.logs.len()).map(|n| want_log(b, i, n)).collect::<Vec<_>>(),
        "logsBloom": hex(rf_bloom(o.logs.iter())),
        "root": hex(b.block.header.state_root),
        "type": want_tx(t, None)["type"],
    })
}

pub fn want_header(b: &Block) -> Value {
    let h = &b.header;
    let extra = rf::l(h.extra_data.iter().map(|e| rf::l(vec![rf::b(&e.inner)])).collect()).encode();
    json!({
        "number": qty(h.number),
        "parentHash": hex(h.prev_hash),
        "sha3Uncles": hex(rf::keccak256(&[0xc0])),
        "miner": hex(h.proposer),
        "stateRoot": hex(h.state_root),
        "transactionsRoot": hex(h.transactions_root),
        "receiptsRoot": hex(h.receipts_root),
        "gasUsed": qty(h.gas_used.as_u64()),
        "gasLimit": qty(h.gas_limit.as_u64()),
        "logsBloom": hex(h.log_bloom),
        "timestamp": qty(h.timestamp),
        "extraData": hex(extra),
    })
}

fn want_block(b: &Held, rich: bool) -> Value {
    let mut v = want_header(&b.block);
    let o = v.as_object_mut().unwrap();
    o.insert("hash".into(), hex(b.block.hash()));
    o.insert("author".into(), hex(b.block.header.proposer));
    o.insert("baseFeePerGas".into(), qty(b.block.header.base_fee_per_gas.as_u64()));
    o.insert("uncles".into(), json!([]));
    let txs: Vec<Value> = b
        .txs
        .iter()
        .enumerate()
        .map(|(i, t)| if rich { want_tx(t, Some((&b.block, i))) } else { hex(t.transaction.hash) })
        .collect();
    o.insert("transactions".into(), json!(txs));
    v
}

/// The ways to name a block, the last of them for a block of that number only where all blocks are.
fn names(chain: &Chain, n: u64) -> Vec<Value> {
    let mut v = vec![qty(n), json!({ "blockNumber": qty(n) })];
    if n == 0 {
        v.push(json!("earliest"));
    }
    if n == chain.latest() {
        v.extend([json!("latest"), json!("pending")]);
    }
    v
}

async fn all(chain: &Chain, node: &Node, pending: &[SignedTransaction]) -> Result<(), Fail> {
    same("block number", &node.ask("eth_blockNumber", json!([])).await?, &qty(chain.latest()))?;
    for b in &chain.blocks {
        let n = b.block.header.number;
        let hash = hex(b.block.hash());
        for rich in [false, true] {
            let want = want_block(b, rich);
            for name in names(chain, n) {
                same("block by number", &node.ask("eth_getBlockByNumber", json!([name, rich])).await?, &want)?;
            }
            same("block by hash", &node.ask("eth_getBlockByHash", json!([hash, rich])).await?, &want)?;
        }
        let count = qty(b.txs.len() as u64);
        for name in names(chain, n) {
            same("count by number", &node.ask("eth_getBlockTransactionCountByNumber", json!([name])).await?, &count)?;
            for i in 0..b.txs.len() + 1 {
                let want = b.txs.get(i).map(|t| want_tx(t, Some((&b.block, i)))).unwrap_or_default();
                same("tx by number and index", &node.ask("eth_getTransactionByBlockNumberAndIndex", json!([name, qty(i as u64)])).await?, &want)?;
                same("tx by hash and index", &node.ask("eth_getTransactionByBlockHashAndIndex", json!([hash, qty(i as u64)])).await?, &want)?;
            }
        }
        same("count by hash", &node.ask("eth_getBlockTransactionCountByHash", json!([hash])).await?, &count)?;
        for (i, t) in b.txs.iter().enumerate() {
            let h = hex(t.transaction.hash);
            same("tx", &node.ask("eth_getTransactionByHash", json!([h])).await?, &want_tx(t, Some((&b.block, i))))?;
            same("receipt", &node.ask("eth_getTransactionReceipt", json!([h])).await?, &want_receipt(b, i))?;
        }
        // the chain's own forms
        let own = serde_json::to_value(&b.block).unwrap();
        let mut ids = vec![qty(n), json!({ "blockHash": hash })];
        if n == chain.latest() {
            ids.push(json!("latest"));
        }
        for id in ids {
            same("own block", &node.ask("axon_getBlockById", json!([id])).await?, &own)?;
            same("own proof", &node.ask("axon_getProofById", json!([id])).await?, &own["header"]["proof"])?;
        }
        let prev = if n == 0 { H256::zero() } else { chain.blocks[n as usize - 1].block.header.state_root };
        let p = Proposal {
            version:                  b.block.header.version,
            prev_hash:                b.block.header.prev_hash,
            proposer:                 b.block.header.proposer,
            prev_state_root:          prev,
            transactions_root:        b.block.header.transactions_root,
            signed_txs_hash:          b.block.header.signed_txs_hash,
            timestamp:                b.block.header.timestamp,
            number:                   n,
            gas_limit:                b.block.header.gas_limit,
            extra_data:               b.block.header.extra_data.clone(),
            base_fee_per_gas:         b.block.header.base_fee_per_gas,
            proof:                    b.block.header.proof.clone(),
            chain_id:                 b.block.header.chain_id,
            call_system_script_count: b.block.header.call_system_script_count,
            tx_hashes:                b.block.tx_hashes.clone(),
        };
        let want = serde_json::to_value(&p).unwrap();
        same("own proposal", &node.ask("axon_getProposalByNumber", json!([qty(n)])).await?, &want)?;
    }
    for t in pending {
        let h = hex(t.transaction.hash);
        same("tx in the pool", &node.ask("eth_getTransactionByHash", json!([h])).await?, &want_tx(t, None))?;
        same("receipt of a tx in the pool", &node.ask("eth_getTransactionReceipt", json!([h])).await?, &Value::Null)?;
    }
    // what there is not
    let no = json!(format!("0x{:064x}", 0xdead));
    let after = qty(chain.latest() + 1);
    for rich in [false, true] {
        same("unknown block", &node.ask("eth_getBlockByNumber", json!([after, rich])).await?, &Value::Null)?;
        same("unknown block", &node.ask("eth_getBlockByHash", json!([no, rich])).await?, &Value::Null)?;
    }
    same("unknown tx", &node.ask("eth_getTransactionByHash", json!([no])).await?, &Value::Null)?;
    same("unknown receipt", &node.ask("eth_getTransactionReceipt", json!([no])).await?, &Value::Null)?;
    same("unknown tx", &node.ask("eth_getTransactionByBlockNumberAndIndex", json!([after, "0x0"])).await?, &Value::Null)?;
    same("unknown tx", &node.ask("eth_getTransactionByBlockHashAndIndex", json!([no, "0x0"])).await?, &Value::Null)?;
    same("unknown own block", &node.ask("axon_getBlockById", json!([after])).await?, &Value::Null)?;
    same("unknown own block", &node.ask("axon_getBlockById", json!([{ "blockHash": no }])).await?, &Value::Null)?;
    Ok(())
}

pub fn run(k: &Check) {
    genesis();
    k.assume("the chain is stored with the calls the node commits a block with; what is stored is the codec's and the store's business (A and B properties)");
    k.part(
        "every question about a chain",
        "each block, transaction and receipt of the chain, asked for in each way there is, is answered with the fields it has; what is not there is answered with null",
        "chains of 0 to 3 blocks of 0 to 3 transactions of 8 kinds and 7 outcomes, 0 to 2 transactions in the pool",
    )
    .deviations(k.by_tier(3, 4))
    .explore(|c| {
        let plan = plan(c);
        c.note(|| format!("{plan:?}"));
        let r = mc::no_panic(|| {
            paused(async {
                let mut chain = Chain::new("j01");
                let mut n = 0;
                for b in &plan.blocks {
                    let first = n;
                    let txs = b.iter().map(|(k, _)| (tx(*k, n), n += 1).0).collect();
                    let outcomes = b.iter().enumerate().map(|(i, (_, o))| outcome(*o, first + i as u64)).collect();
                    chain.push(txs, outcomes).await;
                }
                let node = Node::over(&chain, 100).await;
                let pending: Vec<_> = plan.pending.iter().map(|k| (tx(*k, n), n += 1).0).collect();
                for t in &pending {
                    node.pool.held.lock().unwrap().insert(t.transaction.hash, t.clone());
                }
                all(&chain, &node, &pending).await
            })
        });
        if !plan.blocks.is_empty() {
            c.nontrivial();
        }
        c.outcome(format!("{plan:?}"));
        match r {
            Ok(r) => r,
            Err(e) => Err(Fail::new("panic", format!("panic: {e}; {plan:?}"))),
        }
    });
}
