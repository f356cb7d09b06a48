//! F01-F04: what a block of transactions does to accounts, value, fees and roots.
use std::collections::BTreeMap;

use core_executor::AxonExecutor;
use mc::{ensure, ensure_eq, Check, Chooser};
use protocol::traits::{Backend, Executor, ExecutorReadOnlyAdapter};
use protocol::types::{ExecutorContext, TxResp, ValidatorExtend, H160, H256, U256};

use crate::world::*;

type R = Result<(), mc::Fail>;

/// The table's block: transactions in order, then the fees go to the validators.
pub struct Expected {
    pub ran: Vec<(Ran, Option<H160>, U256)>,
    pub fee: U256,
    pub burnt: U256,
}

pub fn table_block(w: &mut World, p: &protocol::types::Proposal, txs: &[Tx], vals: &[ValidatorExtend], limit: usize) -> Expected {
    let t = &mut w.table;
    t.ctx = ExecutorContext {
        block_number: p.number.into(),
        block_coinbase: p.proposer,
        block_timestamp: p.timestamp.into(),
        chain_id: p.chain_id.into(),
        origin: p.proposer,
        gas_price: U256::one(),
        block_gas_limit: p.gas_limit,
        block_base_fee_per_gas: p.base_fee_per_gas,
        extra_data: vec![],
    };
    let config = evm_config(limit);
    let mut e = Expected { ran: vec![], fee: U256::zero(), burnt: U256::zero() };
    for tx in txs {
        let r = table_tx(t, tx, &config, &mut e.burnt);
        e.fee += r.2;
        e.ran.push(r);
    }
    for (a, x) in share(e.fee, vals) {
        if !x.is_zero() {
            t.accounts.entry(a).or_default().balance += x;
        }
    }
    e
}

/// System accounts keep roots of their own tries; their content is another property's business.
pub fn adopt_system(w: &mut World) {
    let ad = w.reader(w.root, w.table.ctx.clone());
    for n in [1u8, 2, 3] {
        let mut b = [0xffu8; 20];
        b[19] = n;
        let a = H160(b);
        let k = if n == 1 { H256(rf::keccak256(b"metadata_root")) } else { H256(rf::keccak256(b"header_cell_mpt_root")) };
        let v = ad.storage(a, k);
        if let Some(x) = w.table.accounts.get_mut(&a) {
            if v.is_zero() {
                x.storage.remove(&k);
            } else {
                x.storage.insert(k, v);
            }
        }
    }
}

pub fn same_accounts(w: &World, what: &str) -> R {
    let _g = rt().enter();
    let ad = w.reader(w.root, w.table.ctx.clone());
    for a in universe(&w.table) {
        let real = ad.get_account(&a);
        let zero = Acct::default();
        let want = w.table.accounts.get(&a).unwrap_or(&zero);
        ensure_eq!(real.nonce, want.nonce, "nonce: {what}, account {a:?}");
        ensure_eq!(real.balance, want.balance, "balance: {what}, account {a:?}");
        ensure_eq!(mc::hex(&ad.code(a)), mc::hex(&want.code), "code: {what}, account {a:?}");
        ensure!(
            real.code_hash == H256(rf::keccak256(&want.code)),
            "code hash: {what}, account {a:?}: {:?}",
            real.code_hash
        );
        let b = ad.basic(a);
        ensure!(b.nonce == want.nonce && b.balance == want.balance, "basic: {what}, account {a:?}: {b:?}");
        for k in 0..16u64 {
            let k = H256(word(k));
            ensure_eq!(ad.storage(a, k), want.storage.get(&k).copied().unwrap_or_default(), "storage: {what}, {a:?}[{k:?}]");
        }
    }
    ensure!(
        w.root == w.table.root(&|a| ad.exists(*a)),
        "state root: {what}: {:?} is not the root of the accounts {:?}",
        w.root,
        w.table.root(&|a| ad.exists(*a))
    );
    Ok(())
}

pub fn same_response(r: &TxResp, e: &(Ran, Option<H160>, U256), tx: &Tx) -> R {
    ensure_eq!(r.exit_reason, e.0.exit, "exit: {tx:?}");
    ensure_eq!(mc::hex(&r.ret), mc::hex(&e.0.ret), "returned data: {tx:?}");
    ensure_eq!(r.gas_used, e.0.used, "gas used: {tx:?}");
    ensure_eq!(r.remain_gas, e.0.left, "gas left: {tx:?}");
    ensure_eq!(r.fee_cost, e.2, "fee: {tx:?}");
    ensure!(r.logs == e.0.logs, "logs: {tx:?}: {:?} instead of {:?}", r.logs, e.0.logs);
    let code: Option<H160> = r.code_address.map(Into::into);
    ensure_eq!(code, e.1, "created address: {tx:?}");
    Ok(())
}

fn receipts_root(txs: &[Tx], e: &Expected) -> [u8; 32] {
    if txs.is_empty() {
        return rf::keccak256(&[0x80]);
    }
    let pairs: Vec<_> = txs
        .iter()
        .zip(&e.ran)
        .enumerate()
        .map(|(i, (tx, (r, _, _)))| {
            let mut parts = vec![];
            let logs: Vec<_> = r
                .logs
                .iter()
                .map(|l| {
                    parts.push(l.address.as_bytes().to_vec());
                    parts.extend(l.topics.iter().map(|t| t.as_bytes().to_vec()));
                    rf::l(vec![
                        rf::b(l.address.as_bytes()),
                        rf::l(l.topics.iter().map(|t| rf::b(t.as_bytes())).collect()),
                        rf::b(&l.data),
                    ])
                })
                .collect();
            let body = rf::l(vec![
                rf::u(r.exit.is_succeed() as u64),
                rf::u(r.used),
                rf::b(rf::bloom(&parts)),
                rf::l(logs),
            ])
            .encode();
            let mut out = if tx.kind == 0 { vec![] } else { vec![tx.kind] };
            out.extend(body);
            (rf::u(i as u64).encode(), out)
        })
        .collect();
    rf::mpt_root(&pairs)
}

fn step(c: &mut Chooser, w: &mut World, txs: &[Tx], vals: &[ValidatorExtend], seal: bool) -> Result<Expected, mc::Fail> {
    let before = w.table.total();
    let (resp, p) = mc::no_panic(|| w.run(txs, vals)).map_err(|e| mc::Fail::new("panic", format!("panic: {e} running {txs:?}")))?;
    let e = table_block(w, &p, txs, vals, 0x6000);
    for ((r, x), tx) in resp.tx_resp.iter().zip(&e.ran).zip(txs) {
        same_response(r, x, tx)?;
        c.outcome((format!("{:?}", r.exit_reason), r.logs.len(), r.code_address.is_some(), x.0.refunded > 0));
    }
    ensure_eq!(resp.tx_resp.len(), txs.len(), "responses: one per transaction");
    ensure_eq!(resp.gas_used, e.ran.iter().map(|r| r.0.used).sum::<u64>(), "block gas: the sum over its transactions");
    ensure!(
        resp.receipt_root.0 == receipts_root(txs, &e),
        "receipts root: {:?} for {txs:?}",
        resp.receipt_root
    );
    adopt_system(w);
    same_accounts(w, &format!("after block {} of {txs:?}", w.number))?;
    let after = w.table.total();
    let destroyed = e.ran.iter().zip(txs).any(|(_, t)| t.to == Some(addr(DESTRUCT)) || t.to == Some(addr(FORWARD)));
    ensure!(after <= before, "value: {before} became {after} by {txs:?}");
    if !destroyed {
        let given: U256 = share(e.fee, vals).iter().fold(U256::zero(), |s, x| s + x.1);
        ensure_eq!(before - after, e.burnt + (e.fee - given), "value: what disappeared is not what is accounted for");
    }
    if seal {
        w.seal(p, &resp);
    }
    let t = w.table.clone();
    w.roots.push((w.root, t));
    if e.ran.iter().any(|r| r.0.exit.is_succeed()) {
        c.nontrivial();
    }
    Ok(e)
}

fn weights(c: &mut Chooser) -> Vec<ValidatorExtend> {
    validators(*c.pick_dev(&[&VALIDATORS[..], &[(0xe1, 7)], &[(0xe1, 3), (0xe2, 5), (0xa1, 1_000_000)]]))
}

/// F01: accounts after any short history are the ones the table predicts.
pub fn accounts(k: &Check) {
    k.assume("the upstream virtual machine, run on a plain table of accounts, defines what a program does");
    let n = menu().len();
    k.part(
        "blocks of two",
        "every ordered pair of the menu's transactions as one block, then every transaction as a second block (stored blocks, so hashes are visible)",
        &format!("{n} behaviours, 2+1 transactions"),
    )
    .explore(|c| {
        let m = menu();
        let mut w = World::new(64);
        let vals = validators(&VALIDATORS);
        let txs = [c.pick(&m).clone(), c.pick(&m).clone()];
        c.note(|| format!("block 1: {txs:?}"));
        step(c, &mut w, &txs, &vals, true)?;
        c.transition();
        let tx = c.pick(&m).clone();
        c.note(|| format!("block 2: {tx:?}"));
        step(c, &mut w, &[tx], &vals, true)?;
        c.transition();
        c.state();
        Ok(())
    });
    k.part("one by one", "every ordered pair of transactions, one per block, under three sets of validators and an empty block between", "2 transactions in 3 blocks")
        .deviations(1)
        .explore(|c| {
            let m = menu();
            let mut w = World::new(*c.pick_dev(&[64, 1]));
            let vals = weights(c);
            let a = c.pick(&m).clone();
            step(c, &mut w, &[a], &vals, true)?;
            step(c, &mut w, &[], &vals, true)?;
            let b = c.pick(&m).clone();
            step(c, &mut w, &[b], &vals, true)?;
            c.state();
            // what was true after every earlier block still is
            let last = (w.root, w.number, w.table.clone());
            for (root, table) in w.roots.clone() {
                w.root = root;
                w.table = table;
                same_accounts(&w, "looking back")?;
            }
            (w.root, w.number, w.table) = last;
            Ok(())
        });
    if k.thorough() {
        k.part("blocks of three", "every ordered triple of a reduced menu as one block, then one more", "14 behaviours, 3+1 transactions").explore(|c| {
            let m: Vec<_> = menu().into_iter().step_by(2).collect();
            let mut w = World::new(8);
            let vals = validators(&VALIDATORS);
            let txs = [c.pick(&m).clone(), c.pick(&m).clone(), c.pick(&m).clone()];
            step(c, &mut w, &txs, &vals, true)?;
            let tx = c.pick(&m).clone();
            step(c, &mut w, &[tx], &vals, true)?;
            Ok(())
        });
    }
}

/// F02: a failed transaction costs gas and one nonce, nothing else; one that succeeded pays what its receipt says.
pub fn charges(k: &Check) {
    k.part(
        "who pays what",
        "every transaction of the menu at every price and gas limit listed, after every other transaction",
        "29 behaviours x 4 prices x 5 gas limits x 4 histories",
    )
    .explore(|c| {
        let m = menu();
        let mut w = World::new(64);
        let vals = validators(&VALIDATORS);
        let first = *c.pick(&[usize::MAX, 4, 5, 8]);
        if first != usize::MAX {
            let (_, p) = w.run(&[m[first].clone()], &vals);
            table_block(&mut w, &p, &[m[first].clone()], &vals, 0x6000);
        }
        let mut tx = c.pick(&m).clone();
        tx.price = *c.pick(&[tx.price, 0, 3, 500_000_000_000]);
        tx.gas = *c.pick(&[tx.gas, 21_000, 24_001, 40_000, 30_000_000]);
        let _g = rt().enter();
        let before = read_all(&w);
        let (resp, _) = mc::no_panic(|| w.run(&[tx.clone()], &vals)).map_err(|e| mc::Fail::new("panic", format!("panic: {e} running {tx:?}")))?;
        let after = read_all(&w);
        let r = &resp.tx_resp[0];
        ensure!(r.gas_used <= tx.gas, "gas: {} used of {} by {tx:?}", r.gas_used, tx.gas);
        let cost = r.fee_cost;
        ensure!(cost <= U256::from(r.gas_used) * tx.unit(), "fee: {cost} for {} gas at {}", r.gas_used, tx.price);
        let (b, a) = (&before[&tx.sender], &after[&tx.sender]);
        ensure_eq!(a.nonce, b.nonce + U256::one(), "nonce: of the sender of {tx:?}");
        let affordable = b.balance >= tx.unit() * tx.gas;
        if affordable {
            ensure_eq!(cost, U256::from(r.gas_used) * tx.unit(), "fee: price times gas, {tx:?}");
        }
        let paid: BTreeMap<H160, U256> = share(cost, &vals).into_iter().collect();
        let ok = r.exit_reason.is_succeed();
        c.outcome((ok, affordable));
        if !ok {
            c.nontrivial();
            ensure!(r.logs.is_empty(), "failed: left a log, {tx:?}");
            ensure!(r.code_address.is_none(), "failed: reports a created contract, {tx:?}");
            for (x, was) in &before {
                let mut want = was.clone();
                if *x == tx.sender {
                    want.nonce += U256::one();
                    want.balance -= cost;
                }
                want.balance += paid.get(x).copied().unwrap_or_default();
                ensure_eq!(after[x], want, "failed: account {x:?} changed by {tx:?}");
            }
        } else {
            let moved = tx.to != Some(tx.sender);
            // value handed back by the program itself
            let own = tx.to == Some(addr(DESTRUCT));
            if moved && !own {
                let out = tx.value + cost;
                ensure!(
                    a.balance + out <= b.balance,
                    "undercharged: the sender of {tx:?} has {} of {} left, its receipt says {cost}",
                    a.balance,
                    b.balance
                );
                let extra = b.balance - (a.balance + out);
                if !extra.is_zero() {
                    // the machine's own account of it: gas refunded for cleared storage
                    let mut burnt = U256::zero();
                    let mut t = w.table.clone();
                    table_tx(&mut t, &tx, &evm_config(0x6000), &mut burnt);
                    ensure!(extra != burnt, "charged beyond the receipt: by the refund, sender of {tx:?} lost {extra} more than its receipt says ({cost})");
                    ensure!(false, "overcharged: sender of {tx:?} lost {extra} more than its receipt says ({cost})");
                }
            }
        }
        Ok(())
    });
    k.part(
        "calls of system contracts that are refused",
        "blocks of refused calls between ordinary transfers: nobody's balance changes by them",
        "up to 4 transactions, 3 sets of weights",
    )
    .explore(|c| {
        let mut w = World::new(64);
        let vals = match c.choose(3) {
            0 => validators(&[(0xe1, 1)]),
            1 => validators(&[(0xe1, 1), (0xe2, 1)]),
            _ => validators(&VALIDATORS),
        };
        let m = menu();
        let sys = |n: u8, sender: u8, data: Vec<u8>, value: u64| {
            let mut b = [0xffu8; 20];
            b[19] = n;
            Tx { sender: addr(sender), to: Some(H160(b)), data, value: value.into(), ..m[0].clone() }
        };
        let choices = [
            None,
            Some(m[0].clone()),
            Some(sys(1, 0xa1, vec![1, 2, 3], 0)),
            Some(sys(2, 0xa2, vec![], 5)),
            Some(sys(3, 0xe1, vec![0; 4], 0)),
            Some(sys(0, 0xa1, vec![7; 30], 9)),
            // taking from somebody who has less
            Some(sys(0, 0xa1, [vec![1], addr(0xa3).as_bytes().to_vec()].concat(), 9)),
        ];
        let txs: Vec<Tx> = (0..4).filter_map(|_| c.pick(&choices).clone()).collect();
        let before = read_all(&w);
        let (resp, p) = mc::no_panic(|| w.run(&txs, &vals)).map_err(|e| mc::Fail::new("panic", format!("panic: {e}")))?;
        let plain: Vec<Tx> = txs.iter().filter(|t| *t == &m[0]).cloned().collect();
        for (t, r) in txs.iter().zip(&resp.tx_resp) {
            ensure!((t == &m[0]) == r.exit_reason.is_succeed(), "refused: {t:?} ended with {:?}", r.exit_reason);
        }
        // what the transfers alone do
        table_block(&mut w, &p, &plain, &vals, 0x6000);
        let after = read_all(&w);
        for (a, was) in &before {
            let want = w.table.accounts.get(a).cloned().unwrap_or_default();
            ensure!(
                after[a].balance == want.balance,
                "balance: of {a:?} went from {} to {}, transfers alone lead to {}",
                was.balance,
                after[a].balance,
                want.balance
            );
        }
        if plain.len() < txs.len() {
            c.nontrivial();
        }
        Ok(())
    });
}

fn read_all(w: &World) -> BTreeMap<H160, Acct> {
    let _g = rt().enter();
    let ad = w.reader(w.root, ExecutorContext::default());
    universe(&w.table)
        .into_iter()
        .filter(|a| !a.as_bytes().starts_with(&[0xff; 19]))
        .map(|a| {
            let x = ad.get_account(&a);
            let storage = (0..16u64)
                .map(|k| (H256(word(k)), ad.storage(a, H256(word(k)))))
                .filter(|(_, v)| !v.is_zero())
                .collect();
            (a, Acct { nonce: x.nonce, balance: x.balance, code: ad.code(a), storage })
        })
        .collect()
}

/// F03: the same blocks give the same answers however they are run.
pub fn determinism(k: &Check) {
    k.part(
        "caches and repetition",
        "every ordered pair of transactions in one block: run with a large cache, with a cache of one node, twice from the same state, and on a fresh copy of the database",
        "29 x 29 blocks x 4 ways",
    )
    .explore(|c| {
        let m = menu();
        let txs = [c.pick(&m).clone(), c.pick(&m).clone()];
        let vals = validators(&VALIDATORS);
        let mut w = World::new(1000);
        let start = w.root;
        let (a, _) = w.run(&txs, &vals);
        w.root = start;
        w.number = 0;
        let (b, _) = w.run(&txs, &vals);
        same(&a, &b, "repeated on the same database", &txs)?;
        let dump = rocksdb::control::dump(&w.path);
        // a node that starts from what was stored
        let mut cold = World::new(1);
        rocksdb::control::load(&cold.path, dump);
        cold.root = start;
        let (d, _) = cold.run(&txs, &vals);
        same(&a, &d, "from the stored database with a tiny cache", &txs)?;
        let mut tiny = World::new(1);
        let (e, _) = tiny.run(&txs, &vals);
        same(&a, &e, "with a tiny cache", &txs)?;
        c.nontrivial();
        c.outcome(a.state_root);
        Ok(())
    });
    k.part("order", "every pair of transactions that touch different accounts: the accounts afterwards do not depend on their order", "disjoint pairs")
        .explore(|c| {
            let m = menu();
            let i = c.choose(m.len());
            let j = c.choose(m.len());
            let (mut x, mut y) = (m[i].clone(), m[j].clone());
            x.sender = addr(0xa1);
            y.sender = addr(0xa2);
            if x.to.is_none() || y.to.is_none() || x.to == y.to || i == j {
                return Ok(());
            }
            let users: Vec<_> = USERS.iter().map(|u| addr(*u)).collect();
            let touches = |t: &Tx| t.to.map_or(true, |a| users.contains(&a)) || [addr(ENV), addr(FORWARD), addr(DESTRUCT), addr(FACTORY), addr(FACTORY2), addr(DELEGATE)].contains(&t.to.unwrap());
            if touches(&x) || touches(&y) {
                return Ok(());
            }
            let vals = validators(&VALIDATORS);
            let mut w = World::new(64);
            let (a, _) = w.run(&[x.clone(), y.clone()], &vals);
            let one = read_all(&w);
            let mut v = World::new(64);
            let (b, _) = v.run(&[y.clone(), x.clone()], &vals);
            ensure_eq!(one, read_all(&v), "order: {x:?} and {y:?}");
            ensure_eq!(a.gas_used, b.gas_used, "order: gas of {x:?} and {y:?}");
            c.nontrivial();
            Ok(())
        });
}

fn same(a: &protocol::types::ExecResp, b: &protocol::types::ExecResp, how: &str, txs: &[Tx]) -> R {
    ensure_eq!(a.state_root, b.state_root, "state root: {how}, {txs:?}");
    ensure_eq!(a.receipt_root, b.receipt_root, "receipts root: {how}, {txs:?}");
    ensure_eq!(a.gas_used, b.gas_used, "gas: {how}, {txs:?}");
    for (x, y) in a.tx_resp.iter().zip(&b.tx_resp) {
        ensure!(
            x.exit_reason == y.exit_reason && x.ret == y.ret && x.logs == y.logs && x.fee_cost == y.fee_cost,
            "response: {how}, {txs:?}"
        );
    }
    Ok(())
}

/// F04: asking what a call would do changes nothing and gives what doing it gives.
pub fn queries(k: &Check) {
    k.part(
        "call, then do",
        "every transaction after every other one: the query leaves the database as it was, and its answer is the outcome of the transaction",
        "29 x 29, plain and estimating",
    )
    .explore(|c| {
        let m = menu();
        let mut w = World::new(64);
        let vals = validators(&VALIDATORS);
        let first = c.pick(&m).clone();
        let (resp, p) = w.run(&[first], &vals);
        w.seal(p, &resp);
        let mut tx = c.pick(&m).clone();
        tx.kind = 0;
        tx.price = 0;
        if tx.gas < 21_000 {
            tx.gas = 60_000;
        }
        let _g = rt().enter();
        let p = w.proposal(w.number + 1);
        let mut ctx = ExecutorContext::from(p);
        ctx.gas_price = U256::zero();
        ctx.origin = tx.sender;
        let before = rocksdb::control::dump(&w.path);
        let len = rocksdb::control::journal_len(&w.path);
        let ad = w.reader(w.root, ctx);
        let ask = |gas: u64, est: bool| {
            mc::no_panic(|| AxonExecutor.call(&ad, gas, Some(tx.sender), tx.to, tx.value, tx.data.clone(), est))
                .map_err(|e| mc::Fail::new("panic", format!("panic: {e} asking {tx:?}")))
        };
        let q = ask(tx.gas, false)?;
        let est = ask(30_000_000, true)?;
        ensure!(
            rocksdb::control::journal_len(&w.path) == len && rocksdb::control::dump(&w.path) == before,
            "query wrote: {tx:?}"
        );
        let root = w.root;
        let number = w.number;
        let (d, _) = w.run(&[tx.clone()], &vals);
        let d = &d.tx_resp[0];
        ensure_eq!(q.exit_reason, d.exit_reason, "outcome: {tx:?}");
        ensure_eq!(mc::hex(&q.ret), mc::hex(&d.ret), "answer: {tx:?}");
        ensure_eq!(q.gas_used, d.gas_used, "gas: {tx:?}");
        c.outcome((d.exit_reason.is_succeed(), d.gas_used));
        if est.exit_reason.is_succeed() {
            c.nontrivial();
            // what was estimated is enough
            ensure!(est.gas_used >= ask(30_000_000, false)?.gas_used, "estimate: below what is used by {tx:?}");
            let mut again = tx.clone();
            again.gas = est.gas_used;
            w.root = root;
            w.number = number;
            let (r, _) = w.run(&[again], &vals);
            let r = &r.tx_resp[0];
            let same_end = r.exit_reason.is_succeed();
            ensure!(same_end, "estimate: {} gas is not enough for {tx:?}: {:?}", est.gas_used, r.exit_reason);
        }
        Ok(())
    });
    k.part("past states", "after two blocks, the same question asked of each state in turn is answered as it was then", "29 x 29 histories, 4 questions").explore(|c| {
        let m = menu();
        let mut w = World::new(8);
        let vals = validators(&VALIDATORS);
        let mut seen = vec![];
        let ask = |w: &World, root: H256, n: u64| {
            let _g = rt().enter();
            let mut ctx = ExecutorContext::from(w.proposal(n));
            ctx.gas_price = U256::zero();
            let ad = w.reader(root, ctx);
            [1u64, 2, 3, 8]
                .iter()
                .map(|s| {
                    let r = AxonExecutor.call(&ad, 100_000, None, Some(addr(KV)), U256::zero(), [word(*s), word(5)].concat(), false);
                    (r.gas_used, r.ret)
                })
                .collect::<Vec<_>>()
        };
        seen.push((w.root, ask(&w, w.root, 1)));
        for _ in 0..2 {
            let tx = c.pick(&m).clone();
            w.run(&[tx], &vals);
            seen.push((w.root, ask(&w, w.root, 1)));
        }
        for (root, was) in &seen {
            ensure!(&ask(&w, *root, 1) == was, "past state: a question is answered differently later");
        }
        c.nontrivial();
        Ok(())
    });
}

