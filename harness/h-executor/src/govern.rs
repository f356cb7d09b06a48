//! F07: who may change the chain's settings, and what the settings then are. F09: settings that depend on a hardfork.
use std::collections::BTreeMap;
use std::sync::OnceLock;

use core_executor::MetadataHandle;
use ethabi::Token;
use mc::{ensure, ensure_eq, Check, Chooser};
use protocol::codec::ProtocolCodec;
use protocol::traits::Backend;
use protocol::types::{
    CkbRelatedInfo, ConsensusConfig, ExecutorContext, ExtraData, HardforkInfoInner, Metadata, ValidatorExtend, H160,
    H256, U256,
};

use crate::world::*;

type R = Result<(), mc::Fail>;

pub fn system(n: u8) -> H160 {
    let mut b = [0xffu8; 20];
    b[19] = n;
    H160(b)
}

pub fn call(sig: &str, args: &[Token]) -> Vec<u8> {
    let mut d = rf::keccak256(sig.as_bytes())[..4].to_vec();
    d.extend(ethabi::encode(args));
    d
}

pub fn n(x: u64) -> Token {
    Token::Uint(x.into())
}

fn config_token(c: &ConsensusConfig) -> Token {
    Token::Tuple(vec![
        n(c.propose_ratio),
        n(c.prevote_ratio),
        n(c.precommit_ratio),
        n(c.brake_ratio),
        n(c.tx_num_limit),
        n(c.max_tx_size),
        n(c.gas_limit),
        n(c.interval),
        n(c.max_contract_limit),
    ])
}

fn append(m: &Metadata) -> Vec<u8> {
    let vals = m
        .verifier_list
        .iter()
        .map(|v| {
            Token::Tuple(vec![
                Token::Bytes(v.bls_pub_key.as_bytes().to_vec()),
                Token::Bytes(v.pub_key.as_bytes().to_vec()),
                Token::Address(v.address),
                n(v.propose_weight.into()),
                n(v.vote_weight.into()),
            ])
        })
        .collect();
    call(
        "appendMetadata(((uint64,uint64),uint64,(bytes,bytes,address,uint32,uint32)[],(address,uint64)[],(uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64)))",
        &[Token::Tuple(vec![
            Token::Tuple(vec![n(m.version.start), n(m.version.end)]),
            n(m.epoch),
            Token::Array(vals),
            // a count that the caller makes up is not taken over
            Token::Array(vec![Token::Tuple(vec![Token::Address(addr(0xe1)), n(77)])]),
            config_token(&m.consensus_config),
        ])],
    )
}

fn set_ckb(i: &CkbRelatedInfo) -> Vec<u8> {
    let t = |h: H256| Token::FixedBytes(h.0.to_vec());
    call(
        "setCkbRelatedInfo((bytes32,bytes32,bytes32,bytes32,bytes32,bytes32))",
        &[Token::Tuple(vec![
            t(i.metadata_type_id),
            t(i.checkpoint_type_id),
            t(i.xudt_args),
            t(i.stake_smt_type_id),
            t(i.delegate_smt_type_id),
            t(i.reward_smt_type_id),
        ])],
    )
}

fn set_config(c: &ConsensusConfig) -> Vec<u8> {
    call(
        "updateConsensusConfig((uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64,uint64))",
        &[config_token(c)],
    )
}

fn ckb(k: u8) -> CkbRelatedInfo {
    let h = |i: u8| H256::repeat_byte(k + i);
    CkbRelatedInfo {
        metadata_type_id:     h(1),
        checkpoint_type_id:   h(2),
        xudt_args:            h(3),
        stake_smt_type_id:    h(4),
        delegate_smt_type_id: h(5),
        reward_smt_type_id:   h(6),
    }
}

fn config(k: u64) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: 1000 + k,
        interval: 2000 + k,
        propose_ratio: 11 + k,
        prevote_ratio: 12 + k,
        precommit_ratio: 13 + k,
        brake_ratio: 14 + k,
        tx_num_limit: 15 + k,
        max_tx_size: 16 + k,
        max_contract_limit: 0x6000,
    }
}

#[derive(Clone, Debug)]
struct Epoch {
    start: u64,
    end: u64,
    vals: Vec<ValidatorExtend>,
    proposed: BTreeMap<H160, u64>,
    by_sender: BTreeMap<H160, u64>,
}

#[derive(Clone, Debug)]
struct Model {
    epochs: Vec<Epoch>,
    config: ConsensusConfig,
    ckb: Option<CkbRelatedInfo>,
    hardforks: Vec<(u64, H256)>,
}

impl Model {
    fn epoch_of(&self, block: u64) -> Option<usize> {
        if block == 0 {
            return None;
        }
        self.epochs.iter().position(|e| block <= e.end)
    }

    fn may(&self, block: u64, who: H160) -> bool {
        self.epoch_of(block).map_or(false, |e| self.epochs[e].vals.iter().any(|v| v.address == who))
    }

    fn add(&mut self, m: &Metadata) -> bool {
        let last = self.epochs.last().unwrap();
        if m.epoch != self.epochs.len() as u64 || m.version.start != last.end + 1 || m.version.end <= last.end {
            return false;
        }
        let zero: BTreeMap<_, _> = m.verifier_list.iter().map(|v| (v.address, 0)).collect();
        self.epochs.push(Epoch {
            start: m.version.start,
            end: m.version.end,
            vals: m.verifier_list.clone(),
            proposed: zero.clone(),
            by_sender: zero,
        });
        self.config = m.consensus_config.clone();
        true
    }
}

const V0: [(u8, u32); 2] = [(0xe1, 1), (0xe2, 2)];
const V1: [(u8, u32); 2] = [(0xe3, 5), (0xe1, 1)];
const V2: [(u8, u32); 1] = [(0xe2, 9)];

fn short() -> &'static Genesis {
    static G: OnceLock<Genesis> = OnceLock::new();
    static B: std::sync::Mutex<()> = std::sync::Mutex::new(());
    genesis();
    let _b = B.lock().unwrap();
    G.get_or_init(|| {
        let metas = [metadata(0, 0, 2, &V0, 0x6000), metadata(1, 3, 5, &V1, 0x6000)];
        genesis_with("/mc/short", HardforkInfoInner { block_number: 0, flags: H256::zero() }, &metas)
    })
}

fn start(g: &Genesis) -> (World, Model) {
    // every world reads its settings from its own database
    let w = World::from(g, 64);
    let epoch = |start, end, v: &[(u8, u32)]| {
        let zero: BTreeMap<_, _> = v.iter().map(|(x, _)| (addr(*x), 0)).collect();
        Epoch { start, end, vals: validators(v), proposed: zero.clone(), by_sender: zero }
    };
    let m = Model {
        epochs: vec![epoch(0, 2, &V0), epoch(3, 5, &V1)],
        config: consensus_config(0x6000),
        ckb: None,
        hardforks: vec![(0, H256::zero())],
    };
    (w, m)
}

pub fn meta_root(w: &World) -> H256 {
    let ad = w.reader(w.root, ExecutorContext::default());
    ad.storage(system(1), H256(rf::keccak256(b"metadata_root")))
}

/// Every reading of the settings; the validators are asked about around one block only, if one is given.
fn same_settings(root: H256, m: &Model, full: Option<u64>) -> R {
    let _g = rt().enter();
    let hd = MetadataHandle::new(root);
    let last = m.epochs.last().unwrap().end;
    for b in 0..last + 3 {
        // epochs are ranges: their ends and what surrounds them suffice
        if b != 0 && !m.epochs.iter().any(|e| b == e.start || b == e.end || b == e.end + 1) {
            continue;
        }
        let got = hd.get_metadata_by_block_number(b);
        let want = if b == 0 { Some(0) } else { m.epoch_of(b) };
        match want {
            None => ensure!(got.is_err(), "epoch: block {b} beyond the last epoch has metadata {got:?}"),
            Some(e) => {
                let got = got.map_err(|x| mc::Fail::new("epoch", format!("epoch: block {b} has no metadata: {x}")))?;
                same_epoch(&got, e, m)?;
            }
        }
        let end = b == 0 || m.epochs.iter().any(|e| e.end == b);
        ensure_eq!(hd.is_last_block_in_current_epoch(b).unwrap(), end, "last block: {b} in {:?}", m.epochs);
        if full.map_or(false, |f| b != 0 && b != f && b != f + 1 && b != last) {
            continue;
        }
        for who in [0xe1u8, 0xe2, 0xe3, 0xa1] {
            let got = hd.is_validator(b, addr(who));
            let want = if b == 0 { m.may(1, addr(who)) } else { m.may(b, addr(who)) };
            ensure_eq!(got.unwrap_or(false), want, "validator: {who:x} at block {b} of {:?}", m.epochs);
        }
    }
    for e in 0..m.epochs.len() as u64 + 2 {
        match hd.get_metadata_by_epoch(e) {
            Ok(got) => {
                ensure!((e as usize) < m.epochs.len(), "epoch: {e} exists, {} were appended", m.epochs.len());
                same_epoch(&got, e as usize, m)?;
            }
            Err(x) => ensure!(e as usize >= m.epochs.len(), "epoch: {e} is missing: {x}"),
        }
    }
    ensure_eq!(hd.get_consensus_config().unwrap(), m.config, "configuration: after the history");
    ensure_eq!(hd.get_ckb_related_info().ok(), m.ckb, "ckb: related information");
    let forks: Vec<_> = hd.hardfork_infos().unwrap().inner.iter().map(|i| (i.block_number, i.flags)).collect();
    ensure_eq!(forks, m.hardforks, "hardforks: recorded");
    Ok(())
}

fn same_epoch(got: &Metadata, e: usize, m: &Model) -> R {
    let want = &m.epochs[e];
    ensure_eq!(got.epoch, e as u64, "epoch: number");
    ensure_eq!((got.version.start, got.version.end), (want.start, want.end), "epoch: range of {e}");
    ensure_eq!(got.verifier_list, want.vals, "epoch: validators of {e}");
    ensure_eq!(got.consensus_config, m.config, "epoch: configuration of {e}");
    let counts: BTreeMap<_, _> = got.propose_counter.iter().map(|c| (c.address, c.count)).collect();
    ensure!(
        counts == want.proposed || counts == want.by_sender,
        "proposals: epoch {e} counts {counts:?} instead of {:?}",
        want.proposed
    );
    Ok(())
}

pub fn system_tx(sender: H160, to: u8, data: Vec<u8>) -> Tx {
    Tx { sender, kind: 2, to: Some(system(to)), value: U256::zero(), data, gas: 100_000, price: 10, access: vec![], nonce: 0 }
}

/// One operation of the menu in the present state: the transaction, and whether it takes effect.
fn operation(c: &mut Chooser, m: &mut Model, block: u64) -> Option<(Tx, bool)> {
    let last = m.epochs.last().unwrap().end;
    let next = m.epochs.len() as u64;
    let vals = m.epoch_of(block).map(|e| m.epochs[e].vals.clone()).unwrap_or_default();
    let who = vals.first().map(|v| v.address).unwrap_or(addr(0xe1));
    let good = |k: u64, end: u64, v: &[(u8, u32)]| Metadata {
        consensus_config: config(k),
        ..metadata(next, last + 1, end, v, 0x6000)
    };
    let i = c.deviate(17);
    let (sender, data, ok): (H160, Vec<u8>, bool) = match i {
        0 => return None,
        1 => {
            let x = good(100, last + 2, &V1);
            let ok = m.may(block, who) && m.add(&x);
            (who, append(&x), ok)
        }
        2 => {
            let x = good(200, last + 1, &V2);
            let ok = m.may(block, who) && m.add(&x);
            (who, append(&x), ok)
        }
        3 => (who, append(&Metadata { epoch: next - 1, ..good(1, last + 2, &V2) }), false),
        4 => (who, append(&Metadata { epoch: next + 1, ..good(1, last + 2, &V2) }), false),
        5 => {
            let mut x = good(1, last + 3, &V2);
            x.version.start += 1;
            (who, append(&x), false)
        }
        6 => {
            let mut x = good(1, last + 3, &V2);
            x.version.start -= 1;
            (who, append(&x), false)
        }
        7 => (who, append(&good(1, last, &V2)), false),
        8 | 9 => {
            let info = ckb(i as u8 * 10);
            let ok = m.may(block, who);
            if ok {
                m.ckb = Some(info.clone());
            }
            (who, set_ckb(&info), ok)
        }
        10 => {
            let x = config(300);
            let ok = m.may(block, who);
            if ok {
                m.config = x.clone();
            }
            (who, set_config(&x), ok)
        }
        11 => (who, vec![1, 2, 3, 4], false),
        12 => {
            let mut d = append(&good(1, last + 2, &V2));
            d.truncate(d.len() - 40);
            (who, d, false)
        }
        13 => (addr(0xa1), append(&good(1, last + 2, &V2)), false),
        14 => {
            // a validator of some epoch
            let s = addr(0xe3);
            let info = ckb(0x77);
            let ok = m.may(block, s);
            if ok {
                m.ckb = Some(info.clone());
            }
            (s, set_ckb(&info), ok)
        }
        15 => {
            let s = addr(0xe2);
            let x = config(400);
            let ok = m.may(block, s);
            if ok {
                m.config = x.clone();
            }
            (s, set_config(&x), ok)
        }
        _ => (system(1), set_config(&config(5)), false),
    };
    Some((system_tx(sender, 1, data), ok))
}

pub fn govern(k: &Check) {
    k.part(
        "settings",
        "every history of blocks in which validators and others append epochs (in and out of sequence), set the CKB identifiers, update the configuration or send junk, up to the number of operations; every reading after every block, and of every earlier state at the end",
        "up to 7 blocks, 2 operations each, from 16; 2 operations in all",
    )
    .deviations(2)
    .explore(|c| history(c, 7, 2).map(|_| ()));
    if k.thorough() {
        k.part("longer histories", "as above, with three operations in different blocks", "up to 5 blocks, 3 operations from 16")
            .deviations(3)
            .explore(|c| history(c, 5, 1).map(|_| ()));
    }
    k.part(
        "proposers",
        "the same histories: the count of every validator of every epoch is the number of blocks it proposed in it",
        "up to 3 blocks, 1 operation",
    )
    .deviations(1)
    .explore(|c| {
        let m = history(c, 3, 2)?;
        for (i, e) in m.epochs.iter().enumerate() {
            ensure!(
                e.by_sender == e.proposed,
                "credited to the sender of the last transaction: epoch {i} counts {:?}, its blocks were proposed by {:?}",
                e.by_sender,
                e.proposed
            );
        }
        c.nontrivial();
        Ok(())
    });
}

fn history(c: &mut Chooser, blocks: u64, slots: usize) -> Result<Model, mc::Fail> {
    let (mut w, mut m) = start(short());
    let mut seen = vec![(meta_root(&w), m.clone())];
    same_settings(seen[0].0, &m, Some(0))?;
    for block in 1..=blocks {
        if m.epoch_of(block).is_none() {
            break;
        }
        let mut txs = vec![];
        let mut want = vec![];
        for _ in 0..slots {
            if let Some((tx, ok)) = operation(c, &mut m, block) {
                txs.push(tx);
                want.push(ok);
            }
        }
        if !txs.is_empty() {
            c.nontrivial();
            c.note(|| format!("block {block}: {:?}", txs.iter().map(|t| (t.sender, mc::hex(&t.data))).collect::<Vec<_>>()));
        }
        let e = m.epoch_of(block).unwrap();
        let nonces: Vec<_> = [0xe1u8, 0xe2, 0xe3, 0xa1].iter().map(|a| nonce(&w, addr(*a))).collect();
        let (resp, p) = mc::no_panic(|| w.run(&txs, &m.epochs[e].vals))
            .map_err(|x| mc::Fail::new("panic", format!("panic: {x} in block {block}")))?;
        for (i, r) in resp.tx_resp.iter().enumerate() {
            ensure_eq!(r.exit_reason.is_succeed(), want[i], "accepted: block {block}, {:?}", txs[i]);
            ensure!(r.logs.is_empty() && r.ret.is_empty(), "answer: of {:?}", txs[i]);
        }
        for (j, a) in [0xe1u8, 0xe2, 0xe3, 0xa1].iter().enumerate() {
            let done = txs.iter().zip(&want).filter(|(t, ok)| t.sender == addr(*a) && **ok).count();
            ensure_eq!(nonce(&w, addr(*a)), nonces[j] + U256::from(done), "nonce: of {a:x} in block {block}");
        }
        if let Some(x) = m.epochs[e].proposed.get_mut(&p.proposer) {
            *x += 1;
        }
        let last = txs.last().map(|t| t.sender).unwrap_or(p.proposer);
        if let Some(x) = m.epochs[e].by_sender.get_mut(&last) {
            *x += 1;
        }
        let root = meta_root(&w);
        same_settings(root, &m, Some(block))?;
        seen.push((root, m.clone()));
        c.transition();
    }
    for (root, m) in &seen {
        same_settings(*root, m, Some(0))?;
    }
    c.state();
    c.outcome((m.epochs.len(), m.ckb.is_some()));
    Ok(m)
}

fn nonce(w: &World, a: H160) -> U256 {
    let _g = rt().enter();
    w.reader(w.root, ExecutorContext::default()).basic(a).nonce
}

fn deploy(size: u64) -> Tx {
    // the returned code is `size` zero bytes
    let s = (size as u32).to_be_bytes();
    Tx {
        sender: addr(0xa1),
        kind: 2,
        to: None,
        value: U256::zero(),
        data: vec![0x62, s[1], s[2], s[3], 0x60, 0, 0xf3],
        gas: 29_000_000,
        price: 1,
        access: vec![],
        nonce: 0,
    }
}

/// F09
pub fn hardfork(k: &Check) {
    let depth = k.by_tier(2, 3);
    k.part(
        "contract size",
        "every history of blocks that announce the hardfork (for this block, later ones, or off again), change the configured limit, and deploy a contract just within and just above each limit",
        "4 blocks, up to 2 announcements or changes (3 thorough), 6 sizes",
    )
    .deviations(depth)
    .serial()
    .explore(|c| {
        let (mut w, mut m) = start(short());
        let mut limit = 0x6000u64;
        let off = H256::zero();
        let on = flags_andromeda();
        let mut now = off;
        // what a restarted node does
        MetadataHandle::new(meta_root(&w)).init_hardfork(0).unwrap();
        let at = |m: &Model, b: u64| m.hardforks.iter().rev().find(|(x, _)| *x <= b).map(|(_, f)| *f).unwrap_or_default();
        for block in 1..=4u64 {
            let e = m.epoch_of(block).unwrap();
            let vals = m.epochs[e].vals.clone();
            let mut txs = vec![];
            // one new limit per block at most
            let new = *c.pick_dev(&[0u64, 0x5000, 0x6100]);
            if new != 0 {
                let x = ConsensusConfig { max_contract_limit: new, ..config(block) };
                txs.push(system_tx(vals[0].address, 1, set_config(&x)));
            }
            // one deployment, in the last block
            let probe = block == 4;
            let size = if probe { *c.pick(&[0x5000u64, 0x5001, 0x6000, 0x6001, 0x6100, 0x6101]) } else { 0 };
            if probe {
                txs.push(deploy(size));
            }
            let ann = c.deviate(6);
            let extra = match ann {
                0 => None,
                1 => Some((block, on)),
                2 => Some((block + 1, on)),
                3 => Some((block + 2, on)),
                4 => Some((block, off)),
                _ => Some((block, H256::repeat_byte(0xff))),
            };
            let data: Vec<ExtraData> = extra
                .iter()
                .map(|(b, f)| ExtraData { inner: HardforkInfoInner { block_number: *b, flags: *f }.encode().unwrap() })
                .collect();
            if !data.is_empty() || new != 0 {
                c.nontrivial();
            }
            c.note(|| format!("block {block}: limit {new:x}, announcement {extra:?}, size {size:x}"));
            let was_on = now.0[0] & 1 == 1 || (now & on) == on;
            let (resp, _) = mc::no_panic(|| w.run_with(&txs, &vals, data))
                .map_err(|x| mc::Fail::new("panic", format!("panic: {x} in block {block}")))?;
            // the limit in force is that of the parent block
            let effective = if was_on { limit } else { 0x6000 };
            if probe {
                let r = resp.tx_resp.last().unwrap();
                ensure_eq!(
                    r.exit_reason.is_succeed(),
                    size <= effective,
                    "size: a contract of {size:#x} under a limit of {effective:#x} (hardfork {was_on}, configured {limit:#x})"
                );
                c.outcome((was_on, size <= effective));
            }
            if new != 0 {
                ensure!(resp.tx_resp[0].exit_reason.is_succeed(), "accepted: new limit {new:#x}");
                // before the hardfork the limit is not part of the configuration
                limit = if was_on { new } else { 0x6000 };
                m.config = ConsensusConfig { max_contract_limit: limit, ..config(block) };
            }
            // a hardfork is never taken back, nor moved to an earlier block
            if let Some((b, f)) = extra {
                let (lb, lf) = *m.hardforks.last().unwrap();
                let f = f | lf;
                if f != lf && b == lb {
                    m.hardforks.last_mut().unwrap().1 = f;
                } else if f != lf && b > lb {
                    m.hardforks.push((b, f));
                }
            }
            now = at(&m, block);
            let hd = MetadataHandle::new(meta_root(&w));
            ensure_eq!(hd.get_consensus_config().unwrap(), m.config, "configuration: after block {block}");
            let forks: Vec<_> = hd.hardfork_infos().unwrap().inner.iter().map(|i| (i.block_number, i.flags)).collect();
            ensure_eq!(forks, m.hardforks, "hardforks: recorded after block {block}");
            // a restart between blocks changes nothing
            if block == 2 && c.flip() {
                hd.init_hardfork(block).unwrap();
            }
            c.transition();
        }
        Ok(())
    });
    // leave the process as other checks expect it
    MetadataHandle::new(meta_root(&start(short()).0)).init_hardfork(0).unwrap();
}
