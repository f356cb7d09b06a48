//! C03: what the node writes, the light client tools read with the same meaning, and the reverse.

use std::str::FromStr;

use axon_tools::types as t;
use mc::{ensure, ensure_eq, Check, Chooser, Outcome};
use protocol::codec::ProtocolCodec;
use protocol::types as p;
use serde_json::Value;

use crate::proof::{header, to_tools_header, to_tools_proof};

const U64S: [u64; 12] = [5, 0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, u32::MAX as u64, 1 << 32, u64::MAX];
const U32S: [u32; 8] = [5, 0, 1, 0x7f, 0x80, 0xff, 0x100, u32::MAX];

fn u64v(c: &mut Chooser) -> u64 {
    *c.pick_dev(&U64S)
}

fn u32v(c: &mut Chooser) -> u32 {
    *c.pick_dev(&U32S)
}

fn bytesv(c: &mut Chooser) -> Vec<u8> {
    let n = *c.pick_dev(&[3usize, 0, 1, 2, 32, 55, 56, 96, 300]);
    let first = if n == 1 { *c.pick_dev(&[0x05u8, 0, 0x7f, 0x80, 0xff]) } else { 0xa1 };
    (0..n).map(|i| if i == 0 { first } else { (i * 7) as u8 }).collect()
}

fn hashv(c: &mut Chooser) -> p::H256 {
    match c.deviate(4) {
        0 => p::H256(rf::keccak256(b"x")),
        1 => p::H256::zero(),
        2 => p::H256::repeat_byte(0xff),
        _ => p::H256::from_low_u64_be(1),
    }
}

fn addrv(c: &mut Chooser) -> p::H160 {
    match c.deviate(3) {
        0 => p::H160::from_slice(&rf::keccak256(b"y")[..20]),
        1 => p::H160::zero(),
        _ => p::H160::from_low_u64_be(0x80),
    }
}

fn count(c: &mut Chooser) -> usize {
    *c.pick_dev(&[1usize, 0, 2, 3])
}

fn bloomv(c: &mut Chooser) -> p::Bloom {
    match c.deviate(3) {
        0 => p::Bloom::repeat_byte(0x11),
        1 => p::Bloom::zero(),
        _ => p::Bloom::from_low_u64_be(1),
    }
}

fn proofv(c: &mut Chooser) -> p::Proof {
    p::Proof {
        number:     u64v(c),
        round:      u64v(c),
        block_hash: hashv(c),
        signature:  bytesv(c).into(),
        bitmap:     bytesv(c).into(),
    }
}

fn extrav(c: &mut Chooser) -> Vec<p::ExtraData> {
    (0..count(c)).map(|_| p::ExtraData { inner: bytesv(c).into() }).collect()
}

fn headerv(c: &mut Chooser) -> p::Header {
    p::Header {
        version:                  p::BlockVersion::V0,
        prev_hash:                hashv(c),
        proposer:                 addrv(c),
        state_root:               hashv(c),
        transactions_root:        hashv(c),
        signed_txs_hash:          hashv(c),
        receipts_root:            hashv(c),
        log_bloom:                bloomv(c),
        timestamp:                u64v(c),
        number:                   u64v(c),
        gas_used:                 u64v(c).into(),
        gas_limit:                u64v(c).into(),
        extra_data:               extrav(c),
        base_fee_per_gas:         u64v(c).into(),
        proof:                    proofv(c),
        call_system_script_count: u32v(c),
        chain_id:                 u64v(c),
    }
}

fn hashesv(c: &mut Chooser) -> Vec<p::H256> {
    (0..count(c)).map(|i| if i == 0 { hashv(c) } else { p::H256::repeat_byte(i as u8) }).collect()
}

fn config(c: &mut Chooser) -> p::ConsensusConfig {
    p::ConsensusConfig {
        gas_limit:          u64v(c),
        interval:           u64v(c),
        propose_ratio:      u64v(c),
        prevote_ratio:      u64v(c),
        precommit_ratio:    u64v(c),
        brake_ratio:        u64v(c),
        tx_num_limit:       u64v(c),
        max_tx_size:        u64v(c),
        max_contract_limit: u64v(c),
    }
}

fn to_tools_config(x: &p::ConsensusConfig) -> t::ConsensusConfig {
    t::ConsensusConfig {
        gas_limit:          x.gas_limit,
        interval:           x.interval,
        propose_ratio:      x.propose_ratio,
        prevote_ratio:      x.prevote_ratio,
        precommit_ratio:    x.precommit_ratio,
        brake_ratio:        x.brake_ratio,
        tx_num_limit:       x.tx_num_limit,
        max_tx_size:        x.max_tx_size,
        max_contract_limit: x.max_contract_limit,
    }
}

fn metadata(c: &mut Chooser) -> p::Metadata {
    p::Metadata {
        version:          p::MetadataVersion { start: u64v(c), end: u64v(c) },
        epoch:            u64v(c),
        verifier_list:    (0..count(c))
            .map(|_| p::ValidatorExtend {
                bls_pub_key:    p::Hex::encode(bytesv(c)),
                pub_key:        p::Hex::encode(bytesv(c)),
                address:        addrv(c),
                propose_weight: u32v(c),
                vote_weight:    u32v(c),
            })
            .collect(),
        propose_counter:  (0..count(c)).map(|_| p::ProposeCount { address: addrv(c), count: u64v(c) }).collect(),
        consensus_config: config(c),
    }
}

fn to_tools_metadata(m: &p::Metadata) -> t::Metadata {
    t::Metadata {
        version:          t::MetadataVersion { start: m.version.start, end: m.version.end },
        epoch:            m.epoch,
        verifier_list:    m
            .verifier_list
            .iter()
            .map(|v| t::ValidatorExtend {
                bls_pub_key:    v.bls_pub_key.as_bytes().to_vec().into(),
                pub_key:        v.pub_key.as_bytes().to_vec().into(),
                address:        v.address,
                propose_weight: v.propose_weight,
                vote_weight:    v.vote_weight,
            })
            .collect(),
        propose_counter:  m
            .propose_counter
            .iter()
            .map(|x| t::ProposeCount { address: x.address, count: x.count })
            .collect(),
        consensus_config: to_tools_config(&m.consensus_config),
    }
}

/// Every number in the JSON of a node is 0x and hexadecimal digits without leading zeroes.
fn numbers_are_hex(path: &str, v: &Value) -> Outcome {
    match v {
        Value::Number(n) => ensure!(false, "a number is written in decimal: {path} = {n}"),
        Value::Array(a) => {
            for x in a {
                numbers_are_hex(path, x)?;
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                numbers_are_hex(&format!("{path}.{k}"), x)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// The five directions of one value `n` of the node that the tools know as `x`.
fn agree<N, X>(name: &str, n: &N, x: &X) -> Outcome
where
    N: rlp::Encodable + rlp::Decodable + serde::Serialize + std::fmt::Debug + PartialEq,
    X: rlp::Encodable + rlp::Decodable + serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug + PartialEq,
{
    let (a, b) = (rlp::encode(n).to_vec(), rlp::encode(x).to_vec());
    ensure!(a == b, "the tools encode it differently: {name} {n:?} node {} tools {}", mc::hex(&a), mc::hex(&b));
    let back = rlp::decode::<X>(&a);
    ensure!(back.as_ref() == Ok(x), "the tools decode the node's bytes differently: {name} {back:?} for {n:?}");
    let back = rlp::decode::<N>(&b);
    ensure!(back.as_ref() == Ok(n), "the node decodes the bytes of the tools differently: {name} {back:?}");
    let (ja, jb) = (serde_json::to_value(n).unwrap(), serde_json::to_value(x).unwrap());
    numbers_are_hex(name, &ja)?;
    ensure!(ja == jb, "the tools write other JSON: {name} node {ja} tools {jb}");
    let back = serde_json::from_value::<X>(ja.clone());
    match back {
        Ok(v) => ensure!(&v == x, "the tools read the node's JSON differently: {name} {v:?} for {ja}"),
        Err(e) => ensure!(false, "the tools cannot read the node's JSON: {name} {e} for {ja}"),
    }
    Ok(())
}

fn digits(text: &str) -> Option<u64> {
    let d = text.strip_prefix("0x")?;
    if !d.chars().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    let d = d.trim_start_matches('0');
    if d.len() > 16 {
        return None;
    }
    let mut v = 0u64;
    for c in d.chars() {
        v = v << 4 | c.to_digit(16).unwrap() as u64;
    }
    Some(v)
}

pub fn codec(check: &Check) {
    let d = check.by_tier(2, 3);
    let bound = format!("up to {d} fields away from their default, 12 boundary values per u64, 8 per u32, 4 per hash, byte strings of 9 lengths, lists of 0 to 3");
    check.part("header", "node and tools agree on the bytes and the JSON of a block header and its hash", &bound).deviations(d).explore(|c| {
        let h = headerv(c);
        c.nontrivial();
        c.state();
        let x = to_tools_header(&h);
        agree("header", &h, &x)?;
        c.outcome(h.hash());
        Ok(())
    });
    check.part("block", "as for the header, for a block with its transaction hashes", &bound).deviations(d.min(2)).explore(|c| {
        let b = p::Block { header: header(u64v(c) % 1000), tx_hashes: hashesv(c) };
        c.nontrivial();
        c.state();
        let x = t::Block { header: to_tools_header(&b.header), tx_hashes: b.tx_hashes.clone() };
        c.outcome(rlp::encode(&x));
        agree("block", &b, &x)
    });
    check.part("proof", "as for the header, for a consensus proof and extra data", &bound).deviations(d + 1).explore(|c| {
        let n = proofv(c);
        c.nontrivial();
        c.state();
        agree("proof", &n, &to_tools_proof(&n))?;
        let e = p::ExtraData { inner: bytesv(c).into() };
        c.outcome(rlp::encode(&n));
        agree("extra data", &e, &t::ExtraData { inner: e.inner.clone() })
    });
    check
        .part("proposal", "the tools encode a proposal exactly as the node does when it signs, and read its JSON", &bound)
        .deviations(d)
        .explore(|c| {
            let mut h = headerv(c);
            let root = hashv(c);
            let hashes = hashesv(c);
            // the chain id and the base fee are not in what is signed: they come from the node's settings
            h.chain_id = **protocol::lazy::CHAIN_ID.load();
            let n = p::Proposal::new_with_state_root(&h, root, hashes.clone());
            c.nontrivial();
            c.state();
            let x = t::Proposal {
                version:                  t::BlockVersion::V0,
                prev_hash:                h.prev_hash,
                proposer:                 h.proposer,
                prev_state_root:          root,
                transactions_root:        h.transactions_root,
                signed_txs_hash:          h.signed_txs_hash,
                timestamp:                h.timestamp,
                number:                   h.number,
                gas_limit:                h.gas_limit,
                extra_data:               to_tools_header(&h).extra_data,
                base_fee_per_gas:         h.base_fee_per_gas,
                proof:                    to_tools_proof(&h.proof),
                chain_id:                 h.chain_id,
                call_system_script_count: h.call_system_script_count,
                tx_hashes:                hashes,
            };
            let (a, b) = (n.encode().unwrap(), rlp::encode(&x));
            ensure!(a[..] == b[..], "the tools encode a proposal differently: {} and {}", mc::hex(&a), mc::hex(&b));
            ensure_eq!(n.hash().0, axon_tools::keccak_256(&b), "the hash of a proposal: {n:?}");
            let j = serde_json::to_value(&n).unwrap();
            numbers_are_hex("proposal", &j)?;
            match serde_json::from_value::<t::Proposal>(j.clone()) {
                Ok(v) => ensure!(v == x, "the tools read the node's proposal differently: {v:?} for {j}"),
                Err(e) => ensure!(false, "the tools cannot read the node's proposal: {e} for {j}"),
            }
            c.outcome(n.hash());
            Ok(())
        });
    check.part("metadata", "as for the header, for metadata, validators and consensus settings", &bound).deviations(d).explore(|c| {
        let n = metadata(c);
        c.nontrivial();
        c.state();
        let x = to_tools_metadata(&n);
        let (a, b) = (rlp::encode(&n).to_vec(), rlp::encode(&x).to_vec());
        ensure!(a == b, "the tools encode metadata differently: {n:?} node {} tools {}", mc::hex(&a), mc::hex(&b));
        let back = rlp::decode::<t::Metadata>(&a);
        ensure!(back.as_ref() == Ok(&x), "the tools decode metadata differently: {back:?} for {n:?}");
        let (ja, jb) = (serde_json::to_value(&n).unwrap(), serde_json::to_value(&x).unwrap());
        numbers_are_hex("metadata", &ja)?;
        ensure!(ja == jb, "the tools write other JSON for metadata: node {ja} tools {jb}");
        // who proposed how often is not read from JSON, by neither
        let mut want = x.clone();
        want.propose_counter.clear();
        match serde_json::from_value::<t::Metadata>(ja.clone()) {
            Ok(v) => ensure!(v == want, "the tools read the node's metadata differently: {v:?} for {ja}"),
            Err(e) => ensure!(false, "the tools cannot read the node's metadata: {e} for {ja}"),
        }
        for (v, w) in n.propose_counter.iter().zip(&x.propose_counter) {
            let j = serde_json::to_value(v).unwrap();
            let got = serde_json::from_value::<t::ProposeCount>(j.clone()).ok();
                ensure_eq!(got.as_ref(), Some(w), "the tools read how often a node proposed: {j}");
        }
        c.outcome(a);
        Ok(())
    });
    check
        .part("metadata-v0", "metadata written before the contract limit existed reads with the node's default for it", &bound)
        .deviations(d)
        .explore(|c| {
            let n = config(c);
            let v0 = p::ConsensusConfigV0 {
                gas_limit:       n.gas_limit,
                interval:        n.interval,
                propose_ratio:   n.propose_ratio,
                prevote_ratio:   n.prevote_ratio,
                precommit_ratio: n.precommit_ratio,
                brake_ratio:     n.brake_ratio,
                tx_num_limit:    n.tx_num_limit,
                max_tx_size:     n.max_tx_size,
            };
            c.nontrivial();
            let mut want = to_tools_config(&n);
            let raw = rlp::encode(&v0);
            want.max_contract_limit = p::ConsensusConfig::from(v0).max_contract_limit;
            let got = rlp::decode::<t::ConsensusConfig>(&raw);
            ensure!(got.as_ref() == Ok(&want), "older consensus settings: {got:?} for {want:?}");
            c.outcome(raw);
            Ok(())
        });
    check
        .part(
            "settings-more",
            "node and tools read consensus settings with a different number of items alike",
            "the consensus settings with 9 items cut to each shorter list, or with 1, 2 or 50 numbers, empty strings or lists after them",
        )
        .explore(|c| {
            let mut items: Vec<rf::Item> = (0..9u64).map(|i| rf::u(1000 + i)).collect();
            match c.choose(13) {
                n @ 0..=9 => items.truncate(n),
                n => {
                    let more = match c.choose(3) {
                        0 => rf::u(77),
                        1 => rf::b([]),
                        _ => rf::l(vec![rf::u(1)]),
                    };
                    items.resize(9 + [1, 2, 50][n - 10], more);
                }
            }
            let n = items.len();
            let raw = rf::l(items).encode();
            c.nontrivial();
            c.outcome(n);
            let node = mc::no_panic(|| rlp::decode::<p::ConsensusConfig>(&raw).ok().or_else(|| rlp::decode::<p::ConsensusConfigV0>(&raw).ok().map(Into::into)))?;
            let tools = mc::no_panic(|| rlp::decode::<t::ConsensusConfig>(&raw).ok())?;
            ensure!(tools == node.as_ref().map(to_tools_config), "consensus settings of {n} items read differently: node {node:?} tools {tools:?}");
            Ok(())
        });
    check
        .part(
            "long-text",
            "long texts of bytes are read to the end, alike by node and tools",
            "5 beginnings x 0 to 200 001 digits (13 lengths) x all of them digits, or the first, a middle or the last not",
        )
        .explore(|c| {
            let head = *c.pick(&["0x", "0X", "", "x", "0x0x"]);
            let n = *c.pick(&[0usize, 1, 2, 63, 64, 65, 4094, 4096, 4097, 4098, 65_536, 131_074, 200_001]);
            let odd = c.choose(4);
            let mut d: Vec<u8> = (0..n).map(|i| b"0123456789abcdefABCDEF"[(i * 7 + i / 22) % 22]).collect();
            if odd > 0 && n > 0 {
                d[[0, n / 2, n - 1][odd - 1]] = b'g';
            }
            let d = String::from_utf8(d).unwrap();
            let s = format!("{head}{d}");
            let bytes = |d: &str| {
                let ok = d.len() % 2 == 0 && d.bytes().all(|b| b.is_ascii_hexdigit());
                ok.then(|| (0..d.len()).step_by(2).map(|i| u8::from_str_radix(&d[i..i + 2], 16).unwrap()).collect::<Vec<u8>>())
            };
            let want = s.strip_prefix("0x").and_then(bytes);
            c.state();
            c.nontrivial();
            c.outcome((head, n, odd));
            let tools = mc::no_panic(|| t::Hex::from_str(&s).ok().map(|h| h.as_bytes().to_vec()))?;
            ensure!(tools == want, "the tools misread a long byte text: {head:?} and {n} digits, odd {odd}");
            let node = mc::no_panic(|| p::Hex::from_str(&s).ok().map(|h| h.as_bytes().to_vec()))?;
            ensure!(node == want, "the node misreads a long byte text: {head:?} and {n} digits, odd {odd}");
            let plain = mc::no_panic(|| axon_tools::hex::hex_decode(&s).ok())?;
            ensure!(plain == bytes(s.strip_prefix("0x").unwrap_or(&s)), "the tools misread a long text without 0x: {head:?} and {n} digits, odd {odd}");
            if let Some(w) = want {
                ensure!(axon_tools::hex::hex_encode(&w) == rf::hex(&w), "the tools write bytes wrongly: {n} digits");
            }
            Ok(())
        });
    let len = check.by_tier(5, 6);
    check
        .part(
            "number-text",
            "the tools take a number only from 0x and hexadecimal digits in range, with its value, and never crash",
            &format!("every text of up to {len} pieces out of 0x 0 7 f F g + - _ space é and 16-digit runs, as u64 and as u32"),
        )
        .explore(|c| {
            let pieces = ["", "0x", "0", "7", "f", "F", "g", "+", "_", " ", "é", "x", "ffffffff", "0000000000000000", "ffffffffffffffff"];
            let mut s = String::new();
            for _ in 0..len {
                match c.choose(pieces.len()) {
                    0 => break,
                    i => s += pieces[i],
                }
            }
            c.state();
            let want = digits(&s);
            if want.is_some() {
                c.nontrivial();
            }
            let j = serde_json::json!({"start": s, "end": "0x1"});
            let got = mc::no_panic(|| serde_json::from_value::<t::MetadataVersion>(j).ok().map(|v| v.start));
            match got {
                Ok(g) => ensure!(g == want, "a number text is misread: {s:?} gives {g:?}, means {want:?}"),
                Err(e) => ensure!(false, "a number text crashes: {s:?} {e}"),
            }
            let j = serde_json::json!({
                "bls_pub_key": "0x", "pub_key": "0x01", "address": p::H160::zero(), "propose_weight": "0x1", "vote_weight": s,
            });
            let want = want.and_then(|v| u32::try_from(v).ok());
            match mc::no_panic(|| serde_json::from_value::<t::ValidatorExtend>(j).ok().map(|v| v.vote_weight)) {
                Ok(g) => ensure!(g == want, "a 32-bit number text is misread: {s:?} gives {g:?}, means {want:?}"),
                Err(e) => ensure!(false, "a 32-bit number text crashes: {s:?} {e}"),
            }
            c.outcome(want);
            Ok(())
        });
    check
        .part(
            "byte-text",
            "byte strings are read only from 0x and pairs of hexadecimal digits, alike by node and tools",
            &format!("every text of up to {len} pieces out of 0x 0 1 a F g é and a 64-digit run"),
        )
        .explore(|c| {
            let pieces = ["", "0x", "0", "1", "a", "F", "g", "é", "x", "00000000000000000000000000000000000000000000000000000000000000ff"];
            let mut s = String::new();
            for _ in 0..len {
                match c.choose(pieces.len()) {
                    0 => break,
                    i => s += pieces[i],
                }
            }
            c.state();
            let want = s.strip_prefix("0x").filter(|d| d.len() % 2 == 0 && d.chars().all(|x| x.is_ascii_hexdigit())).map(|d| {
                d.as_bytes()
                    .chunks(2)
                    .map(|x| u8::from_str_radix(std::str::from_utf8(x).unwrap(), 16).unwrap())
                    .collect::<Vec<u8>>()
            });
            if want.is_some() {
                c.nontrivial();
            }
            let tools = mc::no_panic(|| t::Hex::from_str(&s).ok().map(|h| h.as_bytes().to_vec()));
            ensure!(tools == Ok(want.clone()), "the tools misread a byte text: {s:?} gives {tools:?}");
            let node = mc::no_panic(|| p::Hex::from_str(&s).ok().map(|h| h.as_bytes().to_vec()));
            ensure!(node == Ok(want.clone()), "the node misreads a byte text: {s:?} gives {node:?}");
            if let Some(w) = &want {
                let h = t::Hex::from(w.clone());
                ensure_eq!(h.as_string(), format!("0x{}", rf::hex(w)), "the text of bytes: {s}");
                ensure_eq!(h.as_string_trim0x(), rf::hex(w), "the text of bytes without 0x: {s}");
            }
            c.outcome(want);
            Ok(())
        });
}
