//! Codecs: round trips, byte formats, and decoding of untrusted bytes.

use std::fmt::Debug;

use crate::gen;
use mc::{ensure, ensure_eq, Check, Chooser, Fail, Outcome};
use protocol::codec::ProtocolCodec;
use protocol::traits::MessageCodec;
use protocol::types::*;
use rf::Item;

fn round<T>(c: &mut Chooser, v: T, reference: Option<Item>) -> Outcome
where
    T: ProtocolCodec + PartialEq + Debug + Clone,
{
    c.nontrivial();
    c.note(|| mc::short(&v));
    let enc = ProtocolCodec::encode(&v).map_err(|e| Fail::new("encode fails", format!("encode fails: {e}")))?;
    c.outcome(&enc[..]);
    if let Some(r) = reference {
        let r = r.encode();
        ensure!(
            enc[..] == r[..],
            "byte format: {:?} encodes to {} but the format is {}",
            mc::short(&v),
            mc::hex(&enc),
            mc::hex(&r)
        );
    }
    let dec = T::decode(&enc).map_err(|e| {
        Fail::new(
            "decode of an encoded value fails",
            format!("decode of an encoded value fails: {:?} -> {} -> {e}", mc::short(&v), mc::hex(&enc)),
        )
    })?;
    ensure!(dec == v, "round trip: {} came back as {}", mc::short(&v), mc::short(&dec));
    Ok(())
}

macro_rules! rt {
    ($k:expr, $name:expr, $d:expr, $gen:expr, $rf:expr) => {
        $k.part(
            $name,
            "every combination of field values from the boundary domains with at most the bounded number of fields \
             away from their default; each value is encoded, compared with an independent encoding, decoded and compared",
            &format!("{} fields away from default", $d),
        )
        .deviations($d)
        .explore(|c| {
            let v = $gen(c);
            let r: Option<Item> = ($rf)(&v);
            round(c, v, r)
        });
    };
}

fn none<T>(_: &T) -> Option<Item> {
    None
}

pub fn storage_codec(k: &Check) {
    let d = k.by_tier(3, 4);
    rt!(k, "proof", d + 1, gen::proof, |p: &Proof| Some(gen::rf_proof(p)));
    rt!(k, "header", d, gen::header, |h: &Header| Some(gen::rf_header(h)));
    rt!(k, "block", d, gen::block, |b: &Block| Some(gen::rf_block(b)));
    rt!(k, "proposal", d, gen::proposal, |p: &Proposal| Some(gen::rf_proposal(p)));
    rt!(k, "receipt", d, gen::receipt, |r: &Receipt| {
        Some(rf::l(vec![
            gen::rf_h(&r.tx_hash),
            rf::u(r.block_number),
            gen::rf_h(&r.block_hash),
            rf::u(r.tx_index as u64),
            gen::rf_h(&r.state_root),
            rf::u(r.used_gas.as_u64()),
            rf::b(r.logs_bloom.as_bytes()),
            gen::rf_logs(&r.logs),
            rf::u(r.log_index as u64),
            rf::l(r.code_address.iter().map(gen::rf_h).collect()),
            gen::rf_a(&r.sender),
            rf::b(bincode::serialize(&r.ret).unwrap()),
            rf::u(r.removed as u64),
        ]))
    });
    rt!(k, "tx_resp", d, gen::tx_resp, none);
    rt!(
        k,
        "executor_context",
        d,
        |c: &mut Chooser| ExecutorContext {
            block_number: gen::u256s(c),
            block_coinbase: gen::h160s(c, 1),
            block_timestamp: gen::u256s(c),
            chain_id: gen::u256s(c),
            origin: gen::h160s(c, 2),
            gas_price: gen::u256s(c),
            block_gas_limit: gen::u64s(c).into(),
            block_base_fee_per_gas: gen::u64s(c).into(),
            extra_data: gen::extra(c),
        },
        none
    );
    rt!(k, "metadata", d, gen::metadata, |m: &Metadata| Some(gen::rf_metadata(m)));
    rt!(
        k,
        "metadata_inner",
        d,
        |c: &mut Chooser| gen::metadata(c).into_part().0,
        |m: &MetadataInner| {
            let full = Metadata::from_parts(m.clone(), ConsensusConfig::default());
            match gen::rf_metadata(&full) {
                Item::L(mut v) => {
                    v.pop();
                    Some(Item::L(v))
                }
                _ => None,
            }
        }
    );
    rt!(k, "consensus_config", d, gen::consensus_config, |x: &ConsensusConfig| Some(
        gen::rf_config(x)
    ));
    rt!(
        k,
        "consensus_config_v0",
        d,
        |c: &mut Chooser| ConsensusConfigV0::from(gen::consensus_config(c)),
        |x: &ConsensusConfigV0| match gen::rf_config(&ConsensusConfig::from(x.clone())) {
            Item::L(mut v) => {
                v.pop();
                Some(Item::L(v))
            }
            _ => None,
        }
    );
    rt!(
        k,
        "spec_metadata",
        d,
        |c: &mut Chooser| SpecMetadata {
            version: MetadataVersion::new(gen::u64s(c), gen::u64s(c)),
            epoch: gen::u64s(c),
            verifier_list: vec![Validator {
                bls_pub_key: gen::hexs(c),
                pub_key: gen::hexs(c),
                propose_weight: gen::u32s(c),
                vote_weight: gen::u32s(c),
            }],
            propose_counter: vec![],
            consensus_config: ConsensusConfig::default(),
        },
        none
    );
    rt!(
        k,
        "consensus_validator",
        d,
        |c: &mut Chooser| ConsensusValidator {
            pub_key: gen::blob(c),
            propose_weight: gen::u32s(c),
            vote_weight: gen::u32s(c),
        },
        none
    );
    rt!(
        k,
        "hardfork_info",
        d,
        |c: &mut Chooser| {
            let n = *c.pick_dev(&[1usize, 0, 2]);
            HardforkInfo {
                inner: (0..n)
                    .map(|_| HardforkInfoInner {
                        block_number: gen::u64s(c),
                        flags: gen::h256s(c, 1),
                    })
                    .collect(),
            }
        },
        |h: &HardforkInfo| Some(rf::l(vec![rf::l(h
            .inner
            .iter()
            .map(|i| rf::l(vec![rf::u(i.block_number), gen::rf_h(&i.flags)]))
            .collect())]))
    );
    rt!(
        k,
        "ckb_related_info",
        d,
        |c: &mut Chooser| CkbRelatedInfo {
            metadata_type_id: gen::h256s(c, 1),
            checkpoint_type_id: gen::h256s(c, 2),
            xudt_args: gen::h256s(c, 3),
            stake_smt_type_id: gen::h256s(c, 4),
            delegate_smt_type_id: gen::h256s(c, 5),
            reward_smt_type_id: gen::h256s(c, 6),
        },
        |i: &CkbRelatedInfo| Some(gen::rf_hashes(&[
            i.metadata_type_id,
            i.checkpoint_type_id,
            i.xudt_args,
            i.stake_smt_type_id,
            i.delegate_smt_type_id,
            i.reward_smt_type_id
        ]))
    );
    rt!(k, "address", 1, |c: &mut Chooser| Address(gen::h160s(c, 1)), |a: &Address| Some(
        rf::l(vec![gen::rf_a(&a.0)])
    ));
    rt!(k, "hex", 1, gen::hexs, |h: &Hex| Some(gen::rf_hexv(h)));
    rt!(k, "db_bytes", 1, |c: &mut Chooser| DBBytes(gen::blob(c)), none);
    rt!(
        k,
        "cell_with_data",
        d + 1,
        |c: &mut Chooser| CellWithData {
            type_script: if c.deviate(2) == 0 { Some(script(c)) } else { None },
            lock_script: script(c),
            data: gen::blob(c),
        },
        none
    );
    rt!(
        k,
        "signature_s",
        d + 1,
        |c: &mut Chooser| {
            let n = *c.pick_dev(&[1usize, 0, 2]);
            SignatureS::new(
                (0..n)
                    .map(|_| Witness {
                        lock: opt_blob(c),
                        input_type: opt_blob(c),
                        output_type: opt_blob(c),
                    })
                    .collect(),
            )
        },
        none
    );
    rt!(
        k,
        "cell_dep_with_pubkey",
        d + 1,
        |c: &mut Chooser| CellDepWithPubKey {
            cell_dep: CellDep {
                tx_hash: gen::h256s(c, 1),
                index: gen::u32s(c),
                dep_type: gen::u8s(c),
            },
            pub_key: gen::blob(c),
        },
        none
    );
    rt!(
        k,
        "out_point",
        2,
        |c: &mut Chooser| OutPoint {
            tx_hash: gen::h256s(c, 1),
            index: gen::u32s(c),
        },
        none
    );
    k.part(
        "account",
        "every combination of account fields: the stored form is [nonce, balance, storage root, code hash]",
        "4 fields",
    )
    .explore(|c| {
        let a = Account {
            nonce: gen::u256s(c),
            balance: gen::u256s(c),
            storage_root: gen::h256s(c, 1),
            code_hash: gen::h256s(c, 2),
        };
        c.nontrivial();
        let enc = rlp::encode(&a);
        let r = rf::l(vec![
            gen::rf_u256(&a.nonce),
            gen::rf_u256(&a.balance),
            gen::rf_h(&a.storage_root),
            gen::rf_h(&a.code_hash),
        ]);
        ensure!(enc[..] == r.encode()[..], "byte format: account");
        let b: Account = rlp::decode(&enc).map_err(|e| Fail::from(format!("decode: {e}")))?;
        ensure!(a == b, "round trip: account");
        Ok(())
    });
    sequences(k);
}

/// Every sequence of up to `n` of the given values.
fn seq<T: Clone>(c: &mut Chooser, n: usize, of: &[T]) -> Vec<T> {
    let n = c.choose(n + 1);
    (0..n).map(|_| c.pick(of).clone()).collect()
}

/// Lists in all orders and with repetitions, which the field-by-field domains above do not hold.
fn sequences(k: &Check) {
    let h = [H256::repeat_byte(0x31), H256::zero(), H256::repeat_byte(0xff)];
    let n = k.by_tier(4, 6);
    k.part("sequences", "every sequence, with repetitions, of up to the bounded number of items in each list of each kind of value", &format!("{n} items of 3, nested lists 2 of 2"))
        .explore(|c| match c.choose(9) {
            0 => {
                let v = seq(c, n, &h);
                round_block(c, v)
            }
            1 => {
                let mut p = gen::first_proposal();
                p.tx_hashes = seq(c, n, &h);
                let r = gen::rf_proposal(&p);
                round(c, p, Some(r))
            }
            2 => {
                let mut b = Block::default();
                b.header.extra_data = seq(c, n, &[vec![], vec![0u8], vec![1; 60]]).into_iter().map(|x: Vec<u8>| ExtraData { inner: x.into() }).collect();
                let r = gen::rf_block(&b);
                round(c, b, Some(r))
            }
            3 | 4 => {
                let len = c.choose(3);
                let logs: Vec<receipt::Log> = (0..len)
                    .map(|_| receipt::Log {
                        address: *c.pick(&[H160::zero(), H160::repeat_byte(0x61)]),
                        topics: seq(c, 3, &h[..2]),
                        data: c.pick(&[vec![], vec![0u8; 40]]).clone(),
                    })
                    .collect();
                if c.flip() {
                    let v = TxResp { logs, ..Default::default() };
                    round(c, v, None)
                } else {
                    let v = Receipt { logs, ..Default::default() };
                    round(c, v, None)
                }
            }
            5 => {
                let v = |i: u8| Validator {
                    bls_pub_key: Hex::encode([i; 48]),
                    pub_key: Hex::encode([i; 33]),
                    propose_weight: i as u32,
                    vote_weight: 1,
                };
                let v = SpecMetadata {
                    version: MetadataVersion::new(0, 9),
                    epoch: 0,
                    verifier_list: seq(c, n, &[v(1), v(2), v(3)]),
                    propose_counter: vec![],
                    consensus_config: ConsensusConfig::default(),
                };
                round(c, v, None)
            }
            6 => {
                let a = |i: u8| ValidatorExtend {
                    bls_pub_key: Hex::encode([i; 48]),
                    pub_key: Hex::encode([i; 33]),
                    address: H160::repeat_byte(i),
                    propose_weight: i as u32,
                    vote_weight: 1,
                };
                let p = |i: u8| ProposeCount {
                    address: H160::repeat_byte(i),
                    count: i as u64,
                };
                let v = Metadata {
                    verifier_list: seq(c, 3, &[a(1), a(2), a(3)]),
                    propose_counter: seq(c, 3, &[p(0), p(2)]),
                    ..Default::default()
                };
                let r = gen::rf_metadata(&v);
                round(c, v, Some(r))
            }
            7 => {
                let i = |b: u64, f: u8| HardforkInfoInner {
                    block_number: b,
                    flags: H256::repeat_byte(f),
                };
                let v = HardforkInfo { inner: seq(c, n, &[i(0, 0), i(1, 0), i(0, 1)]) };
                round(c, v, None)
            }
            _ => {
                let v = Hex::encode(seq(c, n, &[0u8, 0x7f, 0x80]));
                round(c, v, None)
            }
        });
}

fn round_block(c: &mut Chooser, tx_hashes: Vec<H256>) -> Outcome {
    let b = Block { header: Header::default(), tx_hashes };
    let r = gen::rf_block(&b);
    round(c, b, Some(r))
}

fn opt_blob(c: &mut Chooser) -> Option<Bytes> {
    if c.deviate(2) == 0 {
        Some(gen::blob(c))
    } else {
        None
    }
}

fn script(c: &mut Chooser) -> Script {
    Script {
        code_hash: gen::h256s(c, 3),
        args: gen::blob(c),
        hash_type: gen::u8s(c),
    }
}

fn stx(c: &mut Chooser) -> SignedTransaction {
    let u = gen::unsigned(c);
    let id = gen::chain_id(c, u.is_legacy());
    let key = *c.pick_dev(&gen::KEYS);
    SignedTransaction::from_unverified(gen::sign(u, id, &key)).unwrap()
}

/// An interoperation transaction: the signature names the CKB cell that verifies it.
fn interop(c: &mut Chooser) -> SignedTransaction {
    let u = gen::unsigned(c);
    let id = gen::chain_id(c, u.is_legacy());
    let dep = CellDepWithPubKey {
        cell_dep: CellDep {
            tx_hash: gen::h256s(c, 1),
            index: gen::u32s(c),
            dep_type: gen::u8s(c),
        },
        pub_key: bytes_min(c).into(),
    };
    let mut r = vec![0u8];
    r.extend_from_slice(&rlp::encode(&dep));
    let s = SignatureS::new(vec![Witness {
        lock: opt_blob(c),
        input_type: opt_blob(c),
        output_type: None,
    }]);
    let utx = UnverifiedTransaction {
        unsigned: u,
        signature: Some(SignatureComponents {
            r: r.into(),
            s: {
                let mut s = rlp::encode(&s).to_vec();
                s.extend([0x5a; 40]);
                s.into()
            },
            standard_v: c.deviate(2) as u8,
        }),
        chain_id: id,
        hash: H256::zero(),
    };
    SignedTransaction::from_unverified(utx.calc_hash()).unwrap()
}

fn bytes_min(c: &mut Chooser) -> Vec<u8> {
    let n = *c.pick_dev(&[33usize, 0, 1, 64, 65]);
    gen::bytes_of(n, 2)
}

pub fn tx_codec(k: &Check) {
    let d = k.by_tier(3, 3);
    k.part(
        "signed_tx",
        "all three transaction kinds with at most the bounded number of fields away from default, signed; \
         the network/storage form and the raw form both decode to the same transaction",
        "fields away from default",
    )
    .deviations(d)
    .explore(|c| {
        let t = stx(c);
        tx_round(c, t)
    });
    k.part(
        "interop_tx",
        "as signed_tx, with a signature that names a CKB cell",
        "fields away from default",
    )
    .deviations(d)
    .explore(|c| {
        let t = interop(c);
        let sig = t.transaction.signature.clone().unwrap();
        let dep: CellDepWithPubKey = rlp::decode(&sig.r[1..]).unwrap();
        let expect = rf::keccak256(&dep.pub_key);
        ensure!(
            t.sender.as_bytes() == &expect[12..],
            "interoperation sender: {} is not derived from the named key",
            mc::hex(t.sender)
        );
        tx_round(c, t)
    });
    k.part(
        "access_lists",
        "every access list, with repeated accounts and keys, of both kinds of transaction that carry one",
        "3 entries of 2 accounts, each with up to 2 of 2 keys",
    )
    .explore(|c| {
        let kind = 1 + c.choose(2) as u32;
        let n = c.choose(4);
        let list: AccessList = (0..n)
            .map(|_| AccessListItem {
                address: *c.pick(&[H160::zero(), H160::repeat_byte(0x61)]),
                storage_keys: seq(c, 2, &[H256::zero(), H256::repeat_byte(0x62)]),
            })
            .collect();
        let mut u = first(0, &[kind], gen::unsigned);
        match &mut u {
            UnsignedTransaction::Eip2930(t) => t.access_list = list,
            UnsignedTransaction::Eip1559(t) => t.access_list = list,
            _ => unreachable!(),
        }
        let t = SignedTransaction::from_unverified(gen::sign(u, Some(5), &gen::KEYS[0])).unwrap();
        let raw = gen::rf_signed(&t.transaction);
        ensure!(rlp::Encodable::rlp_bytes(&t.transaction)[..] == raw[..], "byte format: {}", mc::short(&t));
        tx_round(c, t)
    });
    k.part(
        "large",
        "transactions of each kind with long data, many entries in the access list, or many keys in one",
        "data up to 140 000 bytes, 1000 entries, 1000 keys",
    )
    .explore(|c| {
        let t = SignedTransaction::from_unverified(gen::sign(gen::large(c), Some(5), &gen::KEYS[0])).unwrap();
        let raw = gen::rf_signed(&t.transaction);
        ensure!(rlp::Encodable::rlp_bytes(&t.transaction)[..] == raw[..], "byte format: a large transaction");
        tx_round(c, t)
    });
    k.part(
        "long batches",
        "batches of every size of the list, of transactions and of blocks",
        "15 sizes up to 300, and 1001, 1024, 4097, 10 001; the largest of transactions that share a signature",
    )
    .explore(|c| {
        let n = *c.pick(&[4usize, 5, 9, 16, 17, 55, 56, 57, 64, 65, 100, 255, 256, 257, 300, 1001, 1024, 4097, 10_001]);
        c.nontrivial();
        if n > 300 && c.flip() {
            let u = UnsignedTransaction::Legacy(LegacyTransaction {
                nonce: 0u64.into(),
                gas_price: 1u64.into(),
                gas_limit: 21000u64.into(),
                action: TransactionAction::Create,
                value: U256::zero(),
                data: vec![].into(),
            });
            let txs = vec![SignedTransaction::from_unverified(gen::sign(u, Some(5), &gen::KEYS[0])).unwrap(); n];
            let raw = BatchSignedTxs::new(txs.clone()).encode_msg().map_err(|e| Fail::from(format!("encode: {e}")))?;
            let back = BatchSignedTxs::decode_msg(raw).map_err(|e| Fail::from(format!("decode: {e}")))?;
            ensure!(back.inner() == txs, "round trip of a batch of {n}");
            return Ok(());
        }
        let tx = |i: usize| {
            let u = UnsignedTransaction::Legacy(LegacyTransaction {
                nonce: (i as u64).into(),
                gas_price: 1u64.into(),
                gas_limit: 21000u64.into(),
                action: TransactionAction::Create,
                value: U256::zero(),
                data: vec![].into(),
            });
            SignedTransaction::from_unverified(gen::sign(u, Some(5), &gen::KEYS[0])).unwrap()
        };
        if n <= 300 && c.flip() {
            let txs: Vec<_> = (0..n).map(tx).collect();
            let raw = BatchSignedTxs::new(txs.clone()).encode_msg().map_err(|e| Fail::from(format!("encode: {e}")))?;
            let back = BatchSignedTxs::decode_msg(raw).map_err(|e| Fail::from(format!("decode: {e}")))?;
            ensure_eq!(back.inner(), txs, "round trip of a batch");
        } else {
            let hashes: Vec<_> = (0..n).map(|i| H256::from_low_u64_be(i as u64)).collect();
            round_block(c, hashes)?;
            let blocks: Vec<Block> = (0..n as u64)
                .map(|i| Block { header: Header { number: i, ..Default::default() }, tx_hashes: vec![] })
                .collect();
            let raw = BatchBlocks::new(blocks.clone()).encode_msg().map_err(|e| Fail::from(format!("encode: {e}")))?;
            let back = BatchBlocks::decode_msg(raw).map_err(|e| Fail::from(format!("decode: {e}")))?;
            ensure_eq!(back.inner(), blocks, "round trip of a batch");
        }
        Ok(())
    });
    k.part(
        "batch_txs",
        "batches of 0 to 3 transactions in every order of three different transactions",
        "3 transactions",
    )
    .deviations(1)
    .explore(|c| {
        let n = c.choose(4);
        let pool: Vec<SignedTransaction> = (0..3usize)
            .map(|i| {
                let u = UnsignedTransaction::Legacy(LegacyTransaction {
                    nonce: (i as u64).into(),
                    gas_price: 1u64.into(),
                    gas_limit: 21000u64.into(),
                    action: TransactionAction::Create,
                    value: U256::zero(),
                    data: vec![i as u8; i * 60].into(),
                });
                SignedTransaction::from_unverified(gen::sign(u, Some(5), &gen::KEYS[i])).unwrap()
            })
            .collect();
        let txs: Vec<_> = (0..n).map(|_| pool[c.choose(3)].clone()).collect();
        c.nontrivial();
        let mut b = BatchSignedTxs::new(txs.clone());
        let raw = b.encode_msg().map_err(|e| Fail::from(format!("encode: {e}")))?;
        let r = rf::l(txs.iter().map(|t| rf::b(gen::rf_signed(&t.transaction))).collect());
        ensure!(raw[..] == r.encode()[..], "byte format: batch of transactions");
        let back = BatchSignedTxs::decode_msg(raw).map_err(|e| Fail::from(format!("decode: {e}")))?;
        ensure_eq!(back.inner(), txs, "round trip of a batch");
        Ok(())
    });
    k.part("batch_blocks", "batches of 0 to 3 blocks, every order of three", "3 blocks").explore(|c| {
        let n = c.choose(4);
        let blocks: Vec<Block> = (0..n)
            .map(|_| {
                let i = c.choose(3) as u64;
                Block {
                    header: Header {
                        number: i,
                        timestamp: i * 300,
                        ..Default::default()
                    },
                    tx_hashes: vec![H256::repeat_byte(i as u8); i as usize],
                }
            })
            .collect();
        c.nontrivial();
        let mut b = BatchBlocks::new(blocks.clone());
        let raw = b.encode_msg().map_err(|e| Fail::from(format!("encode: {e}")))?;
        ensure!(
            raw[..] == rf::l(blocks.iter().map(gen::rf_block).collect()).encode()[..],
            "byte format: batch of blocks"
        );
        let back = BatchBlocks::decode_msg(raw).map_err(|e| Fail::from(format!("decode: {e}")))?;
        ensure_eq!(back.inner(), blocks, "round trip of a batch");
        Ok(())
    });
}

fn tx_round(c: &mut Chooser, t: SignedTransaction) -> Outcome {
    c.nontrivial();
    c.note(|| mc::short(&t));
    let enc = ProtocolCodec::encode(&t).map_err(|e| Fail::from(format!("encode: {e}")))?;
    let back = SignedTransaction::decode(&enc)
        .map_err(|e| Fail::new("decode of an encoded transaction fails", format!("decode {}: {e}", mc::hex(&enc))))?;
    ensure!(back == t, "round trip: {} came back as {}", mc::short(&t), mc::short(&back));
    let raw = rlp::Encodable::rlp_bytes(&t.transaction);
    let back = UnverifiedTransaction::decode(&raw)
        .map_err(|e| Fail::new("decode of an encoded transaction fails", format!("raw {}: {e}", mc::hex(&raw))))?;
    ensure!(back == t.transaction, "raw round trip: {}", mc::short(&t.transaction));
    ensure!(
        back.hash.0 == rf::keccak256(&raw),
        "hash: decoded transaction carries {:x}, its bytes hash to {}",
        back.hash,
        mc::hex(rf::keccak256(&raw))
    );
    ensure!(back.check_hash().is_ok(), "hash check: rejects an honest transaction");
    if let Some(s) = t.transaction.signature.as_ref().filter(|s| s.r.len() == 32 && s.s.len() == 32) {
        let flat = s.as_bytes();
        let want = [&s.r[..], &s.s[..], &[s.standard_v]].concat();
        ensure!(flat[..] == want[..], "signature as 65 bytes: {} for {}", mc::hex(&flat), mc::short(s));
        ensure!(SignatureComponents::from(flat.clone()) == *s, "signature from 65 bytes: of {}", mc::hex(&flat));
    }
    c.outcome(back.hash);
    Ok(())
}

/// What decoding may do with arbitrary bytes: fail, or give a value that is stable under re-encoding.
fn untrusted<T>(c: &mut Chooser, name: &str, data: &[u8]) -> Outcome
where
    T: ProtocolCodec + PartialEq + Debug + 'static,
{
    let r = mc::no_panic(|| T::decode(data));
    match r {
        Err(p) => Err(Fail::new(
            format!("{name} decoder panics"),
            format!("decoding {} ({} bytes) panics: {p}", mc::hex(data), data.len()),
        )),
        Ok(Err(_)) => {
            c.outcome("rejected");
            Ok(())
        }
        Ok(Ok(v)) => {
            c.outcome("accepted");
            let enc = mc::no_panic(|| ProtocolCodec::encode(&v)).map_err(|p| {
                Fail::new(
                    format!("{name} re-encoding panics"),
                    format!("{} decodes to {} whose encoding panics: {p}", mc::hex(data), mc::short(&v)),
                )
            })?;
            let enc = enc.map_err(|e| Fail::from(format!("re-encode: {e}")))?;
            let v2 = mc::no_panic(|| T::decode(&enc)).map_err(|p| {
                Fail::new(format!("{name} decoder panics"), format!("decoding {} panics: {p}", mc::hex(&enc)))
            })?;
            match v2 {
                Ok(v2) => {
                    let same = v2 == v;
                    // A decoded value is what its own encoding decodes to (hashes of non-canonical
                    // transaction bytes are caught by the hash check instead).
                    if !same && name != "unverified_tx" && name != "signed_tx" && name != "batch_txs" {
                        return Err(Fail::new(
                            format!("{name} unstable"),
                            format!("{} decodes to {} which re-decodes as {}", mc::hex(data), mc::short(&v), mc::short(&v2)),
                        ));
                    }
                    Ok(())
                }
                Err(_) => Ok(()),
            }
        }
    }
}

/// The i-th single-byte corruption of `base`.
fn mutate(c: &mut Chooser, base: &[u8], dense: bool) -> Vec<u8> {
    let mut v = base.to_vec();
    match c.choose(4) {
        0 => {
            v.truncate(c.choose(base.len() + 1));
        }
        1 => {
            let i = c.choose(base.len().max(1));
            if i < v.len() {
                if dense {
                    v[i] = c.choose(256) as u8;
                } else {
                    const VALS: [u8; 20] = [
                        0, 1, 2, 0x20, 0x7f, 0x80, 0x81, 0x82, 0x88, 0xa0, 0xb7, 0xb8, 0xb9, 0xbf, 0xc0, 0xc1, 0xc3,
                        0xf7, 0xf8, 0xff,
                    ];
                    v[i] = *c.pick(&VALS);
                }
            }
        }
        2 => {
            let i = c.choose(base.len() + 1);
            v.insert(i, *c.pick(&[0u8, 0x01, 0x80, 0xc0, 0xff]));
        }
        _ => {
            if !v.is_empty() {
                let i = c.choose(base.len());
                v.remove(i);
            }
        }
    }
    v
}

macro_rules! fuzzless {
    ($k:expr, $t:ty, $name:expr, $seeds:expr, $dense:expr) => {{
        let short = $k.by_tier(2usize, 2);
        $k.part(
            &format!("{}/short", $name),
            "every byte string up to the length bound is decoded: an error or a stable value, never a panic",
            &format!("length <= {short}"),
        )
        .explore(|c| {
            let n = c.choose(short + 1);
            let data: Vec<u8> = (0..n).map(|_| c.choose(256) as u8).collect();
            c.nontrivial();
            untrusted::<$t>(c, $name, &data)
        });
        let seeds: Vec<Vec<u8>> = $seeds;
        $k.part(
            &format!("{}/corrupt", $name),
            "every truncation, every replacement of one byte (by all or by 20 structural values), every deletion of one \
             byte and every insertion of one structural byte, of each valid encoding",
            "one corruption",
        )
        .explore(|c| {
            let s = c.pick(&seeds).clone();
            let data = mutate(c, &s, $dense);
            c.nontrivial();
            untrusted::<$t>(c, $name, &data)
        });
    }};
}

fn first<T>(dev: u32, pick: &[u32], f: impl Fn(&mut Chooser) -> T) -> T {
    mc::with_choices(pick, dev, f)
}

fn enc<T: ProtocolCodec>(v: T) -> Vec<u8> {
    ProtocolCodec::encode(&v).unwrap().to_vec()
}

pub fn raw_txs() -> Vec<Vec<u8>> {
    let mut out = vec![];
    for kind in 0..3 {
        for (id, key) in [(Some(2022), 0), (Some(0), 1)] {
            let u = first(0, &[kind], gen::unsigned);
            out.push(rlp::Encodable::rlp_bytes(&gen::sign(u, id, &gen::KEYS[key])).to_vec());
        }
    }
    let u = first(0, &[0], gen::unsigned);
    out.push(rlp::Encodable::rlp_bytes(&gen::sign(u, None, &gen::KEYS[0])).to_vec());
    let mut u = first(0, &[2], gen::unsigned);
    if let UnsignedTransaction::Eip1559(t) = &mut u {
        t.access_list = vec![AccessListItem {
            address: H160::repeat_byte(0x61),
            storage_keys: vec![H256::repeat_byte(0x62)],
        }];
    }
    out.push(rlp::Encodable::rlp_bytes(&gen::sign(u, Some(5), &gen::KEYS[2])).to_vec());
    let i = first(0, &[0], interop);
    out.push(rlp::Encodable::rlp_bytes(&i.transaction).to_vec());
    let i = first(0, &[2], interop);
    out.push(rlp::Encodable::rlp_bytes(&i.transaction).to_vec());
    let mut u = first(0, &[1], gen::unsigned);
    if let UnsignedTransaction::Eip2930(t) = &mut u {
        t.access_list = vec![
            AccessListItem { address: H160::repeat_byte(0x63), storage_keys: vec![H256::repeat_byte(0x64), H256::repeat_byte(0x65)] },
            AccessListItem { address: H160::repeat_byte(0x66), storage_keys: vec![] },
        ];
    }
    out.push(rlp::Encodable::rlp_bytes(&gen::sign(u, Some(5), &gen::KEYS[1])).to_vec());
    // interoperation signatures with degenerate parts
    for (r, s) in [
        (vec![], vec![7u8; 65]),
        (vec![0u8], vec![7u8; 65]),
        (vec![0u8, 0xc0], vec![7u8; 65]),
        (vec![1u8; 3], vec![7u8; 80]),
        (vec![7u8; 65], vec![]),
    ] {
        for kind in 0..3 {
            let u = first(0, &[kind], gen::unsigned);
            let utx = UnverifiedTransaction {
                unsigned: u,
                signature: Some(SignatureComponents {
                    r: r.clone().into(),
                    s: s.clone().into(),
                    standard_v: 0,
                }),
                chain_id: Some(5),
                hash: H256::zero(),
            };
            out.push(rlp::Encodable::rlp_bytes(&utx).to_vec());
        }
    }
    out
}

fn nodes(i: &Item) -> usize {
    1 + match i {
        Item::S(_) => 0,
        Item::L(v) => v.iter().map(nodes).sum(),
    }
}

/// The item with its `at`-th node (in preorder) altered: what stands in its place, and the nodes passed.
fn alter(i: &Item, at: usize, how: usize, menu: &[Item]) -> (Vec<Item>, usize) {
    if at == 0 {
        let m = menu.len();
        let out = match how {
            h if h < m => vec![menu[h].clone()],
            h if h == m => vec![],
            h if h == m + 1 => vec![i.clone(), i.clone()],
            h if h == m + 2 => vec![Item::L(vec![i.clone()])],
            h if h == m + 3 => vec![Item::S(i.encode())],
            h => vec![match i {
                Item::S(b) if h == m + 4 => Item::S([&[0], &b[..]].concat()),
                Item::S(b) => Item::S([&b[..], &[0]].concat()),
                Item::L(v) => {
                    let mut v = v.clone();
                    v.push(if h == m + 4 { Item::S(vec![]) } else { Item::L(vec![]) });
                    Item::L(v)
                }
            }],
        };
        return (out, nodes(i));
    }
    match i {
        Item::S(_) => (vec![i.clone()], 1),
        Item::L(v) => {
            let mut seen = 1;
            let mut out = vec![];
            for x in v {
                let n = nodes(x);
                if at >= seen && at < seen + n {
                    out.extend(alter(x, at - seen, how, menu).0);
                } else {
                    out.push(x.clone());
                }
                seen += n;
            }
            (vec![Item::L(out)], seen)
        }
    }
}

/// Bytes of a transaction that a user (raw form) or a peer (item of a batch) sends.
fn accepted_as_is(c: &mut Chooser, data: &[u8]) -> Outcome {
    let wire = rf::b(data).encode();
    let t = mc::no_panic(|| SignedTransaction::decode(&wire))
        .map_err(|p| Fail::new("signed_tx decoder panics", format!("decoding {} panics: {p}", mc::hex(data))))?;
    if let Ok(t) = t {
        c.outcome("accepted from a peer");
        let back = rlp::Encodable::rlp_bytes(&t.transaction);
        ensure!(back[..] == data[..], "peer's malformed transaction accepted: {} is taken as {}", mc::hex(data), mc::hex(&back));
        ensure_eq!(t.transaction.hash.0, rf::keccak256(data), "hash: of {}", mc::hex(data));
    } else {
        c.outcome("rejected from a peer");
    }
    let u = mc::no_panic(|| UnverifiedTransaction::decode(data))
        .map_err(|p| Fail::new("unverified_tx decoder panics", format!("decoding {} panics: {p}", mc::hex(data))))?;
    let Ok(u) = u else { return Ok(()) };
    let ok = mc::no_panic(|| u.check_hash().is_ok())
        .map_err(|p| Fail::new("check_hash panics", format!("checking {} panics: {p}", mc::hex(data))))?;
    if ok {
        let back = rlp::Encodable::rlp_bytes(&u);
        ensure!(back[..] == data[..], "user's malformed transaction accepted: {} is taken as {}", mc::hex(data), mc::hex(&back));
    }
    Ok(())
}

pub fn untrusted_bytes(k: &Check) {
    let dense = k.thorough();
    let raws = raw_txs();
    fuzzless!(k, UnverifiedTransaction, "unverified_tx", raws.clone(), true);
    fuzzless!(
        k,
        SignedTransaction,
        "signed_tx",
        raws.iter().map(|r| rf::b(r).encode()).collect(),
        dense
    );
    fuzzless!(k, Proof, "proof", vec![enc(first(0, &[], gen::proof))], true);
    fuzzless!(
        k,
        Header,
        "header",
        vec![enc(first(0, &[], gen::header)), enc(Header::default())],
        dense
    );
    fuzzless!(k, Block, "block", vec![enc(first(0, &[], gen::block)), enc(Block::default())], dense);
    fuzzless!(k, Proposal, "proposal", vec![enc(first(0, &[], gen::proposal)), enc(Proposal::default())], dense);
    fuzzless!(k, Receipt, "receipt", vec![enc(first(0, &[], gen::receipt)), enc(Receipt::default())], dense);
    fuzzless!(k, TxResp, "tx_resp", vec![enc(first(0, &[], gen::tx_resp)), enc(TxResp::default())], dense);
    fuzzless!(k, Metadata, "metadata", vec![enc(first(0, &[], gen::metadata)), enc(Metadata::default())], dense);
    fuzzless!(k, HardforkInfo, "hardfork_info", vec![enc(HardforkInfo {
        inner: vec![HardforkInfoInner {
            block_number: 5,
            flags: H256::repeat_byte(1)
        }]
    })], true);
    fuzzless!(k, SignatureS, "signature_s", vec![enc(SignatureS::new(vec![Witness {
        lock: Some(vec![1, 2, 3].into()),
        input_type: None,
        output_type: Some(vec![].into())
    }]))], true);
    fuzzless!(k, CellDepWithPubKey, "cell_dep", vec![enc(CellDepWithPubKey {
        cell_dep: CellDep {
            tx_hash: H256::repeat_byte(1),
            index: 3,
            dep_type: 1
        },
        pub_key: vec![2u8; 33].into()
    })], true);
    fuzzless!(k, Hex, "hex", vec![enc(Hex::encode([1, 2, 3]))], true);
    fuzzless!(k, Address, "address", vec![enc(Address(H160::repeat_byte(1)))], true);

    let batches: Vec<Vec<u8>> = vec![rf::l(raws[..4].iter().map(rf::b).collect()).encode(), rf::l(vec![rf::b([])]).encode()];
    k.part(
        "batch_txs/corrupt",
        "every single corruption of a gossiped batch of transactions",
        "one corruption",
    )
    .explore(|c| {
        let s = c.pick(&batches).clone();
        let data = mutate(c, &s, dense);
        c.nontrivial();
        let r = mc::no_panic(|| BatchSignedTxs::decode_msg(data.clone().into()).ok())
            .map_err(|p| Fail::new("batch_txs decoder panics", format!("decoding {} panics: {p}", mc::hex(&data))))?;
        c.outcome(r.is_some());
        if let Some(mut b) = r {
            let n = b.0.len();
            if items(&data) != Some(n) {
                return Err(Fail::new("a garbled batch is read as another one", format!("{} is read as {n} transactions", mc::hex(&data))));
            }
            let again = b.encode_msg().map_err(|e| Fail::new("an accepted batch cannot be encoded", e.to_string()))?;
            let back = BatchSignedTxs::decode_msg(again).map_err(|e| Fail::new("an accepted batch does not survive", e.to_string()))?;
            if back != b {
                return Err(Fail::new("an accepted batch does not survive", mc::hex(&data)));
            }
        }
        Ok(())
    });
    let blocks: Vec<Vec<u8>> = (0..3)
        .map(|n| {
            let mut bs = vec![Block::default(); n];
            for (i, b) in bs.iter_mut().enumerate() {
                b.header.number = i as u64 + 1;
                b.tx_hashes = vec![H256::repeat_byte(i as u8); i];
            }
            BatchBlocks::new(bs).encode_msg().expect("blocks encode").to_vec()
        })
        .collect();
    k.part(
        "batch_blocks/corrupt",
        "every single corruption of a batch of none, one and two blocks",
        "one corruption",
    )
    .explore(|c| {
        let s = c.pick(&blocks).clone();
        let data = mutate(c, &s, dense);
        c.nontrivial();
        let r = mc::no_panic(|| BatchBlocks::decode_msg(data.clone().into()).ok())
            .map_err(|p| Fail::new("batch_blocks decoder panics", format!("decoding {} panics: {p}", mc::hex(&data))))?;
        c.outcome(r.is_some());
        if let Some(b) = r {
            // What is on the wire is what was read: the same number of items, to the last byte.
            if items(&data) != Some(b.0.len()) {
                return Err(Fail::new("a garbled batch is read as another one", format!("{} is read as {} blocks", mc::hex(&data), b.0.len())));
            }
        }
        Ok(())
    });

    let nested: Vec<Item> = vec![
        Item::S(vec![]),
        Item::S(vec![0]),
        Item::S(vec![5]),
        Item::S(vec![0xff; 20]),
        Item::S(vec![0xff; 32]),
        Item::S(vec![0xff; 40]),
        Item::L(vec![]),
        Item::L(vec![Item::S(vec![])]),
        Item::L(vec![Item::L(vec![])]),
    ];
    // Each field of a valid encoding replaced by each of a menu of well-formed items: type confusion.
    macro_rules! confuse {
        ($t:ty, $name:expr, $seed:expr) => {{
            let seed: Vec<u8> = $seed;
            let top = rf::decode(&seed).expect("seed is RLP");
            k.part(
                &format!("{}/confuse", $name),
                "each one or two top-level fields of a valid encoding replaced by each of a menu of well-formed items \
                 (wrong lengths, lists for strings), or dropped, or repeated",
                "2 fields",
            )
            .deviations(2)
            .explore(|c| {
                let Item::L(fields) = &top else { return Ok(()) };
                let mut out = vec![];
                for f in fields {
                    let m = c.deviate(nested.len() + 3);
                    if m == 0 {
                        out.push(f.clone());
                    } else if m <= nested.len() {
                        out.push(nested[m - 1].clone());
                    } else if m == nested.len() + 1 {
                    } else {
                        out.push(f.clone());
                        out.push(f.clone());
                    }
                }
                c.nontrivial();
                untrusted::<$t>(c, $name, &Item::L(out).encode())
            });
        }};
    }
    // An item at any depth of a valid encoding altered.
    macro_rules! structure {
        ($t:ty, $name:expr, $seed:expr) => {{
            let top = rf::decode(&$seed).expect("seed is RLP");
            let n = nodes(&top);
            k.part(
                &format!("{}/structure", $name),
                "each item at any depth of a valid encoding replaced by each of a menu of items, dropped, repeated, wrapped or extended",
                "1 item of any depth, 15 alterations",
            )
            .explore(|c| {
                let at = c.choose(n);
                let how = c.choose(nested.len() + 6);
                c.nontrivial();
                untrusted::<$t>(c, $name, &alter(&top, at, how, &nested).0.first().map(Item::encode).unwrap_or_default())
            });
        }};
    }
    structure!(Header, "header", enc(full::header()));
    structure!(Block, "block", enc(Block { header: full::header(), tx_hashes: full::hashes() }));
    structure!(Proposal, "proposal", enc(full::proposal()));
    structure!(Proof, "proof", enc(full::header().proof));
    structure!(Receipt, "receipt", enc(full::receipt()));
    structure!(TxResp, "tx_resp", enc(full::tx_resp()));
    structure!(Metadata, "metadata", enc(full::metadata()));
    structure!(HardforkInfo, "hardfork_info", enc(full::hardforks()));
    structure!(SignatureS, "signature_s", enc(full::signature_s()));
    confuse!(Header, "header", enc(first(0, &[], gen::header)));
    confuse!(Block, "block", enc(first(0, &[], gen::block)));
    confuse!(Proposal, "proposal", enc(first(0, &[], gen::proposal)));
    confuse!(Proof, "proof", enc(first(0, &[], gen::proof)));
    confuse!(Receipt, "receipt", enc(first(0, &[], gen::receipt)));
    confuse!(Metadata, "metadata", enc(first(0, &[], gen::metadata)));
    for (i, raw) in raws.iter().enumerate().take(11) {
        let (kind, body) = if raw[0] < 0x80 { (Some(raw[0]), &raw[1..]) } else { (None, &raw[..]) };
        let top = rf::decode(body).expect("seed is RLP");
        let n = nodes(&top);
        k.part(
            &format!("tx/{i}/structure"),
            "each item at any depth of a signed transaction replaced by each of a menu of items, dropped, repeated, wrapped or \
             extended: what is accepted is exactly the encoding of the transaction accepted, so the hash belongs to it",
            "1 item of any depth, 15 alterations",
        )
        .explore(|c| {
            let at = c.choose(n);
            let how = c.choose(nested.len() + 6);
            let mut data: Vec<u8> = kind.into_iter().collect();
            data.extend(alter(&top, at, how, &nested).0.first().map(Item::encode).unwrap_or_default());
            c.nontrivial();
            accepted_as_is(c, &data)
        });
        k.part(
            &format!("tx/{i}/bytes"),
            "each corruption of one byte: what is accepted is exactly the encoding of the transaction accepted",
            "one corruption",
        )
        .explore(|c| {
            let data = mutate(c, raw, true);
            c.nontrivial();
            accepted_as_is(c, &data)
        });
    }
    for (name, i) in [("legacy", 0usize), ("eip2930", 2), ("eip1559", 4), ("interop", 8)] {
        let raw = raws[i].clone();
        let (kind, body) = if raw[0] < 0x80 { (Some(raw[0]), &raw[1..]) } else { (None, &raw[..]) };
        let top = rf::decode(body).expect("seed is RLP");
        k.part(
            &format!("tx/{name}/confuse"),
            "each one or two fields of a signed transaction replaced by each of a menu of well-formed items, dropped or repeated",
            "2 fields",
        )
        .deviations(2)
        .explore(|c| {
            let Item::L(fields) = &top else { return Ok(()) };
            let mut out = vec![];
            for f in fields {
                let m = c.deviate(nested.len() + 3);
                if m == 0 {
                    out.push(f.clone());
                } else if m <= nested.len() {
                    out.push(nested[m - 1].clone());
                } else if m == nested.len() + 1 {
                } else {
                    out.push(f.clone());
                    out.push(f.clone());
                }
            }
            let mut data: Vec<u8> = kind.into_iter().collect();
            data.extend(Item::L(out).encode());
            c.nontrivial();
            untrusted::<UnverifiedTransaction>(c, "unverified_tx", &data)?;
            untrusted::<SignedTransaction>(c, "signed_tx", &rf::b(&data).encode())?;
            mc::no_panic(|| {
                UnverifiedTransaction::decode(&data).ok().map(|u| SignedTransaction::from_unverified(u).is_ok())
            })
            .map(|_| ())
            .map_err(|p| Fail::new("from_unverified panics", format!("verifying {} panics: {p}", mc::hex(&data))))
        });
    }
}

/// Values with at least two items in each list.
mod full {
    use super::*;

    fn h(n: u8) -> H256 {
        H256::repeat_byte(n)
    }

    pub fn hashes() -> Vec<H256> {
        vec![h(1), h(2), h(0)]
    }

    fn extra() -> Vec<ExtraData> {
        vec![ExtraData { inner: vec![1, 2].into() }, ExtraData { inner: vec![].into() }]
    }

    fn logs() -> Vec<Log> {
        vec![
            Log { address: H160::repeat_byte(3), topics: hashes(), data: vec![4; 3] },
            Log { address: H160::repeat_byte(5), topics: vec![], data: vec![] },
        ]
    }

    pub fn header() -> Header {
        let mut x = first(0, &[], gen::header);
        x.extra_data = extra();
        x.proof.bitmap = vec![0xf0].into();
        x.proof.signature = vec![6; 96].into();
        x
    }

    pub fn proposal() -> Proposal {
        Proposal { extra_data: extra(), tx_hashes: hashes(), proof: header().proof, ..first(0, &[], gen::proposal) }
    }

    pub fn receipt() -> Receipt {
        Receipt { logs: logs(), code_address: Some(h(7)), ..first(0, &[], gen::receipt) }
    }

    pub fn tx_resp() -> TxResp {
        TxResp { logs: logs(), code_address: Some(h(8)), ret: vec![9; 4], ..first(0, &[], gen::tx_resp) }
    }


    pub fn metadata() -> Metadata {
        let mut x = first(0, &[], gen::metadata);
        x.verifier_list = (0..2).map(|_| first(0, &[], gen::validator_ext)).collect();
        x.propose_counter = (1..3).map(|n| ProposeCount { address: H160::repeat_byte(n), count: 300 * n as u64 }).collect();
        x
    }

    pub fn hardforks() -> HardforkInfo {
        HardforkInfo { inner: (1..3).map(|n| HardforkInfoInner { block_number: n, flags: h(n as u8) }).collect() }
    }

    pub fn signature_s() -> SignatureS {
        let some = |n: u8| Some(Bytes::from(vec![n; n as usize]));
        SignatureS::new(vec![
            Witness { lock: some(3), input_type: None, output_type: some(0) },
            Witness { lock: None, input_type: some(1), output_type: None },
        ])
    }
}

/// How many items the list has that these bytes are, without a look into the items.
fn items(data: &[u8]) -> Option<usize> {
    // Header and payload of the item at the front.
    fn item(d: &[u8]) -> Option<(bool, &[u8], &[u8])> {
        let h = *d.first()? as usize;
        let (list, len, skip) = match h {
            0..=0x7f => (false, 1, 0),
            0x80..=0xb7 => (false, h - 0x80, 1),
            0xc0..=0xf7 => (true, h - 0xc0, 1),
            _ => {
                let n = if h >= 0xf8 { h - 0xf7 } else { h - 0xb7 };
                let len = d.get(1..1 + n)?.iter().try_fold(0usize, |a, b| a.checked_mul(256)?.checked_add(*b as usize))?;
                (h >= 0xf8, len, 1 + n)
            }
        };
        let end = skip.checked_add(len)?;
        Some((list, d.get(skip..end)?, &d[end..]))
    }
    let (true, mut rest, []) = item(data)? else { return None };
    let mut n = 0;
    while !rest.is_empty() {
        rest = item(rest)?.2;
        n += 1;
    }
    Some(n)
}
