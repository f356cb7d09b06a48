//! Small domains of field values, and builders that pick every field from its domain.

use mc::Chooser;
use protocol::types::*;
use rf::Item;

pub fn u64s(c: &mut Chooser) -> u64 {
    *c.pick_dev(&[7u64, 0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff_ffff, 0x1_0000_0000, 1 << 63, u64::MAX])
}

pub fn u32s(c: &mut Chooser) -> u32 {
    *c.pick_dev(&[5u32, 0, 1, 0x7f, 0x80, 0x100, 1 << 31, u32::MAX])
}

pub fn u8s(c: &mut Chooser) -> u8 {
    *c.pick_dev(&[1u8, 0, 0x7f, 0x80, 0xff])
}

pub fn h256s(c: &mut Chooser, tag: u8) -> H256 {
    match c.deviate(6) {
        0 => {
            let mut b = [tag; 32];
            b[0] = 0xa0;
            b[31] = 0x17;
            H256(b)
        }
        1 => H256::zero(),
        2 => H256::repeat_byte(0xff),
        3 => {
            let mut b = [0u8; 32];
            b[31] = 1;
            H256(b)
        }
        4 => {
            let mut b = [0u8; 32];
            b[0] = 0x80;
            H256(b)
        }
        _ => {
            let mut b = [0u8; 32];
            for (i, x) in b.iter_mut().enumerate() {
                *x = i as u8;
            }
            H256(b)
        }
    }
}

pub fn h160s(c: &mut Chooser, tag: u8) -> H160 {
    match c.deviate(5) {
        0 => {
            let mut b = [tag; 20];
            b[0] = 0xb0;
            b[19] = 0x29;
            H160(b)
        }
        1 => H160::zero(),
        2 => H160::repeat_byte(0xff),
        3 => {
            let mut b = [0u8; 20];
            b[19] = 1;
            H160(b)
        }
        _ => {
            let mut b = [0u8; 20];
            for (i, x) in b.iter_mut().enumerate() {
                *x = i as u8;
            }
            H160(b)
        }
    }
}

pub fn u256s(c: &mut Chooser) -> U256 {
    match c.deviate(8) {
        0 => U256::from(9u64),
        1 => U256::zero(),
        2 => U256::one(),
        3 => U256::from(0x80u64),
        4 => U256::from(u64::MAX),
        5 => U256::from(u64::MAX) + 1,
        6 => U256::one() << 255,
        _ => U256::MAX,
    }
}

pub fn bytes_of(n: usize, first: u8) -> Vec<u8> {
    (0..n).map(|i| first.wrapping_add(i as u8)).collect()
}

pub fn blobs(c: &mut Chooser) -> Vec<u8> {
    match c.deviate(14) {
        0 => vec![0xde, 0xad],
        1 => vec![],
        2 => vec![0],
        3 => vec![0x7f],
        4 => vec![0x80],
        5 => vec![0xc0],
        6 => bytes_of(32, 0),
        7 => bytes_of(55, 1),
        8 => bytes_of(56, 1),
        9 => bytes_of(256, 3),
        10 => vec![0xf8; 300],
        11 => bytes_of(1300, 9),
        12 => vec![0; 64],
        _ => bytes_of(65_536, 5),
    }
}

pub fn blob(c: &mut Chooser) -> Bytes {
    blobs(c).into()
}

pub fn hexs(c: &mut Chooser) -> Hex {
    Hex::encode(blobs(c))
}

pub fn hash_list(c: &mut Chooser) -> Vec<H256> {
    match c.deviate(6) {
        0 => vec![H256::repeat_byte(0x31)],
        1 => vec![],
        5 => (0..70u8).map(H256::repeat_byte).collect(),
        2 => vec![H256::repeat_byte(0x31), H256::repeat_byte(0x32)],
        3 => vec![H256::repeat_byte(0x31), H256::repeat_byte(0x31)],
        _ => vec![H256::zero(), H256::repeat_byte(0xff), H256::repeat_byte(1)],
    }
}

pub fn proof(c: &mut Chooser) -> Proof {
    Proof {
        number: u64s(c),
        round: u64s(c),
        block_hash: h256s(c, 1),
        signature: blob(c),
        bitmap: blob(c),
    }
}

pub fn extra(c: &mut Chooser) -> Vec<ExtraData> {
    let n = *c.pick_dev(&[1usize, 0, 2, 3, 20]);
    (0..n).map(|_| ExtraData { inner: blob(c) }).collect()
}

pub fn bloom(c: &mut Chooser) -> Bloom {
    match c.deviate(4) {
        0 => Bloom::repeat_byte(0x11),
        1 => Bloom::zero(),
        2 => Bloom::repeat_byte(0xff),
        _ => {
            let mut b = Bloom::zero();
            b.0[255] = 1;
            b
        }
    }
}

pub fn header(c: &mut Chooser) -> Header {
    Header {
        version: BlockVersion::V0,
        prev_hash: h256s(c, 2),
        proposer: h160s(c, 3),
        state_root: h256s(c, 4),
        transactions_root: h256s(c, 5),
        signed_txs_hash: h256s(c, 6),
        receipts_root: h256s(c, 7),
        log_bloom: bloom(c),
        timestamp: u64s(c),
        number: u64s(c),
        gas_used: u64s(c).into(),
        gas_limit: u64s(c).into(),
        extra_data: extra(c),
        base_fee_per_gas: u64s(c).into(),
        proof: proof(c),
        call_system_script_count: u32s(c),
        chain_id: u64s(c),
    }
}

pub fn first_proposal() -> Proposal {
    mc::with_choices(&[], 0, proposal)
}

pub fn proposal(c: &mut Chooser) -> Proposal {
    Proposal {
        version: BlockVersion::V0,
        prev_hash: h256s(c, 2),
        proposer: h160s(c, 3),
        prev_state_root: h256s(c, 4),
        transactions_root: h256s(c, 5),
        signed_txs_hash: h256s(c, 6),
        timestamp: u64s(c),
        number: u64s(c),
        gas_limit: u64s(c).into(),
        extra_data: extra(c),
        base_fee_per_gas: protocol::constants::BASE_FEE_PER_GAS.into(),
        proof: proof(c),
        chain_id: **protocol::lazy::CHAIN_ID.load(),
        call_system_script_count: u32s(c),
        tx_hashes: hash_list(c),
    }
}

pub fn block(c: &mut Chooser) -> Block {
    Block {
        header: header(c),
        tx_hashes: hash_list(c),
    }
}

pub fn rf_h(h: &H256) -> Item {
    rf::b(h.as_bytes())
}

pub fn rf_a(h: &H160) -> Item {
    rf::b(h.as_bytes())
}

pub fn rf_u256(v: &U256) -> Item {
    let mut b = [0u8; 32];
    v.to_big_endian(&mut b);
    rf::uint(&b)
}

pub fn rf_proof(p: &Proof) -> Item {
    rf::l(vec![
        rf::u(p.number),
        rf::u(p.round),
        rf_h(&p.block_hash),
        rf::b(&p.signature),
        rf::b(&p.bitmap),
    ])
}

pub fn rf_extra(e: &[ExtraData]) -> Item {
    rf::l(e.iter().map(|x| rf::l(vec![rf::b(&x.inner)])).collect())
}

pub fn rf_hashes(h: &[H256]) -> Item {
    rf::l(h.iter().map(rf_h).collect())
}

/// The header encoding that every Axon block hash is computed over.
pub fn rf_header(h: &Header) -> Item {
    rf::l(vec![
        rf::l(vec![rf::u(u8::from(h.version) as u64)]),
        rf_h(&h.prev_hash),
        rf_a(&h.proposer),
        rf_h(&h.state_root),
        rf_h(&h.transactions_root),
        rf_h(&h.signed_txs_hash),
        rf_h(&h.receipts_root),
        rf::b(h.log_bloom.as_bytes()),
        rf::u(h.timestamp),
        rf::u(h.number),
        rf::u(h.gas_used.as_u64()),
        rf::u(h.gas_limit.as_u64()),
        rf_extra(&h.extra_data),
        rf::u(h.base_fee_per_gas.as_u64()),
        rf_proof(&h.proof),
        rf::u(h.call_system_script_count as u64),
        rf::u(h.chain_id),
    ])
}

pub fn rf_block(b: &Block) -> Item {
    rf::l(vec![rf_header(&b.header), rf_hashes(&b.tx_hashes)])
}

pub fn rf_proposal(p: &Proposal) -> Item {
    rf::l(vec![
        rf::l(vec![rf::u(u8::from(p.version) as u64)]),
        rf_h(&p.prev_hash),
        rf_a(&p.proposer),
        rf_h(&p.prev_state_root),
        rf_h(&p.transactions_root),
        rf_h(&p.signed_txs_hash),
        rf::u(p.timestamp),
        rf::u(p.number),
        rf::u(p.gas_limit.as_u64()),
        rf_extra(&p.extra_data),
        rf_proof(&p.proof),
        rf::u(p.call_system_script_count as u64),
        rf_hashes(&p.tx_hashes),
    ])
}

pub fn topics(c: &mut Chooser) -> Vec<H256> {
    match c.deviate(4) {
        0 => vec![H256::repeat_byte(0x41)],
        1 => vec![],
        2 => vec![H256::repeat_byte(0x41), H256::zero()],
        _ => vec![H256::repeat_byte(1), H256::repeat_byte(2), H256::repeat_byte(3), H256::repeat_byte(4)],
    }
}

pub fn logs(c: &mut Chooser) -> Vec<receipt::Log> {
    let n = *c.pick_dev(&[1usize, 0, 2, 3, 20]);
    (0..n)
        .map(|i| receipt::Log {
            address: h160s(c, 0x50 + i as u8),
            topics: topics(c),
            data: blobs(c),
        })
        .collect()
}

pub fn rf_logs(logs: &[receipt::Log]) -> Item {
    rf::l(logs
        .iter()
        .map(|x| rf::l(vec![rf_a(&x.address), rf_hashes(&x.topics), rf::b(&x.data)]))
        .collect())
}

pub fn exit(c: &mut Chooser) -> ExitReason {
    use executor::{ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed};
    match c.deviate(13) {
        0 => ExitReason::Succeed(ExitSucceed::Returned),
        1 => ExitReason::Succeed(ExitSucceed::Stopped),
        2 => ExitReason::Succeed(ExitSucceed::Suicided),
        3 => ExitReason::Revert(ExitRevert::Reverted),
        4 => ExitReason::Error(ExitError::OutOfGas),
        5 => ExitReason::Error(ExitError::StackUnderflow),
        6 => ExitReason::Error(ExitError::OutOfFund),
        7 => ExitReason::Error(ExitError::CreateContractLimit),
        8 => ExitReason::Error(ExitError::Other("some other error".into())),
        9 => ExitReason::Fatal(ExitFatal::NotSupported),
        10 => ExitReason::Fatal(ExitFatal::UnhandledInterrupt),
        11 => ExitReason::Fatal(ExitFatal::CallErrorAsFatal(ExitError::OutOfGas)),
        _ => ExitReason::Fatal(ExitFatal::Other("fatal".into())),
    }
}

pub fn tx_resp(c: &mut Chooser) -> TxResp {
    TxResp {
        exit_reason: exit(c),
        ret: blobs(c),
        gas_used: u64s(c),
        remain_gas: u64s(c),
        fee_cost: u256s(c),
        logs: logs(c),
        code_address: if c.deviate(2) == 0 { Some(h256s(c, 8)) } else { None },
        removed: c.deviate(2) == 1,
    }
}

pub fn receipt(c: &mut Chooser) -> Receipt {
    Receipt {
        tx_hash: h256s(c, 1),
        block_number: u64s(c),
        block_hash: h256s(c, 2),
        tx_index: u32s(c),
        state_root: h256s(c, 3),
        used_gas: u64s(c).into(),
        logs_bloom: bloom(c),
        logs: logs(c),
        log_index: u32s(c),
        code_address: if c.deviate(2) == 0 { Some(h256s(c, 4)) } else { None },
        sender: h160s(c, 5),
        ret: exit(c),
        removed: c.deviate(2) == 1,
    }
}

pub fn access_list(c: &mut Chooser) -> AccessList {
    match c.deviate(5) {
        0 => vec![],
        1 => vec![AccessListItem {
            address: H160::repeat_byte(0x61),
            storage_keys: vec![],
        }],
        2 => vec![AccessListItem {
            address: H160::repeat_byte(0x61),
            storage_keys: vec![H256::repeat_byte(0x62), H256::zero()],
        }],
        3 => vec![
            AccessListItem {
                address: H160::zero(),
                storage_keys: vec![H256::repeat_byte(0x63)],
            },
            AccessListItem {
                address: H160::repeat_byte(0xff),
                storage_keys: vec![],
            },
        ],
        _ => vec![
            AccessListItem {
                address: H160::repeat_byte(0x61),
                storage_keys: vec![H256::repeat_byte(0x62)],
            },
            AccessListItem {
                address: H160::repeat_byte(0x61),
                storage_keys: vec![H256::repeat_byte(0x62)],
            },
        ],
    }
}

pub fn action(c: &mut Chooser) -> TransactionAction {
    match c.deviate(4) {
        0 => TransactionAction::Call(H160::repeat_byte(0x71)),
        1 => TransactionAction::Create,
        2 => TransactionAction::Call(H160::zero()),
        _ => TransactionAction::Call(H160::repeat_byte(0xff)),
    }
}

pub fn unsigned(c: &mut Chooser) -> UnsignedTransaction {
    match c.choose(3) {
        0 => UnsignedTransaction::Legacy(LegacyTransaction {
            nonce: u64s(c).into(),
            gas_price: u64s(c).into(),
            gas_limit: u64s(c).into(),
            action: action(c),
            value: u256s(c),
            data: blob(c),
        }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction {
            nonce: u64s(c).into(),
            gas_price: u64s(c).into(),
            gas_limit: u64s(c).into(),
            action: action(c),
            value: u256s(c),
            data: blob(c),
            access_list: access_list(c),
        }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce: u64s(c).into(),
            max_priority_fee_per_gas: u64s(c).into(),
            gas_price: u64s(c).into(),
            gas_limit: u64s(c).into(),
            action: action(c),
            value: u256s(c),
            data: blob(c),
            access_list: access_list(c),
        }),
    }
}

/// Transactions with long data or a long access list, not empty in any field.
pub fn large(c: &mut Chooser) -> UnsignedTransaction {
    let kind = c.choose(3);
    let (mut data, mut list) = (vec![1u8, 2, 3], vec![]);
    let item = |i: usize, keys: usize| AccessListItem {
        address:      H160::from_low_u64_be(i as u64 * 0x0101_0101),
        storage_keys: (0..keys).map(|k| H256(rf::keccak256(&[i as u8, k as u8, (k >> 8) as u8]))).collect(),
    };
    match c.choose(if kind == 0 { 1 } else { 3 }) {
        0 => {
            let n = *c.pick(&[300usize, 1024, 1025, 4097, 24_577, 49_153, 65_535, 65_536, 65_537, 140_000]);
            data = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        }
        1 => list = (0..*c.pick(&[5usize, 16, 17, 24, 25, 33, 56, 65, 256, 301, 1000])).map(|i| item(i, i % 3)).collect(),
        _ => {
            let n = *c.pick(&[5usize, 16, 17, 24, 25, 33, 56, 65, 256, 301, 1000]);
            list = vec![item(1, 0), item(2, n), item(3, 1)];
        }
    }
    let (nonce, gas_price, gas_limit, value) = (9u64.into(), 77u64.into(), 3_000_000u64.into(), 5u64.into());
    let action = TransactionAction::Call(H160::repeat_byte(0x44));
    let data: Bytes = data.into();
    match kind {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: list }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction {
            nonce,
            max_priority_fee_per_gas: 2u64.into(),
            gas_price,
            gas_limit,
            action,
            value,
            data,
            access_list: list,
        }),
    }
}

pub fn chain_id(c: &mut Chooser, legacy: bool) -> Option<u64> {
    // the largest chain id a legacy `v` can carry
    const MAX: u64 = (u64::MAX - 36) / 2;
    match c.deviate(6) {
        0 => Some(2022),
        1 => {
            if legacy {
                None
            } else {
                Some(7)
            }
        }
        2 => Some(0),
        3 => Some(1),
        4 => Some(u32::MAX as u64),
        _ => Some(if legacy { MAX } else { u64::MAX }),
    }
}

fn rf_action(a: &TransactionAction) -> Item {
    match a {
        TransactionAction::Call(h) => rf_a(h),
        TransactionAction::Create => rf::b([]),
    }
}

fn rf_access(a: &AccessList) -> Item {
    rf::l(a.iter().map(|x| rf::l(vec![rf_a(&x.address), rf_hashes(&x.storage_keys)])).collect())
}

/// Ethereum's payload of a transaction; `sig` is (v or y-parity, r, s), none for the signing payload.
pub fn rf_tx(t: &UnsignedTransaction, chain_id: Option<u64>, sig: Option<(u64, Item, Item)>) -> Vec<u8> {
    let n = |x: &U64| rf::u(x.as_u64());
    let (kind, mut f) = match t {
        UnsignedTransaction::Legacy(t) => (
            None,
            vec![
                n(&t.nonce),
                n(&t.gas_price),
                n(&t.gas_limit),
                rf_action(&t.action),
                rf_u256(&t.value),
                rf::b(&t.data),
            ],
        ),
        UnsignedTransaction::Eip2930(t) => (
            Some(1u8),
            vec![
                rf::u(chain_id.unwrap_or(0)),
                n(&t.nonce),
                n(&t.gas_price),
                n(&t.gas_limit),
                rf_action(&t.action),
                rf_u256(&t.value),
                rf::b(&t.data),
                rf_access(&t.access_list),
            ],
        ),
        UnsignedTransaction::Eip1559(t) => (
            Some(2u8),
            vec![
                rf::u(chain_id.unwrap_or(0)),
                n(&t.nonce),
                n(&t.max_priority_fee_per_gas),
                n(&t.gas_price),
                n(&t.gas_limit),
                rf_action(&t.action),
                rf_u256(&t.value),
                rf::b(&t.data),
                rf_access(&t.access_list),
            ],
        ),
    };
    match (sig, kind) {
        (Some((y, r, s)), None) => {
            let v = match chain_id {
                Some(id) => y + 35 + 2 * id,
                None => y + 27,
            };
            f.extend([rf::u(v), r, s]);
        }
        (Some((y, r, s)), _) => f.extend([rf::u(y), r, s]),
        (None, None) => {
            if let Some(id) = chain_id {
                f.extend([rf::u(id), rf::u(0), rf::u(0)]);
            }
        }
        (None, _) => {}
    }
    let mut o: Vec<u8> = kind.into_iter().collect();
    o.extend(rf::l(f).encode());
    o
}

pub const KEYS: [[u8; 32]; 3] = [
    [0x11; 32],
    [
        0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1,
    ],
    [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae,
        0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x40,
    ],
];

pub fn sign(u: UnsignedTransaction, chain_id: Option<u64>, key: &[u8; 32]) -> UnverifiedTransaction {
    use common_crypto::{Crypto, Secp256k1Recoverable, Signature};
    let payload = rf_tx(&u, chain_id, None);
    let hash = rf::keccak256(&payload);
    let sig = Secp256k1Recoverable::sign_message(&hash, key).unwrap().to_bytes();
    let utx = UnverifiedTransaction {
        unsigned: u,
        signature: Some(SignatureComponents {
            r: sig.slice(0..32),
            s: sig.slice(32..64),
            standard_v: sig[64],
        }),
        chain_id,
        hash: H256::zero(),
    };
    utx.calc_hash()
}

/// The signed payload as Ethereum defines it, from the parts of `utx`.
pub fn rf_signed(utx: &UnverifiedTransaction) -> Vec<u8> {
    let s = utx.signature.as_ref().unwrap();
    rf_tx(
        &utx.unsigned,
        utx.chain_id,
        Some((s.standard_v as u64, rf::uint(&s.r), rf::uint(&s.s))),
    )
}

pub fn metadata(c: &mut Chooser) -> Metadata {
    Metadata {
        version: MetadataVersion::new(u64s(c), u64s(c)),
        epoch: u64s(c),
        verifier_list: {
            let n = *c.pick_dev(&[1usize, 0, 2]);
            (0..n).map(|_| validator_ext(c)).collect()
        },
        propose_counter: {
            let n = *c.pick_dev(&[1usize, 0, 2]);
            (0..n)
                .map(|_| ProposeCount {
                    address: h160s(c, 1),
                    count: u64s(c),
                })
                .collect()
        },
        consensus_config: consensus_config(c),
    }
}

pub fn validator_ext(c: &mut Chooser) -> ValidatorExtend {
    ValidatorExtend {
        bls_pub_key: hexs(c),
        pub_key: hexs(c),
        address: h160s(c, 9),
        propose_weight: u32s(c),
        vote_weight: u32s(c),
    }
}

pub fn consensus_config(c: &mut Chooser) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: u64s(c),
        interval: u64s(c),
        propose_ratio: u64s(c),
        prevote_ratio: u64s(c),
        precommit_ratio: u64s(c),
        brake_ratio: u64s(c),
        tx_num_limit: u64s(c),
        max_tx_size: u64s(c),
        max_contract_limit: u64s(c),
    }
}

pub fn rf_hexv(h: &Hex) -> Item {
    rf::l(vec![rf::b(h.as_bytes())])
}

pub fn rf_config(x: &ConsensusConfig) -> Item {
    rf::l([
        x.gas_limit,
        x.interval,
        x.propose_ratio,
        x.prevote_ratio,
        x.precommit_ratio,
        x.brake_ratio,
        x.tx_num_limit,
        x.max_tx_size,
        x.max_contract_limit,
    ]
    .into_iter()
    .map(rf::u)
    .collect())
}

pub fn rf_validator_ext(v: &ValidatorExtend) -> Item {
    rf::l(vec![
        rf_hexv(&v.bls_pub_key),
        rf_hexv(&v.pub_key),
        rf_a(&v.address),
        rf::u(v.propose_weight as u64),
        rf::u(v.vote_weight as u64),
    ])
}

pub fn rf_metadata(m: &Metadata) -> Item {
    rf::l(vec![
        rf::l(vec![rf::u(m.version.start), rf::u(m.version.end)]),
        rf::u(m.epoch),
        rf::l(m.verifier_list.iter().map(rf_validator_ext).collect()),
        rf::l(m
            .propose_counter
            .iter()
            .map(|p| rf::l(vec![rf_a(&p.address), rf::u(p.count)]))
            .collect()),
        rf_config(&m.consensus_config),
    ])
}

/// The order of the secp256k1 group.
pub const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc,
    0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
