//! Keys, signed transactions and blocks to feed the code under test with.
use std::collections::HashMap;
use std::sync::Mutex;

use common_crypto::{Crypto, Secp256k1Recoverable, Signature};
use protocol::codec::ProtocolCodec;
use protocol::types::*;

pub const CHAIN: u64 = 7;

pub fn secret(i: u8) -> [u8; 32] {
    let mut k = [0u8; 32];
    k[30] = 0x5a;
    k[31] = i + 1;
    k
}

pub fn sender(i: u8) -> H160 {
    static CACHE: Mutex<Option<HashMap<u8, H160>>> = Mutex::new(None);
    let mut g = CACHE.lock().unwrap();
    *g.get_or_insert_with(HashMap::new)
        .entry(i)
        .or_insert_with(|| sign(legacy(0, 0, 0, None, 0, &[]), Some(CHAIN), i).sender)
}

/// The transaction as it is after a journey over the wire.
pub fn sign(u: UnsignedTransaction, chain_id: Option<u64>, i: u8) -> SignedTransaction {
    let mut utx = UnverifiedTransaction {
        unsigned: u,
        signature: None,
        chain_id,
        hash: H256::zero(),
    };
    let hash = utx.signature_hash(true);
    let sig = Secp256k1Recoverable::sign_message(hash.as_bytes(), &secret(i)).unwrap().to_bytes();
    utx.signature = Some(SignatureComponents {
        r: sig.slice(0..32),
        s: sig.slice(32..64),
        standard_v: sig[64],
    });
    let stx = SignedTransaction::from_unverified(utx.calc_hash()).unwrap();
    SignedTransaction::decode(stx.encode().unwrap()).unwrap()
}

pub fn action(to: Option<H160>) -> TransactionAction {
    match to {
        Some(a) => TransactionAction::Call(a),
        None => TransactionAction::Create,
    }
}

pub fn legacy(nonce: u64, price: u64, gas: u64, to: Option<H160>, value: u128, data: &[u8]) -> UnsignedTransaction {
    UnsignedTransaction::Legacy(LegacyTransaction {
        nonce: nonce.into(),
        gas_price: price.into(),
        gas_limit: gas.into(),
        action: action(to),
        value: value.into(),
        data: Bytes::from(data.to_vec()),
    })
}

pub fn dynamic(nonce: u64, tip: u64, price: u64, gas: u64, to: Option<H160>, value: u128, data: &[u8]) -> UnsignedTransaction {
    UnsignedTransaction::Eip1559(Eip1559Transaction {
        nonce: nonce.into(),
        max_priority_fee_per_gas: tip.into(),
        gas_price: price.into(),
        gas_limit: gas.into(),
        action: action(to),
        value: value.into(),
        data: Bytes::from(data.to_vec()),
        access_list: vec![],
    })
}

pub fn h256(n: u64) -> H256 {
    H256::from_low_u64_be(n)
}

pub fn h160(n: u64) -> H160 {
    H160::from_low_u64_be(n)
}
