//! The keys of tentacle-secio: a secp256k1 pair; a peer id is the SHA-256 multihash of the public key.
use sha2::{Digest, Sha256};

#[derive(Debug)]
pub enum SecioError {
    SecretGenerationFailed,
}

impl std::fmt::Display for SecioError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl std::error::Error for SecioError {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PublicKey(Vec<u8>);

impl PublicKey {
    pub fn inner(self) -> Vec<u8> {
        self.0
    }

    pub fn inner_ref(&self) -> &Vec<u8> {
        &self.0
    }

    pub fn peer_id(&self) -> PeerId {
        let mut v = vec![0x12, 32];
        v.extend_from_slice(&Sha256::digest(&self.0));
        PeerId(v)
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct PeerId(Vec<u8>);

impl PeerId {
    pub fn to_base58(&self) -> String {
        bs58::encode(&self.0).into_string()
    }
}

#[derive(Clone, Debug)]
pub struct SecioKeyPair(secp256k1::SecretKey);

impl SecioKeyPair {
    pub fn secp256k1_raw_key<K: AsRef<[u8]>>(key: K) -> Result<Self, SecioError> {
        secp256k1::SecretKey::from_slice(key.as_ref()).map(SecioKeyPair).map_err(|_| SecioError::SecretGenerationFailed)
    }

    pub fn public_key(&self) -> PublicKey {
        PublicKey(secp256k1::PublicKey::from_secret_key_global(&self.0).serialize().to_vec())
    }
}
