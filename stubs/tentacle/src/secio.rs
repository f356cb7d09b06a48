//! Identities: a peer id is the SHA-256 multihash of a public key, as in the original.
use sha2::{Digest, Sha256};

pub mod error {
    #[derive(Debug)]
    pub enum SecioError {
        IoError(std::io::Error),
        ConnectSelf,
        InvalidMessage,
        SecretGenerationFailed,
    }

    impl std::fmt::Display for SecioError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }

    impl std::error::Error for SecioError {}
}

use error::SecioError;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PublicKey(Vec<u8>);

impl PublicKey {
    pub fn from_raw_key(key: Vec<u8>) -> Self {
        PublicKey(key)
    }

    pub fn inner_ref(&self) -> &Vec<u8> {
        &self.0
    }

    pub fn peer_id(&self) -> PeerId {
        PeerId::from_public_key(self)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PeerId(Vec<u8>);

impl std::fmt::Debug for PeerId {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "PeerId({})", self.to_base58())
    }
}

impl PeerId {
    pub fn from_public_key(key: &PublicKey) -> Self {
        let mut v = vec![0x12, 32];
        v.extend_from_slice(&Sha256::digest(&key.0));
        PeerId(v)
    }

    pub fn from_bytes(v: Vec<u8>) -> Result<Self, ()> {
        if v.len() == 34 && v[0] == 0x12 && v[1] == 32 {
            Ok(PeerId(v))
        } else {
            Err(())
        }
    }

    pub fn to_base58(&self) -> String {
        bs58::encode(&self.0).into_string()
    }

    pub fn into_bytes(self) -> Vec<u8> {
        self.0
    }

    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}

impl std::str::FromStr for PeerId {
    type Err = ();

    fn from_str(s: &str) -> Result<Self, ()> {
        PeerId::from_bytes(bs58::decode(s).into_vec().map_err(|_| ())?)
    }
}

#[async_trait::async_trait]
pub trait KeyProvider: std::clone::Clone + Send + Sync + 'static {
    type Error: Into<SecioError>;

    async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, message: T) -> Result<Vec<u8>, Self::Error>;
    fn sign_ecdsa<T: AsRef<[u8]>>(&self, message: T) -> Result<Vec<u8>, Self::Error>;
    fn pubkey(&self) -> Vec<u8>;
    fn verify_ecdsa<P, T, F>(&self, pubkey: P, message: T, signature: F) -> bool
    where
        P: AsRef<[u8]>,
        T: AsRef<[u8]>,
        F: AsRef<[u8]>;
}

/// The public key of a secret here is its hash: no handshake is made.
#[derive(Clone, Debug)]
pub struct SecioKeyPair(Vec<u8>);

impl SecioKeyPair {
    pub fn secp256k1_generated() -> Self {
        SecioKeyPair(vec![0x11; 32])
    }

    pub fn secp256k1_raw_key<K: AsRef<[u8]>>(key: K) -> Result<Self, SecioError> {
        let k = key.as_ref();
        if k.len() != 32 || k.iter().all(|b| *b == 0) {
            return Err(SecioError::SecretGenerationFailed);
        }
        Ok(SecioKeyPair(k.to_vec()))
    }

    pub fn public_key(&self) -> PublicKey {
        let mut v = vec![2];
        v.extend_from_slice(&Sha256::digest(&self.0));
        PublicKey(v)
    }

    pub fn peer_id(&self) -> PeerId {
        self.public_key().peer_id()
    }
}

#[async_trait::async_trait]
impl KeyProvider for SecioKeyPair {
    type Error = SecioError;

    async fn sign_ecdsa_async<T: AsRef<[u8]> + Send>(&self, m: T) -> Result<Vec<u8>, SecioError> {
        self.sign_ecdsa(m)
    }

    fn sign_ecdsa<T: AsRef<[u8]>>(&self, m: T) -> Result<Vec<u8>, SecioError> {
        Ok(Sha256::digest(m.as_ref()).to_vec())
    }

    fn pubkey(&self) -> Vec<u8> {
        self.public_key().0
    }

    fn verify_ecdsa<P, T, F>(&self, _: P, m: T, s: F) -> bool
    where
        P: AsRef<[u8]>,
        T: AsRef<[u8]>,
        F: AsRef<[u8]>,
    {
        Sha256::digest(m.as_ref()).as_slice() == s.as_ref()
    }
}
