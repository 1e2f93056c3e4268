//! The part swig's client crates use.
use alloy_primitives::{Address, B256};
use alloy_signer::{Signature, SignerSync};
use k256::ecdsa::SigningKey;
/// only named by an import of the rust-sdk
pub type PrivateKeySigner = LocalSigner;
#[derive(Debug)]
pub struct BadKey;
impl std::fmt::Display for BadKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("bad private key")
    }
}
impl std::error::Error for BadKey {}
#[derive(Clone)]
pub struct LocalSigner(SigningKey);
impl std::str::FromStr for LocalSigner {
    type Err = BadKey;
    fn from_str(s: &str) -> Result<Self, BadKey> {
        let b = hex::decode(s.strip_prefix("0x").unwrap_or(s)).map_err(|_| BadKey)?;
        SigningKey::from_slice(&b).map(LocalSigner).map_err(|_| BadKey)
    }
}
impl LocalSigner {
    pub fn random() -> Self {
        loop {
            if let Ok(k) = SigningKey::from_slice(&rand::random::<[u8; 32]>()) {
                return LocalSigner(k);
            }
        }
    }
    pub fn credential(&self) -> &SigningKey {
        &self.0
    }
    pub fn address(&self) -> Address {
        Address::from_raw_public_key(&self.0.verifying_key().to_encoded_point(false).as_bytes()[1..])
    }
}
impl std::fmt::Debug for LocalSigner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "LocalSigner({:?})", self.address())
    }
}
impl SignerSync for LocalSigner {
    fn sign_hash_sync(&self, hash: &B256) -> Result<Signature, std::fmt::Error> {
        let mut s = rt::crypto::K1 { sk: self.0.clone() }.sign(&hash.0);
        s[64] += 27;
        Ok(Signature(s))
    }
}
