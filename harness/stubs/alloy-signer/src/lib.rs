//! The part swig's client crates use.
use alloy_primitives::B256;
pub struct Signature(pub [u8; 65]);
impl Signature {
    pub fn as_bytes(&self) -> [u8; 65] {
        self.0
    }
}
pub trait SignerSync {
    fn sign_hash_sync(&self, hash: &B256) -> Result<Signature, std::fmt::Error>;
}
