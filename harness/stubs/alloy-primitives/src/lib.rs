//! The part swig's client crates use.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Address(pub [u8; 20]);
impl Address {
    pub fn from_raw_public_key(k: &[u8]) -> Address {
        assert_eq!(k.len(), 64, "raw public key must be 64 bytes");
        Address(rt::crypto::keccak(&[k])[12..].try_into().unwrap())
    }
    pub fn to_checksum_buffer(&self, _: Option<u64>) -> String {
        format!("{self:?}")
    }
}
impl std::fmt::Debug for Address {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("0x")?;
        self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct B256(pub [u8; 32]);
impl From<[u8; 32]> for B256 {
    fn from(x: [u8; 32]) -> B256 {
        B256(x)
    }
}
