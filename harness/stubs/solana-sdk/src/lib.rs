//! The part of solana-sdk that swig's instruction builders use.
pub use solana_program::{instruction, pubkey, sysvar};
pub mod hash {
    pub use solana_sha256_hasher::*;
}
pub mod keccak {
    pub use solana_keccak_hasher::*;
}
