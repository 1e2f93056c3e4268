//! The part of solana-sdk that swig's rust-sdk uses, from the component crates.
pub use solana_account as account;
pub use solana_program::{clock, instruction, program_error, rent, sysvar};
pub mod pubkey {
    pub use solana_pubkey::*;
}
pub use solana_pubkey::pubkey;
pub mod message {
    pub use solana_message::*;
}
pub mod signature {
    pub use solana_keypair::{Keypair, *};
    pub use solana_signature::*;
    pub use solana_signer::{Signer, SignerError};
}
pub mod signer {
    pub use solana_signer::*;
}
pub mod transaction {
    pub use solana_transaction::versioned::VersionedTransaction;
    pub use solana_transaction::*;
}
pub mod hash {
    pub use solana_program::hash::*;
    pub use solana_sha256_hasher::*;
}
pub mod keccak {
    pub use solana_keccak_hasher::*;
}
