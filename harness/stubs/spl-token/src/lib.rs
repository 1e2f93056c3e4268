//! The part of spl-token that the rust-sdk uses.
use solana_program::pubkey::Pubkey;
pub const ID: Pubkey = solana_pubkey::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub fn id() -> Pubkey {
    ID
}
