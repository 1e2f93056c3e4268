//! The part of spl-associated-token-account that the rust-sdk uses.
use solana_program::pubkey::Pubkey;
pub const ID: Pubkey = solana_pubkey::pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub fn get_associated_token_address_with_program_id(wallet: &Pubkey, mint: &Pubkey, token: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[wallet.as_ref(), token.as_ref(), mint.as_ref()], &ID).0
}
pub fn get_associated_token_address(wallet: &Pubkey, mint: &Pubkey) -> Pubkey {
    get_associated_token_address_with_program_id(wallet, mint, &spl_token::ID)
}
pub mod instruction {
    use super::*;
    use solana_program::instruction::{AccountMeta, Instruction};
    pub fn create_associated_token_account(payer: &Pubkey, wallet: &Pubkey, mint: &Pubkey, token: &Pubkey) -> Instruction {
        let ata = get_associated_token_address_with_program_id(wallet, mint, token);
        Instruction {
            program_id: ID,
            accounts: vec![
                AccountMeta::new(*payer, true),
                AccountMeta::new(ata, false),
                AccountMeta::new_readonly(*wallet, false),
                AccountMeta::new_readonly(*mint, false),
                AccountMeta::new_readonly(solana_pubkey::pubkey!("11111111111111111111111111111111"), false),
                AccountMeta::new_readonly(*token, false),
            ],
            data: vec![0],
        }
    }
}
