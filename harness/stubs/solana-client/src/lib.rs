//! An RPC client whose cluster is in the same process: every call goes to the
//! backend installed in this thread.
use solana_account::Account;
use solana_hash::Hash;
use solana_program::pubkey::Pubkey;
use solana_signature::Signature;
use solana_transaction::versioned::VersionedTransaction;
use std::cell::RefCell;

pub trait Backend {
    fn account(&mut self, k: &Pubkey) -> Option<Account>;
    fn slot(&mut self) -> u64;
    fn blockhash(&mut self) -> Hash;
    fn send(&mut self, tx: &VersionedTransaction) -> Result<Signature, String>;
    fn token_accounts(&mut self, owner: &Pubkey, program: &Pubkey) -> Vec<rpc_response::RpcKeyedAccount>;
}
thread_local! {
    static BACKEND: RefCell<Option<Box<dyn Backend>>> = const { RefCell::new(None) };
}
pub fn install(b: Option<Box<dyn Backend>>) {
    BACKEND.with(|x| *x.borrow_mut() = b)
}
fn with<T>(f: impl FnOnce(&mut dyn Backend) -> T) -> T {
    BACKEND.with(|x| f(x.borrow_mut().as_mut().expect("no cluster in this thread").as_mut()))
}

pub mod client_error {
    #[derive(Debug)]
    pub struct ClientError(pub String);
    impl std::fmt::Display for ClientError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for ClientError {}
    pub type Result<T> = std::result::Result<T, ClientError>;
    pub use ClientError as Error;
}
pub mod rpc_request {
    use super::*;
    pub enum TokenAccountsFilter {
        Mint(Pubkey),
        ProgramId(Pubkey),
    }
}
pub mod rpc_response {
    pub struct RpcKeyedAccount {
        pub pubkey: String,
        pub account: solana_account_decoder_client_types::UiAccount,
    }
    pub struct RpcResponseContext {
        pub slot: u64,
    }
    pub struct Response<T> {
        pub context: RpcResponseContext,
        pub value: T,
    }
}
pub mod rpc_client {
    use super::client_error::*;
    use super::rpc_request::*;
    use super::rpc_response::*;
    use super::*;
    use solana_commitment_config::CommitmentConfig;
    pub trait SerializableTransaction {
        fn versioned(&self) -> VersionedTransaction;
    }
    impl SerializableTransaction for VersionedTransaction {
        fn versioned(&self) -> VersionedTransaction {
            self.clone()
        }
    }
    impl SerializableTransaction for solana_transaction::Transaction {
        fn versioned(&self) -> VersionedTransaction {
            self.clone().into()
        }
    }
    pub struct RpcClient;
    impl RpcClient {
        pub fn new(_: String) -> Self {
            Self
        }
        pub fn new_with_commitment(_: String, _: CommitmentConfig) -> Self {
            Self
        }
        pub fn get_account(&self, k: &Pubkey) -> Result<Account> {
            with(|b| b.account(k)).ok_or_else(|| ClientError(format!("AccountNotFound: pubkey={k}")))
        }
        pub fn get_account_data(&self, k: &Pubkey) -> Result<Vec<u8>> {
            Ok(self.get_account(k)?.data)
        }
        pub fn get_account_with_commitment(&self, k: &Pubkey, _: CommitmentConfig) -> Result<Response<Option<Account>>> {
            Ok(with(|b| Response { context: RpcResponseContext { slot: b.slot() }, value: b.account(k) }))
        }
        pub fn get_multiple_accounts(&self, k: &[Pubkey]) -> Result<Vec<Option<Account>>> {
            Ok(k.iter().map(|k| with(|b| b.account(k))).collect())
        }
        pub fn get_balance(&self, k: &Pubkey) -> Result<u64> {
            Ok(with(|b| b.account(k)).map(|a| a.lamports).unwrap_or(0))
        }
        pub fn get_slot(&self) -> Result<u64> {
            Ok(with(|b| b.slot()))
        }
        pub fn get_slot_with_commitment(&self, _: CommitmentConfig) -> Result<u64> {
            self.get_slot()
        }
        pub fn get_latest_blockhash(&self) -> Result<Hash> {
            Ok(with(|b| b.blockhash()))
        }
        pub fn get_minimum_balance_for_rent_exemption(&self, n: usize) -> Result<u64> {
            Ok((n as u64 + 128) * 6960)
        }
        pub fn send_transaction(&self, t: &impl SerializableTransaction) -> Result<Signature> {
            with(|b| b.send(&t.versioned())).map_err(ClientError)
        }
        pub fn send_and_confirm_transaction(&self, t: &impl SerializableTransaction) -> Result<Signature> {
            self.send_transaction(t)
        }
        pub fn get_token_accounts_by_owner(&self, k: &Pubkey, f: TokenAccountsFilter) -> Result<Vec<RpcKeyedAccount>> {
            match f {
                TokenAccountsFilter::ProgramId(p) => Ok(with(|b| b.token_accounts(k, &p))),
                TokenAccountsFilter::Mint(_) => Err(ClientError("not modelled".into())),
            }
        }
    }
}
