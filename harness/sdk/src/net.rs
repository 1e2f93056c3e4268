//! The cluster the SDK's wallet talks to: one chain of the runtime model.
//! Transactions arrive as they would at a validator: compiled, signed, with
//! lookup tables; what is not signed by whom its message names is dropped.
use rt::*;
use solana_client::Backend;
use solana_hash::Hash;
use solana_program::pubkey::Pubkey;
use solana_sdk::account::Account;
use solana_sdk::message::{v0, VersionedMessage};
use solana_sdk::signature::Signature;
use solana_sdk::transaction::VersionedTransaction;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Net {
    pub ch: Chain,
    pub tables: BTreeMap<Key, Vec<Key>>,
    pub hash: [u8; 32],
    /// fails this many sends before they reach the chain
    pub down: u32,
    /// what arrived: the instructions, and how it ended
    pub sent: Vec<(Vec<Ix>, Result<(), String>)>,
    pub payers: Vec<Key>,
}
impl Net {
    pub fn new(ch: Chain) -> Net {
        Net { ch, tables: BTreeMap::new(), hash: [7; 32], down: 0, sent: vec![], payers: vec![] }
    }
}
#[derive(Clone)]
pub struct Shared(pub Rc<RefCell<Net>>);

/// the instructions a message holds, with the rights it gives each account
pub fn decode(m: &VersionedMessage, tables: &BTreeMap<Key, Vec<Key>>) -> Result<Vec<Ix>, String> {
    let h = m.header();
    let st = m.static_account_keys();
    let (ns, ros, rou) = (h.num_required_signatures as usize, h.num_readonly_signed_accounts as usize, h.num_readonly_unsigned_accounts as usize);
    let mut keys: Vec<(Key, bool, bool)> = st
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let signer = i < ns;
            let w = if signer { i < ns - ros } else { i < st.len() - rou };
            (k.to_bytes(), signer, w)
        })
        .collect();
    let mut late = vec![];
    for t in m.address_table_lookups().unwrap_or(&[]) {
        let tab = tables.get(&t.account_key.to_bytes()).ok_or("unknown lookup table")?;
        let at = |i: &u8| tab.get(*i as usize).copied().ok_or("lookup beyond the table".to_string());
        for i in &t.writable_indexes {
            keys.push((at(i)?, false, true));
        }
        for i in &t.readonly_indexes {
            late.push((at(i)?, false, false));
        }
    }
    keys.extend(late);
    let mut out = vec![];
    for i in m.instructions() {
        let get = |x: u8| keys.get(x as usize).copied().ok_or("account index out of range".to_string());
        let program = get(i.program_id_index)?.0;
        let mut accounts = vec![];
        for a in &i.accounts {
            let (key, signer, writable) = get(*a)?;
            accounts.push(Meta { key, signer, writable });
        }
        out.push(Ix { program, accounts, data: i.data.clone() });
    }
    Ok(out)
}

impl Net {
    fn take(&mut self, t: &VersionedTransaction) -> Result<(), String> {
        if self.down > 0 {
            self.down -= 1;
            return Err("node is behind".into());
        }
        if t.message.recent_blockhash().to_bytes() != self.hash {
            return Err("Blockhash not found".into());
        }
        let bytes = t.message.serialize();
        let keys = t.message.static_account_keys();
        let ns = t.message.header().num_required_signatures as usize;
        if t.signatures.len() != ns || ns == 0 {
            return Err("wrong number of signatures".into());
        }
        for (s, k) in t.signatures.iter().zip(keys) {
            if !s.verify(k.as_ref(), &bytes) {
                return Err("Transaction signature verification failure".into());
            }
        }
        let ixs = decode(&t.message, &self.tables)?;
        self.payers.push(keys[0].to_bytes());
        let o = self.ch.exec(&ixs);
        self.ch.accts.remove(&ixs_sysvar_id());
        let r = if o.ok { Ok(()) } else { Err(o.err.clone()) };
        self.sent.push((ixs, r.clone()));
        r
    }
}
impl Backend for Shared {
    fn account(&mut self, k: &Pubkey) -> Option<Account> {
        let n = self.0.borrow();
        let a = n.ch.accts.get(&k.to_bytes()).filter(|a| a.lamports > 0)?;
        Some(Account { lamports: a.lamports, data: a.data.clone(), owner: Pubkey::new_from_array(a.owner), executable: a.executable, rent_epoch: u64::MAX })
    }
    fn slot(&mut self) -> u64 {
        self.0.borrow().ch.slot
    }
    fn blockhash(&mut self) -> Hash {
        Hash::new_from_array(self.0.borrow().hash)
    }
    fn send(&mut self, t: &VersionedTransaction) -> Result<Signature, String> {
        self.0.borrow_mut().take(t)?;
        Ok(t.signatures[0])
    }
    fn token_accounts(&mut self, _: &Pubkey, _: &Pubkey) -> Vec<solana_client::rpc_response::RpcKeyedAccount> {
        vec![]
    }
}
/// what the message compiler makes of these instructions
pub fn compiled(payer: &Key, ixs: &[Ix], hash: [u8; 32]) -> Result<Vec<Ix>, String> {
    let v: Vec<_> = ixs.iter().map(checks::client::from_ix).collect();
    let m = v0::Message::try_compile(&Pubkey::new_from_array(*payer), &v, &[], Hash::new_from_array(hash)).map_err(|e| e.to_string())?;
    decode(&VersionedMessage::V0(m), &BTreeMap::new())
}
