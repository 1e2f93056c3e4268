//! Permissions and actions: an independent table of what each permission
//! means, the same for building and for reading back.
use checks::model::*;
use checks::report::*;
use checks::util::*;
use checks::client::pk;
use solana_program::pubkey::Pubkey;
use swig_sdk::types::{Permission, RecurringConfig};

fn key(d: &[u8]) -> Pubkey {
    pk(&d[..32].try_into().unwrap())
}
/// the action as the client library can express it; None when it cannot
pub fn norm(a: &Act) -> Option<Act> {
    let d = &a.data;
    Some(match a.kind {
        CLOSE => return None,
        SUB => Act { kind: SUB, data: [&d[..32], &[0; 40][..]].concat() },
        SCOPE => {
            let lim = le64(&d[16..]);
            let st = le64(&d[112..]);
            let (lim, win) = match st {
                0 => (0, 0),
                1 => (lim, 0),
                _ => (lim, le64(&d[32..])),
            };
            let (p, t) = (d[48..80].try_into().unwrap(), d[80..112].try_into().unwrap());
            a_scope(0, lim as u128, win, 0, &p, &t, st, le64(&d[120..]), le64(&d[128..]), le64(&d[136..]))
        }
        _ => a.clone(),
    })
}
/// the permission that stands for a stored action
pub fn perm(a: &Act) -> Option<Permission> {
    let d = &a.data[..];
    let n = |i: usize| le64(&d[i..]);
    let rec = |window, last_reset, current_amount| Some(RecurringConfig { window, last_reset, current_amount });
    Some(match a.kind {
        SOL => Permission::Sol { amount: n(0), recurring: None },
        SOLR => Permission::Sol { amount: n(0), recurring: rec(n(8), n(16), n(24)) },
        PROG => Permission::Program { program_id: key(d) },
        SCOPE => Permission::ProgramScope {
            program_id: key(&d[48..]),
            target_account: key(&d[80..]),
            numeric_type: n(120),
            limit: (n(112) > 0).then(|| n(16)),
            window: (n(112) == 2).then(|| n(32)),
            balance_field_start: Some(n(128)),
            balance_field_end: Some(n(136)),
        },
        TOK => Permission::Token { mint: key(d), amount: n(32), recurring: None },
        TOKR => Permission::Token { mint: key(d), amount: n(40), recurring: rec(n(32), n(56), n(48)) },
        ALL => Permission::All,
        MANAGE => Permission::ManageAuthority,
        SUB => Permission::SubAccount { sub_account: d[..32].try_into().unwrap() },
        STK => Permission::Stake { amount: n(0), recurring: None },
        STKR => Permission::Stake { amount: n(0), recurring: rec(n(8), n(16), n(24)) },
        STKALL => Permission::StakeAll,
        PROGALL => Permission::ProgramAll,
        CURATED => Permission::ProgramCurated,
        ALLBUT => Permission::AllButManageAuthority,
        SOLD => Permission::SolDestination { destination: key(d), amount: n(32), recurring: None },
        SOLRD => Permission::SolDestination { destination: key(d), amount: n(32), recurring: rec(n(40), n(48), n(56)) },
        TOKD => Permission::TokenDestination { mint: key(d), destination: key(&d[32..]), amount: n(64), recurring: None },
        TOKRD => Permission::TokenDestination { mint: key(d), destination: key(&d[32..]), amount: n(64), recurring: rec(n(72), n(80), n(88)) },
        REPL => Permission::ReplaceAuthority { role_id: le32(d) },
        V2CREATE => Permission::SubAccountV2Create,
        V2ALL => Permission::SubAccountV2All { subacc_id: le32(d) },
        V2SIGN => Permission::SubAccountV2Sign { subacc_id: le32(d) },
        V2WD => Permission::SubAccountV2Withdraw { subacc_id: le32(d) },
        V2TOG => Permission::SubAccountV2Toggle { subacc_id: le32(d) },
        _ => return None,
    })
}
/// what a caller may hand in to ask for this action: fields that the library
/// documents as reset on creation hold anything
pub fn ask(a: &Act, r: &mut Rng) -> Permission {
    let mut p = perm(a).unwrap();
    match &mut p {
        Permission::Sol { recurring: Some(x), .. }
        | Permission::Token { recurring: Some(x), .. }
        | Permission::Stake { recurring: Some(x), .. }
        | Permission::SolDestination { recurring: Some(x), .. }
        | Permission::TokenDestination { recurring: Some(x), .. } => {
            if r.bool() {
                *x = RecurringConfig::new(x.window);
            } else {
                x.last_reset = r.u64();
                x.current_amount = r.u64();
            }
        }
        Permission::ProgramScope { limit, window, balance_field_start, balance_field_end, .. } => {
            if limit.is_none() && r.bool() {
                // nothing to reset
                *window = Some(r.u64());
            }
            for f in [balance_field_start, balance_field_end] {
                if *f == Some(0) && r.bool() {
                    *f = None;
                }
            }
        }
        _ => {}
    }
    p
}
/// random actions the library can express, with the permissions asking for them
pub fn some(c: &mut Case, s: &checks::world::Sim, id: u32, n: usize, keep: &[Act]) -> (Vec<Act>, Vec<Permission>) {
    let mut v: Vec<Act> = checks::plan::rand_acts(c, s, id, n, keep).iter().filter_map(norm).collect();
    if v.is_empty() {
        v.push(a_stk(3));
    }
    let p = v.iter().map(|a| ask(a, &mut c.rng)).collect();
    (v, p)
}
