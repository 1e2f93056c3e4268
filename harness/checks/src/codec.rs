//! R05: stored structures against an independent table of their documented
//! layouts, whole wallets through the state library's own reader and writer,
//! and the padding guard.
use crate::model::*;
use crate::plan;
use crate::report::*;
use crate::util::*;
use crate::world;
use std::mem::{align_of, size_of};
use swig_state::action::program_scope::{NumericType, ProgramScope};
use swig_state::action::*;
use swig_state::authority::{ed25519::*, programexec::*, secp256k1::*, secp256r1::*, *};
use swig_state::role::{Position, Role as StRole, RoleMut};
use swig_state::sub_account_v2::SubAccountV2;
use swig_state::swig::{self as sw, Swig, SwigBuilder, SwigWithRoles};
use swig_state::tail::{self, rent_claimer, SavedTail, TailHeader};
use swig_state::{IntoBytes, Transmutable, TransmutableMut};

/// account data starts at a multiple of 8 and no more
pub struct Aligned {
    mem: Vec<u64>,
    len: usize,
}
impl Aligned {
    pub fn new(b: &[u8]) -> Aligned {
        let mut a = Aligned { mem: vec![0; b.len() / 8 + 1], len: b.len() };
        a.get_mut().copy_from_slice(b);
        a
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.mem.as_ptr() as *const u8, self.len) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut u8, self.len) }
    }
}

trait Fld: Copy {
    fn bytes(&self) -> Vec<u8>;
    fn from(b: &[u8]) -> Self;
    /// makes random bytes a value of this type
    fn fix(_b: &mut [u8]) {}
}
macro_rules! int_fld {
    ($($t:ty),*) => { $(impl Fld for $t {
        fn bytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
        fn from(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
    })* };
}
int_fld!(u8, u16, u32, u64, u128);
impl<const N: usize> Fld for [u8; N] {
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn from(b: &[u8]) -> Self {
        b.try_into().unwrap()
    }
}
impl Fld for bool {
    fn bytes(&self) -> Vec<u8> {
        vec![*self as u8]
    }
    fn from(b: &[u8]) -> Self {
        b[0] == 1
    }
    fn fix(b: &mut [u8]) {
        b[0] &= 1
    }
}

fn enc<T: IntoBytes>(c: &mut Case, name: &str, t: &T, want: &[u8]) {
    match t.into_bytes() {
        Ok(b) if b == want => {}
        Ok(b) => c.violate(format!("encode:{name}"), format!("{name} encodes to {} instead of {}", hex(b), hex(want))),
        Err(e) => c.violate(format!("encode:{name}"), format!("{name} does not encode: {e:?}")),
    }
}
macro_rules! wrong_sizes {
    ($c:ident, $t:ty, $name:expr, $len:expr) => {{
        let len: usize = $len;
        let big = Aligned::new(&vec![0u8; 2 * len + 64]);
        for n in [0, 1, len / 2, len.saturating_sub(8), len.saturating_sub(1), len + 1, len + 8, 2 * len + 64] {
            if n == len {
                continue;
            }
            if unsafe { <$t>::load_unchecked(&big.get()[..n]) }.is_ok() {
                $c.violate(format!("size:{}", $name), format!("{} ({} bytes) decodes from {} bytes", $name, len, n));
            }
        }
    }};
}
/// one structure: its length, its fields at their documented offsets
macro_rules! lay {
    ($c:ident, $t:ty, $len:expr, [$($f:ident : $ft:ty = $off:expr),* $(,)?]) => {{
        let name = stringify!($t);
        $c.eval(&format!("layout:{name}"));
        if <$t>::LEN != $len || size_of::<$t>() != $len {
            $c.violate(format!("len:{name}"), format!("{name}: LEN {} and size {} where {} bytes are documented", <$t>::LEN, size_of::<$t>(), $len));
        } else {
            #[allow(unused_mut)]
            let mut raw = $c.rng.bytes($len);
            $( <$ft as Fld>::fix(&mut raw[$off..$off + size_of::<$ft>()]); )*
            let buf = Aligned::new(&raw);
            match unsafe { <$t>::load_unchecked(buf.get()) } {
                Err(e) => $c.violate(format!("decode:{name}"), format!("{name} does not decode from {} bytes: {e:?}", $len)),
                Ok(v) => {
                    let v: &$t = v;
                    $( {
                        let got = v.$f.bytes();
                        let want = &raw[$off..$off + size_of::<$ft>()];
                        if got != want {
                            $c.violate(format!("field:{name}.{}", stringify!($f)), format!("{name}.{} reads {} instead of {} (offset {})", stringify!($f), hex(&got), hex(want), $off));
                        }
                    } )*
                    enc($c, name, v, &raw);
                }
            }
            wrong_sizes!($c, $t, name, $len);
        }
    }};
}
/// the same, and writing a field changes only its bytes
macro_rules! lay_mut {
    ($c:ident, $t:ty, $len:expr, [$($f:ident : $ft:ty = $off:expr),* $(,)?]) => {{
        lay!($c, $t, $len, [$($f : $ft = $off),*]);
        let name = stringify!($t);
        if <$t>::LEN == $len {
            $( {
                let mut raw = $c.rng.bytes($len);
                let mut buf = Aligned::new(&raw);
                let mut nb = $c.rng.bytes(size_of::<$ft>());
                <$ft as Fld>::fix(&mut nb);
                raw[$off..$off + nb.len()].copy_from_slice(&nb);
                match unsafe { <$t>::load_mut_unchecked(buf.get_mut()) } {
                    Ok(v) => v.$f = <$ft as Fld>::from(&nb),
                    Err(e) => $c.violate(format!("decode-mut:{name}"), format!("{name} does not decode for writing: {e:?}")),
                }
                if buf.get() != &raw[..] {
                    $c.violate(format!("write:{name}.{}", stringify!($f)), format!("writing {name}.{} gives {} instead of {}", stringify!($f), hex(buf.get()), hex(&raw)));
                }
            } )*
            let mut big = Aligned::new(&vec![0u8; 2 * $len + 64]);
            let len: usize = $len;
            for n in [0, len / 2, len.saturating_sub(1), len + 1, 2 * len + 64] {
                if n != $len && unsafe { <$t>::load_mut_unchecked(&mut big.get_mut()[..n]) }.is_ok() {
                    $c.violate(format!("size-mut:{name}"), format!("{name} ({} bytes) decodes for writing from {} bytes", $len, n));
                }
            }
        }
    }};
}

pub fn layouts(c: &mut Case) {
    // wallet header, role position, action header, sub-account state
    lay_mut!(c, Swig, 48, [discriminator: u8 = 0, bump: u8 = 1, id: [u8; 32] = 2, roles: u16 = 34, role_counter: u32 = 36, wallet_bump: u8 = 40, sub_account_counter: u32 = 44]);
    lay_mut!(c, Position, 16, [authority_type: u16 = 0, authority_length: u16 = 2, num_actions: u16 = 4, id: u32 = 8, boundary: u32 = 12]);
    lay!(c, Action, 8, []);
    lay_mut!(c, SubAccountV2, 72, [discriminator: u8 = 0, bump: u8 = 1, asset_bump: u8 = 2, enabled: u8 = 3, subacc_id: u32 = 4, swig_id: [u8; 32] = 8, sub_account: [u8; 32] = 40]);
    // permissions
    lay_mut!(c, sol_limit::SolLimit, 8, [amount: u64 = 0]);
    lay_mut!(c, sol_recurring_limit::SolRecurringLimit, 32, [recurring_amount: u64 = 0, window: u64 = 8, last_reset: u64 = 16, current_amount: u64 = 24]);
    lay_mut!(c, program::Program, 32, [program_id: [u8; 32] = 0]);
    lay_mut!(c, program_curated::ProgramCurated, 32, [_reserved: [u8; 32] = 0]);
    lay_mut!(c, ProgramScope, 144, [current_amount: u128 = 0, limit: u128 = 16, window: u64 = 32, last_reset: u64 = 40, program_id: [u8; 32] = 48, target_account: [u8; 32] = 80, scope_type: u64 = 112, numeric_type: u64 = 120, balance_field_start: u64 = 128, balance_field_end: u64 = 136]);
    lay_mut!(c, token_limit::TokenLimit, 40, [token_mint: [u8; 32] = 0, current_amount: u64 = 32]);
    lay_mut!(c, token_recurring_limit::TokenRecurringLimit, 64, [token_mint: [u8; 32] = 0, window: u64 = 32, limit: u64 = 40, current: u64 = 48, last_reset: u64 = 56]);
    lay_mut!(c, sub_account::SubAccount, 72, [sub_account: [u8; 32] = 0, bump: u8 = 32, enabled: bool = 33, role_id: u32 = 36, swig_id: [u8; 32] = 40]);
    lay_mut!(c, stake_limit::StakeLimit, 8, [amount: u64 = 0]);
    lay_mut!(c, stake_recurring_limit::StakeRecurringLimit, 32, [recurring_amount: u64 = 0, window: u64 = 8, last_reset: u64 = 16, current_amount: u64 = 24]);
    lay_mut!(c, sol_destination_limit::SolDestinationLimit, 40, [destination: [u8; 32] = 0, amount: u64 = 32]);
    lay_mut!(c, sol_recurring_destination_limit::SolRecurringDestinationLimit, 64, [destination: [u8; 32] = 0, recurring_amount: u64 = 32, window: u64 = 40, last_reset: u64 = 48, current_amount: u64 = 56]);
    lay_mut!(c, token_destination_limit::TokenDestinationLimit, 72, [token_mint: [u8; 32] = 0, destination: [u8; 32] = 32, amount: u64 = 64]);
    lay_mut!(c, token_recurring_destination_limit::TokenRecurringDestinationLimit, 96, [token_mint: [u8; 32] = 0, destination: [u8; 32] = 32, recurring_amount: u64 = 64, window: u64 = 72, last_reset: u64 = 80, current_amount: u64 = 88]);
    lay_mut!(c, replace_authority::ReplaceAuthority, 8, [role_id: u32 = 0]);
    lay_mut!(c, sub_account_v2::SubAccountV2All, 8, [subacc_id: u32 = 0]);
    lay_mut!(c, sub_account_v2::SubAccountV2Sign, 8, [subacc_id: u32 = 0]);
    lay_mut!(c, sub_account_v2::SubAccountV2Withdraw, 8, [subacc_id: u32 = 0]);
    lay_mut!(c, sub_account_v2::SubAccountV2Toggle, 8, [subacc_id: u32 = 0]);
    // authorities
    lay_mut!(c, ED25519Authority, 32, [public_key: [u8; 32] = 0]);
    lay_mut!(c, Ed25519SessionAuthority, 80, [public_key: [u8; 32] = 0, session_key: [u8; 32] = 32, max_session_length: u64 = 64, current_session_expiration: u64 = 72]);
    lay_mut!(c, Secp256k1Authority, 40, [public_key: [u8; 33] = 0, signature_odometer: u32 = 36]);
    lay_mut!(c, Secp256k1SessionAuthority, 88, [public_key: [u8; 33] = 0, signature_odometer: u32 = 36, session_key: [u8; 32] = 40, max_session_age: u64 = 72, current_session_expiration: u64 = 80]);
    lay_mut!(c, Secp256r1Authority, 40, [public_key: [u8; 33] = 0, signature_odometer: u32 = 36]);
    lay_mut!(c, Secp256r1SessionAuthority, 88, [public_key: [u8; 33] = 0, signature_odometer: u32 = 36, session_key: [u8; 32] = 40, max_session_age: u64 = 72, current_session_expiration: u64 = 80]);
    lay_mut!(c, ProgramExecAuthority, 80, [program_id: [u8; 32] = 0, instruction_prefix_len: u8 = 32, instruction_prefix: [u8; 40] = 40]);
    lay_mut!(c, session::ProgramExecSessionAuthority, 128, [program_id: [u8; 32] = 0, instruction_prefix_len: u8 = 32, instruction_prefix: [u8; 40] = 40, session_key: [u8; 32] = 80, max_session_length: u64 = 112, current_session_expiration: u64 = 120]);
    // forms that ask for an authority
    lay!(c, CreateEd25519SessionAuthority, 72, [public_key: [u8; 32] = 0, session_key: [u8; 32] = 32, max_session_length: u64 = 64]);
    lay!(c, CreateSecp256k1SessionAuthority, 104, [public_key: [u8; 64] = 0, session_key: [u8; 32] = 64, max_session_length: u64 = 96]);
    lay!(c, CreateSecp256r1SessionAuthority, 80, [public_key: [u8; 33] = 0, session_key: [u8; 32] = 40, max_session_length: u64 = 72]);
    lay!(c, session::CreateProgramExecSessionAuthority, 128, [program_id: [u8; 32] = 0, instruction_prefix_len: u8 = 32, instruction_prefix: [u8; 40] = 40, session_key: [u8; 32] = 80, max_session_length: u64 = 112]);
    // signed account list
    lay!(c, AccountsPayload, 40, [pubkey: [u8; 32] = 0, is_writable: bool = 32, is_signer: bool = 33]);
    // structures live at multiples of 8 inside an account
    macro_rules! align { ($($t:ty),*) => { $( if align_of::<$t>() > 8 {
        let n = stringify!($t);
        c.violate(format!("align:{n}"), format!("{n} needs {}-byte alignment but is stored at multiples of 8", align_of::<$t>()));
    } )* } }
    align!(Swig, Position, Action, SubAccountV2, sol_limit::SolLimit, sol_recurring_limit::SolRecurringLimit, ProgramScope, token_limit::TokenLimit, token_recurring_limit::TokenRecurringLimit, sub_account::SubAccount, sol_recurring_destination_limit::SolRecurringDestinationLimit, token_recurring_destination_limit::TokenRecurringDestinationLimit, Ed25519SessionAuthority, Secp256k1SessionAuthority, Secp256r1SessionAuthority, session::ProgramExecSessionAuthority);
    constructors(c);
    seeds(c);
    numbers(c);
    tails(c);
}

fn flat(p: &[&[u8]]) -> Vec<u8> {
    p.concat()
}
fn constructors(c: &mut Case) {
    let (k, k2, k3) = (c.rng.key(), c.rng.key(), c.rng.key());
    let mut pk = [0u8; 33];
    pk.copy_from_slice(&c.rng.bytes(33));
    let mut xy = [0u8; 64];
    xy.copy_from_slice(&c.rng.bytes(64));
    let (n, m) = (c.rng.u64(), c.rng.u64() as u32);
    let (b1, b2, w1, w2) = (c.rng.u64() as u8, c.rng.u64() as u8, c.rng.u64() as u16, c.rng.u64() as u16);
    let pre: [u8; 40] = c.rng.bytes(40).try_into().unwrap();
    let pl = c.rng.below(41) as u8;
    let n8 = n.to_le_bytes();
    let m4 = m.to_le_bytes();
    c.eval("constructors");
    enc(c, "Swig::new", &Swig::new(k, b1, b2), &flat(&[&[1, b1], &k, &[0; 6], &[b2], &[0; 7]]));
    for t in KINDS {
        let ty = AuthorityType::try_from(t).unwrap();
        enc(c, "Position::new", &Position::new(ty, m, w1, w2, m ^ 77), &flat(&[&t.to_le_bytes(), &w1.to_le_bytes(), &w2.to_le_bytes(), &[0; 2], &m4, &(m ^ 77).to_le_bytes()]));
        let buf = Aligned::new(&c.rng.bytes(16));
        let mut raw = buf.get().to_vec();
        raw[..2].copy_from_slice(&t.to_le_bytes());
        let buf = Aligned::new(&raw);
        let p = unsafe { Position::load_unchecked(buf.get()) }.unwrap();
        if p.authority_type().map(|x| x as u16) != Ok(t) || p.authority_length() != le16(&raw[2..]) || p.num_actions() != le16(&raw[4..]) || p.id() != le32(&raw[8..]) || p.boundary() != le32(&raw[12..]) {
            c.violate("position-getters", format!("a role position reads back wrong: {}", hex(&raw)));
        }
    }
    for t in [0u16, 9, 10, 255, 256, 257, 0x0101, 0x8001, u16::MAX] {
        if AuthorityType::try_from(t).is_ok() {
            c.violate("authority-type", format!("authority type {t} is taken for a known one"));
        }
    }
    for t in 0u16..40 {
        let p = Permission::try_from(t).ok().map(|x| x as u16);
        if p != (t <= 26).then_some(t) {
            c.violate("permission", format!("permission number {t} reads as {p:?}"));
        }
        if let Ok(p) = Permission::try_from(t) {
            enc(c, "Action::new", &Action::new(p, w1, m), &flat(&[&t.to_le_bytes(), &w1.to_le_bytes(), &m4]));
            enc(c, "Action::client_new", &Action::client_new(p, w1), &flat(&[&t.to_le_bytes(), &w1.to_le_bytes(), &[0; 4]]));
            let a = Action::new(p, w1, m);
            if a.permission() != Ok(p) || a.length() != w1 || a.boundary() != m {
                c.violate("action-getters", "an action header reads back wrong");
            }
        }
    }
    for t in [27u16, 128, 256, 263, 0x0701, u16::MAX] {
        if Permission::try_from(t).is_ok() {
            c.violate("permission", format!("permission number {t} is taken for a known one"));
        }
    }
    match ED25519Authority::from_create_bytes(&k) {
        Ok(a) => enc(c, "ED25519Authority::from_create_bytes", &a, &k),
        Err(e) => c.violate("encode:ed-create", format!("{e:?}")),
    }
    for l in [0usize, 31, 33, 64] {
        if ED25519Authority::from_create_bytes(&vec![7; l]).is_ok() {
            c.violate("size:ed-create", format!("an Ed25519 key of {l} bytes is accepted"));
        }
    }
    enc(c, "CreateEd25519SessionAuthority::new", &CreateEd25519SessionAuthority::new(k, k2, n), &flat(&[&k, &k2, &n8]));
    enc(c, "Ed25519SessionAuthority::new", &Ed25519SessionAuthority::new(k, k2, n), &flat(&[&k, &k2, &n8, &[0; 8]]));
    enc(c, "CreateSecp256k1SessionAuthority::new", &CreateSecp256k1SessionAuthority::new(xy, k2, n), &flat(&[&xy, &k2, &n8]));
    enc(c, "Secp256k1Authority::new", &Secp256k1Authority::new(pk), &flat(&[&pk, &[0; 7]]));
    enc(c, "CreateSecp256r1SessionAuthority::new", &CreateSecp256r1SessionAuthority::new(pk, k2, n), &flat(&[&pk, &[0; 7], &k2, &n8]));
    enc(c, "Secp256r1Authority::new", &Secp256r1Authority::new(pk), &flat(&[&pk, &[0; 7]]));
    enc(c, "ProgramExecAuthority::new", &ProgramExecAuthority::new(k, pl), &flat(&[&k, &[pl], &[0; 47]]));
    let pd = ProgramExecAuthority::create_authority_data(&k, &pre[..pl as usize]);
    let mut want = flat(&[&k, &[pl], &[0; 7], &pre[..pl as usize]]);
    want.resize(80, 0);
    if pd != want {
        c.violate("encode:pe-data", format!("program-exec creation data is {} instead of {}", hex(&pd), hex(&want)));
    }
    enc(c, "CreateProgramExecSessionAuthority::new", &session::CreateProgramExecSessionAuthority::new(k, pl, pre, k2, n), &flat(&[&k, &[pl], &[0; 7], &pre, &k2, &n8, &[0; 8]]));
    enc(c, "ProgramExecSessionAuthority::new", &session::ProgramExecSessionAuthority::new(k, pl, pre, k2, n), &flat(&[&k, &[pl], &[0; 7], &pre, &k2, &n8, &[0; 8]]));
    let (wr, sg) = (c.rng.bool(), c.rng.bool());
    enc(c, "AccountsPayload::new", &AccountsPayload::new(k, wr, sg), &flat(&[&k, &[wr as u8, sg as u8], &[0; 6]]));
    enc(c, "ReplaceAuthority::new", &replace_authority::ReplaceAuthority::new(m), &flat(&[&m4, &[0; 4]]));
    enc(c, "SubAccount::new", &sub_account::SubAccount::new(k), &flat(&[&k, &[0; 40]]));
    enc(c, "SubAccount::new_for_creation", &sub_account::SubAccount::new_for_creation(), &[0; 72]);
    enc(c, "SubAccountV2All::new", &sub_account_v2::SubAccountV2All::new(m), &flat(&[&m4, &[0; 4]]));
    enc(c, "SubAccountV2Sign::new", &sub_account_v2::SubAccountV2Sign::new(m), &flat(&[&m4, &[0; 4]]));
    enc(c, "SubAccountV2Withdraw::new", &sub_account_v2::SubAccountV2Withdraw::new(m), &flat(&[&m4, &[0; 4]]));
    enc(c, "SubAccountV2Toggle::new", &sub_account_v2::SubAccountV2Toggle::new(m), &flat(&[&m4, &[0; 4]]));
    enc(c, "ProgramCurated::new", &program_curated::ProgramCurated::new(), &[0; 32]);
    enc(c, "SubAccountV2::new", &SubAccountV2::new(b1, b2, m, k, k2), &flat(&[&[2, b1, b2, 1], &m4, &k, &k2]));
    {
        let mut s = SubAccountV2::new(b1, b2, m, k, k2);
        let v = c.rng.u64() as u8;
        s.enabled = v;
        let ok = match s.is_enabled() {
            Ok(on) => v == on as u8,
            Err(_) => v > 1,
        };
        s.set_enabled(wr);
        if !ok || s.enabled != wr as u8 || s.is_enabled() != Ok(wr) {
            c.violate("sub2-enabled", format!("the enabled flag {v} or {wr} does not read back"));
        }
        s.discriminator = v;
        if s.check_discriminator().is_ok() != (v == 2) {
            c.violate("sub2-kind", format!("account kind {v} taken for a sub-account state"));
        }
    }
    let nt = c.rng.below(4);
    let num = [NumericType::U8, NumericType::U32, NumericType::U64, NumericType::U128][nt];
    let lim = ((n as u128) << 64 | n as u128) ^ m as u128;
    let l16 = lim.to_le_bytes();
    let z16 = [0u8; 16];
    let scope = |lim: &[u8; 16], w: u64, ty: u64, nt: u64, s: u64, e: u64| flat(&[&z16, lim, &w.to_le_bytes(), &[0; 8], &k, &k3, &ty.to_le_bytes(), &nt.to_le_bytes(), &s.to_le_bytes(), &e.to_le_bytes()]);
    enc(c, "ProgramScope::new_basic", &ProgramScope::new_basic(k, k3), &scope(&z16, 0, 0, 2, 0, 0));
    enc(c, "ProgramScope::new_limit", &ProgramScope::new_limit(k, k3, lim, num), &scope(&l16, 0, 1, nt as u64, 0, 0));
    let mut p = ProgramScope::new_recurring_limit(k, k3, lim, n, num);
    enc(c, "ProgramScope::new_recurring_limit", &p, &scope(&l16, n, 2, nt as u64, 0, 0));
    let (s, e) = (c.rng.range(0, 1030), c.rng.range(0, 1030));
    let ok = p.set_balance_field_indices(s, e).is_ok();
    if ok != (e > s && e <= 1024) {
        c.violate("scope-range", format!("a scope range {s}..{e} is {}", if ok { "accepted" } else { "refused" }));
    }
    let (s, e) = if ok { (s, e) } else { (0, 0) };
    enc(c, "ProgramScope::set_balance_field_indices", &p, &scope(&l16, n, 2, nt as u64, s, e));
    authorities(c);
}
macro_rules! auth_case {
    ($c:ident, $cr:ident, $t:ty) => {{
        let want = $cr.stored();
        let data = $cr.create_data();
        let n = kind_name($cr.kind);
        $c.eval(&format!("set_into_bytes:{n}"));
        let mut b = Aligned::new(&vec![0u8; want.len()]);
        match <$t>::set_into_bytes(&data, b.get_mut()) {
            Ok(()) if b.get() == &want[..] => {}
            Ok(()) => $c.violate(format!("store:{n}"), format!("{n} authority {} is stored as {} instead of {}", hex(&data), hex(b.get()), hex(&want))),
            Err(e) => $c.violate(format!("store:{n}"), format!("{n} authority {} is refused: {e:?}", hex(&data))),
        }
        for _ in 0..2 {
            let mut d = data.clone();
            let l = loop {
                let l = match $c.rng.below(4) {
                    0 => $c.rng.below(160),
                    1 => data.len() + 1 + $c.rng.below(9),
                    2 => data.len().saturating_sub(1 + $c.rng.below(9)),
                    _ => *$c.rng.pick(&[32usize, 33, 40, 64, 72, 80, 88, 104, 120, 128]),
                };
                let other = if $cr.kind == K1T { vec![33usize, 64] } else { vec![data.len()] };
                if !other.contains(&l) {
                    break l;
                }
            };
            d.resize(l, 5);
            let mut b = Aligned::new(&vec![0u8; want.len()]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| <$t>::set_into_bytes(&d, b.get_mut()).is_ok()));
            if r.unwrap_or(false) {
                $c.violate(format!("store-size:{n}"), format!("{n} authority data of {l} bytes is accepted"));
            }
        }
        let b = Aligned::new(&want);
        let a = unsafe { <$t>::load_unchecked(b.get()) }.unwrap();
        let id = match $cr.kind {
            PE | PES => $cr.prefix.clone(),
            _ => $cr.ident(),
        };
        if a.authority_type() as u16 != $cr.kind || a.length() != want.len() || a.session_based() != $cr.session() || a.identity().ok() != Some(&id[..]) || a.signature_odometer() != if $cr.secp() { Some($cr.odo) } else { None } {
            $c.violate(format!("info:{n}"), format!("a stored {n} authority describes itself wrongly: {}", hex(&want)));
        }
        if swig_state::authority::authority_type_to_length(&a.authority_type()).ok() != Some(want.len()) {
            $c.violate(format!("type-length:{n}"), format!("the length of {n} authorities is not {}", want.len()));
        }
    }};
}
fn authorities(c: &mut Case) {
    let prog = c.rng.key();
    for k in KINDS {
        let cr = Cred::new(k, &mut c.rng, &prog);
        match k {
            ED => auth_case!(c, cr, ED25519Authority),
            EDS => auth_case!(c, cr, Ed25519SessionAuthority),
            K1T => auth_case!(c, cr, Secp256k1Authority),
            K1S => auth_case!(c, cr, Secp256k1SessionAuthority),
            R1T => auth_case!(c, cr, Secp256r1Authority),
            R1S => auth_case!(c, cr, Secp256r1SessionAuthority),
            PE => auth_case!(c, cr, ProgramExecAuthority),
            _ => auth_case!(c, cr, session::ProgramExecSessionAuthority),
        }
    }
}
/// the seeds of every derived address
fn seeds(c: &mut Case) {
    let (k, b) = (c.rng.key(), [c.rng.u64() as u8]);
    let id = (c.rng.u64() as u32).to_le_bytes();
    c.eval("seeds");
    let mut chk = |n: &str, got: Vec<&[u8]>, want: Vec<&[u8]>| {
        if got != want {
            c.violate(format!("seeds:{n}"), format!("seeds of {n} are {got:?} instead of {want:?}"));
        }
    };
    chk("wallet config", sw::swig_account_seeds(&k).to_vec(), vec![b"swig", &k]);
    chk("wallet config", sw::swig_account_seeds_with_bump(&k, &b).to_vec(), vec![b"swig", &k, &b]);
    chk("wallet address", sw::swig_wallet_address_seeds(&k).to_vec(), vec![b"swig-wallet-address", &k]);
    chk("wallet address", sw::swig_wallet_address_seeds_with_bump(&k, &b).to_vec(), vec![b"swig-wallet-address", &k, &b]);
    chk("sub-account", sw::sub_account_seeds(&k, &id).to_vec(), vec![b"sub-account", &k, &id]);
    chk("sub-account", sw::sub_account_seeds_with_bump(&k, &id, &b).to_vec(), vec![b"sub-account", &k, &id, &b]);
    chk("sub-account v2 state", sw::sub_account_v2_state_seeds(&k, &id).to_vec(), vec![b"sub-account-v2-state", &k, &id]);
    chk("sub-account v2 state", sw::sub_account_v2_state_seeds_with_bump(&k, &id, &b).to_vec(), vec![b"sub-account-v2-state", &k, &id, &b]);
    chk("sub-account v2 asset", sw::sub_account_v2_asset_seeds(&k, &id).to_vec(), vec![b"sub-account-v2", &k, &id]);
    chk("sub-account v2 asset", sw::sub_account_v2_asset_seeds_with_bump(&k, &id, &b).to_vec(), vec![b"sub-account-v2", &k, &id, &b]);
    // signer seeds: a Seed is a pointer and a length
    fn raw(s: &[pinocchio::instruction::Seed]) -> Vec<Vec<u8>> {
        s.iter().map(|x| x.to_vec()).collect()
    }
    let mut chk2 = |n: &str, got: Vec<Vec<u8>>, want: Vec<&[u8]>| {
        if got != want {
            c.violate(format!("seeds:{n}"), format!("signing seeds of {n} are {got:?} instead of {want:?}"));
        }
    };
    chk2("wallet config", raw(&sw::swig_account_signer(&k, &b)), vec![b"swig", &k, &b]);
    chk2("wallet address", raw(&sw::swig_wallet_address_signer(&k, &b)), vec![b"swig-wallet-address", &k, &b]);
    chk2("sub-account", raw(&sw::sub_account_signer(&k, &id, &b)), vec![b"sub-account", &k, &id, &b]);
    chk2("sub-account v2 state", raw(&sw::sub_account_v2_state_signer(&k, &id, &b)), vec![b"sub-account-v2-state", &k, &id, &b]);
    chk2("sub-account v2 asset", raw(&sw::sub_account_v2_asset_signer(&k, &id, &b)), vec![b"sub-account-v2", &k, &id, &b]);
}
/// numbers read out of a scoped account
fn numbers(c: &mut Case) {
    for _ in 0..4 {
        let nt = c.rng.below(6);
        let w = [1usize, 4, 8, 16, 8, 8][nt];
        let n = c.rng.below(80);
        let data = c.rng.bytes(n);
        let start = c.rng.below(70);
        let end = match c.rng.below(5) {
            0 => c.rng.below(90),
            _ => start + w,
        };
        let mut p = ProgramScope::new_limit(c.rng.key(), c.rng.key(), 5u64, NumericType::U8);
        p.numeric_type = nt as u64;
        p.balance_field_start = start as u64;
        p.balance_field_end = end as u64;
        let want = if start == 0 && end == 0 {
            Some(0)
        } else if nt > 3 || end > data.len() || end < start || end - start != w {
            None
        } else {
            let mut b = [0u8; 16];
            b[..w].copy_from_slice(&data[start..end]);
            Some(u128::from_le_bytes(b))
        };
        c.eval(&format!("scoped number type {nt}: {}", want.is_some()));
        let got = std::panic::catch_unwind(|| p.read_account_balance(&data).ok()).unwrap_or(None);
        if got != want {
            c.violate(format!("scoped-number:{nt}"), format!("bytes {start}..{end} of {} as type {nt} read {got:?} instead of {want:?}", hex(&data)));
        }
    }
}
fn tails(c: &mut Case) {
    let k = c.rng.key();
    let e = rent_claimer::entry(&k);
    let want = tail_bytes(&k);
    c.eval("tail entry");
    if e[..] != want[..] {
        c.violate("tail-entry", format!("a rent-claimer record is {} instead of {}", hex(&e), hex(&want)));
        return;
    }
    if rent_claimer::read(&e) != Ok(Some(&k)) || rent_claimer::read_strict(&e) != Ok(Some(&k)) || rent_claimer::read_strict(&[]) != Ok(None) || rent_claimer::read(&[]) != Ok(None) {
        c.violate("tail-read", "a rent-claimer record does not read back");
    }
    // another record in front, cut or changed records
    let mut v = vec![];
    let others = c.rng.below(3);
    for _ in 0..others {
        let kind = *c.rng.pick(&[0u8, 2, 3, 99, 255]);
        let n = c.rng.below(50);
        v.extend_from_slice(&[kind, c.rng.u64() as u8]);
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v.extend(c.rng.bytes(4));
        v.extend(c.rng.bytes(n));
    }
    let own = c.rng.bool();
    if own {
        v.extend_from_slice(&e);
    }
    let cut = if c.rng.chance(1, 3) && !v.is_empty() { c.rng.below(v.len()) } else { v.len() };
    v.truncate(cut);
    if c.rng.chance(1, 4) && !v.is_empty() {
        let i = c.rng.below(v.len());
        v[i] ^= 1 << c.rng.below(8);
    }
    // independent walk
    let mut at = 0;
    let mut want: Result<Option<Vec<u8>>, ()> = Ok(None);
    while at < v.len() {
        if v.len() - at < 8 {
            want = Err(());
            break;
        }
        let l = le16(&v[at + 2..]) as usize;
        if v.len() - at < 8 + l {
            want = Err(());
            break;
        }
        if v[at] == 1 {
            want = if l == 32 { Ok(Some(v[at + 8..at + 40].to_vec())) } else { Err(()) };
            break;
        }
        at += 8 + l;
    }
    let got = rent_claimer::read(&v).map(|x| x.map(|k| k.to_vec())).map_err(|_| ());
    c.eval(&format!("tail of {others} other records, own {own}: {}", want.is_ok()));
    if got != want {
        c.violate("tail-walk", format!("tail {} reads {got:?} instead of {want:?}", hex(&v)));
    }
    let strict = if v.is_empty() {
        Ok(None)
    } else if v.len() == 40 && v[..8] == [1, 1, 32, 0, 0, 0, 0, 0] {
        Ok(Some(v[8..].to_vec()))
    } else {
        Err(())
    };
    let got = rent_claimer::read_strict(&v).map(|x| x.map(|k| k.to_vec())).map_err(|_| ());
    if got != strict {
        c.violate("tail-strict", format!("tail {} reads strictly as {got:?} instead of {strict:?}", hex(&v)));
    }
    let all = tail::AnyTailEntry::read_all(&v);
    let mut ok = true;
    let mut n = 0;
    let mut at = 0;
    while at < v.len() && ok {
        ok = v.len() - at >= 8 && v.len() - at >= 8 + le16(&v[at + 2..]) as usize && (v[at] != 1 || le16(&v[at + 2..]) == 32);
        if ok {
            at += 8 + le16(&v[at + 2..]) as usize;
            n += 1;
        }
    }
    if all.as_ref().map(|x| x.len()).ok() != if ok { Some(n) } else { None } {
        c.violate("tail-all", format!("tail {} lists {all:?} where {n} records (complete: {ok}) are stored", hex(&v)));
    }
    match TailHeader::parse(&v) {
        Ok(h) => {
            if v.len() < 8 || h.kind != v[0] || h.version != v[1] || h.value_len != le16(&v[2..]) || h.payload[..] != v[4..8] || h.total_len() != Ok(8 + h.value_len as usize) {
                c.violate("tail-header", format!("tail header of {} reads as {h:?}", hex(&v)));
            }
        }
        Err(_) if v.len() < 8 => {}
        Err(e) => c.violate("tail-header", format!("tail header of {} refused: {e:?}", hex(&v))),
    }
    // carrying a tail over a resize
    match SavedTail::take(&v) {
        Ok(s) => {
            if strict.is_err() || s.len() != v.len() || s.is_empty() != v.is_empty() {
                c.violate("tail-take", format!("tail {} is carried as {} bytes", hex(&v), s.len()));
            } else {
                let n = c.rng.below(120);
                let at = c.rng.below(120);
                let init = c.rng.bytes(n);
                let mut b = init.clone();
                let r = s.restore_at(&mut b, at);
                let mut w = init.clone();
                let fits = v.is_empty() || at + v.len() <= n;
                if fits && !v.is_empty() {
                    w[at..at + v.len()].copy_from_slice(&v);
                }
                if r.is_ok() != fits || b != w {
                    c.violate("tail-restore", format!("restoring {} bytes at {at} of {n}: {r:?}", v.len()));
                }
                let mut b = init.clone();
                let r = s.restore(&mut b);
                let mut w = init;
                let fits = v.len() <= n;
                if fits {
                    w[n - v.len()..].copy_from_slice(&v);
                }
                if r.is_ok() != fits || b != w {
                    c.violate("tail-restore-end", format!("restoring {} bytes at the end of {n}: {r:?}", v.len()));
                }
            }
        }
        Err(_) if strict.is_err() => {}
        Err(e) => c.violate("tail-take", format!("tail {} cannot be carried: {e:?}", hex(&v))),
    }
}

macro_rules! kinds {
    ($m:ident) => {
        match $m!(@k) {
            SOL => $m!(sol_limit::SolLimit),
            SOLR => $m!(sol_recurring_limit::SolRecurringLimit),
            PROG => $m!(program::Program),
            SCOPE => $m!(ProgramScope),
            TOK => $m!(token_limit::TokenLimit),
            TOKR => $m!(token_recurring_limit::TokenRecurringLimit),
            ALL => $m!(all::All),
            MANAGE => $m!(manage_authority::ManageAuthority),
            SUB => $m!(sub_account::SubAccount),
            STK => $m!(stake_limit::StakeLimit),
            STKR => $m!(stake_recurring_limit::StakeRecurringLimit),
            STKALL => $m!(stake_all::StakeAll),
            PROGALL => $m!(program_all::ProgramAll),
            CURATED => $m!(program_curated::ProgramCurated),
            ALLBUT => $m!(all_but_manage_authority::AllButManageAuthority),
            SOLD => $m!(sol_destination_limit::SolDestinationLimit),
            SOLRD => $m!(sol_recurring_destination_limit::SolRecurringDestinationLimit),
            TOKD => $m!(token_destination_limit::TokenDestinationLimit),
            TOKRD => $m!(token_recurring_destination_limit::TokenRecurringDestinationLimit),
            CLOSE => $m!(close_swig_authority::CloseSwigAuthority),
            REPL => $m!(replace_authority::ReplaceAuthority),
            V2CREATE => $m!(sub_account_v2::SubAccountV2Create),
            V2ALL => $m!(sub_account_v2::SubAccountV2All),
            V2SIGN => $m!(sub_account_v2::SubAccountV2Sign),
            V2WD => $m!(sub_account_v2::SubAccountV2Withdraw),
            _ => $m!(sub_account_v2::SubAccountV2Toggle),
        }
    };
}
fn raw<T>(t: &T, n: usize) -> Vec<u8> {
    let at = std::hint::black_box(t as *const T as *const u8);
    unsafe { std::slice::from_raw_parts(at, n) }.to_vec()
}
/// what selects one of several actions of a kind; None for kinds a role has once
pub fn selector(a: &Act) -> Option<Vec<u8>> {
    Some(match a.kind {
        PROG | SOLD | SOLRD | SUB | TOK | TOKR => a.data[..32].to_vec(),
        TOKD | TOKRD => a.data[..64].to_vec(),
        SCOPE => a.data[80..112].to_vec(),
        REPL | V2ALL | V2SIGN | V2WD | V2TOG => a.data[..4].to_vec(),
        _ => return None,
    })
}
fn picks(x: &Act, sel: &[u8]) -> bool {
    match selector(x) {
        None => true,
        Some(s) => s == sel,
    }
}
pub fn all_of(k: u16, r: &StRole) -> Result<Vec<Vec<u8>>, String> {
    macro_rules! go {
        (@k) => { k };
        ($t:ty) => { r.get_all_actions_of_type::<$t>().map(|v| v.iter().map(|x| raw(*x, act_len(k))).collect()).map_err(|e| format!("{e:?}")) };
    }
    kinds!(go)
}
pub fn one_of(k: u16, r: &StRole, sel: &[u8]) -> Result<Option<Vec<u8>>, String> {
    macro_rules! go {
        (@k) => { k };
        ($t:ty) => { r.get_action::<$t>(sel).map(|v| v.map(|x| raw(x, act_len(k)))).map_err(|e| format!("{e:?}")) };
    }
    kinds!(go)
}
pub fn one_of_mut<'a>(k: u16, r: &'a RoleMut<'a>, sel: &[u8]) -> Result<Option<Vec<u8>>, String> {
    macro_rules! go {
        (@k) => { k };
        ($t:ty) => { r.get_action::<$t>(sel).map(|v| v.map(|x| raw(x, act_len(k)))).map_err(|e| format!("{e:?}")) };
    }
    kinds!(go)
}
/// overwrites the action found and reports its place
pub fn fill_mut(k: u16, acts: &mut [u8], sel: &[u8], fill: u8) -> Result<bool, String> {
    macro_rules! go {
        (@k) => { k };
        ($t:ty) => {{
            match RoleMut::get_action_mut::<$t>(acts, sel) {
                Ok(Some(x)) => {
                    // the optimiser may trust the alignment of $t, which ProgramScope lacks
                    let at = std::hint::black_box(x as *mut $t as *mut u8);
                    unsafe { std::slice::from_raw_parts_mut(at, act_len(k)) }.fill(fill);
                    Ok(true)
                }
                Ok(None) => Ok(false),
                Err(e) => Err(format!("{e:?}")),
            }
        }};
    }
    kinds!(go)
}
pub fn rand_cred(c: &mut Case, used: &[Cred]) -> Cred {
    let k = *c.rng.pick(&KINDS);
    let prog = c.rng.key();
    let mut cr = Cred::new(k, &mut c.rng, &prog);
    if !used.is_empty() && c.rng.chance(1, 4) {
        // shares a key, a program or a prefix with another role
        let o = c.rng.pick(used).clone();
        match (k, o.kind) {
            (ED | EDS, ED | EDS) => cr.ed = o.ed,
            (K1T | K1S, K1T | K1S) => {
                cr.pk33 = o.pk33;
                cr.k1 = o.k1.clone();
            }
            (R1T | R1S, R1T | R1S) => cr.pk33 = o.pk33,
            (PE | PES, PE | PES) => {
                cr.prog = o.prog;
                let n = 1 + c.rng.below(40);
                let mut p = o.prefix.clone();
                p.resize(n, 9);
                cr.prefix = p;
            }
            _ => {}
        }
    }
    cr
}
fn same_lookup(r: &Cred, form: &Cred) -> bool {
    // the byte forms of the kinds do not overlap
    match (r.kind, form.kind) {
        (ED | EDS, ED | EDS) => r.ed == form.ed,
        (K1T | K1S | R1T | R1S, K1T | K1S | R1T | R1S) => r.pk33 == form.pk33,
        (PE, PE) | (PES, PES) => r.prog == form.prog && r.prefix == form.prefix,
        _ => false,
    }
}

/// whole wallets written and read by the state library
pub fn wallets(c: &mut Case) {
    let s = world::fresh(c);
    let mut w = Wallet::plan(&c.rng.key());
    let mut buf = Aligned::new(&vec![0u8; 24576]);
    let mut gone: Vec<Cred> = vec![];
    {
        // write
        let (lo, _) = buf.get_mut().split_at_mut(24576);
        let b = SwigBuilder::create(lo, Swig::new(w.id, w.bump, w.wbump));
        if let Err(e) = b {
            c.violate("builder", format!("a fresh wallet cannot be built: {e:?}"));
            return;
        }
    }
    let steps = 1 + c.rng.below(9);
    for i in 0..steps {
        let n = w.roles.len();
        if n > 0 && c.rng.chance(1, 4) {
            let at = c.rng.below(n + 1);
            let id = if at < n { w.roles[at].id } else { w.counter + c.rng.below(3) as u32 };
            let mut b = SwigBuilder::new_from_bytes(buf.get_mut()).unwrap();
            let r = b.remove_role(id);
            c.eval(&format!("remove role {} of {}", if at == n { "absent".into() } else { at.min(4).to_string() }, n.min(6)));
            if r.is_ok() != (at < n) {
                c.violate("remove-role", format!("removing role {id}: {r:?}"));
                return;
            }
            if at < n {
                let x = w.roles.remove(at);
                gone.push(x.cred);
            }
        } else {
            let used: Vec<Cred> = w.roles.iter().map(|r| r.cred.clone()).collect();
            let cr = rand_cred(c, &used);
            let most = if c.rng.chance(1, 10) { 20 } else { 5 };
            let na = 1 + c.rng.below(most);
            let mut acts = plan::rand_acts(c, &s, i as u32, na, &[]);
            if c.rng.chance(1, 8) && acts.len() > 1 {
                let x = acts[0].clone();
                if !(V2CREATE..=V2TOG).contains(&x.kind) {
                    acts.push(x);
                }
            }
            let data = if c.rng.bool() { acts_bytes(&acts) } else { acts_stored(&acts) };
            let create = cr.create_data();
            let mut b = SwigBuilder::new_from_bytes(buf.get_mut()).unwrap();
            let r = b.add_role(AuthorityType::try_from(cr.kind).unwrap(), &create, &data);
            c.eval(&format!("add {} role with {} actions", kind_name(cr.kind), na.min(6)));
            if let Err(e) = r {
                c.violate("add-role", format!("adding a role fails ({e:?}): {cr:?} {acts:?}"));
                return;
            }
            let mut st = cr.clone();
            st.exp = 0;
            w.roles.push(Role { id: w.counter, cred: st, acts });
            w.counter += 1;
        }
        let want = w.bytes();
        let got = &buf.get()[..want.len()];
        if got != &want[..] {
            let m = w.diff(buf.get());
            c.violate("stored-bytes", m);
            return;
        }
        if let Some(i) = buf.get()[want.len()..].iter().position(|b| *b != 0) {
            // what a removal leaves behind is cut off by the caller's resize
            c.violate("stored-rest", format!("byte {i} after the roles is not zero"));
            return;
        }
    }
    if c.rng.bool() {
        w.claimer = Some(c.rng.key());
    }
    // counters and sessions a history leaves behind
    for r in &mut w.roles {
        if r.cred.secp() {
            r.cred.odo = c.rng.u64() as u32;
        }
        if r.cred.session() {
            r.cred.exp = c.rng.u64();
            r.cred.sess = c.rng.key();
        }
    }
    w.subs = c.rng.u64() as u32;
    read_back(c, &w, &gone);
}
fn read_back(c: &mut Case, w: &Wallet, gone: &[Cred]) {
    let img = w.bytes();
    let tail_len = if w.claimer.is_some() { 40 } else { 0 };
    let end = img.len() - tail_len;
    let buf = Aligned::new(&img);
    if Swig::roles_end_offset(buf.get()) != Ok(end) {
        c.violate("roles-end", format!("roles end at {:?} instead of {end}", Swig::roles_end_offset(buf.get())));
        return;
    }
    match Swig::split_parts(buf.get()) {
        Ok(p) if p.roles == &img[48..end] && p.tail == &img[end..] && p.state.into_bytes().ok() == Some(&img[..48]) => {
            let got = rent_claimer::read_strict(p.tail);
            if got != Ok(w.claimer.as_ref()) {
                c.violate("claimer", format!("the rent claimer reads as {got:?} instead of {:?}", w.claimer));
            }
        }
        _ => c.violate("split", "the parts of a wallet read wrong"),
    }
    let v = match SwigWithRoles::from_bytes(buf.get()) {
        Ok(v) => v,
        Err(e) => {
            c.violate("from-bytes", format!("a valid wallet is refused: {e:?}"));
            return;
        }
    };
    let st = v.state;
    if st.id != w.id || st.bump != w.bump || st.wallet_bump != w.wbump || st.roles as usize != w.roles.len() || st.role_counter != w.counter || st.sub_account_counter != w.subs {
        c.violate("header", format!("the header reads as {st:?}"));
    }
    let ids: Vec<u32> = w.roles.iter().map(|r| r.id).collect();
    for id in 0..w.counter + 3 {
        let r = match v.get_role(id) {
            Ok(r) => r,
            Err(e) => {
                c.violate("get-role", format!("reading role {id} fails: {e:?}"));
                continue;
            }
        };
        if r.is_some() != ids.contains(&id) {
            c.violate("get-role", format!("role {id} is {}", if r.is_some() { "found but not stored" } else { "stored but not found" }));
            continue;
        }
        let Some(r) = r else { continue };
        let m = w.role(id).unwrap();
        check_role(c, &r, m);
    }
    // the writable view
    for m in &w.roles {
        let mut copy = Aligned::new(&img);
        let p = Swig::split_parts_mut(copy.get_mut()).unwrap();
        let acts = acts_stored(&m.acts);
        let at = {
            let base = p.roles.as_ptr() as usize;
            match Swig::get_mut_role(m.id, p.roles) {
                Ok(Some(r)) => {
                    if r.position.id() != m.id || r.num_actions as usize != m.acts.len() || r.actions != &acts[..] || r.authority.authority_type() as u16 != m.cred.kind || r.authority.length() != m.cred.stored().len() || r.authority.signature_odometer() != if m.cred.secp() { Some(m.cred.odo) } else { None } {
                        c.violate("get-mut-role", format!("role {} reads wrong for writing", m.id));
                    }
                    let a = c.rng.pick(&m.acts).clone();
                    if a.kind != CURATED {
                        let sel = selector(&a).unwrap_or_default();
                        let got = one_of_mut(a.kind, unsafe { &*(&r as *const RoleMut) }, &sel);
                        let want = m.acts.iter().find(|x| x.kind == a.kind && picks(x, &sel)).map(|x| x.data.clone());
                        if got != Ok(want.clone()) {
                            c.violate(format!("get-action-mut:{}", a.kind), format!("the writable view finds {got:?} instead of {want:?}"));
                        }
                        // overwrite it
                        let at = r.actions.as_ptr() as usize - base;
                        match fill_mut(a.kind, r.actions, &sel, 0xa5) {
                            Ok(true) => {
                                let i = m.acts.iter().position(|x| x.kind == a.kind && picks(x, &sel)).unwrap();
                                let off: usize = m.acts[..i].iter().map(|x| 8 + x.data.len()).sum::<usize>() + 8;
                                Some((48 + at + off, a.data.len()))
                            }
                            x => {
                                c.violate(format!("find-action-mut:{}", a.kind), format!("an action stored in role {} is not found for writing: {x:?}", m.id));
                                None
                            }
                        }
                    } else {
                        None
                    }
                }
                _ => {
                    c.violate("get-mut-role", format!("role {} is not found for writing", m.id));
                    None
                }
            }
        };
        if let Some((o, l)) = at {
            let mut want = img.clone();
            want[o..o + l].fill(0xa5);
            if copy.get() != &want[..] {
                c.violate("write-action", format!("writing an action of role {} changes other bytes", m.id));
            }
        }
    }
    let mut roles = img[48..end].to_vec();
    let absent = w.counter + 1;
    if !matches!(Swig::get_mut_role(absent, Aligned::new(&roles).get_mut()), Ok(None)) {
        c.violate("get-mut-role", "a role that is not stored is found for writing");
    }
    roles.clear();
    // by authority
    for r in w.roles.iter().map(|r| &r.cred).chain(gone) {
        let mut forms = vec![r.lookup()];
        if let Some(k) = &r.k1 {
            forms.push(k.uncompressed()[1..].to_vec());
        }
        for f in forms {
            let want = w.roles.iter().find(|x| same_lookup(&x.cred, r)).map(|x| x.id);
            let got = v.lookup_role_id(&f);
            c.eval(&format!("lookup {} {}", kind_name(r.kind), want.is_some()));
            if got != Ok(want) {
                c.violate(format!("lookup:{}", kind_name(r.kind)), format!("looking up {r:?} by {} finds {got:?} instead of {want:?}", hex(&f)));
            }
        }
    }
    let jl = *c.rng.pick(&[0usize, 1, 31, 32, 33, 64, 65, 80, 128]);
    let junk = c.rng.bytes(jl);
    if v.lookup_role_id(&junk) != Ok(None) {
        c.violate("lookup:junk", format!("a role is found for {}", hex(&junk)));
    }
    // by scoped account
    let mut targets: Vec<Vec<u8>> = w.roles.iter().flat_map(|r| r.acts.iter().filter(|a| a.kind == SCOPE).map(|a| a.data[80..112].to_vec())).collect();
    targets.push(c.rng.key().to_vec());
    for t in targets {
        let want = w.roles.iter().find_map(|r| r.acts.iter().find(|a| a.kind == SCOPE && a.data[80..112] == t[..]).map(|a| (r.id as u8, a.data.clone())));
        let got = v.find_program_scope_by_target(&t).map(|(i, p)| (i, raw(&p, 144)));
        c.eval(&format!("scope lookup {}", want.is_some()));
        if got != want {
            c.violate("scope-lookup", format!("the scope on {} is found as {:?}", hex(&t), got.map(|x| x.0)));
        }
    }
    // cut short anywhere before the roles end
    for _ in 0..3 {
        let n = c.rng.below(end);
        let cut = Aligned::new(&img[..n]);
        c.eval("cut wallet");
        if w.roles.is_empty() && n >= 48 {
            continue;
        }
        if SwigWithRoles::from_bytes(cut.get()).is_ok() || Swig::split_parts(cut.get()).is_ok() || Swig::roles_end_offset(cut.get()).is_ok() {
            c.violate("cut-wallet", format!("{n} of {end} bytes are taken for a whole wallet"));
        }
    }
}
fn check_role(c: &mut Case, r: &StRole, m: &Role) {
    let stored = m.cred.stored();
    let acts = acts_stored(&m.acts);
    let p = r.position;
    let want_id = match m.cred.kind {
        PE | PES => m.cred.prefix.clone(),
        _ => m.cred.ident(),
    };
    if p.id() != m.id || p.authority_length() as usize != stored.len() || p.num_actions() as usize != m.acts.len() || r.authority_type().map(|t| t as u16) != Ok(m.cred.kind) {
        c.violate("role-position", format!("role {} has a wrong position", m.id));
    }
    if r.authority.authority_type() as u16 != m.cred.kind
        || r.authority.session_based() != m.cred.session()
        || r.authority.identity().ok() != Some(&want_id[..])
        || r.authority.signature_odometer() != if m.cred.secp() { Some(m.cred.odo) } else { None }
    {
        c.violate("role-authority", format!("role {} reads a wrong authority for {:?}", m.id, m.cred));
    }
    let body = {
        macro_rules! down {
            ($t:ty) => {
                r.authority.as_any().downcast_ref::<$t>().and_then(|a| a.into_bytes().ok().map(|b| b.to_vec()))
            };
        }
        match m.cred.kind {
            ED => down!(ED25519Authority),
            EDS => down!(Ed25519SessionAuthority),
            K1T => down!(Secp256k1Authority),
            K1S => down!(Secp256k1SessionAuthority),
            R1T => down!(Secp256r1Authority),
            R1S => down!(Secp256r1SessionAuthority),
            PE => down!(ProgramExecAuthority),
            _ => down!(session::ProgramExecSessionAuthority),
        }
    };
    if body.as_deref() != Some(&stored[..]) {
        c.violate("role-authority-bytes", format!("the authority of role {} reads as {:?} instead of {}", m.id, body.map(|b| hex(&b)), hex(&stored)));
    }
    if r.actions != &acts[..] {
        c.violate("role-actions", format!("the actions of role {} read as {} instead of {}", m.id, hex(r.actions), hex(&acts)));
        return;
    }
    match r.get_all_actions() {
        Ok(v) => {
            let mut end = 0;
            let want: Vec<(u16, u16, u32)> = m
                .acts
                .iter()
                .map(|a| {
                    end += 8 + a.data.len() as u32;
                    (a.kind, a.data.len() as u16, end)
                })
                .collect();
            let got: Vec<(u16, u16, u32)> = v.iter().map(|a| (a.permission().map(|p| p as u16).unwrap_or(0), a.length(), a.boundary())).collect();
            if got != want {
                c.violate("all-actions", format!("the actions of role {} list as {got:?} instead of {want:?}", m.id));
            }
        }
        Err(e) => c.violate("all-actions", format!("the actions of role {} do not list: {e:?}", m.id)),
    }
    for k in SOL..=V2TOG {
        let want: Vec<Vec<u8>> = m.acts.iter().filter(|a| a.kind == k).map(|a| a.data.clone()).collect();
        let got = all_of(k, r);
        c.eval(&format!("actions of kind {k}: {}", want.len().min(3)));
        if got != Ok(want.clone()) {
            c.violate(format!("actions-of:{k}"), format!("actions of kind {k} of role {} read as {got:?} instead of {want:?}", m.id));
        }
        if k == CURATED {
            continue;
        }
        let mut sels: Vec<Vec<u8>> = m.acts.iter().filter(|a| a.kind == k).filter_map(selector).collect();
        let n = match k {
            TOKD | TOKRD => 64,
            REPL | V2ALL | V2SIGN | V2WD | V2TOG => 4,
            _ => 32,
        };
        sels.push(c.rng.bytes(n));
        for sel in sels {
            let want = m.acts.iter().find(|a| a.kind == k && picks(a, &sel)).map(|a| a.data.clone());
            let got = one_of(k, r, &sel);
            if got != Ok(want.clone()) {
                c.violate(format!("get-action:{k}"), format!("action of kind {k} for {} in role {} reads as {got:?} instead of {want:?}", hex(&sel), m.id));
            }
        }
    }
}

/// Generated structures with and without padding, compiled with the derive
/// from /repo: exactly those with padding (or without the required layout
/// attribute) must be refused.
pub fn guard(c: &mut Case) {
    let root = std::env::var("SWIG_ROOT").unwrap_or_else(|_| "/verif".into());
    let built = std::process::Command::new("cargo")
        .args(["build", "--offline", "-q", "-p", "no-padding", "--message-format", "json"])
        .current_dir(format!("{root}/harness"))
        .output()
        .expect("cargo");
    let text = String::from_utf8_lossy(&built.stdout).into_owned();
    let lib = text
        .split('"')
        .filter(|x| x.contains("libno_padding") && x.ends_with(".so"))
        .next_back()
        .unwrap_or_else(|| panic!("the padding guard is not built: {}", String::from_utf8_lossy(&built.stderr)));
    let dir = std::path::PathBuf::from(format!("{root}/harness/target/guard-{}-{}", std::process::id(), c.case));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch folder");
    // padding shows when constants are evaluated, a wrong attribute before that
    for attr in [false, true] {
        let mut src = String::from("#![allow(dead_code)]\nuse no_padding::NoPadding;\n");
        // line, refused, text
        let mut want = vec![];
        for i in 0..150 {
            let (text, bad, why) = if attr { attr_struct(c, i) } else { field_struct(c, i) };
            c.eval(&format!("guard: {why}"));
            want.push((3 + i, bad, text.clone()));
            src.push_str(&text);
            src.push('\n');
        }
        src.push_str("fn main() {}\n");
        let file = dir.join("main.rs");
        std::fs::write(&file, &src).expect("scratch file");
        let out = std::process::Command::new("rustc")
            .args(["--edition", "2021", "--crate-type", "bin", "--emit", "metadata", "--error-format", "json", "--cap-lints", "allow"])
            .arg("-o")
            .arg(dir.join("out.rmeta"))
            .arg("--extern")
            .arg(format!("no_padding={lib}"))
            .arg(&file)
            .output()
            .expect("rustc");
        let text = String::from_utf8_lossy(&out.stderr);
        let mut refused = std::collections::BTreeSet::new();
        let mut stray = String::new();
        for l in text.lines() {
            if !l.contains("\"level\":\"error\"") && !l.contains("\"level\":\"error: internal") {
                continue;
            }
            let mut any = false;
            let mut rest = l;
            // every line of the generated file that an error points at
            while let Some(p) = rest.find("/main.rs\",\"byte_start\":") {
                rest = &rest[p..];
                let Some(p) = rest.find("\"line_start\":") else { break };
                rest = &rest[p + 13..];
                let n: usize = rest.chars().take_while(|x| x.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
                if n >= 3 && n < 3 + want.len() {
                    refused.insert(n);
                    any = true;
                }
            }
            if !any && !l.contains("aborting due to") {
                stray = l.chars().take(300).collect();
            }
        }
        for (n, bad, text) in &want {
            match (bad, refused.contains(n)) {
                (true, false) => c.violate("guard-accepts", format!("the padding guard accepts: {text}")),
                (false, true) => c.violate("guard-refuses", format!("the padding guard refuses: {text}")),
                _ => {}
            }
        }
        c.count_n("structures compiled", want.len() as u64);
        c.count_n("structures refused", refused.len() as u64);
        if !stray.is_empty() || (out.status.success() != refused.is_empty()) {
            let _ = std::fs::remove_dir_all(&dir);
            panic!("the guard's structures do not compile: {stray}");
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
const TYPES: [(&str, usize, usize); 14] = [
    ("u8", 1, 1),
    ("u16", 2, 2),
    ("u32", 4, 4),
    ("u64", 8, 8),
    ("u128", 16, 16),
    ("bool", 1, 1),
    ("[u8; 32]", 32, 1),
    ("[u8; 33]", 33, 1),
    ("[u8; 3]", 3, 1),
    ("[u16; 3]", 6, 2),
    ("[u32; 2]", 8, 4),
    ("[u64; 2]", 16, 8),
    ("(u32, u32)", 8, 4),
    ("()", 0, 1),
];
fn field_struct(c: &mut Case, i: usize) -> (String, bool, &'static str) {
    let n = c.rng.below(7);
    let mut fields = vec![];
    let (mut at, mut sum, mut al) = (0usize, 0usize, 8usize);
    let fill = c.rng.chance(1, 2);
    let mut inner = false;
    let mut put = |t: &(&str, usize, usize), fields: &mut Vec<String>| {
        at = at.div_ceil(t.2) * t.2 + t.1;
        sum += t.1;
        al = al.max(t.2);
        inner |= at != sum;
        fields.push(t.0.to_string());
        (at, sum, al)
    };
    let mut last = (0, 0, 8);
    for _ in 0..n {
        let t = TYPES[c.rng.below(TYPES.len())];
        if fill && last.0 % t.2 != 0 {
            let gap = t.2 - last.0 % t.2;
            last = put(&("[u8; 0]", gap, 1), &mut fields);
            *fields.last_mut().unwrap() = format!("[u8; {gap}]");
        }
        last = put(&t, &mut fields);
    }
    if fill && last.0 % last.2 != 0 {
        let gap = last.2 - last.0 % last.2;
        last = put(&("", gap, 1), &mut fields);
        *fields.last_mut().unwrap() = format!("[u8; {gap}]");
    }
    let size = last.0.div_ceil(last.2) * last.2;
    let bad = size != last.1;
    let why = match (bad, inner) {
        (false, _) => "no padding",
        (_, true) => "padding between fields",
        _ => "padding at the end",
    };
    let body = if c.rng.chance(1, 5) && n > 0 {
        format!("({});", fields.join(", "))
    } else {
        format!("{{ {} }}", fields.iter().enumerate().map(|(j, t)| format!("f{j}: {t}")).collect::<Vec<_>>().join(", "))
    };
    let repr = if c.rng.bool() { "#[repr(C, align(8))]" } else { "#[repr(align(8), C)]" };
    (format!("{repr} #[derive(NoPadding)] struct S{i} {body}"), bad, why)
}
fn attr_struct(c: &mut Case, i: usize) -> (String, bool, &'static str) {
    let d = "#[derive(NoPadding)]";
    match c.rng.below(9) {
        0 => (format!("#[repr(C)] {d} struct S{i} {{ a: u64 }}"), true, "no alignment attribute"),
        1 => (format!("#[repr(align(8))] {d} struct S{i} {{ a: u64 }}"), true, "Rust field order"),
        2 => (format!("{d} struct S{i} {{ a: u64, b: u64 }}"), true, "no layout attribute"),
        3 => (format!("#[repr(C, align(4))] {d} struct S{i} {{ a: u32 }}"), true, "alignment 4"),
        4 => (format!("#[repr(C, align(16))] {d} struct S{i} {{ a: u128 }}"), true, "alignment 16"),
        5 => (format!("#[repr(C, align(8))] {d} enum S{i} {{ A }}"), true, "an enum"),
        6 => (format!("#[repr(C, align(8))] {d} union S{i} {{ a: u64, b: [u8; 8] }}"), true, "a union"),
        7 => (format!("#[repr(C)] #[repr(align(8))] {d} struct S{i} {{ a: [u8; 8] }}"), false, "split layout attribute"),
        _ => (format!("#[repr(C, align(8))] {d} struct S{i} {{ a: u64 }}"), false, "plain"),
    }
}
