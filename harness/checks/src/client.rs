//! The Rust instruction builders against the program: what they build must be
//! accepted and do exactly what an independently encoded instruction does.
use crate::enc::*;
use crate::hist::{age, age_roles};
use crate::model::*;
use crate::plan::*;
use crate::report::*;
use crate::util::*;
use crate::world::{Frame, *};
use rt::crypto::*;
use rt::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use swig_interface as si;
use swig_interface::{AuthorityConfig, ClientAction, UpdateAuthorityData};
use swig_state::action as sa;
use swig_state::authority::AuthorityType;

const P: &[&str] = &["R04"];

pub fn pk(k: &Key) -> Pubkey {
    Pubkey::new_from_array(*k)
}
pub fn to_ix(i: &Instruction) -> Ix {
    Ix {
        program: i.program_id.to_bytes(),
        accounts: i.accounts.iter().map(|m| Meta { key: m.pubkey.to_bytes(), signer: m.is_signer, writable: m.is_writable }).collect(),
        data: i.data.clone(),
    }
}
pub fn from_ix(i: &Ix) -> Instruction {
    Instruction {
        program_id: pk(&i.program),
        accounts: i.accounts.iter().map(|m| AccountMeta { pubkey: pk(&m.key), is_signer: m.signer, is_writable: m.writable }).collect(),
        data: i.data.clone(),
    }
}
pub fn auth_type(k: u16) -> AuthorityType {
    match k {
        ED => AuthorityType::Ed25519,
        EDS => AuthorityType::Ed25519Session,
        K1T => AuthorityType::Secp256k1,
        K1S => AuthorityType::Secp256k1Session,
        R1T => AuthorityType::Secp256r1,
        R1S => AuthorityType::Secp256r1Session,
        PE => AuthorityType::ProgramExec,
        _ => AuthorityType::ProgramExecSession,
    }
}
pub fn k32(d: &[u8]) -> [u8; 32] {
    d[..32].try_into().unwrap()
}
/// the client's value for an action, by the meaning of its fields
pub fn to_client(a: &Act) -> ClientAction {
    let d = &a.data[..];
    let n = |i: usize| le64(&d[i..]);
    match a.kind {
        SOL => ClientAction::SolLimit(sa::sol_limit::SolLimit { amount: n(0) }),
        SOLR => ClientAction::SolRecurringLimit(sa::sol_recurring_limit::SolRecurringLimit { recurring_amount: n(0), window: n(8), last_reset: n(16), current_amount: n(24) }),
        PROG => ClientAction::Program(sa::program::Program { program_id: k32(d) }),
        SCOPE => ClientAction::ProgramScope(sa::program_scope::ProgramScope {
            current_amount: u128::from_le_bytes(d[..16].try_into().unwrap()),
            limit: u128::from_le_bytes(d[16..32].try_into().unwrap()),
            window: n(32),
            last_reset: n(40),
            program_id: k32(&d[48..]),
            target_account: k32(&d[80..]),
            scope_type: n(112),
            numeric_type: n(120),
            balance_field_start: n(128),
            balance_field_end: n(136),
        }),
        TOK => ClientAction::TokenLimit(sa::token_limit::TokenLimit { token_mint: k32(d), current_amount: n(32) }),
        TOKR => ClientAction::TokenRecurringLimit(sa::token_recurring_limit::TokenRecurringLimit { token_mint: k32(d), window: n(32), limit: n(40), current: n(48), last_reset: n(56) }),
        ALL => ClientAction::All(sa::all::All),
        MANAGE => ClientAction::ManageAuthority(sa::manage_authority::ManageAuthority),
        SUB => {
            let mut x = sa::sub_account::SubAccount::new_for_creation();
            x.sub_account = k32(d);
            x.role_id = le32(&d[36..]);
            x.swig_id = k32(&d[40..]);
            ClientAction::SubAccount(x)
        }
        STK => ClientAction::StakeLimit(sa::stake_limit::StakeLimit { amount: n(0) }),
        STKR => ClientAction::StakeRecurringLimit(sa::stake_recurring_limit::StakeRecurringLimit { recurring_amount: n(0), window: n(8), last_reset: n(16), current_amount: n(24) }),
        STKALL => ClientAction::StakeAll(sa::stake_all::StakeAll),
        PROGALL => ClientAction::ProgramAll(sa::program_all::ProgramAll),
        CURATED => ClientAction::ProgramCurated(sa::program_curated::ProgramCurated::new()),
        ALLBUT => ClientAction::AllButManageAuthority(sa::all_but_manage_authority::AllButManageAuthority),
        SOLD => ClientAction::SolDestinationLimit(sa::sol_destination_limit::SolDestinationLimit { destination: k32(d), amount: n(32) }),
        SOLRD => ClientAction::SolRecurringDestinationLimit(sa::sol_recurring_destination_limit::SolRecurringDestinationLimit {
            destination: k32(d),
            recurring_amount: n(32),
            window: n(40),
            last_reset: n(48),
            current_amount: n(56),
        }),
        TOKD => ClientAction::TokenDestinationLimit(sa::token_destination_limit::TokenDestinationLimit { token_mint: k32(d), destination: k32(&d[32..]), amount: n(64) }),
        TOKRD => ClientAction::TokenRecurringDestinationLimit(sa::token_recurring_destination_limit::TokenRecurringDestinationLimit {
            token_mint: k32(d),
            destination: k32(&d[32..]),
            recurring_amount: n(64),
            window: n(72),
            last_reset: n(80),
            current_amount: n(88),
        }),
        CLOSE => ClientAction::CloseSwigAuthority(sa::close_swig_authority::CloseSwigAuthority),
        REPL => ClientAction::ReplaceAuthority(sa::replace_authority::ReplaceAuthority::new(le32(d))),
        V2CREATE => ClientAction::SubAccountV2Create(sa::sub_account_v2::SubAccountV2Create),
        V2ALL => ClientAction::SubAccountV2All(sa::sub_account_v2::SubAccountV2All::new(le32(d))),
        V2SIGN => ClientAction::SubAccountV2Sign(sa::sub_account_v2::SubAccountV2Sign::new(le32(d))),
        V2WD => ClientAction::SubAccountV2Withdraw(sa::sub_account_v2::SubAccountV2Withdraw::new(le32(d))),
        V2TOG => ClientAction::SubAccountV2Toggle(sa::sub_account_v2::SubAccountV2Toggle::new(le32(d))),
        k => unreachable!("{k}"),
    }
}
pub fn to_clients(a: &[Act]) -> Vec<ClientAction> {
    a.iter().map(to_client).collect()
}
type Built = Result<(&'static str, Vec<Instruction>), String>;
fn one(name: &'static str, r: anyhow::Result<Instruction>) -> Built {
    r.map(|i| (name, vec![i])).map_err(|e| format!("{name}: {e}"))
}
fn many(name: &'static str, r: anyhow::Result<Vec<Instruction>>) -> Built {
    r.map(|i| (name, i)).map_err(|e| format!("{name}: {e}"))
}

pub fn sign_k1(k: &Cred, h: &[u8]) -> [u8; 65] {
    let mut s = k.k1.as_ref().unwrap().sign(h.try_into().unwrap());
    s[64] += 27;
    s
}

/// fixed things every builder gets
struct Cx {
    swig: Pubkey,
    addr: Pubkey,
    payer: Pubkey,
    cred: Cred,
    /// the key that signs the transaction for this role, when one does
    auth: Option<Pubkey>,
    slot: u64,
    ctr: u32,
    /// the program-exec instruction
    pre: Instruction,
    /// its position, when named
    idx: Option<u8>,
    role: u32,
}
macro_rules! four {
    ($x:expr, $t:ident, ed $ed:expr, k1 $k1:expr, r1 $r1:expr, pe $pe:expr, pi $pi:expr) => {
        match ($x.auth, $x.cred.kind) {
            (Some(_), _) => one(concat!(stringify!($t), "::ed25519"), $ed),
            (_, K1T | K1S) => one(concat!(stringify!($t), "::secp256k1"), $k1),
            (_, R1T | R1S) => many(concat!(stringify!($t), "::secp256r1"), $r1),
            _ if $x.idx.is_none() => many(concat!(stringify!($t), "::program_exec"), $pe),
            _ => many(concat!(stringify!($t), "::program_exec_ix_index"), $pi),
        }
    };
}
macro_rules! three {
    ($x:expr, $t:ident, ed $ed:expr, k1 $k1:expr, r1 $r1:expr) => {
        match ($x.auth, $x.cred.kind) {
            (Some(_), _) => one(concat!(stringify!($t), "::ed25519"), $ed),
            (_, K1T | K1S) => one(concat!(stringify!($t), "::secp256k1"), $k1),
            _ => many(concat!(stringify!($t), "::secp256r1"), $r1),
        }
    };
}

/// a wallet with a role of every grant, sub-accounts of both kinds and a target
pub struct World {
    pub s: Sim,
    pub me: u32,
    pub target: u32,
}
pub fn setup(c: &mut Case, kind: u16) -> Option<World> {
    setup_keyed(c, kind, None)
}
/// the same with a payer, an authority and a session key of the caller's
pub fn setup_keyed(c: &mut Case, kind: u16, keys: Option<[Key; 3]>) -> Option<World> {
    let mut s = fresh(c);
    if let Some(k) = keys {
        s.payer = k[0];
        s.ch.fund(k[0], 1_000_000_000_000);
    }
    let root = Cred::new(ED, &mut c.rng, &s.pe);
    s.create(c, root, vec![a_all()]);
    let wa = s.wl.addr;
    s.ch.fund(wa, 10_000_000_000);
    let mut cred = Cred::new(kind, &mut c.rng, &s.pe);
    if cred.session() {
        cred.max = c.rng.range(100, 5000);
    }
    if let (Some(k), ED | EDS) = (keys, kind) {
        cred.ed = k[1];
    }
    let old = c.rng.chance(1, 2);
    if old {
        age(c, &mut s);
    }
    let target = s.wl.counter;
    // a first role between, so that ids, positions and counters differ
    let t1 = *c.rng.pick(&KINDS);
    for i in 0..2 {
        let id = s.wl.counter;
        let (k, acts) = if i == 0 {
            (Cred::new(t1, &mut c.rng, &s.pe), vec![a_sol(10), a_stk(20), a_mark(PROGALL), a_solr(50, 10), a_v2(V2SIGN, 77)])
        } else {
            let mut a = vec![a_all(), a_sub(id, &s.wl.id), a_mark(V2CREATE)];
            c.rng.shuffle(&mut a);
            (cred.clone(), a)
        };
        let b = add(&s.wl, s.payer, 0, &k, &acts);
        s.step(c, "setup", &b, 0, true, Some(true), P, Frame::default(), |w, _| {
            w.roles.push(Role { id, cred: k, acts });
            w.counter += 1;
        });
        if c.dead {
            return None;
        }
    }
    let me = s.wl.counter - 1;
    if old {
        age_roles(c, &mut s);
    }
    if cred.session() {
        let sk = keys.map(|k| k[2]).unwrap_or_else(|| c.rng.key());
        let dur = c.rng.range(50, cred.max);
        let b = create_session(&s.wl, s.payer, me, dur, &sk);
        let exp = s.ch.slot + dur;
        s.step(c, "setup", &b, me, true, Some(true), P, Frame::default(), |w, _| {
            let r = w.role_mut(me).unwrap();
            r.cred.sess = sk;
            r.cred.exp = exp;
        });
        if c.dead {
            return None;
        }
    }
    // some use before, so that the counter is not always at the start
    for _ in 0..c.rng.below(3) {
        let d = c.rng.key();
        s.ch.fund(d, 1_000_000_000);
        let b = sign_ixs(&s.wl, me, &[sys_transfer(wa, d, 1000)]);
        s.step(c, "setup", &b, me, false, Some(true), P, Frame { may: vec![d], wallet: true, free: true }, |_, _| {});
        if c.dead {
            return None;
        }
    }
    s.ch.slot += c.rng.below(40) as u64;
    Some(World { s, me, target })
}
pub fn with_sub1(c: &mut Case, w: &mut World) -> Option<Key> {
    let p = gen(c, &mut w.s, Op::Sub1Create, &Want { acting: Some(w.me), ..Default::default() })?;
    run(c, &mut w.s, p);
    if c.dead {
        return None;
    }
    let (k, _) = w.s.wl.role(w.me)?.sub1()?;
    w.s.ch.fund(k, 5_000_000_000);
    Some(k)
}
pub fn with_sub2(c: &mut Case, w: &mut World) -> Option<(u32, Key, Key)> {
    for _ in 0..1 + c.rng.below(2) {
        let p = gen(c, &mut w.s, Op::Sub2Create, &Want { acting: Some(w.me), ..Default::default() })?;
        run(c, &mut w.s, p);
        if c.dead {
            return None;
        }
    }
    let i = c.rng.below(w.s.wl.sub2.len());
    let x = w.s.wl.sub2[i].clone();
    let asset = sub2_asset_pda(&w.s.wl.id, x.id).0;
    w.s.ch.fund(asset, 5_000_000_000);
    Some((x.id, x.state, asset))
}

/// a V1 sub-account of another role
pub fn others_sub1(c: &mut Case, w: &mut World) -> Option<(Key, u32)> {
    let id = w.s.wl.counter;
    let k = Cred::new(ED, &mut c.rng, &w.s.pe);
    let acts = vec![a_sub(id, &w.s.wl.id)];
    let b = add(&w.s.wl, w.s.payer, 0, &k, &acts);
    w.s.step(c, "setup", &b, 0, true, Some(true), P, Frame::default(), |wl, _| {
        wl.roles.push(Role { id, cred: k, acts });
        wl.counter += 1;
    });
    if c.dead {
        return None;
    }
    let me = w.me;
    w.me = id;
    let r = with_sub1(c, w);
    w.me = me;
    r.map(|k| (k, id))
}

pub const OPS_N: usize = 21;
pub fn builders(c: &mut Case) {
    let kind = KINDS[c.case as usize % 8];
    let op = (c.case as usize / 8) % OPS_N;
    if op == 0 {
        return creating(c, kind);
    }
    let Some(mut w) = setup(c, kind) else { return };
    let sub1 = if (5..=9).contains(&op) && op != 5 { with_sub1(c, &mut w) } else { None };
    let sub2 = if (16..=19).contains(&op) { with_sub2(c, &mut w) } else { None };
    if c.dead {
        return;
    }
    let (me, target) = (w.me, w.target);
    let wl = w.s.wl.clone();
    let cred = w.s.cred(me);
    let main = op == 4 || !cred.session();
    if op == 4 && !cred.session() {
        return;
    }
    let auth = if !main {
        Some(pk(&cred.sess))
    } else if cred.kind == ED || cred.kind == EDS {
        Some(pk(&cred.ed))
    } else {
        None
    };
    let payer = w.s.payer;
    let mut x = Cx {
        swig: pk(&wl.key),
        addr: pk(&wl.addr),
        payer: pk(&payer),
        auth,
        slot: w.s.ch.slot.saturating_sub(c.rng.below(20) as u64),
        ctr: cred.odo.wrapping_add(1),
        pre: from_ix(&Ix { program: cred.prog, accounts: vec![], data: cred.prefix.clone() }),
        idx: if c.rng.bool() { Some(if c.rng.chance(1, 4) { c.rng.below(40) } else { c.rng.below(2) } as u8) } else { None },
        role: me,
        cred: cred.clone(),
    };
    // the second account of each operation, which the program-exec instruction names
    let second = match op {
        5 | 6 | 7 | 9 | 16 | 18 | 19 | 1 | 2 | 3 | 4 | 11 | 21 => payer,
        8 => sub1.unwrap_or_default(),
        _ => wl.addr,
    };
    let extra = c.rng.bytes(c.rng.clone().below(3));
    x.pre.accounts = vec![AccountMeta::new_readonly(x.swig, false), AccountMeta::new_readonly(pk(&second), false)];
    x.pre.data.extend_from_slice(&extra);
    let au = x.auth.unwrap_or_default();
    let kf = |h: &[u8]| sign_k1(&cred, h);
    let rf = |h: &[u8]| r1_sign(&cred.pk33, h);
    let ctx = proof_acct(&cred, main).map(|m| m.key).unwrap_or(SYSTEM);
    let mut pre_data: Option<Vec<u8>> = None;
    let dest = c.rng.key();
    w.s.ch.fund(dest, 1_000_000_000);
    // what it does, independently encoded, and the client's version
    let (desc, base, built): (String, Base, Built) = match op {
        1 => {
            let nc = Cred::new(*c.rng.pick(&KINDS), &mut c.rng, &w.s.pe);
            let n = 1 + c.rng.below(4);
            let acts = rand_acts(c, &w.s, wl.counter, n, &[]);
            let data = nc.create_data();
            let cf = || AuthorityConfig { authority_type: auth_type(nc.kind), authority: &data };
            let b = add(&wl, payer, me, &nc, &acts);
            let t = four!(x, AddAuthorityInstruction,
                ed si::AddAuthorityInstruction::new_with_ed25519_authority(x.swig, x.payer, au, me, cf(), to_clients(&acts)),
                k1 si::AddAuthorityInstruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, me, cf(), to_clients(&acts)),
                r1 si::AddAuthorityInstruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, me, &cred.pk33, cf(), to_clients(&acts)),
                pe si::AddAuthorityInstruction::new_with_program_exec(x.swig, x.payer, x.pre.clone(), me, cf(), to_clients(&acts)),
                pi si::AddAuthorityInstruction::new_with_program_exec_ix_index(x.swig, x.payer, x.pre.clone(), me, cf(), to_clients(&acts), x.idx.unwrap()));
            (format!("add {:?} {}", nc, show(&acts)), b, t)
        }
        2 => {
            let b = remove(&wl, payer, me, target, if main { proof_len(&cred) } else { 1 });
            let t = four!(x, RemoveAuthorityInstruction,
                ed si::RemoveAuthorityInstruction::new_with_ed25519_authority(x.swig, x.payer, au, me, target),
                k1 si::RemoveAuthorityInstruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, me, target),
                r1 si::RemoveAuthorityInstruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, me, target, &cred.pk33),
                pe si::RemoveAuthorityInstruction::new_with_program_exec(x.swig, x.payer, x.pre.clone(), me, target),
                pi si::RemoveAuthorityInstruction::new_with_program_exec_ix_index(x.swig, x.payer, x.pre.clone(), me, target, x.idx.unwrap()));
            (format!("remove role {target}"), b, t)
        }
        3 => {
            let n = 1 + c.rng.below(4);
            let acts = rand_acts(c, &w.s, target, n, &wl.role(target).unwrap().acts.clone());
            let (u, ud): (Upd, Box<dyn Fn() -> UpdateAuthorityData>) = match c.rng.below(4) {
                0 => {
                    let a = acts.clone();
                    (Upd::Replace(acts_stored(&acts)), Box::new(move || UpdateAuthorityData::ReplaceAll(to_clients(&a))))
                }
                1 => {
                    let a = acts.clone();
                    (Upd::Add(acts_stored(&acts)), Box::new(move || UpdateAuthorityData::AddActions(to_clients(&a))))
                }
                2 => {
                    let t = vec![SOLR as u8, STK as u8];
                    (Upd::RemoveTypes(t.clone()), Box::new(move || UpdateAuthorityData::RemoveActionsByType(t.clone())))
                }
                _ => {
                    let mut t = vec![0u16, 2, 3];
                    c.rng.shuffle(&mut t);
                    (Upd::RemoveIdx(t.clone()), Box::new(move || UpdateAuthorityData::RemoveActionsByIndex(t.clone())))
                }
            };
            let b = update(&wl, payer, me, target, &u);
            let t = four!(x, UpdateAuthorityInstruction,
                ed si::UpdateAuthorityInstruction::new_with_ed25519_authority(x.swig, x.payer, au, me, target, ud()),
                k1 si::UpdateAuthorityInstruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, me, target, ud()),
                r1 si::UpdateAuthorityInstruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, me, target, ud(), &cred.pk33),
                pe si::UpdateAuthorityInstruction::new_with_program_exec(x.swig, x.payer, x.pre.clone(), me, target, ud()),
                pi si::UpdateAuthorityInstruction::new_with_program_exec_ix_index(x.swig, x.payer, x.pre.clone(), me, target, ud(), x.idx.unwrap()));
            (format!("update role {target} {:?}", u), b, t)
        }
        4 => {
            let sk = c.rng.key();
            let dur = c.rng.range(1, cred.max);
            let b = create_session(&wl, payer, me, dur, &sk);
            let t = four!(x, CreateSessionInstruction,
                ed si::CreateSessionInstruction::new_with_ed25519_authority(x.swig, x.payer, au, me, pk(&sk), dur),
                k1 si::CreateSessionInstruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, me, pk(&sk), dur),
                r1 si::CreateSessionInstruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, me, pk(&sk), dur, &cred.pk33),
                pe si::CreateSessionInstruction::new_with_program_exec(x.swig, x.payer, x.pre.clone(), me, dur, pk(&sk)),
                pi si::CreateSessionInstruction::new_with_program_exec_ix_index(x.swig, x.payer, x.pre.clone(), me, dur, pk(&sk), x.idx.unwrap()));
            (format!("session of {dur}"), b, t)
        }
        5 => {
            let (sub, bump) = sub1_pda(&wl.id, me);
            let b = create_sub1(&wl, payer, me, sub, bump);
            let sb = pk(&sub);
            let t = four!(x, CreateSubAccountInstruction,
                ed si::CreateSubAccountInstruction::new_with_ed25519_authority(x.swig, au, x.payer, sb, me, bump),
                k1 si::CreateSubAccountInstruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, sb, me, bump),
                r1 si::CreateSubAccountInstruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, sb, me, bump, &cred.pk33),
                pe si::CreateSubAccountInstruction::new_with_program_exec(x.swig, x.payer, x.pre.clone(), sb, me, bump),
                pi si::CreateSubAccountInstruction::new_with_program_exec_ix_index(x.swig, x.payer, x.pre.clone(), sb, me, bump, x.idx.unwrap()));
            ("create V1 sub-account".into(), b, t)
        }
        6 => {
            let Some(sub) = sub1 else { return };
            let sb = pk(&sub);
            let amt = c.rng.range(1, 1_000_000_000);
            let b = withdraw1(&wl, payer, me, sub, ctx, amt, None);
            let t = four!(x, WithdrawFromSubAccountInstruction,
                ed si::WithdrawFromSubAccountInstruction::new_with_ed25519_authority(x.swig, au, x.payer, sb, x.addr, me, amt),
                k1 si::WithdrawFromSubAccountInstruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, sb, x.addr, me, amt),
                r1 si::WithdrawFromSubAccountInstruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, sb, x.addr, me, amt, &cred.pk33),
                pe si::WithdrawFromSubAccountInstruction::new_with_program_exec(x.swig, x.payer, x.pre.clone(), sb, x.addr, me, amt),
                pi si::WithdrawFromSubAccountInstruction::new_with_program_exec_ix_index(x.swig, x.payer, x.pre.clone(), sb, x.addr, me, amt, x.idx.unwrap()));
            (format!("withdraw {amt} from the V1 sub-account"), b, t)
        }
        7 => {
            let Some(sub) = sub1 else { return };
            let sb = pk(&sub);
            let t = tok_pair(c, &mut w.s, &sub, false);
            let amt = t.amount;
            let b = withdraw1(&wl, payer, me, sub, ctx, amt, Some((t.src, t.dst, t.prog)));
            let (a1, a2, a3) = (pk(&t.src), pk(&t.dst), pk(&t.prog));
            let t = four!(x, WithdrawFromSubAccountInstruction_token,
                ed si::WithdrawFromSubAccountInstruction::new_token_with_ed25519_authority(x.swig, au, x.payer, sb, x.addr, a1, a2, a3, me, amt),
                k1 si::WithdrawFromSubAccountInstruction::new_token_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, sb, x.addr, a1, a2, a3, me, amt),
                r1 si::WithdrawFromSubAccountInstruction::new_token_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, sb, x.addr, a1, a2, a3, me, amt, &cred.pk33),
                pe si::WithdrawFromSubAccountInstruction::new_token_with_program_exec(x.swig, x.payer, x.pre.clone(), sb, x.addr, a1, a2, a3, me, amt),
                pi si::WithdrawFromSubAccountInstruction::new_token_with_program_exec_ix_index(x.swig, x.payer, x.pre.clone(), sb, x.addr, a1, a2, a3, me, amt, x.idx.unwrap()));
            (format!("withdraw {amt} tokens from the V1 sub-account"), b, t)
        }
        8 => {
            let Some(sub) = sub1 else { return };
            let sb = pk(&sub);
            let ixs = inner(c, &mut w.s, sub, dest);
            let mut metas = vec![w_(wl.key), w_(sub), r(SYSTEM)];
            let payload = compact_for(&mut metas, &ixs, &[sub]);
            let b = sub_sign1(&wl, me, sub, &metas[3..], &payload);
            let list = || ixs.iter().map(from_ix).collect::<Vec<_>>();
            let t = four!(x, SubAccountSignInstruction,
                ed si::SubAccountSignInstruction::new_with_ed25519_authority(x.swig, sb, au, me, list()),
                k1 si::SubAccountSignInstruction::new_with_secp256k1_authority(x.swig, sb, kf, x.slot, x.ctr, me, list()),
                r1 si::SubAccountSignInstruction::new_with_secp256r1_authority(x.swig, sb, rf, x.slot, x.ctr, me, list(), &cred.pk33),
                pe si::SubAccountSignInstruction::new_with_program_exec(x.swig, sb, x.payer, x.pre.clone(), me, list()),
                pi si::SubAccountSignInstruction::new_with_program_exec_ix_index(x.swig, sb, x.payer, x.pre.clone(), me, list(), x.idx.unwrap()));
            (format!("sign {} instructions for the V1 sub-account", ixs.len()), b, t)
        }
        9 => {
            let Some(sub) = sub1 else { return };
            let on = c.rng.bool();
            // its own sub-account or another role's
            let (sub, of) = if c.rng.bool() {
                (sub, me)
            } else {
                match others_sub1(c, &mut w) {
                    Some(x) => x,
                    None => return,
                }
            };
            let sb = pk(&sub);
            let b = toggle1(&wl, payer, sub, of, me, on as u8);
            let t = four!(x, ToggleSubAccountInstruction,
                ed si::ToggleSubAccountInstruction::new_with_ed25519_authority(x.swig, au, x.payer, sb, of, me, on),
                k1 si::ToggleSubAccountInstruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, sb, of, me, on),
                r1 si::ToggleSubAccountInstruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, sb, of, me, on, &cred.pk33),
                pe si::ToggleSubAccountInstruction::new_with_program_exec(x.swig, x.payer, x.pre.clone(), sb, of, me, on),
                pi si::ToggleSubAccountInstruction::new_with_program_exec_ix_index(x.swig, x.payer, x.pre.clone(), sb, of, me, on, x.idx.unwrap()));
            (format!("toggle the V1 sub-account {on}"), b, t)
        }
        10 => {
            let extra = c.rng.range(0, 1_000_000_000);
            w.s.ch.fund(wl.key, extra);
            let b = transfer_assets(&wl, payer, me, &[]);
            let t = four!(x, TransferAssetsV1Instruction,
                ed si::TransferAssetsV1Instruction::new_with_ed25519_authority(x.swig, x.addr, x.payer, au, me),
                k1 si::TransferAssetsV1Instruction::new_with_secp256k1_authority(x.swig, x.addr, x.payer, kf, x.slot, x.ctr, me),
                r1 si::TransferAssetsV1Instruction::new_with_secp256r1_authority(x.swig, x.addr, x.payer, rf, x.slot, x.ctr, me, &cred.pk33),
                pe si::TransferAssetsV1Instruction::new_with_program_exec(x.swig, x.addr, x.payer, x.pre.clone(), me),
                pi si::TransferAssetsV1Instruction::new_with_program_exec_ix_index(x.swig, x.addr, x.payer, x.pre.clone(), me, x.idx.unwrap()));
            (format!("transfer {extra} of surplus"), b, t)
        }
        11 => {
            if main && cred.kind >= PE {
                return;
            }
            let cl = c.rng.key();
            let b = set_claimer(&wl, payer, me, &cl);
            let t = three!(x, SetRentClaimerV1Instruction,
                ed si::SetRentClaimerV1Instruction::new_with_ed25519_authority(x.swig, x.payer, au, me, cl),
                k1 si::SetRentClaimerV1Instruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, me, cl),
                r1 si::SetRentClaimerV1Instruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, me, cl, &cred.pk33));
            ("set the rent claimer".into(), b, t)
        }
        12 => {
            if main && cred.kind >= PE {
                return;
            }
            let prog = if c.rng.bool() { token_id() } else { token22_id() };
            let m = c.rng.key();
            w.s.mint_at(m, prog);
            let mut v = vec![];
            let n = if c.rng.chance(1, 4) { 4 + c.rng.below(20) } else { 1 + c.rng.below(3) };
            for _ in 0..n {
                let k = c.rng.key();
                w.s.tok_acct(k, &m, &wl.addr, 0, prog);
                v.push(k);
            }
            let mut tail = v.clone();
            let off = if let Some(m) = proof_acct(&cred, main) {
                tail.insert(0, m.key);
                5
            } else {
                4
            };
            let mut b = close_token(&wl, dest, prog, &tail, off, me);
            if off == 5 {
                b.metas[4] = proof_acct(&cred, main).unwrap();
            }
            let (d, tp) = (pk(&dest), pk(&prog));
            let list = || v.iter().map(pk).collect::<Vec<_>>();
            let t = three!(x, CloseTokenAccountV1Instruction,
                ed si::CloseTokenAccountV1Instruction::new_with_ed25519_authority(x.swig, x.addr, au, d, tp, list(), me),
                k1 si::CloseTokenAccountV1Instruction::new_with_secp256k1_authority(x.swig, x.addr, kf, x.slot, x.ctr, d, tp, list(), me),
                r1 si::CloseTokenAccountV1Instruction::new_with_secp256r1_authority(x.swig, x.addr, rf, x.slot, x.ctr, d, tp, list(), me, &cred.pk33));
            (format!("close {} token accounts", v.len()), b, t)
        }
        13 => {
            if main && cred.kind >= PE {
                return;
            }
            w.s.ch.set_lamports(wl.addr, rent_min(0));
            let b = close_swig(&wl, dest, me);
            let d = pk(&dest);
            let t = three!(x, CloseSwigV1Instruction,
                ed si::CloseSwigV1Instruction::new_with_ed25519_authority(x.swig, x.addr, au, d, me),
                k1 si::CloseSwigV1Instruction::new_with_secp256k1_authority(x.swig, x.addr, kf, x.slot, x.ctr, d, me),
                r1 si::CloseSwigV1Instruction::new_with_secp256r1_authority(x.swig, x.addr, rf, x.slot, x.ctr, d, me, &cred.pk33));
            ("close the wallet".into(), b, t)
        }
        14 | 20 => {
            // one inner instruction; with another signer in half of the cases
            let i = inner(c, &mut w.s, wl.addr, dest).remove(0);
            let mut i = i;
            let mut signers: Vec<Pubkey> = vec![];
            if op == 20 {
                let co = c.rng.key();
                w.s.ch.fund(co, 2_000_000_000);
                i = sys_transfer(co, wl.addr, c.rng.range(1, 1_000_000));
                signers.push(pk(&co));
            }
            let b = sign_ixs(&wl, me, &[i.clone()]);
            let i = from_ix(&i);
            let t = match (x.auth, x.cred.kind, op) {
                (Some(_), _, 14) => one("SignV2Instruction::ed25519", si::SignV2Instruction::new_ed25519(x.swig, x.addr, au, i, me)),
                (Some(_), _, _) => one("SignV2Instruction::ed25519_with_signers", si::SignV2Instruction::new_ed25519_with_signers(x.swig, x.addr, au, i, me, &signers)),
                (_, K1T | K1S, 14) => one("SignV2Instruction::secp256k1", si::SignV2Instruction::new_secp256k1(x.swig, x.addr, kf, x.slot, x.ctr, i, me)),
                (_, K1T | K1S, _) => {
                    one("SignV2Instruction::secp256k1_with_signers", si::SignV2Instruction::new_secp256k1_with_signers(x.swig, x.addr, kf, x.slot, x.ctr, i, me, &signers))
                }
                (_, R1T | R1S, 14) => many("SignV2Instruction::secp256r1", si::SignV2Instruction::new_secp256r1(x.swig, x.addr, rf, x.slot, x.ctr, i, me, &cred.pk33)),
                (_, R1T | R1S, _) => many(
                    "SignV2Instruction::secp256r1_with_signers",
                    si::SignV2Instruction::new_secp256r1_with_signers(x.swig, x.addr, rf, x.slot, x.ctr, i, me, &cred.pk33, &signers),
                ),
                _ if x.idx.is_none() => many("SignV2Instruction::program_exec", si::SignV2Instruction::new_program_exec(x.swig, x.addr, x.payer, x.pre.clone(), i, me)),
                _ => many("SignV2Instruction::program_exec_ix_index", si::SignV2Instruction::new_program_exec_with_ix_index(x.swig, x.addr, x.payer, x.pre.clone(), i, me, x.idx.unwrap())),
            };
            ("sign one instruction".into(), b, t)
        }
        15 => {
            // replace the key of a role that has a key
            let old = w.s.cred(target);
            if old.kind >= PE {
                return;
            }
            let nc = Cred::new(old.kind, &mut c.rng, &w.s.pe);
            let long = c.rng.bool();
            let key: Vec<u8> = match old.kind {
                ED | EDS => nc.ed.to_vec(),
                K1T | K1S if long => nc.k1.as_ref().unwrap().uncompressed()[1..].to_vec(),
                _ => nc.pk33.to_vec(),
            };
            let b = replace(&wl, wl.addr, payer, me, target, &key);
            if main && cred.kind >= PE {
                // the role's prefix must let the proof through
                return;
            }
            let t = match (x.auth, x.cred.kind) {
                (Some(_), _) => one("ReplaceAuthorityInstruction::ed25519", si::ReplaceAuthorityInstruction::new_with_ed25519_authority(x.swig, au, me, target, &key)),
                (_, K1T | K1S) => one("ReplaceAuthorityInstruction::secp256k1", si::ReplaceAuthorityInstruction::new_with_secp256k1_authority(x.swig, kf, x.slot, x.ctr, me, target, &key)),
                _ => many("ReplaceAuthorityInstruction::secp256r1", si::ReplaceAuthorityInstruction::new_with_secp256r1_authority(x.swig, rf, x.slot, x.ctr, me, target, &key, &cred.pk33)),
            };
            (format!("replace the key of role {target}"), b, t)
        }
        16 => {
            if main && cred.kind >= PE {
                return;
            }
            let wl = w.s.wl.clone();
            let (st, sb) = sub2_state_pda(&wl.id, wl.subs);
            let (asset, ab) = sub2_asset_pda(&wl.id, wl.subs);
            let b = create_sub2(&wl, payer, me);
            let (st, asset) = (pk(&st), pk(&asset));
            let t = three!(x, CreateSubAccountV2Instruction,
                ed si::CreateSubAccountV2Instruction::new_with_ed25519_authority(x.swig, au, x.payer, st, asset, me, sb, ab),
                k1 si::CreateSubAccountV2Instruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, st, asset, me, sb, ab),
                r1 si::CreateSubAccountV2Instruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, st, asset, me, sb, ab, &cred.pk33));
            ("create a V2 sub-account".into(), b, t)
        }
        17 => {
            if main && cred.kind >= PE {
                return;
            }
            let Some((sid, st, asset)) = sub2 else { return };
            let ixs = inner(c, &mut w.s, asset, dest);
            let mut metas = vec![w_(wl.key), r(st), w_(asset), r(SYSTEM)];
            let payload = compact_for(&mut metas, &ixs, &[asset]);
            let b = sub_sign2(&wl, me, sid, st, asset, &metas[4..], &payload);
            let (st, asset) = (pk(&st), pk(&asset));
            let list = || ixs.iter().map(from_ix).collect::<Vec<_>>();
            let t = three!(x, SubAccountSignV2Instruction,
                ed si::SubAccountSignV2Instruction::new_with_ed25519_authority(x.swig, st, asset, au, me, sid, list()),
                k1 si::SubAccountSignV2Instruction::new_with_secp256k1_authority(x.swig, st, asset, kf, x.slot, x.ctr, me, sid, list()),
                r1 si::SubAccountSignV2Instruction::new_with_secp256r1_authority(x.swig, st, asset, rf, x.slot, x.ctr, me, sid, list(), &cred.pk33));
            (format!("sign {} instructions for V2 sub-account {sid}", ixs.len()), b, t)
        }
        18 => {
            if main && cred.kind >= PE {
                return;
            }
            let Some((sid, st, _)) = sub2 else { return };
            let on = c.rng.bool();
            let b = toggle2(&wl, payer, st, me, sid, on as u8);
            let st = pk(&st);
            let t = three!(x, ToggleSubAccountV2Instruction,
                ed si::ToggleSubAccountV2Instruction::new_with_ed25519_authority(x.swig, au, x.payer, st, me, sid, on),
                k1 si::ToggleSubAccountV2Instruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, st, me, sid, on),
                r1 si::ToggleSubAccountV2Instruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, st, me, sid, on, &cred.pk33));
            (format!("toggle V2 sub-account {sid} {on}"), b, t)
        }
        _ => {
            if main && cred.kind >= PE {
                return;
            }
            let Some((sid, st, asset)) = sub2 else { return };
            if c.rng.bool() {
                let amt = c.rng.range(1, 1_000_000_000);
                let b = withdraw2(&wl, payer, me, sid, st, asset, ctx, amt, None);
                let (st, asset) = (pk(&st), pk(&asset));
                let t = three!(x, WithdrawFromSubAccountV2Instruction,
                    ed si::WithdrawFromSubAccountV2Instruction::new_with_ed25519_authority(x.swig, au, x.payer, st, asset, x.addr, me, sid, amt),
                    k1 si::WithdrawFromSubAccountV2Instruction::new_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, st, asset, x.addr, me, sid, amt),
                    r1 si::WithdrawFromSubAccountV2Instruction::new_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, st, asset, x.addr, me, sid, amt, &cred.pk33));
                (format!("withdraw {amt} from V2 sub-account {sid}"), b, t)
            } else {
                let t = tok_pair(c, &mut w.s, &asset, false);
                let amt = t.amount;
                let b = withdraw2(&wl, payer, me, sid, st, asset, ctx, amt, Some((t.src, t.dst, t.prog)));
                let (st, asset) = (pk(&st), pk(&asset));
                let (a1, a2, a3) = (pk(&t.src), pk(&t.dst), pk(&t.prog));
                let t = three!(x, WithdrawFromSubAccountV2Instruction_token,
                    ed si::WithdrawFromSubAccountV2Instruction::new_token_with_ed25519_authority(x.swig, au, x.payer, st, asset, x.addr, a1, a2, a3, me, sid, amt),
                    k1 si::WithdrawFromSubAccountV2Instruction::new_token_with_secp256k1_authority(x.swig, x.payer, kf, x.slot, x.ctr, st, asset, x.addr, a1, a2, a3, me, sid, amt),
                    r1 si::WithdrawFromSubAccountV2Instruction::new_token_with_secp256r1_authority(x.swig, x.payer, rf, x.slot, x.ctr, st, asset, x.addr, a1, a2, a3, me, sid, amt, &cred.pk33));
                (format!("withdraw {amt} tokens from V2 sub-account {sid}"), b, t)
            }
        }
    };
    let _ = &mut pre_data;
    let mine = if main { main_proof_opt(&base, &cred, &SigOpts { slot: x.slot, counter: x.ctr, prefix: vec![], webauthn: None, pre: Some(x.pre.data.clone()) }) } else { session_proof(&base, cred.sess) };
    let (name, theirs) = match built {
        Ok(b) => b,
        Err(e) => {
            c.log(desc);
            c.violate("build", format!("the builder failed: {e}"));
            return;
        }
    };
    let mut ixs: Vec<Ix> = theirs.iter().map(to_ix).collect();
    if x.auth.is_none() && cred.kind >= PE {
        if let Some(i) = x.idx {
            // what the position is for: other instructions around the proof
            let filler = Ix { program: w.s.pe, accounts: vec![], data: vec![1, 2, 3] };
            if i == 0 || c.rng.bool() {
                ixs.insert(1, filler.clone());
            }
            for _ in 0..i {
                ixs.insert(0, filler.clone());
            }
        }
    }
    same(c, &mut w.s, name, &desc, &mine.ixs, &ixs, &format!("{} {}", cred.kind, op));
}
pub fn w_(k: Key) -> Meta {
    rt::w(k)
}
/// some harmless inner instructions in which `who` signs
pub fn inner(c: &mut Case, s: &mut Sim, who: Key, dest: Key) -> Vec<Ix> {
    let mut v = vec![];
    for _ in 0..1 + c.rng.below(3) {
        v.push(match c.rng.below(3) {
            0 => sys_transfer(who, dest, c.rng.range(1, 1_000_000)),
            1 => {
                let m = c.rng.key();
                let (a, b) = (c.rng.key(), c.rng.key());
                s.mint_at(m, token_id());
                s.tok_acct(a, &m, &who, 1000, token_id());
                s.tok_acct(b, &m, &dest, 0, token_id());
                Ix { program: token_id(), accounts: vec![rt::w(a), rt::w(b), rs(who)], data: [&[3u8][..], &c.rng.range(1, 1000).to_le_bytes()].concat() }
            }
            _ => {
                let n = if c.rng.chance(1, 6) { c.rng.below(1000) } else { c.rng.below(40) };
                Ix { program: s.pe, accounts: vec![r(dest), rs(who)], data: c.rng.bytes(n) }
            }
        });
    }
    v
}
fn paid(ixs: &[Ix], fee: Option<Key>) -> Vec<Ix> {
    let mut v = ixs.to_vec();
    for m in v.iter_mut().flat_map(|i| i.accounts.iter_mut()) {
        if Some(m.key) == fee {
            m.signer = true;
            m.writable = true;
        }
    }
    v
}
/// runs both transactions from the same state and compares what they leave
pub fn same(c: &mut Case, s: &mut Sim, name: &str, desc: &str, mine: &[Ix], theirs: &[Ix], sig: &str) {
    for ix in mine.iter().chain(theirs) {
        for m in &ix.accounts {
            if m.signer {
                s.fund_signer(m.key);
            }
        }
    }
    // nobody can be asked for a signature the operation has no use for
    let signs = |v: &[Ix]| v.iter().flat_map(|ix| &ix.accounts).filter(|m| m.signer).map(|m| m.key).collect::<std::collections::BTreeSet<_>>();
    let known = signs(mine);
    if let Some(k) = signs(theirs).iter().find(|k| **k != s.payer && !known.contains(*k)) {
        c.violate(format!("signer:{name}"), format!("{desc}: {name} demands a signature by {}", short(k)));
        return;
    }
    let mut a = s.ch.clone();
    let mut b = s.ch.clone();
    // the payer usually pays the transaction's fee as well, which makes it a
    // writable signer of every instruction that names it
    let fee = c.rng.bool().then_some(s.payer);
    let oa = a.exec(&paid(mine, fee));
    let ob = b.exec(&paid(theirs, fee));
    c.eval(&format!("{name} {sig} {}", fee.is_some()));
    c.saw("builders", name);
    c.count("builder_transactions");
    c.log(format!("{desc} built by {name}: {}{}", if ob.ok { "ok" } else { "refused: " }, ob.err));
    c.sample(|| format!("{desc} built by {name}: accepted {}", ob.ok));
    if !oa.ok {
        c.diverge(&["A01"], "reference", format!("the reference encoding of {desc} was refused: {}", oa.err));
        return;
    }
    if !ob.ok {
        c.violate(format!("builder:{name}:refused:{}", ob.err.replace(" ", "-")), format!("{desc}: the program refuses what {name} builds: {}", ob.err));
        return;
    }
    a.accts.remove(&ixs_sysvar_id());
    b.accts.remove(&ixs_sysvar_id());
    if a.accts != b.accts {
        let d = a.accts.keys().chain(b.accts.keys()).find(|k| a.get(k) != b.get(k)).cloned().unwrap_or_default();
        c.violate(
            format!("effect:{name}"),
            format!("{desc}: what {name} builds has another effect on account {}: want {} {} got {} {}", short(&d), a.get(&d).lamports, hex(&a.data(&d)), b.get(&d).lamports, hex(&b.data(&d))),
        );
    }
}
/// creation, and the addresses the client computes
fn creating(c: &mut Case, kind: u16) {
    let mut s = fresh(c);
    let cred = Cred::new(kind, &mut c.rng, &s.pe);
    let n = c.rng.below(5);
    let mut acts = rand_acts(c, &s, 0, n, &[]);
    acts.insert(0, if c.rng.bool() { a_all() } else { a_mark(MANAGE) });
    c.rng.shuffle(&mut acts);
    let wl = s.wl.clone();
    let data = cred.create_data();
    if si::program_id().to_bytes() != swig_id() || si::swig_key_bytes(&wl.id).to_bytes() != wl.key || si::swig_wallet_address(&pk(&wl.key)).to_bytes() != wl.addr {
        c.violate("address", "the client derives other addresses than the program");
        return;
    }
    let t = si::CreateInstruction::new(
        pk(&wl.key),
        wl.bump,
        pk(&s.payer),
        pk(&wl.addr),
        wl.abump,
        AuthorityConfig { authority_type: auth_type(kind), authority: &data },
        to_clients(&acts),
        wl.id,
    );
    let mine = create(&wl, &cred, &acts, s.payer);
    match t {
        Err(e) => c.violate("build", format!("the builder failed: {e}")),
        Ok(t) => same(c, &mut s, "CreateInstruction", &format!("create {:?} {}", cred, show(&acts)), &[mine], &[to_ix(&t)], &format!("{kind}")),
    }
}
