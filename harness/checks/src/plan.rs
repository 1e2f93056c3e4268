//! Generators of every wallet instruction, with the outcome the specification
//! predicts for it.
use crate::charge::*;
use crate::enc::*;
use crate::model::*;
use crate::report::*;
use crate::util::*;
use crate::world::{Frame, *};
use rt::crypto::*;
use rt::programs::tok;
use rt::*;

pub type Apply = Box<dyn FnOnce(&mut Wallet, &mut Chain)>;
pub type Check = Box<dyn Fn(&Chain, &Chain) -> Result<(), String>>;
pub struct Plan {
    pub op: Op,
    pub desc: String,
    pub base: Base,
    pub acting: u32,
    /// proof by the long-term credential even for session roles
    pub main: bool,
    /// reasons why this must be refused: (property, why); empty: must be accepted
    pub bad: Vec<(&'static str, String)>,
    /// outcome left open by the specification
    pub open: bool,
    /// properties that speak about this operation's effect
    pub props: Vec<&'static str>,
    pub fr: Frame,
    pub apply: Apply,
    pub check: Check,
    /// data of the preceding instruction for a program-exec proof
    pub pre: Option<Vec<u8>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Add,
    Remove,
    Update,
    Replace,
    Session,
    Claimer,
    Spend,
    Sub1Create,
    Sub1Toggle,
    Sub1Sign,
    Sub1Withdraw,
    Sub1WithdrawTok,
    Sub2Create,
    Sub2Toggle,
    Sub2Sign,
    Sub2Withdraw,
    Sub2WithdrawTok,
    Transfer,
    CloseToken,
    CloseSwig,
    Migrate,
}
pub const OPS: [Op; 21] = [
    Op::Add,
    Op::Remove,
    Op::Update,
    Op::Replace,
    Op::Session,
    Op::Claimer,
    Op::Spend,
    Op::Sub1Create,
    Op::Sub1Toggle,
    Op::Sub1Sign,
    Op::Sub1Withdraw,
    Op::Sub1WithdrawTok,
    Op::Sub2Create,
    Op::Sub2Toggle,
    Op::Sub2Sign,
    Op::Sub2Withdraw,
    Op::Sub2WithdrawTok,
    Op::Transfer,
    Op::CloseToken,
    Op::CloseSwig,
    Op::Migrate,
];
/// how to generate
#[derive(Clone, Debug, Default)]
pub struct Want {
    /// acting role
    pub acting: Option<u32>,
    /// target role
    pub target: Option<u32>,
    /// introduce a defect in the parameters
    pub hostile: bool,
    /// only pick acting roles that hold the permission
    pub permitted: bool,
}

/// does this role hold the permission the operation demands?
pub fn permitted(s: &Sim, op: Op, acting: u32, target: u32, sub: u32) -> bool {
    let Some(r) = s.wl.role(acting) else { return false };
    let own_sub = |on: bool| r.sub1().map_or(false, |(_, e)| e || !on);
    match op {
        Op::Add | Op::Update | Op::Transfer | Op::Migrate => r.manager(),
        Op::Remove => r.manager() || acting == target,
        Op::Replace => r.manager() || r.has_id(REPL, target),
        Op::Session => true,
        Op::Claimer => r.has(ALL) || r.has(CLOSE),
        Op::CloseSwig | Op::CloseToken => r.manager() || r.has(CLOSE),
        Op::Spend => true,
        Op::Sub1Create => r.acts.iter().any(|a| a.kind == SUB && a.data[..32] == [0u8; 32]),
        Op::Sub1Toggle => acting == target || r.manager(),
        Op::Sub1Sign => acting == target && own_sub(true),
        Op::Sub1Withdraw | Op::Sub1WithdrawTok => {
            if acting == target && r.sub1().is_some() {
                own_sub(true)
            } else if r.has(MANAGE) {
                acting == target
            } else {
                r.has(ALL)
            }
        }
        Op::Sub2Create => r.has(V2CREATE),
        Op::Sub2Toggle => r.v2(V2TOG, sub),
        Op::Sub2Sign => r.v2(V2SIGN, sub),
        Op::Sub2Withdraw | Op::Sub2WithdrawTok => r.v2(V2WD, sub),
    }
}
/// the property that governs the permission of an operation
pub fn perm_prop(op: Op) -> &'static str {
    match op {
        Op::Sub1Create | Op::Sub1Toggle | Op::Sub1Sign | Op::Sub1Withdraw | Op::Sub1WithdrawTok => "S01",
        Op::Sub2Create | Op::Sub2Toggle | Op::Sub2Sign | Op::Sub2Withdraw | Op::Sub2WithdrawTok => "S02",
        Op::Spend => "P01",
        _ => "A04",
    }
}
pub fn op_props(op: Op) -> Vec<&'static str> {
    match op {
        Op::Add => vec!["A04", "A05", "A08", "W05"],
        Op::Remove => vec!["A04", "A05", "W05"],
        Op::Update => vec!["A04", "A06", "A08", "W05"],
        Op::Replace => vec!["A04", "A07", "W05"],
        Op::Session => vec!["A03"],
        Op::Claimer => vec!["A04", "W04", "W05"],
        Op::Spend => vec!["C01", "L01"],
        Op::Sub1Create | Op::Sub1Toggle | Op::Sub1Sign => vec!["S01"],
        Op::Sub1Withdraw | Op::Sub1WithdrawTok => vec!["S01", "S04"],
        Op::Sub2Create => vec!["S02", "S03"],
        Op::Sub2Toggle => vec!["S02", "S03"],
        Op::Sub2Sign => vec!["S02", "S03"],
        Op::Sub2Withdraw | Op::Sub2WithdrawTok => vec!["S02", "S03", "S04"],
        Op::Transfer => vec!["A04", "W02"],
        Op::Migrate => vec!["A04", "W02"],
        Op::CloseToken | Op::CloseSwig => vec!["A04", "W03", "W04"],
    }
}
/// can this role authenticate right now the way `main` says?
pub fn auth_live(s: &Sim, acting: u32, main: bool) -> bool {
    match s.wl.role(acting) {
        None => false,
        Some(r) => main || !r.cred.session() || (r.cred.live(s.ch.slot) && r.cred.sess != [0; 32]),
    }
}

fn pick_acting(c: &mut Case, s: &Sim, op: Op, w: &Want, target: u32, sub: u32) -> Option<u32> {
    if w.acting.is_some() {
        return w.acting;
    }
    let ids: Vec<u32> = s.wl.roles.iter().map(|r| r.id).collect();
    if ids.is_empty() {
        return None;
    }
    let good: Vec<u32> = ids.iter().cloned().filter(|i| permitted(s, op, *i, target, sub)).collect();
    if w.permitted {
        if good.is_empty() {
            return None;
        }
        return Some(*c.rng.pick(&good));
    }
    if !good.is_empty() && c.rng.chance(3, 4) {
        return Some(*c.rng.pick(&good));
    }
    if c.rng.chance(1, 40) {
        return Some(s.wl.counter + c.rng.below(3) as u32);
    }
    Some(*c.rng.pick(&ids))
}
/// an id that agrees with another one in part of its bytes
pub fn near_id(r: &mut Rng, id: u32) -> u32 {
    *r.pick(&[id & 0xff, id & 0xffff, id ^ 0x100, id ^ 0x1_0000, id ^ 0x100_0000, id.swap_bytes(), id & !0xff, id.wrapping_add(1)])
}
/// another sub-account, if possible one whose id ends alike
pub fn other_sub2(c: &mut Case, wl: &Wallet, id: u32) -> Option<Sub2> {
    let v: Vec<&Sub2> = wl.sub2.iter().filter(|y| y.id != id).collect();
    if v.is_empty() {
        return None;
    }
    let like: Vec<&Sub2> = v.iter().filter(|y| y.id as u8 == id as u8).cloned().collect();
    if !like.is_empty() {
        c.count("sub_accounts_alike");
        if c.rng.chance(3, 4) {
            return Some((*c.rng.pick(&like)).clone());
        }
    }
    Some((*c.rng.pick(&v)).clone())
}
/// the id of a role, of one to come, of a removed one, or of none
pub fn any_role(r: &mut Rng, wl: &Wallet) -> u32 {
    let n = wl.counter;
    if n < 100 {
        return r.below(n as usize + 2) as u32;
    }
    match r.below(6) {
        0 => r.below(4) as u32,
        1 => n - 2 + r.below(4) as u32,
        2 => {
            let id = r.pick(&wl.roles).id;
            near_id(r, id)
        }
        _ => r.pick(&wl.roles).id,
    }
}
/// likewise for sub-accounts
pub fn any_sub2(r: &mut Rng, wl: &Wallet) -> u32 {
    let n = wl.subs;
    if n < 100 {
        return r.below(4) as u32;
    }
    let first = n - wl.sub2.len() as u32;
    match r.below(6) {
        0 => r.below(4) as u32,
        1 => {
            let id = first + r.below(4) as u32;
            near_id(r, id)
        }
        _ => first + r.below(4) as u32,
    }
}
fn pick_target(c: &mut Case, s: &Sim, w: &Want) -> u32 {
    if let Some(t) = w.target {
        return t;
    }
    if c.rng.chance(1, 25) {
        // never used, or used by a removed role
        return any_role(&mut c.rng, &s.wl);
    }
    let n = s.wl.roles.len();
    if n > 1 && c.rng.chance(4, 5) {
        return s.wl.roles[1 + c.rng.below(n - 1)].id;
    }
    s.wl.roles[c.rng.below(n)].id
}

// ------------------------------------------------------------- permissions
pub fn amount(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => r.range(2, 1000),
        _ => r.range(1, 5_000_000_000),
    }
}
pub fn window(r: &mut Rng) -> u64 {
    *r.pick(&[1u64, 2, 10, 100, 432_000, u64::MAX])
}
/// one well-formed action as a client may supply it
pub fn rand_act(c: &mut Case, s: &Sim, id: u32) -> Act {
    let k = 1 + c.rng.below(26) as u16;
    act_of(c, s, k, id)
}
pub fn act_of(c: &mut Case, s: &Sim, k: u16, id: u32) -> Act {
    let r = &mut c.rng;
    match k {
        SOL => a_sol(amount(r)),
        SOLR => a_solr(amount(r), window(r)),
        PROG => {
            let p = r.key();
            a_prog(&if r.bool() { SYSTEM } else { p })
        }
        SCOPE => {
            let (p, t) = (r.key(), r.key());
            let nt = r.below(4) as u64;
            let st = r.below(8) as u64;
            a_scope(0, amount(r) as u128, window(r), 0, &p, &t, r.below(3) as u64, nt, st, st + [1, 4, 8, 16][nt as usize])
        }
        TOK => a_tok(&r.key(), amount(r)),
        TOKR => a_tokr(&r.key(), amount(r), window(r)),
        SUB => a_sub(id, &s.wl.id),
        STK => a_stk(amount(r)),
        STKR => a_stkr(amount(r), window(r)),
        CURATED => a_curated(),
        SOLD => a_sold(&r.key(), amount(r)),
        SOLRD => a_solrd(&r.key(), amount(r), window(r)),
        TOKD => a_tokd(&r.key(), &r.key(), amount(r)),
        TOKRD => a_tokrd(&r.key(), &r.key(), amount(r), window(r)),
        REPL => a_repl(any_role(r, &s.wl)),
        V2ALL..=V2TOG => a_v2(k, any_sub2(r, &s.wl)),
        _ => a_mark(k),
    }
}
pub fn dup_v2(a: &[Act]) -> bool {
    let mut seen = vec![];
    for x in a {
        if (V2CREATE..=V2TOG).contains(&x.kind) {
            let id = if x.kind == V2CREATE { 0 } else { le32(&x.data) };
            if seen.contains(&(x.kind, id)) {
                return true;
            }
            seen.push((x.kind, id));
        }
    }
    false
}
pub fn rand_acts(c: &mut Case, s: &Sim, id: u32, n: usize, keep: &[Act]) -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    let mut guard = 0;
    while v.len() < n && guard < 100 {
        guard += 1;
        let a = rand_act(c, s, id);
        let mut t = keep.to_vec();
        t.extend(v.iter().cloned());
        t.push(a.clone());
        if !dup_v2(&t) {
            v.push(a);
        }
    }
    if v.is_empty() {
        v.push(a_sol(7));
    }
    v
}
/// a malformed action list; says what is wrong
pub fn bad_acts(c: &mut Case, s: &Sim, id: u32, keep: &[Act]) -> (Vec<u8>, String) {
    let n = 1 + c.rng.below(3);
    let good = rand_acts(c, s, id, n, keep);
    let enc = if c.rng.bool() { acts_stored(&good) } else { acts_bytes(&good) };
    match c.rng.below(8) {
        0 => (vec![], "no actions".into()),
        1 => {
            // a declared length that does not match the kind
            let mut v = good.clone();
            let i = c.rng.below(v.len());
            let l = v[i].data.len();
            let d = if l == 0 || c.rng.bool() { l + *c.rng.pick(&[1usize, 4, 8, 16]) } else { l - *c.rng.pick(&[1usize, 4, 8]) };
            v[i].data.resize(d, 0);
            let k = v[i].kind;
            (acts_stored(&v), format!("action kind {} with {} bytes", k, d))
        }
        2 => {
            let mut v = good.clone();
            let i = c.rng.below(v.len());
            v[i].kind = *c.rng.pick(&[0u16, 27, 28, 255, 256, 0x8001, u16::MAX]);
            let k = v[i].kind;
            (acts_stored(&v), format!("unknown action kind {}", k))
        }
        3 => {
            // truncated
            let cut = 1 + c.rng.below(enc.len().min(7));
            let mut e = enc;
            e.truncate(e.len() - cut);
            (e, format!("action list cut by {} bytes", cut))
        }
        4 | 5 => {
            // a bad initial state
            let q = c.rng.range(10, 1000);
            let wi = c.rng.range(1, 1000);
            let k = c.rng.key();
            let mut v = good.clone();
            let (a, why) = match c.rng.below(9) {
                0 => {
                    let mut a = a_solr(q, wi);
                    a.data[24..32].copy_from_slice(&(q + 1).to_le_bytes());
                    (a, "recurring SOL limit with current above quota")
                }
                1 => {
                    let mut a = a_stkr(q, wi);
                    a.data[24..32].copy_from_slice(&(q - 1).to_le_bytes());
                    (a, "recurring stake limit with current below quota")
                }
                2 => {
                    let mut a = a_tokr(&k, q, wi);
                    a.data[48..56].copy_from_slice(&(q + 1).to_le_bytes());
                    (a, "recurring token limit with current above quota")
                }
                3 => {
                    let mut a = a_solr(q, wi);
                    a.data[16] = 1;
                    (a, "recurring SOL limit with a last reset")
                }
                4 => {
                    let mut a = a_tokr(&k, q, wi);
                    a.data[60] = 1;
                    (a, "recurring token limit with a last reset")
                }
                5 => {
                    let mut a = a_stkr(q, wi);
                    a.data[23] = 1;
                    (a, "recurring stake limit with a last reset")
                }
                6 => {
                    let mut a = a_sub(id, &s.wl.id);
                    a.data[c.rng.below(32)] = 1;
                    (a, "sub-account grant naming an account")
                }
                7 => {
                    let mut a = a_solrd(&k, q, wi);
                    if c.rng.bool() {
                        a.data[56..64].copy_from_slice(&(q + 1).to_le_bytes());
                    } else {
                        a.data[40..48].copy_from_slice(&[0; 8]);
                    }
                    (a, "recurring destination limit with current above quota or no window")
                }
                _ => {
                    let mut a = a_tokrd(&k, &k, q, wi);
                    if c.rng.bool() {
                        a.data[88..96].copy_from_slice(&(q + 1).to_le_bytes());
                    } else {
                        a.data[72..80].copy_from_slice(&[0; 8]);
                    }
                    (a, "recurring token destination limit with current above quota or no window")
                }
            };
            let i = c.rng.below(v.len() + 1);
            v.insert(i, a);
            (acts_stored(&v), why.into())
        }
        6 => {
            let mut v = good.clone();
            let k = *c.rng.pick(&[V2CREATE, V2ALL, V2SIGN, V2WD, V2TOG]);
            let a = act_of(c, s, k, id);
            let i = c.rng.below(v.len() + 1);
            v.insert(i, a.clone());
            let i = c.rng.below(v.len() + 1);
            v.insert(i, a);
            (acts_stored(&v), "duplicated V2 grant".into())
        }
        _ => {
            let n = *c.rng.pick(&[256usize, 257, 300]);
            (acts_stored(&vec![a_mark(PROGALL); n]), format!("{} actions", n))
        }
    }
}

fn legal_auth_lens(kind: u16) -> &'static [usize] {
    match kind {
        ED => &[32],
        EDS => &[72],
        K1T => &[33, 64],
        K1S => &[104],
        R1T => &[33],
        R1S => &[80],
        PE => &[80],
        PES => &[128],
        _ => &[],
    }
}
/// authority data that must be refused
pub fn bad_auth(c: &mut Case, s: &Sim) -> (u16, Vec<u8>, String) {
    let kind = *c.rng.pick(&KINDS);
    let cr = Cred::new(kind, &mut c.rng, &s.pe);
    match c.rng.below(6) {
        0 => {
            let k = *c.rng.pick(&[0u16, 9, 10, 255, 256, 0x0101, u16::MAX]);
            (k, cr.create_data(), format!("authority type {}", k))
        }
        1 if kind >= PE => {
            let mut d = cr.create_data();
            d[..32].copy_from_slice(&swig_id());
            (kind, d, "program-exec authority naming the wallet program".into())
        }
        2 if kind >= PE => {
            let mut d = cr.create_data();
            d[32] = 41 + c.rng.below(200) as u8;
            (kind, d, "program-exec prefix too long".into())
        }
        _ => {
            let d = cr.create_data();
            loop {
                let n = match c.rng.below(6) {
                    0 => 0,
                    1 => d.len() + 1,
                    2 => d.len() - 1,
                    3 => d.len() + 8,
                    4 => d.len().saturating_sub(8),
                    _ => *c.rng.pick(&[31usize, 32, 33, 40, 64, 65, 72, 80, 88, 104, 128, 136]),
                };
                if !legal_auth_lens(kind).contains(&n) {
                    let mut e = d.clone();
                    e.resize(n, 1);
                    return (kind, e, format!("{} authority with {} bytes", kind_name(kind), n));
                }
            }
        }
    }
}

fn nochk() -> Check {
    Box::new(|_, _| Ok(()))
}
pub fn delta(a: &Chain, b: &Chain, k: &Key) -> i128 {
    b.lamports(k) as i128 - a.lamports(k) as i128
}

// ------------------------------------------------------------- generators
impl Plan {
    fn new(op: Op, acting: u32, base: Base, desc: String) -> Plan {
        Plan {
            op,
            desc,
            base,
            acting,
            main: false,
            bad: vec![],
            open: false,
            props: op_props(op),
            fr: Frame::default(),
            apply: Box::new(|_, _| {}),
            check: nochk(),
            pre: None,
        }
    }
    fn deny(&mut self, p: &'static str, why: impl Into<String>) {
        self.bad.push((p, why.into()));
    }
    fn deny_if(&mut self, cond: bool, p: &'static str, why: impl Into<String>) {
        if cond {
            self.deny(p, why);
        }
    }
}

/// Builds one instruction of the kind asked for. Returns None when the wallet
/// offers no sensible instance.
pub fn gen(c: &mut Case, s: &mut Sim, op: Op, w: &Want) -> Option<Plan> {
    let mut p = gen_inner(c, s, op, w)?;
    let acting = p.acting;
    if s.wl.role(acting).is_none() {
        p.deny("A01", "no such acting role");
    } else if !auth_live(s, acting, p.main) {
        p.deny("A03", "no live session");
        p.deny("A01", "no live session");
    }
    if s.wl.closed {
        p.bad.clear();
        p.deny("W03", "the wallet is closed");
    }
    Some(p)
}
fn gen_inner(c: &mut Case, s: &mut Sim, op: Op, w: &Want) -> Option<Plan> {
    let payer = s.payer;
    match op {
        Op::Add => {
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let id = s.wl.counter;
            let n = *c.rng.pick(&[1usize, 1, 2, 3, 4, 6]);
            let kind = *c.rng.pick(&KINDS);
            let mut cred = Cred::new(kind, &mut c.rng, &s.pe);
            if matches!(kind, PE | PES) && c.rng.bool() {
                let n = 1 + c.rng.below(8);
                cred.prefix = b"rplauth1"[..n].to_vec();
            }
            let acts = rand_acts(c, s, id, n, &[]);
            let mut p;
            if w.hostile {
                if c.rng.bool() {
                    let (raw, why) = bad_acts(c, s, id, &[]);
                    let n = acts.len() as u8;
                    p = Plan::new(op, acting, add_raw(&s.wl, payer, acting, kind, &cred.create_data(), &raw, n), format!("add {} with {}", kind_name(kind), why));
                    p.deny("A08", why);
                } else {
                    let (k, d, why) = bad_auth(c, s);
                    p = Plan::new(op, acting, add_raw(&s.wl, payer, acting, k, &d, &acts_stored(&acts), acts.len() as u8), format!("add with {}", why));
                    p.deny("A08", why);
                }
            } else {
                let raw = if c.rng.chance(3, 4) {
                    acts_stored(&acts)
                } else {
                    // link fields are not the client's to choose
                    let mut b = acts_bytes(&acts);
                    let mut at = 0;
                    for a in &acts {
                        let x = c.rng.u64() as u32;
                        b[at + 4..at + 8].copy_from_slice(&x.to_le_bytes());
                        at += 8 + a.data.len();
                    }
                    b
                };
                p = Plan::new(
                    op,
                    acting,
                    add_raw(&s.wl, payer, acting, kind, &cred.create_data(), &raw, acts.len() as u8),
                    format!("add {:?} {}", cred, show(&acts)),
                );
                p.apply = Box::new(move |wl, _| {
                    wl.roles.push(Role { id: wl.counter, cred, acts });
                    wl.counter += 1;
                });
            }
            p.deny_if(!permitted(s, op, acting, 0, 0), "A04", "no permission to add");
            Some(p)
        }
        Op::Remove => {
            let target = pick_target(c, s, w);
            let acting = pick_acting(c, s, op, w, target, 0)?;
            let pl = s.wl.role(acting).map_or(1, |r| proof_len(&r.cred));
            let mut p = Plan::new(op, acting, remove(&s.wl, payer, acting, target, pl), format!("remove role {}", target));
            p.deny_if(target == 0, "A05", "the root cannot be removed");
            p.deny_if(s.wl.role(target).is_none(), "A05", "no such role");
            p.deny_if(!permitted(s, op, acting, target, 0), "A04", "no permission to remove");
            p.apply = Box::new(move |wl, _| wl.roles.retain(|r| r.id != target));
            Some(p)
        }
        Op::Update => {
            let target = pick_target(c, s, w);
            let acting = pick_acting(c, s, op, w, target, 0)?;
            let cur: Vec<Act> = s.wl.role(target).map(|r| r.acts.clone()).unwrap_or_default();
            let mut bad: Vec<(&'static str, String)> = vec![];
            let mode = c.rng.below(5);
            let mut after = cur.clone();
            let upd = match mode {
                0 | 1 if w.hostile => {
                    let (raw, why) = bad_acts(c, s, target, &[]);
                    let why = format!("replace all: {}", why);
                    bad.push(("A08", why.clone()));
                    bad.push(("A06", why));
                    if mode == 0 && !raw.is_empty() {
                        Upd::ReplaceOld(raw, 1 + c.rng.below(250) as u8)
                    } else if mode == 0 {
                        Upd::Raw(0, vec![])
                    } else {
                        Upd::Replace(raw)
                    }
                }
                0 | 1 => {
                    let n = *c.rng.pick(&[1usize, 1, 1, 1, 2, 2, 2, 3, 5, 30]);
                    after = rand_acts(c, s, target, n, &[]);
                    if target == 0 && c.rng.chance(3, 4) {
                        after.insert(0, a_all());
                    }
                    if mode == 0 {
                        Upd::ReplaceOld(acts_stored(&after), after.len() as u8)
                    } else {
                        Upd::Replace(if c.rng.bool() { acts_stored(&after) } else { acts_bytes(&after) })
                    }
                }
                2 if w.hostile => {
                    let v2: Vec<Act> = cur.iter().filter(|a| (V2CREATE..=V2TOG).contains(&a.kind)).cloned().collect();
                    let (raw, why) = if !v2.is_empty() && c.rng.bool() {
                        (acts_stored(&[c.rng.pick(&v2).clone()]), "V2 grant the role already holds".into())
                    } else {
                        bad_acts(c, s, target, &cur)
                    };
                    if raw.is_empty() {
                        bad.clear();
                        // adding nothing: leave open
                    } else {
                        bad.push(("A08", format!("add actions: {}", why)));
                        bad.push(("A06", format!("add actions: {}", why)));
                    }
                    Upd::Add(raw)
                }
                2 => {
                    let n = *c.rng.pick(&[1usize, 1, 1, 1, 2, 2, 3, 25]);
                    let add = rand_acts(c, s, target, n, &cur);
                    after.extend(add.iter().cloned());
                    Upd::Add(if c.rng.bool() { acts_stored(&add) } else { acts_bytes(&add) })
                }
                3 => {
                    let mut t: Vec<u8> = vec![];
                    for _ in 0..c.rng.below(4) {
                        if !cur.is_empty() && c.rng.chance(3, 4) {
                            t.push(c.rng.pick(&cur).kind as u8);
                        } else {
                            t.push(c.rng.below(30) as u8);
                        }
                    }
                    if w.hostile {
                        t = cur.iter().map(|a| a.kind as u8).collect();
                    }
                    after.retain(|a| !t.contains(&(a.kind as u8)));
                    Upd::RemoveTypes(t)
                }
                _ => {
                    let mut t: Vec<u16> = vec![];
                    for _ in 0..c.rng.below(4) {
                        t.push(c.rng.below(cur.len() + 2) as u16);
                    }
                    if c.rng.chance(1, 10) {
                        t.push(256 + c.rng.below(cur.len() + 1) as u16);
                    }
                    if w.hostile {
                        if c.rng.bool() {
                            t = (0..cur.len() as u16).collect();
                            c.rng.shuffle(&mut t);
                        } else {
                            // half an index
                            bad.push(("A06", "odd index bytes".into()));
                        }
                    }
                    let mut i = 0u16;
                    after.retain(|_| {
                        i += 1;
                        !t.contains(&(i - 1))
                    });
                    if bad.iter().any(|(_, w)| w.starts_with("odd")) {
                        let mut b = vec![3u8];
                        for x in &t {
                            b.extend_from_slice(&x.to_le_bytes());
                        }
                        b.push(0);
                        Upd::Raw(0, b)
                    } else {
                        Upd::RemoveIdx(t)
                    }
                }
            };
            if w.hostile && c.rng.chance(1, 12) {
                bad.clear();
                bad.push(("A06", "unknown update operation".into()));
                let b = [&[4 + c.rng.below(250) as u8][..], &acts_stored(&[a_sol(1)])].concat();
                let mut p = Plan::new(op, acting, update(&s.wl, payer, acting, target, &Upd::Raw(0, b)), format!("update role {} unknown operation", target));
                p.bad = bad;
                return Some(p);
            }
            let mut p = Plan::new(op, acting, update(&s.wl, payer, acting, target, &upd), format!("update role {} {}", target, upd_name(&upd)));
            p.open = matches!(&upd, Upd::Add(v) if v.is_empty()) || after.len() > 255;
            p.bad = bad;
            p.deny_if(s.wl.role(target).is_none(), "A06", "no such role");
            p.deny_if(after.is_empty(), "A06", "a role keeps at least one action");
            p.deny_if(!permitted(s, op, acting, target, 0), "A04", "no permission to update");
            p.apply = Box::new(move |wl, _| wl.role_mut(target).unwrap().acts = after);
            Some(p)
        }
        Op::Replace => gen_replace(c, s, w),
        Op::Session => {
            let cands: Vec<u32> = s.wl.roles.iter().filter(|r| r.cred.session()).map(|r| r.id).collect();
            let acting = match w.acting {
                Some(a) => a,
                None if !cands.is_empty() && c.rng.chance(9, 10) => *c.rng.pick(&cands),
                None => s.wl.roles[c.rng.below(s.wl.roles.len())].id,
            };
            let r = s.wl.role(acting)?.clone();
            let max = r.cred.max;
            let dur = if w.hostile && max < u64::MAX / 4 {
                max + *c.rng.pick(&[1u64, 2, 100])
            } else if r.cred.session() {
                // keep slot + duration in range
                let any = c.rng.u64() % max.max(1);
                *c.rng.pick(&[max, max, max / 2, max.saturating_sub(1), 1.min(max), 0, any])
            } else {
                10
            };
            // now and then the key is renewed rather than changed
            let key = match c.rng.below(8) {
                0 | 1 if r.cred.sess != [0; 32] => r.cred.sess,
                2 => {
                    let o = c.rng.pick(&s.wl.roles).cred.sess;
                    if o != [0; 32] { o } else { c.rng.key() }
                }
                _ => c.rng.key(),
            };
            let mut p = Plan::new(op, acting, create_session(&s.wl, payer, acting, dur, &key), format!("session of {} slots (max {})", dur, max));
            p.main = true;
            p.deny_if(!r.cred.session(), "A03", "the role has no sessions");
            p.deny_if(r.cred.session() && dur > max, "A03", "longer than allowed");
            let slot = s.ch.slot;
            p.apply = Box::new(move |wl, _| {
                let r = wl.role_mut(acting).unwrap();
                r.cred.sess = key;
                r.cred.exp = slot + dur;
            });
            Some(p)
        }
        Op::Claimer => {
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let key = if w.hostile { *c.rng.pick(&[[0u8; 32], s.wl.key, s.wl.addr]) } else { c.rng.key() };
            let mut p = Plan::new(op, acting, set_claimer(&s.wl, payer, acting, &key), format!("set rent claimer {}", short(&key)));
            p.deny_if(key == [0; 32], "W04", "zero claimer");
            p.deny_if(key == s.wl.key || key == s.wl.addr, "W04", "the wallet itself as claimer");
            p.deny_if(s.wl.claimer.is_some(), "W04", "claimer already set");
            p.deny_if(!permitted(s, op, acting, 0, 0), "A04", "no permission to set the claimer");
            p.open = s.wl.legacy.is_some();
            p.apply = Box::new(move |wl, _| wl.claimer = Some(key));
            Some(p)
        }
        Op::Spend => {
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let dest = c.rng.key();
            let bal = s.ch.lamports(&s.wl.addr);
            let room = bal.saturating_sub(rent_min(0));
            let min = rent_min(0);
            if room < min * 2 {
                return None;
            }
            let mut amt = c.rng.range(min, (room / 4).max(min));
            if let Some(r) = s.wl.role(acting) {
                // around the allowance
                if c.rng.bool() {
                    if let Some(a) = r.acts.iter().find(|a| a.kind == SOL) {
                        let l = le64(&a.data);
                        let x = *c.rng.pick(&[l, l.wrapping_add(1), l.saturating_sub(1), l / 2]);
                        if x >= min && x <= room {
                            amt = x;
                        }
                    }
                }
            }
            let ix = sys_transfer(s.wl.addr, dest, amt);
            let base = sign_ixs(&s.wl, acting, &[ix]);
            let mut p = Plan::new(op, acting, base, format!("send {} lamports", amt));
            if let Some(r) = s.wl.role(acting) {
                if !unrestricted(r) {
                    p.deny_if(!may_call(r, &SYSTEM), "P01", "the system program is not granted");
                    let mut acts = r.acts.clone();
                    let sp = Spent { sol: amt, sol_to: vec![(dest, amt)], ..Default::default() };
                    let slot = s.ch.slot;
                    match charge(&mut acts, &sp, slot) {
                        Err(e) => p.deny("L01", e),
                        Ok(()) => p.apply = Box::new(move |wl, _| wl.role_mut(acting).unwrap().acts = acts),
                    }
                }
            }
            p.deny_if(s.wl.legacy.is_some(), "P02", "not a wallet with a wallet address");
            p.fr = Frame { may: vec![dest], wallet: true, free: true };
            let from = s.wl.addr;
            p.check = Box::new(move |a, b| {
                if delta(a, b, &from) != -(amt as i128) || delta(a, b, &dest) != amt as i128 {
                    return Err(format!("transfer of {} moved {} / {}", amt, delta(a, b, &from), delta(a, b, &dest)));
                }
                Ok(())
            });
            Some(p)
        }
        Op::Sub1Create => {
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let (mut sub, mut bump) = sub1_pda(&s.wl.id, acting);
            let mut why = None;
            if w.hostile {
                match c.rng.below(4) {
                    0 => {
                        let o = s.wl.roles.iter().map(|r| r.id).find(|i| *i != acting).unwrap_or(acting + 1);
                        let x = sub1_pda(&s.wl.id, o);
                        sub = x.0;
                        bump = x.1;
                        why = Some("another role's address");
                    }
                    1 => {
                        let v = all_pdas(&[b"sub-account", &s.wl.id, &acting.to_le_bytes()], &swig_id(), 3);
                        if v.len() > 1 {
                            sub = v[1].0;
                            bump = v[1].1;
                            why = Some("a non-canonical address");
                        }
                    }
                    2 => {
                        sub = near(c, &sub);
                        why = Some("an arbitrary address");
                    }
                    _ => {
                        let x = sub1_pda(&c.rng.key(), acting);
                        sub = x.0;
                        bump = x.1;
                        why = Some("another wallet's address");
                    }
                }
            } else if c.rng.chance(1, 4) {
                // somebody sent SOL there before
                let l = s.ch.lamports(&sub);
                let add = *c.rng.pick(&[1u64, 890_880, 5_000_000]);
                s.ch.set_lamports(sub, l + add);
            }
            let mut p = Plan::new(op, acting, create_sub1(&s.wl, payer, acting, sub, bump), format!("create V1 sub-account {}", why.unwrap_or("")));
            if let Some(y) = why {
                p.deny("S01", y);
            }
            p.deny_if(!permitted(s, op, acting, 0, 0), "S01", "no unused sub-account grant");
            p.fr.may = vec![sub];
            let swig = s.wl.id;
            p.apply = Box::new(move |wl, _| {
                let a = wl.role_mut(acting).unwrap().acts.iter_mut().find(|a| a.kind == SUB && a.data[..32] == [0u8; 32]).unwrap();
                a.data[..32].copy_from_slice(&sub);
                a.data[32] = bump;
                a.data[33] = 1;
                a.data[36..40].copy_from_slice(&acting.to_le_bytes());
                a.data[40..72].copy_from_slice(&swig);
            });
            p.check = Box::new(move |_, b| {
                let a = b.get(&sub);
                if a.owner != SYSTEM || !a.data.is_empty() || a.lamports < rent_min(0) {
                    return Err("the sub-account is not a rent-exempt system account".into());
                }
                Ok(())
            });
            Some(p)
        }
        Op::Sub1Toggle => {
            let subs: Vec<u32> = s.wl.roles.iter().filter(|r| r.sub1().is_some()).map(|r| r.id).collect();
            if subs.is_empty() {
                return None;
            }
            let target = w.target.unwrap_or(*c.rng.pick(&subs));
            let acting = pick_acting(c, s, op, w, target, 0)?;
            let (sub, _) = s.wl.role(target)?.sub1()?;
            let on = c.rng.below(2) as u8;
            let mut role = target;
            let mut key = sub;
            let mut flag = on;
            let mut why = None;
            if w.hostile {
                match c.rng.below(3) {
                    0 => {
                        flag = 2 + c.rng.below(254) as u8;
                        why = Some("flag is not a boolean");
                    }
                    1 => {
                        let o = s.wl.roles.iter().find(|r| r.sub1().is_some() && r.id != target).and_then(|r| r.sub1());
                        key = match o {
                            Some((k, _)) => k,
                            None => near(c, &sub),
                        };
                        why = Some("another sub-account");
                    }
                    _ => {
                        let o: Vec<u32> = s.wl.roles.iter().map(|r| r.id).filter(|i| *i != target).collect();
                        if !o.is_empty() {
                            role = *c.rng.pick(&o);
                            why = Some("another role's id");
                        }
                    }
                }
            }
            let mut p = Plan::new(op, acting, toggle1(&s.wl, payer, key, role, acting, flag), format!("toggle V1 sub-account of role {} to {} {}", role, flag, why.unwrap_or("")));
            if let Some(y) = why {
                p.deny("S01", y);
            }
            p.deny_if(!permitted(s, op, acting, target, 0), "S01", "not a manager nor the sub-account's role");
            p.apply = Box::new(move |wl, _| {
                let a = wl.role_mut(target).unwrap().acts.iter_mut().find(|a| a.kind == SUB && a.data[..32] == sub).unwrap();
                a.data[33] = on;
            });
            Some(p)
        }
        Op::Sub1Sign => {
            let subs: Vec<u32> = s.wl.roles.iter().filter(|r| r.sub1().is_some()).map(|r| r.id).collect();
            if subs.is_empty() {
                return None;
            }
            let target = w.target.unwrap_or(*c.rng.pick(&subs));
            let acting = if w.permitted || c.rng.chance(4, 5) { w.acting.unwrap_or(target) } else { pick_acting(c, s, op, &Want { permitted: false, ..w.clone() }, target, 0)? };
            if w.permitted && !permitted(s, op, acting, target, 0) {
                return None;
            }
            let (sub, _) = s.wl.role(target)?.sub1()?;
            let bal = s.ch.lamports(&sub);
            if bal < rent_min(0) * 3 {
                s.ch.set_lamports(sub, bal + 20_000_000);
            }
            let bal = s.ch.lamports(&sub);
            let dest = c.rng.key();
            let low = w.hostile && c.rng.bool();
            let amt = if low { bal - c.rng.below(rent_min(0) as usize) as u64 * c.rng.below(2) as u64 } else { c.rng.range(rent_min(0), bal - rent_min(0)) };
            // another account in the sub-account's place, with or without using it
            let mut place = sub;
            let mut harmless = false;
            if w.hostile && !low {
                let o: Vec<u32> = s.wl.roles.iter().map(|r| r.id).filter(|i| *i != target).collect();
                place = match c.rng.below(3) {
                    0 => near(c, &sub),
                    1 if !o.is_empty() => sub1_pda(&s.wl.id, *c.rng.pick(&o)).0,
                    _ => s.wl.addr,
                };
                if s.wl.role(acting).and_then(|r| r.sub1()).map_or(false, |x| x.0 == place) {
                    // its own after all
                    place = s.wl.addr;
                }
                harmless = c.rng.bool();
                if s.ch.lamports(&place) < bal {
                    s.ch.set_lamports(place, bal);
                }
            }
            let mut metas = vec![];
            let ix = if harmless { Ix { program: memo_id(), accounts: vec![], data: vec![] } } else { sys_transfer(place, dest, amt) };
            let mut m0 = vec![rt::w(s.wl.key), rt::w(place), r(SYSTEM)];
            let payload = compact_for(&mut m0, &[ix], &[place]);
            metas.extend_from_slice(&m0[3..]);
            let mut p = Plan::new(op, acting, sub_sign1(&s.wl, acting, place, &metas, &payload), format!("V1 sub-account of role {} sends {}", target, amt));
            p.deny_if(!permitted(s, op, acting, target, 0), "S01", "not the sub-account's role, or disabled");
            p.deny_if(low, "S04", "below rent exemption");
            p.deny_if(place != sub, "S01", "another account in the sub-account's place");
            p.fr = Frame { may: vec![sub, dest], wallet: false, free: true };
            p.check = moved(sub, dest, amt);
            Some(p)
        }
        Op::Sub1Withdraw | Op::Sub1WithdrawTok => {
            let subs: Vec<u32> = s.wl.roles.iter().filter(|r| r.sub1().is_some()).map(|r| r.id).collect();
            if subs.is_empty() || s.wl.legacy.is_some() {
                return None;
            }
            let target = w.target.unwrap_or(*c.rng.pick(&subs));
            let acting = pick_acting(c, s, op, w, target, 0)?;
            let (sub, _) = s.wl.role(target)?.sub1()?;
            let ctx = s.wl.role(acting).and_then(|r| proof_acct(&r.cred, false)).map(|m| m.key).unwrap_or(SYSTEM);
            let mut p;
            if op == Op::Sub1Withdraw {
                let bal = s.ch.lamports(&sub);
                if bal < rent_min(0) * 3 {
                    s.ch.set_lamports(sub, bal + 20_000_000);
                }
                let bal = s.ch.lamports(&sub);
                let amt = if w.hostile { bal + c.rng.range(1, 1000) } else { *c.rng.pick(&[bal, bal - rent_min(0), 1, c.rng.clone().range(1, bal - rent_min(0))]) };
                p = Plan::new(op, acting, withdraw1(&s.wl, payer, acting, sub, ctx, amt, None), format!("withdraw {} from V1 sub-account of role {}", amt, target));
                p.deny_if(w.hostile, "S04", "more than the balance");
                p.fr = Frame { may: vec![sub], wallet: true, free: true };
                p.check = moved(sub, s.wl.addr, amt);
            } else {
                let t = tok_pair(c, s, &sub, w.hostile);
                p = Plan::new(op, acting, withdraw1(&s.wl, payer, acting, sub, ctx, t.amount, Some((t.src, t.dst, t.prog))), format!("withdraw {} tokens from V1 sub-account of role {} {}", t.amount, target, t.why));
                let unused = t.why == "wrong token program" || (t.prog == memo_id() && s.ch.get(&t.src).owner != memo_id());
                p.deny_if(!t.why.is_empty() && !unused, "S04", t.why);
                if unused {
                    // the CPI goes to the program that owns the accounts, which must be present
                    p.open = true;
                }
                p.fr = Frame { may: vec![t.src, t.dst], wallet: false, free: true };
                p.check = tok_moved(t.src, t.dst, t.amount);
            }
            p.deny_if(!permitted(s, op, acting, target, 0), "S01", "not allowed to withdraw from this sub-account");
            Some(p)
        }
        Op::Sub2Create => {
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let n = s.wl.subs;
            let (mut st, mut sb) = sub2_state_pda(&s.wl.id, n);
            let (mut asst, mut ab) = sub2_asset_pda(&s.wl.id, n);
            let mut why = None;
            if w.hostile {
                let m = if n > 0 && c.rng.bool() { n - 1 } else { n + 1 + c.rng.below(2) as u32 };
                match c.rng.below(3) {
                    0 => {
                        (st, sb) = sub2_state_pda(&s.wl.id, m);
                        (asst, ab) = sub2_asset_pda(&s.wl.id, m);
                        why = Some("another id's addresses");
                    }
                    1 => {
                        (asst, ab) = sub2_asset_pda(&s.wl.id, m);
                        why = Some("another id's asset address");
                    }
                    _ => {
                        let k = near(c, &s.wl.id);
                        (st, sb) = sub2_state_pda(&k, n);
                        (asst, ab) = sub2_asset_pda(&k, n);
                        why = Some("another wallet's addresses");
                    }
                }
            } else if c.rng.chance(1, 4) {
                let k = *c.rng.pick(&[st, asst]);
                let l = s.ch.lamports(&k);
                s.ch.set_lamports(k, l + *c.rng.pick(&[1u64, 1_000_000, 50_000_000]));
            }
            let mut p = Plan::new(op, acting, create_sub2_raw(&s.wl, payer, acting, st, sb, asst, ab), format!("create V2 sub-account {} {}", n, why.unwrap_or("")));
            if let Some(y) = why {
                p.deny("S03", y);
                p.deny("S02", y);
            }
            p.deny_if(!permitted(s, op, acting, 0, 0), "S02", "no creation grant");
            p.deny_if(s.wl.legacy.is_some(), "S02", "wallet without wallet address");
            p.fr.may = vec![st, asst];
            // a role has room for 255 actions
            p.open = s.wl.role(acting).is_some_and(|r| r.acts.len() >= 255);
            p.apply = Box::new(move |wl, _| {
                wl.subs += 1;
                wl.sub2.push(Sub2 { id: n, state: st, sbump: sb, asset: asst, abump: ab, enabled: true });
                let r = wl.role_mut(acting).unwrap();
                if !r.has_id(V2ALL, n) {
                    r.acts.push(a_v2(V2ALL, n));
                }
            });
            p.check = Box::new(move |_, b| {
                let (x, y) = (b.get(&st), b.get(&asst));
                if x.lamports < rent_min(72) || y.lamports < rent_min(0) || y.owner != SYSTEM || !y.data.is_empty() {
                    return Err("the sub-account's accounts are not set up".into());
                }
                Ok(())
            });
            Some(p)
        }
        Op::Sub2Toggle => {
            if s.wl.sub2.is_empty() {
                return None;
            }
            let x = s.wl.sub2[c.rng.below(s.wl.sub2.len())].clone();
            let acting = pick_acting(c, s, op, w, 0, x.id)?;
            let on = c.rng.bool();
            let (mut st, mut sid, mut flag) = (x.state, x.id, on as u8);
            let mut why = None;
            if w.hostile {
                match c.rng.below(3) {
                    0 if s.wl.sub2.len() > 1 => {
                        let o = other_sub2(c, &s.wl, x.id).unwrap();
                        st = o.state;
                        why = Some("another sub-account's state");
                    }
                    1 if s.wl.sub2.len() > 1 => {
                        let o = other_sub2(c, &s.wl, x.id).unwrap();
                        sid = o.id;
                        why = Some("another sub-account's id");
                    }
                    _ => {
                        // a look-alike state account nobody derived
                        let k = near(c, &x.state);
                        let a = s.ch.get(&x.state);
                        s.ch.accts.insert(k, a);
                        st = k;
                        why = Some("a state account at another address");
                    }
                }
                let _ = &mut flag;
            }
            let mut p = Plan::new(op, acting, toggle2(&s.wl, payer, st, acting, sid, flag), format!("toggle V2 sub-account {} to {} {}", sid, on, why.unwrap_or("")));
            if let Some(y) = why {
                p.deny("S02", y);
                p.deny("S03", y);
            }
            p.deny_if(!permitted(s, op, acting, 0, x.id), "S02", "no toggle grant");
            p.fr.may = vec![st];
            let id = x.id;
            p.apply = Box::new(move |wl, _| wl.sub2.iter_mut().find(|y| y.id == id).unwrap().enabled = on);
            Some(p)
        }
        Op::Sub2Sign | Op::Sub2Withdraw | Op::Sub2WithdrawTok => {
            if s.wl.sub2.is_empty() {
                return None;
            }
            let x = s.wl.sub2[c.rng.below(s.wl.sub2.len())].clone();
            let acting = pick_acting(c, s, op, w, 0, x.id)?;
            let (mut st, mut asst, mut sid) = (x.state, x.asset, x.id);
            let mut why: Option<&'static str> = None;
            let swap = w.hostile && (op == Op::Sub2Sign || c.rng.bool());
            if swap {
                let o = other_sub2(c, &s.wl, x.id);
                match c.rng.below(5) {
                    4 => {
                        asst = if c.rng.bool() { s.wl.addr } else { near(c, &x.asset) };
                        why = Some("an account that is no sub-account");
                    }
                    0 if o.is_some() => {
                        asst = o.unwrap().asset;
                        why = Some("another sub-account's assets");
                    }
                    1 if o.is_some() => {
                        let o = o.unwrap();
                        asst = o.asset;
                        st = o.state;
                        why = Some("another sub-account's accounts");
                    }
                    2 if o.is_some() => {
                        sid = o.unwrap().id;
                        why = Some("another sub-account's id");
                    }
                    _ => {
                        let k = near(c, &x.state);
                        let a = s.ch.get(&x.state);
                        s.ch.accts.insert(k, a);
                        st = k;
                        why = Some("a state account at another address");
                    }
                }
            }
            for k in [asst, x.asset] {
                let bal = s.ch.lamports(&k);
                if bal < rent_min(0) * 3 {
                    s.ch.set_lamports(k, bal + 20_000_000);
                }
            }
            let bal = s.ch.lamports(&asst);
            let ctx = s.wl.role(acting).and_then(|r| proof_acct(&r.cred, false)).map(|m| m.key).unwrap_or(SYSTEM);
            let mut p;
            match op {
                Op::Sub2Sign => {
                    let dest = c.rng.key();
                    let low = !swap && c.rng.chance(1, 6);
                    let amt = if low { bal - c.rng.below(rent_min(0) as usize) as u64 * c.rng.below(2) as u64 } else { c.rng.range(rent_min(0), bal - rent_min(0)) };
                    let mut m0 = vec![rt::w(s.wl.key), r(st), rt::w(asst), r(SYSTEM)];
                    let ix = if swap && c.rng.bool() { Ix { program: memo_id(), accounts: vec![], data: vec![] } } else { sys_transfer(asst, dest, amt) };
                    let payload = compact_for(&mut m0, &[ix], &[asst]);
                    p = Plan::new(op, acting, sub_sign2(&s.wl, acting, sid, st, asst, &m0[4..], &payload), format!("V2 sub-account {} sends {} {}", sid, amt, why.unwrap_or("")));
                    p.deny_if(low, "S04", "below rent exemption");
                    p.fr = Frame { may: vec![asst, dest], wallet: false, free: true };
                    p.check = moved(asst, dest, amt);
                }
                Op::Sub2Withdraw => {
                    let over = w.hostile && !swap;
                    let amt = if over { bal + c.rng.range(1, 1000) } else { *c.rng.pick(&[bal, bal - rent_min(0), 1, c.rng.clone().range(1, bal - rent_min(0))]) };
                    p = Plan::new(op, acting, withdraw2(&s.wl, payer, acting, sid, st, asst, ctx, amt, None), format!("withdraw {} from V2 sub-account {} {}", amt, sid, why.unwrap_or("")));
                    p.deny_if(over, "S04", "more than the balance");
                    p.fr = Frame { may: vec![asst], wallet: true, free: true };
                    p.check = moved(asst, s.wl.addr, amt);
                }
                _ => {
                    let t = tok_pair(c, s, &asst, w.hostile && !swap);
                    p = Plan::new(op, acting, withdraw2(&s.wl, payer, acting, sid, st, asst, ctx, t.amount, Some((t.src, t.dst, t.prog))), format!("withdraw {} tokens from V2 sub-account {} {}{}", t.amount, sid, why.unwrap_or(""), t.why));
                    p.deny_if(!t.why.is_empty(), "S04", t.why);
                    p.fr = Frame { may: vec![t.src, t.dst], wallet: false, free: true };
                    p.check = tok_moved(t.src, t.dst, t.amount);
                }
            }
            if let Some(y) = why {
                p.deny("S02", y);
                p.deny("S03", y);
            }
            p.deny_if(!x.enabled, "S03", "the sub-account is disabled");
            p.deny_if(!permitted(s, op, acting, 0, x.id), "S02", "no grant for this sub-account and operation");
            Some(p)
        }
        Op::Transfer => {
            if s.wl.legacy.is_some() {
                return None;
            }
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let excess = *c.rng.pick(&[0u64, 1, 5_000_000]);
            let have = s.ch.lamports(&s.wl.key);
            s.ch.set_lamports(s.wl.key, have + excess);
            let mut toks = vec![];
            let mut moves = vec![];
            let mut stay = vec![];
            let mut why = None;
            let n = if c.rng.chance(1, 10) { *c.rng.pick(&[7usize, 9, 13, 17]) } else { c.rng.below(4) };
            let bad_at = c.rng.below(n.max(1));
            for i in 0..n {
                let prog = if c.rng.bool() { token_id() } else { token22_id() };
                let m = c.rng.key();
                s.mint_at(m, prog);
                let (a, b) = (c.rng.key(), c.rng.key());
                let x = c.rng.range(1, 1_000_000);
                let bad = w.hostile && i == bad_at;
                let (mut src_owner, mut dst_owner) = (s.wl.key, s.wl.addr);
                if bad {
                    if c.rng.bool() {
                        src_owner = near(c, &s.wl.key);
                        why = Some("a token account the wallet does not own");
                    } else {
                        dst_owner = near(c, &s.wl.addr);
                        why = Some("a destination outside the wallet");
                    }
                }
                let mut via = prog;
                let mut junk = false;
                if w.hostile && why.is_none() && c.rng.bool() {
                    junk = true;
                    why = Some("something that is no token transfer");
                    let like = near(c, &prog);
                    via = *c.rng.pick(&[memo_id(), SYSTEM, stake_id(), like]);
                }
                s.tok_acct(a, &m, &src_owner, x, prog);
                s.tok_acct(b, &m, &dst_owner, 5, prog);
                if w.hostile && c.rng.chance(1, 4) {
                    // an account too short for a token account comes first
                    let k = c.rng.key();
                    let n = *c.rng.pick(&[0usize, 1, 32, 64, 71]);
                    let mut d = s.ch.data(&a);
                    d.truncate(n);
                    let acct = Acct { lamports: rent_min(n), data: d, owner: prog, executable: false };
                    s.ch.accts.insert(k, acct);
                    toks.push((k, b, prog));
                    why = Some("something that is no token account");
                }
                toks.push((a, b, via));
                if bad || junk {
                    stay.push((a, b, x));
                } else {
                    moves.push((a, b, x));
                }
            }
            let mut base = transfer_assets(&s.wl, payer, acting, &toks);
            let elsewhere = w.hostile && (why.is_none() || c.rng.chance(1, 8));
            if elsewhere {
                base.metas[1].key = near(c, &s.wl.addr);
                why = Some("a wallet account of nobody");
            }
            let mut p = Plan::new(op, acting, base, format!("transfer assets, {} token accounts {}", toks.len(), why.unwrap_or("")));
            p.deny_if(elsewhere, "W02", "a wallet account of nobody");
            p.deny_if(!permitted(s, op, acting, 0, 0), "A04", "no permission");
            p.fr = Frame { may: moves.iter().chain(stay.iter()).flat_map(|x| [x.0, x.1]).collect(), wallet: true, free: true };
            p.open = why.is_some() && !elsewhere;
            for t in &toks {
                if !moves.iter().chain(stay.iter()).any(|x| x.0 == t.0) {
                    p.fr.may.push(t.0);
                }
            }
            let (k, a) = (s.wl.key, s.wl.addr);
            p.check = Box::new(move |x, y| {
                let kd = x.get(&k).data.len();
                let excess = x.lamports(&k).saturating_sub(rent_min(kd)) as i128;
                if delta(x, y, &k) != -excess || delta(x, y, &a) != excess {
                    return Err(format!("SOL above rent {} but {} left and {} arrived", excess, -delta(x, y, &k), delta(x, y, &a)));
                }
                for (f, t, n) in &moves {
                    if tok::amount(&y.data(f)) != 0 || tok::amount(&y.data(t)) != 5 + n {
                        return Err("token balance not moved in full".into());
                    }
                }
                for (f, t, n) in &stay {
                    if tok::amount(&y.data(f)) != *n || tok::amount(&y.data(t)) != 5 {
                        return Err("tokens moved that are not the wallet's or not to the wallet".into());
                    }
                }
                Ok(())
            });
            Some(p)
        }
        Op::CloseToken => {
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let prog = if c.rng.bool() { token_id() } else { token22_id() };
            let mint = c.rng.key();
            s.mint_at(mint, prog);
            let n = if c.rng.chance(1, 10) { *c.rng.pick(&[9usize, 17, 33]) } else { 1 + if c.rng.chance(1, 4) { c.rng.below(8) } else { c.rng.below(3) } };
            let mut ks = vec![];
            let bad_at = c.rng.below(n);
            let kind = c.rng.below(6);
            let mut why: Option<&'static str> = None;
            let mut dest = s.wl.claimer.unwrap_or(c.rng.key());
            let mut tprog = prog;
            for i in 0..n {
                let k = c.rng.key();
                let mut owner = if c.rng.bool() { s.wl.addr } else { s.wl.key };
                let mut amt = 0;
                let mut native = None;
                let mut oprog = prog;
                if c.rng.chance(1, 4) {
                    native = Some(rent_min(165));
                }
                if w.hostile && i == bad_at {
                    match kind {
                        0 => {
                            amt = *c.rng.pick(&[1, c.rng.clone().range(1, 1000), 1 << c.rng.clone().below(40)]);
                            why = Some("a token account that is not empty");
                        }
                        1 => {
                            owner = near(c, &owner);
                            why = Some("a token account the wallet does not control");
                        }
                        2 => {
                            oprog = if prog == token_id() { token22_id() } else { token_id() };
                            why = Some("a token account of another token program");
                        }
                        3 => {
                            if s.wl.claimer.is_some() {
                                dest = near(c, &dest);
                                why = Some("a destination that is not the rent claimer");
                            } else {
                                amt = 5;
                                native = Some(rent_min(165));
                                why = Some("a wrapped SOL account with a balance");
                            }
                        }
                        4 => {
                            tprog = s.pe;
                            if c.rng.bool() {
                                oprog = tprog;
                            }
                            why = Some("a program that is not a token program");
                        }
                        _ => why = Some("a wallet account of nobody"),
                    }
                }
                s.ch.accts.insert(
                    k,
                    Acct { lamports: rent_min(165) + if native.is_some() { amt } else { 0 }, data: tok::acct_data(&mint, &owner, amt, native), owner: oprog, executable: false },
                );
                ks.push(k);
            }
            let pa = s.wl.role(acting).and_then(|r| proof_acct(&r.cred, false));
            let mut base = close_token(&s.wl, dest, tprog, &[], 0, acting);
            if why.map_or(false, |y| y.contains("nobody")) {
                base.metas[1].key = near(c, &s.wl.addr);
            }
            if let Some(m) = pa {
                base.metas.push(m);
            }
            let off = base.metas.len() as u16;
            base.data[2..4].copy_from_slice(&off.to_le_bytes());
            base.payload = base.data.clone();
            for k in &ks {
                base.metas.push(rt::w(*k));
            }
            let mut p = Plan::new(op, acting, base, format!("close {} token accounts {}", n, why.unwrap_or("")));
            if let Some(y) = why {
                p.deny("W03", y);
                if y.contains("claimer") {
                    p.deny("W04", y);
                }
            }
            p.deny_if(!permitted(s, op, acting, 0, 0), "A04", "no permission to close");
            let mut may = ks.clone();
            may.push(dest);
            p.fr = Frame { may, wallet: false, free: true };
            p.check = Box::new(move |a, b| {
                let tot: i128 = ks.iter().map(|k| a.lamports(k) as i128).sum();
                if ks.iter().any(|k| b.exists(k) && b.lamports(k) > 0) {
                    return Err("a token account was not closed".into());
                }
                if delta(a, b, &dest) != tot {
                    return Err(format!("rent {} but the destination got {}", tot, delta(a, b, &dest)));
                }
                Ok(())
            });
            Some(p)
        }
        Op::CloseSwig => {
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let mut dest = s.wl.claimer.unwrap_or(c.rng.key());
            if !s.ch.exists(&dest) && c.rng.bool() {
                s.ch.set_lamports(dest, 1_000_000);
            }
            let mut why = None;
            // no more than the rent
            let ml = s.ch.get(&s.wl.key).data.len();
            s.ch.set_lamports(s.wl.key, rent_min(ml));
            s.ch.set_lamports(s.wl.addr, rent_min(0));
            if w.hostile {
                match c.rng.below(4) {
                    0 if s.wl.claimer.is_some() => {
                        dest = near(c, &dest);
                        why = Some("not the rent claimer");
                    }
                    3 => why = Some("a wallet account of nobody"),
                    1 => {
                        s.ch.set_lamports(s.wl.key, rent_min(ml) + c.rng.range(1, 10));
                        why = Some("config holds SOL");
                    }
                    _ => {
                        let x = *c.rng.pick(&[1u64, 2, 1_000_000]);
                        s.ch.set_lamports(s.wl.addr, rent_min(0) + x);
                        why = Some("wallet holds SOL");
                    }
                }
            }
            let mut base = close_swig(&s.wl, dest, acting);
            if why.map_or(false, |y| y.contains("nobody")) {
                base.metas[1].key = near(c, &s.wl.addr);
            }
            let mut p = Plan::new(op, acting, base, format!("close wallet {}", why.unwrap_or("")));
            if let Some(y) = why {
                p.deny("W03", y);
                if y.contains("claimer") {
                    p.deny("W04", y);
                }
            }
            p.deny_if(!permitted(s, op, acting, 0, 0), "A04", "no permission to close");
            p.fr = Frame { may: vec![dest], wallet: true, free: true };
            p.open = s.wl.legacy.is_some();
            p.apply = Box::new(move |wl, _| wl.closed = true);
            let (k, a) = (s.wl.key, s.wl.addr);
            p.check = Box::new(move |x, y| {
                let paid = x.lamports(&k) as i128 + x.lamports(&a) as i128 - rent_min(1) as i128;
                if y.lamports(&k) != rent_min(1) || y.lamports(&a) != 0 {
                    return Err(format!("config keeps {} and wallet {}", y.lamports(&k), y.lamports(&a)));
                }
                if y.get(&k).data != vec![255u8] {
                    return Err("the config account is not marked closed".into());
                }
                if delta(x, y, &dest) != paid {
                    return Err(format!("destination got {} instead of {}", delta(x, y, &dest), paid));
                }
                Ok(())
            });
            Some(p)
        }
        Op::Migrate => {
            let acting = pick_acting(c, s, op, w, 0, 0)?;
            let authority = s.payer;
            let (mut addr, mut bump) = (s.wl.addr, s.wl.abump);
            let mut why = None;
            if w.hostile {
                match c.rng.below(3) {
                    0 => {
                        let v = all_pdas(&[b"swig-wallet-address", &s.wl.key], &swig_id(), 3);
                        if v.len() > 1 {
                            addr = v[1].0;
                            bump = v[1].1;
                            why = Some("a non-canonical wallet address");
                        }
                    }
                    1 => {
                        let x = addr_pda(&c.rng.key());
                        addr = x.0;
                        bump = x.1;
                        why = Some("another wallet's address");
                    }
                    _ => {
                        bump = bump.wrapping_sub(1);
                        why = Some("a wrong bump");
                    }
                }
            }
            let mut p = Plan::new(op, acting, migrate(&s.wl, authority, payer, addr, bump, acting), format!("migrate {}", why.unwrap_or("")));
            if let Some(y) = why {
                p.deny("W02", y);
            }
            p.deny_if(s.wl.legacy.is_none(), "W02", "already in the new format");
            p.deny_if(!permitted(s, op, acting, 0, 0), "A04", "no permission to migrate");
            p.fr = Frame { may: vec![addr], wallet: true, free: false };
            let b = s.wl.abump;
            p.apply = Box::new(move |wl, _| {
                wl.legacy = None;
                wl.wbump = b;
                wl.subs = 0;
            });
            let a = s.wl.addr;
            p.check = Box::new(move |_, y| {
                let x = y.get(&a);
                if x.lamports < rent_min(0) || x.owner != SYSTEM || !x.data.is_empty() {
                    return Err("the wallet address is not a rent-exempt system account".into());
                }
                Ok(())
            });
            Some(p)
        }
    }
}
fn upd_name(u: &Upd) -> String {
    match u {
        Upd::ReplaceOld(a, n) => format!("replace-all(old, n={}) {}", n, hex(a)),
        Upd::Replace(a) => format!("replace-all {}", hex(a)),
        Upd::Add(a) => format!("add {}", hex(a)),
        Upd::RemoveTypes(t) => format!("remove types {:?}", t),
        Upd::RemoveIdx(t) => format!("remove indices {:?}", t),
        Upd::Raw(n, b) => format!("raw n={} {}", n, hex(b)),
    }
}
pub fn sys_transfer(from: Key, to: Key, amount: u64) -> Ix {
    Ix { program: SYSTEM, accounts: vec![ws(from), rt::w(to)], data: [&2u32.to_le_bytes()[..], &amount.to_le_bytes()].concat() }
}
fn moved(from: Key, to: Key, amt: u64) -> Check {
    Box::new(move |a, b| {
        if delta(a, b, &from) != -(amt as i128) || delta(a, b, &to) != amt as i128 {
            return Err(format!("{} lamports asked, {} left and {} arrived", amt, -delta(a, b, &from), delta(a, b, &to)));
        }
        Ok(())
    })
}
fn tok_moved(from: Key, to: Key, amt: u64) -> Check {
    Box::new(move |a, b| {
        let f = tok::amount(&a.data(&from)) as i128 - tok::amount(&b.data(&from)) as i128;
        let t = tok::amount(&b.data(&to)) as i128 - tok::amount(&a.data(&to)) as i128;
        if f != amt as i128 || t != amt as i128 {
            return Err(format!("{} tokens asked, {} left and {} arrived", amt, f, t));
        }
        Ok(())
    })
}
pub struct TokPair {
    pub src: Key,
    pub dst: Key,
    pub prog: Key,
    pub amount: u64,
    pub why: &'static str,
}
/// token accounts for a withdrawal of `owner` to the wallet
pub fn tok_pair(c: &mut Case, s: &mut Sim, owner: &Key, hostile: bool) -> TokPair {
    let prog = if c.rng.bool() { token_id() } else { token22_id() };
    let other = if prog == token_id() { token22_id() } else { token_id() };
    let m = c.rng.key();
    s.mint_at(m, prog);
    let (src, dst) = (c.rng.key(), c.rng.key());
    let have = c.rng.range(10, 1_000_000);
    let mut t = TokPair { src, dst, prog, amount: *c.rng.pick(&[have, 1, have / 2, 0]), why: "" };
    let mut dst_owner = s.wl.addr;
    let mut src_owner = *owner;
    let mut dprog = prog;
    let mut dmint = m;
    if hostile {
        match c.rng.below(8) {
            0 => {
                t.amount = have + c.rng.range(1, 100);
                t.why = "more than the balance";
            }
            1 => {
                dst_owner = near(c, &s.wl.addr);
                t.why = "a destination outside the wallet";
            }
            2 => {
                src_owner = near(c, owner);
                t.why = "a source the sub-account does not own";
            }
            3 => {
                dprog = other;
                t.why = "a destination of another token program";
            }
            4 => {
                dmint = near(c, &m);
                s.mint_at(dmint, prog);
                t.why = "a destination of another mint";
            }
            5 => {
                t.prog = other;
                t.why = "wrong token program";
            }
            6 => {
                t.prog = memo_id();
                t.why = "a program that is not a token program";
            }
            _ => {
                dst_owner = s.wl.key;
                t.why = "a destination owned by the config account";
            }
        }
    }
    let (mut sp, mut dp) = (prog, dprog);
    if t.prog == memo_id() && c.rng.bool() {
        // nothing here belongs to a token program
        (sp, dp) = (t.prog, t.prog);
    }
    s.tok_acct(src, &m, &src_owner, have, sp);
    s.tok_acct(dst, &dmint, &dst_owner, 3, dp);
    t
}

pub fn replacement_hash(swig: &Key, addr: &Key, acting: u32, target: u32, kind: u16, old: &[u8], new: &[u8]) -> [u8; 32] {
    sha256(&[b"swig-replace-authority-v1", swig, addr, &acting.to_le_bytes(), &target.to_le_bytes(), &kind.to_le_bytes(), old, new])
}
fn gen_replace(c: &mut Case, s: &mut Sim, w: &Want) -> Option<Plan> {
    let op = Op::Replace;
    let mut target = pick_target(c, s, w);
    if s.wl.role(target).is_some_and(|r| r.cred.kind >= PE) && c.rng.chance(2, 3) {
        target = pick_target(c, s, w);
    }
    let acting = pick_acting(c, s, op, w, target, 0)?;
    let tr = s.wl.role(target).cloned();
    let kind = tr.as_ref().map_or(ED, |r| r.cred.kind);
    let replaceable = kind < PE;
    let nk = if replaceable { kind } else { ED };
    let mut fresh = Cred::new(nk, &mut c.rng, &s.pe);
    if let (Some(r), true) = (&tr, replaceable) {
        fresh.max = r.cred.max;
    }
    fresh.sess = [0; 32];
    fresh.exp = 0;
    let stored_new: Vec<u8> = fresh.ident();
    let mut key = match nk {
        K1T | K1S if c.rng.bool() => fresh.k1.as_ref().unwrap().uncompressed()[1..].to_vec(),
        _ => stored_new.clone(),
    };
    let mut why: Option<&'static str> = None;
    let mut proof_why: Option<&'static str> = None;
    let mut new_for_proof = stored_new.clone();
    if w.hostile {
        match c.rng.below(3) {
            0 => {
                if let (Some(r), true) = (&tr, replaceable) {
                    key = r.cred.ident();
                    if let (Some(k), true) = (&r.cred.k1, c.rng.bool()) {
                        key = k.uncompressed()[1..].to_vec();
                    }
                    new_for_proof = r.cred.ident();
                    why = Some("the key it already has");
                }
            }
            1 => {
                let n = *c.rng.pick(&[0usize, 31, 32, 33, 34, 63, 64, 65]);
                let legal: &[usize] = match nk {
                    ED | EDS => &[32],
                    K1T | K1S => &[33, 64],
                    _ => &[33],
                };
                if !legal.contains(&n) {
                    key.resize(n, 2);
                    why = Some("a key of the wrong size");
                }
            }
            _ => proof_why = Some("?"),
        }
    }
    let actor = s.wl.role(acting).map(|r| r.cred.clone());
    if actor.as_ref().is_some_and(|a| a.kind == PE) {
        c.count(&format!("replacements_of_{}_by_program_exec", kind_name(kind)));
    }
    let second = s.wl.addr;
    let mut pre = None;
    let mut bad: Vec<(&'static str, String)> = vec![];
    if let Some(a) = &actor {
        if a.kind == PE {
            let old = tr.as_ref().map(|r| r.cred.ident()).unwrap_or(vec![0; 32]);
            let (mut sw, mut ad, mut ac, mut ta, mut ki, mut o, mut ne) = (s.wl.key, s.wl.addr, acting, target, kind, old, new_for_proof.clone());
            let mut tail = vec![];
            let mut head = *b"rplauth1";
            if proof_why.is_some() {
                proof_why = Some(match c.rng.below(10) {
                    0 => {
                        sw = near(c, &sw);
                        "another wallet"
                    }
                    1 => {
                        ad = near(c, &ad);
                        "another wallet address"
                    }
                    2 => {
                        ac = ac.wrapping_add(1);
                        "another acting role"
                    }
                    3 => {
                        ta = ta.wrapping_add(1);
                        "another target role"
                    }
                    4 => {
                        ki += 1;
                        "another authority type"
                    }
                    5 => {
                        let n = o.len() - 1;
                        o[n] ^= 1;
                        "another current key"
                    }
                    6 => {
                        let n = ne.len() - 1;
                        ne[n] ^= 1;
                        "another new key"
                    }
                    7 => {
                        tail = vec![0];
                        "trailing bytes"
                    }
                    8 => {
                        head = *b"rplauth2";
                        "another proof tag"
                    }
                    _ => {
                        tail = vec![9];
                        "a short proof"
                    }
                });
            }
            let mut d = head.to_vec();
            d.extend_from_slice(&replacement_hash(&sw, &ad, ac, ta, ki, &o, &ne));
            if tail == [9] {
                d.pop();
            } else {
                d.extend_from_slice(&tail);
            }
            if d.len() < a.prefix.len() || d[..a.prefix.len()] != a.prefix[..] {
                if c.rng.bool() {
                    // authenticate at least
                    d = a.prefix.clone();
                }
                bad.push(("A07", "a program-exec actor without a replacement proof".into()));
            }
            pre = Some(d);
            if let Some(x) = proof_why {
                bad.push(("A07", format!("a proof for {}", x)));
            }
        }
    }
    let mut p = Plan::new(op, acting, replace(&s.wl, second, s.payer, acting, target, &key), format!("replace key of role {} ({}) {}{}", target, kind_name(kind), why.unwrap_or(""), bad.first().map(|x| x.1.clone()).unwrap_or_default()));
    p.pre = pre;
    p.bad = bad;
    if let Some(y) = why {
        p.deny("A07", y);
    }
    p.deny_if(tr.is_none(), "A07", "no such role");
    p.deny_if(!replaceable, "A07", "only Ed25519 and secp roles have a replaceable key");
    p.deny_if(!permitted(s, op, acting, target, 0), "A04", "no permission to replace");
    if !permitted(s, op, acting, target, 0) {
        p.deny("A07", "no grant naming this role");
    }
    p.apply = Box::new(move |wl, _| wl.role_mut(target).unwrap().cred = fresh);
    Some(p)
}

// ------------------------------------------------------------- execution
/// the proof transaction of a plan
pub fn proof_of(s: &Sim, p: &Plan) -> Tx {
    match s.wl.role(p.acting) {
        Some(r) => {
            if p.main || !r.cred.session() {
                let o = SigOpts { slot: s.ch.slot, counter: r.cred.odo.wrapping_add(1), prefix: vec![], webauthn: None, pre: p.pre.clone() };
                main_proof_opt(&p.base, &r.cred, &o)
            } else {
                session_proof(&p.base, r.cred.sess)
            }
        }
        None => session_proof(&p.base, s.payer),
    }
}
/// Executes a plan in lockstep. Returns whether it was accepted.
pub fn run(c: &mut Case, s: &mut Sim, p: Plan) -> bool {
    let tx = proof_of(s, &p);
    run_tx(c, s, p, &tx)
}
pub fn run_tx(c: &mut Case, s: &mut Sim, p: Plan, tx: &Tx) -> bool {
    let name = format!("{:?}", p.op);
    s.fund_all(tx);
    let before = s.ch.clone();
    let o = s.exec(c, tx);
    c.log(format!("slot {} role {}: {} -> {}{}", before.slot, p.acting, p.desc, if o.ok { "ok" } else { "refused " }, if o.ok { "" } else { &o.err }));
    c.count(&format!("{}_{}", name, if o.ok { "ok" } else { "refused" }));
    let me = c.cfg.prop.clone();
    if p.props.contains(&me.as_str()) || p.bad.iter().any(|b| b.0 == me) || matches!(me.as_str(), "A01" | "A02" | "A03" | "W04" | "A05" | "A04") {
        let k = s.wl.role(p.acting).map_or("none", |r| kind_name(r.cred.kind));
        let why: Vec<String> = p.bad.iter().map(|b| b.1.chars().filter(|x| !x.is_ascii_digit()).collect()).collect();
        c.eval(&format!("{} {} {} {}", name, k, p.main, why.join(";")));
        let d = c.hist.last().cloned().unwrap_or_default();
        if c.rng.clone().chance(1, 40) {
            c.sample(|| d);
        }
    } else {
        c.trivial();
    }
    if !o.ok {
        if s.ch.accts != before.accts {
            let mut pr = p.props.clone();
            pr.push("C01");
            c.diverge(&pr, format!("residue:{}", name), "a failed transaction changed accounts");
            return false;
        }
        if p.bad.is_empty() && !p.open {
            let mut pr = p.props.clone();
            pr.push("A01");
            if p.main || s.cred_opt(p.acting).map_or(false, |x| !x.session()) {
                pr.push("A02");
            } else {
                pr.push("A03");
            }
            pr.push(perm_prop(p.op));
            c.diverge(&pr, format!("refused:{}", name), format!("legal step refused: {} ({})", p.desc, o.err));
        }
        return false;
    }
    if !p.bad.is_empty() && !p.open {
        let pr: Vec<&str> = p.bad.iter().map(|x| x.0).collect();
        let y: Vec<&str> = p.bad.iter().map(|x| x.1.as_str()).collect();
        c.diverge(&pr, format!("accepted:{}", name), format!("accepted although it must be refused ({}): {}", y.join("; "), p.desc));
        return true;
    }
    if let Some(r) = s.wl.role_mut(p.acting) {
        if r.cred.secp() && (p.main || !r.cred.session()) {
            r.cred.odo = r.cred.odo.wrapping_add(1);
        }
    }
    if p.open && !p.bad.is_empty() {
        // outcome unspecified: adopt nothing further
        c.dead = true;
        return true;
    }
    (p.apply)(&mut s.wl, &mut s.ch);
    if let Err(e) = s.wl.check(&s.ch) {
        let mut pr = p.props.clone();
        pr.extend(STATE_PROPS);
        pr.push("W04");
        if e.contains("role") {
            pr.extend(["A02", "A06", "A07"]);
        }
        c.diverge(&pr, format!("state:{}", name), format!("after {}: {}", p.desc, e));
        return true;
    }
    s.frame(c, &name, &before, &p.fr, &p.props);
    if c.dead {
        return true;
    }
    if let Err(e) = (p.check)(&before, &s.ch) {
        c.diverge(&p.props, format!("effect:{}", name), format!("after {}: {}", p.desc, e));
    }
    true
}
/// makes sure a session role can act: opens a session when it has none
pub fn ensure_live(c: &mut Case, s: &mut Sim, role: u32) -> bool {
    if auth_live(s, role, false) {
        return true;
    }
    let Some(r) = s.wl.role(role) else { return false };
    if !r.cred.session() {
        return true;
    }
    let w = Want { acting: Some(role), ..Default::default() };
    if let Some(p) = gen(c, s, Op::Session, &w) {
        run(c, s, p);
    }
    !c.dead && auth_live(s, role, false)
}
