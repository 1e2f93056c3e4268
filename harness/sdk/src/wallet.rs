//! Histories of the SDK's wallet object: each method must do on chain exactly
//! what the operation it stands for does, report failure exactly when nothing
//! happened, and keep what it remembers of its role in step with the account.
use crate::net::{compiled, Net, Shared};
use crate::perms;
use crate::reading::{expected, sorted};
use crate::roles::{apart, norm_perm, role_of, KINDS7};
use crate::stored;
use checks::client::*;
use checks::enc::*;
use checks::model::*;
use checks::plan::tok_pair;
use checks::report::*;
use checks::util::*;
use checks::world::*;
use rt::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::message::AddressLookupTableAccount;
use solana_sdk::signature::{Keypair, Signer};
use std::cell::RefCell;
use std::rc::Rc;
use swig_sdk::client_role::*;
use swig_sdk::types::UpdateAuthorityData;
use swig_sdk::{SwigError, SwigWallet};

/// a role of this history that the wallet object can act for
#[derive(Clone)]
struct Held {
    id: u32,
    cred: Cred,
    prefixed: bool,
}
type Pre = Rc<RefCell<Instruction>>;
fn client(h: &Held, pre: &Pre) -> Box<dyn ClientRole> {
    if h.cred.kind == PE {
        let p = pre.clone();
        return Box::new(ProgramExecClientRole::new(pk(&h.cred.prog), h.cred.prefix.clone(), move || p.borrow().clone()));
    }
    role_of(&h.cred, h.prefixed, &pre.borrow())
}
struct Ring(Vec<Keypair>);
impl Ring {
    fn key(&self, i: usize) -> Key {
        self.0[i].pubkey().to_bytes()
    }
    fn of(&self, k: &Key) -> Option<&Keypair> {
        self.0.iter().find(|x| x.pubkey().to_bytes() == *k)
    }
}
/// the key pair the wallet object is given beside the fee payer's
fn pair<'a>(ring: &'a Ring, x: &Cred, main: bool) -> Option<&'a Keypair> {
    match x.kind {
        ED => ring.of(&x.ed),
        EDS if main => ring.of(&x.ed),
        EDS | K1S | R1S => ring.of(&x.sess),
        _ => None,
    }
}
struct Hist<'a> {
    s: Sim,
    net: Shared,
    q: SwigWallet<'a>,
    held: Vec<Held>,
    me: usize,
    pre: Pre,
    /// a role of someone else's with a V1 sub-account
    foreign: Option<u32>,
}
impl Hist<'_> {
    fn stored(&self) -> Option<stored::Stored> {
        stored::read(&self.net.0.borrow().ch.data(&self.s.wl.key))
    }
    /// the model's copy of what an encoder needs, from the account
    fn pull(&mut self) {
        self.s.ch = self.net.0.borrow().ch.clone();
        let Some(st) = self.stored() else { return };
        self.s.wl.counter = st.counter;
        self.s.wl.subs = st.subs;
        for h in &mut self.held {
            if let Some(r) = st.roles.iter().find(|r| r.id == h.id) {
                h.cred.odo = r.odo().unwrap_or(0);
            }
        }
    }
    fn push(&mut self) {
        self.net.0.borrow_mut().ch = self.s.ch.clone();
    }
    /// what the wallet object remembers against the account
    fn in_step(&mut self, c: &mut Case, after: &str) {
        let Some(st) = self.stored() else { return };
        let h = &self.held[self.me];
        let Some(r) = st.roles.iter().find(|r| r.id == h.id) else { return };
        c.count("cache_reads");
        let cur = &self.q.current_role;
        let mut bad: Vec<(&str, String)> = vec![];
        if self.q.get_current_role_id().ok() != Some(r.id) || cur.role_id != r.id {
            bad.push(("role", format!("{:?} {}", self.q.get_current_role_id(), cur.role_id)));
        }
        if cur.authority_type as u16 != r.kind || cur.session_based != r.session() {
            bad.push(("type", format!("{:?}", cur.authority_type)));
        }
        if r.kind != PE && cur.authority_identity != r.ident() {
            bad.push(("identity", format!("{:?}", cur.authority_identity)));
        }
        let want = sorted(&expected(&r.acts));
        if sorted(&cur.permissions) != want {
            bad.push(("permissions", format!("{:?}, the account {want:?}", cur.permissions)));
        }
        if let Some(o) = r.odo() {
            if self.q.get_odometer().ok() != Some(o) {
                bad.push(("odometer", format!("{:?}, the account {o}", self.q.get_odometer())));
            }
        }
        for (k, t) in bad {
            c.violate(format!("memory:{k}:{after}:{}", kind_name(r.kind)), format!("after {after} the wallet remembers {k} {t}"));
        }
    }
}
const NAMES: [&str; 21] = [
    "add_authority",
    "remove_authority",
    "update_authority",
    "sign_v2",
    "create_session",
    "create_sub_account",
    "sign_with_sub_account",
    "withdraw_from_sub_account",
    "withdraw_token_from_sub_account",
    "toggle_sub_account",
    "set_rent_claimer",
    "create_sub_account_v2",
    "sign_with_sub_account_v2",
    "withdraw_from_sub_account_v2",
    "withdraw_token_from_sub_account_v2",
    "toggle_sub_account_v2",
    "switch_authority",
    "switch_payer",
    "reopen",
    "refresh_permissions",
    "sign_v2_many",
];
fn open<'a>(h: &Held, pre: &Pre, id: Key, fee: &'a Keypair, ring: &'a Ring) -> Result<SwigWallet<'a>, SwigError> {
    SwigWallet::new(id, client(h, pre), fee, "http://localhost".into(), pair(ring, &h.cred, false))
}
fn some_cred(c: &mut Case, s: &Sim, ring: &Ring, n: usize) -> Cred {
    let mut x = Cred::new(*c.rng.pick(&KINDS7), &mut c.rng, &s.pe);
    if matches!(x.kind, ED | EDS) {
        x.ed = ring.key(n);
    }
    if x.session() {
        x.max = c.rng.range(50, 5000);
        x.sess = ring.key(2);
    }
    x
}
pub fn history(c: &mut Case) {
    let kind = KINDS7[c.case as usize % 7];
    let ring = Ring((0..16).map(|_| Keypair::new_from_array(c.rng.key())).collect());
    // the fee payer may be the authority
    let own_fee = kind == ED && c.rng.chance(1, 4);
    let keys = [ring.key(if own_fee { 1 } else { 0 }), ring.key(1), ring.key(2)];
    let pre: Pre = Rc::new(RefCell::new(Instruction { program_id: Pubkey::default(), accounts: vec![], data: vec![] }));
    let existing = (c.case / 7) % 2 == 1;
    let fee = ring.of(&keys[0]).unwrap();
    let prefixed = c.rng.bool();
    let mut foreign = None;
    let (mut s, held, net) = if existing {
        let Some(mut w) = setup_keyed(c, kind, Some(keys)) else { return };
        if c.rng.chance(1, 3) {
            foreign = others_sub1(c, &mut w).map(|x| x.1);
            if c.dead {
                return;
            }
        }
        let net = Shared(Rc::new(RefCell::new(Net::new(w.s.ch.clone()))));
        let held = Held { id: w.me, cred: w.s.cred(w.me), prefixed };
        (w.s, held, net)
    } else {
        let mut s = fresh(c);
        s.payer = keys[0];
        s.ch.fund(keys[0], 1_000_000_000_000);
        let mut x = Cred::new(kind, &mut c.rng, &s.pe);
        if matches!(kind, ED | EDS) {
            x.ed = keys[1];
        }
        if x.session() {
            x.max = c.rng.range(100, 5000);
            x.sess = keys[2];
        }
        x.long = true;
        let net = Shared(Rc::new(RefCell::new(Net::new(s.ch.clone()))));
        (s, Held { id: 0, cred: x, prefixed }, net)
    };
    solana_client::install(Some(Box::new(net.clone())));
    let q = open(&held, &pre, s.wl.id, fee, &ring);
    c.eval(&format!("open {} {}", kind_name(kind), existing));
    c.log(format!("{} a wallet as role {} {:?}", if existing { "open" } else { "create" }, held.id, held.cred));
    let q = match q {
        Ok(q) => q,
        Err(e) => {
            c.violate(format!("open:{}", kind_name(kind)), format!("the wallet cannot be {}: {e}", if existing { "opened" } else { "created" }));
            return;
        }
    };
    if !existing {
        let mut a = s.ch.clone();
        let mine = create(&s.wl, &held.cred, &[a_all()], s.payer);
        let o = a.exec(&[mine]);
        a.accts.remove(&ixs_sysvar_id());
        if !o.ok {
            c.diverge(&["A01"], "reference", format!("the reference creation was refused: {}", o.err));
            return;
        }
        if a.accts != net.0.borrow().ch.accts {
            c.violate(format!("state:new:{}", kind_name(kind)), "creating a wallet leaves other accounts than the instruction it stands for");
            return;
        }
        let wa = s.wl.addr;
        net.0.borrow_mut().ch.fund(wa, 10_000_000_000);
    } else if !net.0.borrow().sent.is_empty() {
        c.violate("open:sent", "opening an existing wallet sent a transaction");
        return;
    }
    if !existing {
        s.wl.roles = vec![Role { id: 0, cred: held.cred.clone(), acts: vec![a_all()] }];
    }
    let mut h = Hist { s, net, q, held: vec![held], me: 0, pre, foreign };
    h.pull();
    h.in_step(c, "new");
    let n = 3 + c.rng.below(12);
    let mut next = 4;
    for i in 0..n {
        if c.dead {
            return;
        }
        let mut op = c.rng.below(NAMES.len());
        if c.rng.chance(1, 6) {
            // what other operations build on
            op = *c.rng.pick(&[0, 5, 9, 11, 16]);
        }
        if i == 0 && h.held[0].cred.session() && !existing {
            op = 4;
        }
        step(c, &mut h, &ring, op, &mut next);
        h.pull();
    }
    c.sample(|| format!("{} operations of a {} wallet", n, kind_name(kind)));
}
fn step<'a>(c: &mut Case, h: &mut Hist<'a>, ring: &'a Ring, op: usize, next: &mut usize) {
    let name = NAMES[op];
    let me = h.held[h.me].clone();
    let cred = me.cred.clone();
    let kn = kind_name(cred.kind);
    let slot_on = c.rng.below(4) as u64;
    h.s.ch.slot += if c.rng.chance(1, 12) { c.rng.below(3000) as u64 } else { slot_on };
    let slot = h.s.ch.slot;
    let wl = h.s.wl.clone();
    let payer = h.s.payer;
    // a role this history did not create may be named too
    let sent = |h: &Hist| h.net.0.borrow().sent.len();
    match op {
        16 => {
            // to any role it holds, itself included, or to one that is gone
            let i = c.rng.below(h.held.len());
            let to = h.held[i].clone();
            let there = h.stored().map(|s| s.roles.iter().any(|r| r.id == to.id)).unwrap_or(false);
            let role = client(&to, &h.pre);
            h.push();
            let before = sent(h);
            let r = h.q.switch_authority(to.id, role, pair(ring, &to.cred, false));
            c.eval(&format!("{name} {} {there}", kind_name(to.cred.kind)));
            c.log(format!("switch to role {} {:?}: {:?}", to.id, to.cred, r.as_ref().err()));
            if r.is_ok() != there || sent(h) != before {
                c.violate(format!("accept:{name}:{}", kind_name(to.cred.kind)), format!("switching to role {} that is {} : {:?}", to.id, if there { "there" } else { "gone" }, r.err()));
                return;
            }
            if there {
                h.me = i;
                h.in_step(c, name);
            } else {
                // an object pointed at nothing: back to the one before
                let role = client(&me, &h.pre);
                if let Err(e) = h.q.switch_authority(me.id, role, pair(ring, &cred, false)) {
                    c.violate(format!("accept:{name}:back"), format!("{e}"));
                }
            }
            return;
        }
        17 => {
            let k = [ring.key(0), ring.key(1), ring.key(3)];
            let p = *c.rng.pick(&k);
            h.s.ch.fund(p, 1_000_000_000_000);
            h.s.payer = p;
            h.push();
            let r = h.q.switch_payer(ring.of(&p).unwrap());
            c.eval(name);
            c.log(format!("switch the fee payer to {}", short(&p)));
            if r.is_err() || h.q.get_fee_payer().to_bytes() != p {
                c.violate("payer", format!("after switch_payer: {:?}", h.q.get_fee_payer()));
            }
            return;
        }
        18 => {
            let st = h.stored();
            let there = st.map(|s| s.roles.iter().any(|r| r.id == me.id)).unwrap_or(false);
            h.push();
            let before = sent(h);
            let r = open(&me, &h.pre, wl.id, ring.of(&payer).unwrap(), ring);
            c.eval(&format!("{name} {kn}"));
            c.log(format!("open again as role {}: {:?}", me.id, r.as_ref().err()));
            if sent(h) != before {
                c.violate("open:sent", "opening an existing wallet sent a transaction");
                return;
            }
            match r {
                Ok(q) if there => {
                    h.q = q;
                    h.in_step(c, name);
                }
                Err(_) if !there => {}
                r => c.violate(format!("open:{kn}"), format!("opening the wallet as role {}: {:?}", me.id, r.err())),
            }
            return;
        }
        _ => {}
    }
    let main = op == 4 || !cred.session();
    let ctx = proof_acct(&cred, main).map(|m| m.key).unwrap_or(SYSTEM);
    let sub1 = sub1_pda(&wl.id, me.id).0;
    let (sid, st2, asset) = {
        let sid = if wl.subs > 0 && c.rng.chance(7, 8) { wl.subs - 1 - (c.rng.below(2) as u32).min(wl.subs - 1) } else { c.rng.below(1000) as u32 };
        (sid, sub2_state_pda(&wl.id, sid).0, sub2_asset_pda(&wl.id, sid).0)
    };
    if (6..=8).contains(&op) && h.s.ch.accts.contains_key(&sub1) {
        h.s.ch.fund(sub1, 5_000_000_000);
    }
    if (12..=14).contains(&op) && h.s.ch.accts.contains_key(&asset) {
        h.s.ch.fund(asset, 5_000_000_000);
    }
    let second = match op {
        6 => sub1,
        3 | 19 | 20 => wl.addr,
        _ => payer,
    };
    let mut pre_data = cred.prefix.clone();
    let extra = c.rng.below(3);
    pre_data.extend(c.rng.bytes(extra));
    *h.pre.borrow_mut() = Instruction {
        program_id: pk(&cred.prog),
        accounts: vec![AccountMeta::new_readonly(pk(&wl.key), false), AccountMeta::new_readonly(pk(&second), false)],
        data: pre_data.clone(),
    };
    let no_pe = cred.kind == PE && (op == 10 || (11..=15).contains(&op));
    // what is asked, by the reference and through the object
    enum Ask {
        Add(Cred, Vec<swig_sdk::types::Permission>),
        Remove(Vec<u8>),
        Update(u32, UpdateAuthorityData),
        Sign(Vec<Ix>, Option<AddressLookupTableAccount>),
        Session(Key, u64),
        Make1,
        Sign1(Vec<Ix>),
        Take1(u64),
        Tok1(Key, Key, Key, u64),
        Toggle1(Key, u32, bool),
        Claimer(Key),
        Make2,
        Sign2(Vec<Ix>),
        Take2(u64),
        Tok2(Key, Key, Key, u64),
        Toggle2(bool),
        Refresh,
    }
    let alt = |c: &mut Case, h: &Hist, ixs: &[Ix]| -> Option<AddressLookupTableAccount> {
        if !c.rng.chance(1, 3) {
            return None;
        }
        let mut ks: Vec<Key> = ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.key)).collect();
        ks.push(c.rng.key());
        ks.push(c.rng.key());
        c.rng.shuffle(&mut ks);
        let k = c.rng.key();
        h.net.0.borrow_mut().tables.insert(k, ks.clone());
        Some(AddressLookupTableAccount { key: pk(&k), addresses: ks.iter().map(pk).collect() })
    };
    let mut added = None;
    let (desc, bases, ask): (String, Vec<Base>, Ask) = match op {
        0 => {
            let nc = some_cred(c, &h.s, ring, (*next).min(15));
            *next += 1;
            let n = 1 + c.rng.below(4);
            let (mut acts, mut ps) = perms::some(c, &h.s, wl.counter, n, &[]);
            if c.rng.bool() && !acts.iter().any(|a| a.kind == ALL) {
                acts.push(a_all());
                ps.push(swig_sdk::types::Permission::All);
            }
            if c.rng.bool() && !acts.iter().any(|a| a.kind == SUB) {
                let a = perms::norm(&a_sub(wl.counter, &wl.id)).unwrap();
                ps.extend(perms::perm(&a));
                acts.push(a);
            }
            if c.rng.chance(1, 4) && !acts.iter().any(|a| a.kind == V2CREATE) {
                acts.push(a_mark(V2CREATE));
                ps.push(swig_sdk::types::Permission::SubAccountV2Create);
            }
            added = Some(Held { id: wl.counter, cred: nc.clone(), prefixed: false });
            (format!("add {:?} {}", nc, show(&acts)), vec![add(&wl, payer, me.id, &nc, &acts)], Ask::Add(nc, ps))
        }
        1 => {
            let others: Vec<&Held> = h.held.iter().filter(|x| x.id != me.id).collect();
            if others.is_empty() || c.rng.chance(1, 8) {
                // nobody by that name: refused before anything is sent
                let k = c.rng.key().to_vec();
                (format!("remove a stranger"), vec![], Ask::Remove(k))
            } else {
                let t = others[c.rng.below(others.len())].clone();
                let there = h.stored().map(|s| s.roles.iter().any(|r| r.id == t.id)).unwrap_or(false);
                let b = if there { vec![remove(&wl, payer, me.id, t.id, if main { proof_len(&cred) } else { 1 })] } else { vec![] };
                (format!("remove role {}", t.id), b, Ask::Remove(t.cred.lookup()))
            }
        }
        2 => {
            let t = if c.rng.chance(1, 8) { c.rng.below(300) as u32 } else { h.held[c.rng.below(h.held.len())].id };
            let have: Vec<Act> = h
                .stored()
                .and_then(|s| s.roles.iter().find(|r| r.id == t).map(|r| r.acts.iter().map(|(k, d)| Act { kind: *k, data: d.clone() }).collect()))
                .unwrap_or_default();
            let n = 1 + c.rng.below(3);
            let (mut acts, mut ps) = perms::some(c, &h.s, t, n, &have);
            let (u, d) = match c.rng.below(4) {
                0 => {
                    if !acts.iter().any(|a| a.kind == ALL) && c.rng.chance(3, 4) {
                        acts.push(a_all());
                        ps.push(swig_sdk::types::Permission::All);
                    }
                    (Upd::Replace(acts_stored(&acts)), UpdateAuthorityData::ReplaceAll(ps))
                }
                1 => (Upd::Add(acts_stored(&acts)), UpdateAuthorityData::AddActions(ps)),
                2 => {
                    let mut t: Vec<Act> = have.iter().filter(|a| a.kind != ALL && norm_perm(a).is_some()).take(2).cloned().collect();
                    t.dedup_by_key(|a| a.kind);
                    if t.is_empty() {
                        t.push(a_mark(STKALL));
                    }
                    let kinds = t.iter().map(|a| a.kind as u8).collect();
                    let p = t.iter().filter_map(norm_perm).collect();
                    (Upd::RemoveTypes(kinds), UpdateAuthorityData::RemoveActionsByType(p))
                }
                _ => {
                    let n = c.rng.below(have.len().max(1)) as u16;
                    let t = if c.rng.bool() { vec![n] } else { vec![n, n + 1] };
                    (Upd::RemoveIdx(t.clone()), UpdateAuthorityData::RemoveActionsByIndex(t))
                }
            };
            (format!("update role {t} {:?}", u), vec![update(&wl, payer, me.id, t, &u)], Ask::Update(t, d))
        }
        3 | 20 => {
            let mut ixs = apart(c, &mut h.s, wl.addr);
            if op == 3 {
                ixs.truncate(1);
            }
            let t = alt(c, h, &ixs);
            (
                format!("sign {} instructions{}", ixs.len(), if t.is_some() { " with a table" } else { "" }),
                ixs.iter().map(|i| sign_ixs(&wl, me.id, &[i.clone()])).collect(),
                Ask::Sign(ixs, t),
            )
        }
        4 => {
            let sk = ring.key(8 + c.rng.below(8));
            let dur = if c.rng.chance(1, 6) { cred.max.wrapping_add(1 + c.rng.below(5) as u64) } else { c.rng.range(20, cred.max.max(21)) };
            if cred.kind == EDS {
                // sessions are opened by the main key
                let role = client(&me, &h.pre);
                h.push();
                if let Err(e) = h.q.switch_authority(me.id, role, pair(ring, &cred, true)) {
                    if h.stored().map(|s| s.roles.iter().any(|r| r.id == me.id)).unwrap_or(false) {
                        c.violate("accept:switch_authority:main", format!("{e}"));
                        return;
                    }
                }
            }
            (format!("session of {dur} of {}", cred.max), vec![create_session(&wl, payer, me.id, dur, &sk)], Ask::Session(sk, dur))
        }
        5 => {
            let (sub, bump) = sub1_pda(&wl.id, me.id);
            ("create a V1 sub-account".into(), vec![create_sub1(&wl, payer, me.id, sub, bump)], Ask::Make1)
        }
        6 => {
            let ixs = apart(c, &mut h.s, sub1);
            let mut metas = vec![w_(wl.key), w_(sub1), r(SYSTEM)];
            let payload = compact_for(&mut metas, &ixs, &[sub1]);
            (format!("sign {} instructions for the V1 sub-account", ixs.len()), vec![sub_sign1(&wl, me.id, sub1, &metas[3..], &payload)], Ask::Sign1(ixs))
        }
        7 => {
            let amt = c.rng.range(1, 6_000_000_000);
            (format!("withdraw {amt} from the V1 sub-account"), vec![withdraw1(&wl, payer, me.id, sub1, ctx, amt, None)], Ask::Take1(amt))
        }
        8 => {
            let t = tok_pair(c, &mut h.s, &sub1, false);
            let amt = if c.rng.chance(1, 6) { t.amount.wrapping_add(1_000_000) } else { t.amount };
            (
                format!("withdraw {amt} tokens from the V1 sub-account"),
                vec![withdraw1(&wl, payer, me.id, sub1, ctx, amt, Some((t.src, t.dst, t.prog)))],
                Ask::Tok1(t.src, t.dst, t.prog, amt),
            )
        }
        9 => {
            let on = c.rng.bool();
            let made: Vec<u32> = h.held.iter().map(|x| x.id).chain(h.foreign).filter(|i| h.s.ch.accts.contains_key(&sub1_pda(&wl.id, *i).0)).collect();
            let owner = h.held[c.rng.below(h.held.len())].id;
            let owner = if made.is_empty() || c.rng.chance(1, 6) { owner } else { *c.rng.pick(&made) };
            if owner != me.id && made.contains(&owner) {
                c.count("others_toggled");
            }
            let sub = sub1_pda(&wl.id, owner).0;
            (format!("toggle the V1 sub-account of role {owner} {on}"), vec![toggle1(&wl, payer, sub, owner, me.id, on as u8)], Ask::Toggle1(sub, owner, on))
        }
        10 => {
            let cl = c.rng.key();
            ("set the rent claimer".into(), vec![set_claimer(&wl, payer, me.id, &cl)], Ask::Claimer(cl))
        }
        11 => ("create a V2 sub-account".into(), vec![create_sub2(&wl, payer, me.id)], Ask::Make2),
        12 => {
            let ixs = apart(c, &mut h.s, asset);
            let mut metas = vec![w_(wl.key), r(st2), w_(asset), r(SYSTEM)];
            let payload = compact_for(&mut metas, &ixs, &[asset]);
            (
                format!("sign {} instructions for V2 sub-account {sid}", ixs.len()),
                vec![sub_sign2(&wl, me.id, sid, st2, asset, &metas[4..], &payload)],
                Ask::Sign2(ixs),
            )
        }
        13 => {
            let amt = c.rng.range(1, 6_000_000_000);
            (format!("withdraw {amt} from V2 sub-account {sid}"), vec![withdraw2(&wl, payer, me.id, sid, st2, asset, ctx, amt, None)], Ask::Take2(amt))
        }
        14 => {
            let t = tok_pair(c, &mut h.s, &asset, false);
            let amt = t.amount;
            (
                format!("withdraw {amt} tokens from V2 sub-account {sid}"),
                vec![withdraw2(&wl, payer, me.id, sid, st2, asset, ctx, amt, Some((t.src, t.dst, t.prog)))],
                Ask::Tok2(t.src, t.dst, t.prog, amt),
            )
        }
        15 => {
            let on = c.rng.bool();
            (format!("toggle V2 sub-account {sid} {on}"), vec![toggle2(&wl, payer, st2, me.id, sid, on as u8)], Ask::Toggle2(on))
        }
        _ => {
            // the role is used elsewhere, and this object told to look again
            let d = c.rng.key();
            h.s.ch.fund(d, 1_000_000_000);
            ("use elsewhere".into(), vec![sign_ixs(&wl, me.id, &[checks::plan::sys_transfer(wl.addr, d, 1 + c.rng.below(1000) as u64)])], Ask::Refresh)
        }
    };
    let mut mine = vec![];
    for (i, base) in bases.iter().enumerate() {
        let t = if main {
            let counter = cred.odo.wrapping_add(1 + i as u32);
            main_proof_opt(base, &cred, &SigOpts { slot, counter, prefix: vec![], webauthn: None, pre: Some(pre_data.clone()) })
        } else {
            session_proof(base, cred.sess)
        };
        mine.extend(t.ixs);
    }
    for ix in &mine {
        for m in &ix.accounts {
            if m.signer {
                h.s.fund_signer(m.key);
            }
        }
    }
    h.push();
    let hash = {
        let mut n = h.net.0.borrow_mut();
        n.hash = c.rng.key();
        n.hash
    };
    let mut a = h.s.ch.clone();
    let able = !mine.is_empty() && !no_pe;
    let oa = if able {
        match compiled(&payer, &mine, hash) {
            Ok(v) => {
                let o = a.exec(&v);
                a.accts.remove(&ixs_sysvar_id());
                o.ok
            }
            Err(e) => {
                c.log(format!("{desc}: cannot be compiled: {e}"));
                return;
            }
        }
    } else {
        false
    };
    if let Ask::Refresh = ask {
        // executed by someone else
        if oa {
            h.net.0.borrow_mut().ch = a;
        }
        let there = h.stored().map(|s| s.roles.iter().any(|r| r.id == me.id)).unwrap_or(false);
        let r = h.q.refresh_permissions();
        c.eval(&format!("{name} {kn} {oa}"));
        c.log(format!("role {} {desc}: accepted {oa}; refreshed {:?}", me.id, r.as_ref().err()));
        if r.is_ok() != there {
            c.violate(format!("accept:{name}:{kn}"), format!("refreshing role {}: {:?}", me.id, r.err()));
        }
        h.in_step(c, name);
        return;
    }
    let mut tries = 1;
    if c.rng.chance(1, 10) {
        // the transaction gets lost first
        h.net.0.borrow_mut().down = 1;
        tries = 2;
    }
    let slot_now = h.s.ch.slot;
    for attempt in 0..tries {
        let lost = attempt + 1 < tries;
        let n0 = sent(h);
        let before = h.net.0.borrow().ch.accts.clone();
        let pks = |v: &[Ix]| v.iter().map(from_ix).collect::<Vec<_>>();
        let q = &mut h.q;
        let mut id2 = None;
        let r: Result<(), SwigError> = match &ask {
            Ask::Add(x, p) => q.add_authority(auth_type(x.kind), &x.create_data(), p.clone()).map(|_| ()),
            Ask::Remove(k) => q.remove_authority(k).map(|_| ()),
            Ask::Update(t, d) => q.update_authority(*t, d.clone()).map(|_| ()),
            Ask::Sign(v, t) => q.sign_v2(pks(v), t.as_ref().map(std::slice::from_ref)).map(|_| ()),
            Ask::Session(k, d) => q.create_session(pk(k), *d),
            Ask::Make1 => q.create_sub_account().map(|_| ()),
            Ask::Sign1(v) => q.sign_with_sub_account(pks(v), None).map(|_| ()),
            Ask::Take1(x) => q.withdraw_from_sub_account(pk(&sub1), *x).map(|_| ()),
            Ask::Tok1(a, b, p, x) => q.withdraw_token_from_sub_account(pk(&sub1), pk(a), pk(b), pk(p), *x).map(|_| ()),
            Ask::Toggle1(sub, o, on) => q.toggle_sub_account(pk(sub), me.id, *o, *on).map(|_| ()),
            Ask::Claimer(k) => q.set_rent_claimer(pk(k)).map(|_| ()),
            Ask::Make2 => q.create_sub_account_v2().map(|(_, i)| id2 = Some(i)),
            Ask::Sign2(v) => q.sign_with_sub_account_v2(sid, pks(v), None).map(|_| ()),
            Ask::Take2(x) => q.withdraw_from_sub_account_v2(sid, *x).map(|_| ()),
            Ask::Tok2(a, b, p, x) => q.withdraw_token_from_sub_account_v2(sid, pk(a), pk(b), pk(p), *x).map(|_| ()),
            Ask::Toggle2(on) => q.toggle_sub_account_v2(sid, *on).map(|_| ()),
            Ask::Refresh => Ok(()),
        };
        let ok = r.is_ok();
        h.net.0.borrow_mut().down = 0;
        let want = oa && !lost;
        c.eval(&format!("{name} {kn} {} {}", if ok { "ok" } else { "refused" }, lost));
        c.count("wallet_operations");
        c.saw(if ok { "done" } else { "refused" }, &format!("{name} by {kn}"));
        let after = h.net.0.borrow().ch.accts.clone();
        c.log(format!("slot {slot_now} role {} {desc}: reference {oa}{}, wallet {:?}", me.id, if lost { " (lost on the way)" } else { "" }, r.as_ref().err().map(|e| e.to_string())));
        if !ok && after != before {
            c.violate(format!("silent:{name}:{kn}"), format!("{desc}: reported as failed, but it was executed: {:?}", r.err()));
            return;
        }
        if ok != want {
            c.violate(format!("accept:{name}:{kn}"), format!("{desc}: the operation {} accepted by the program, the wallet says {:?}", if want { "is" } else { "is not" }, r.err()));
            return;
        }
        if ok {
            if after != a.accts {
                let d = a.accts.keys().chain(after.keys()).find(|k| a.accts.get(*k) != after.get(*k)).cloned().unwrap_or_default();
                c.violate(format!("state:{name}:{kn}"), format!("{desc}: another effect on account {} than the operation it stands for", short(&d)));
                return;
            }
            if sent(h) != n0 + 1 {
                c.violate(format!("sent:{name}"), format!("{desc}: sent {} transactions", sent(h) - n0));
            }
            if h.net.0.borrow().payers.last() != Some(&payer) {
                c.violate(format!("payer:{name}"), format!("{desc}: the fee payer is not {}", short(&payer)));
            }
            if id2.map(|i| i != wl.subs).unwrap_or(false) {
                c.violate("v2-id", format!("the new V2 sub-account is {}, reported as {id2:?}", wl.subs));
            }
            match &ask {
                Ask::Session(k, d) => {
                    h.in_step(c, name);
                    let x = &mut h.held[h.me].cred;
                    x.sess = *k;
                    x.exp = slot + d;
                }
                Ask::Add(..) => h.held.extend(added.take()),
                Ask::Make1 => {
                    if h.q.get_sub_account().ok().flatten().map(|k| k.to_bytes()) != Some(sub1) {
                        c.violate("made:v1", "the created sub-account is not reported");
                    }
                }
                Ask::Make2 => {
                    let k = sub2_asset_pda(&wl.id, wl.subs).0;
                    if h.q.get_sub_account_v2(wl.subs).ok().flatten().map(|k| k.to_bytes()) != Some(k) {
                        c.violate("made:v2", "the created V2 sub-account is not reported");
                    }
                }
                _ => {}
            }
        }
        h.in_step(c, name);
        if c.dead {
            return;
        }
    }
    if op == 4 {
        // ordinary operations go on with the session's key
        let to = h.held[h.me].clone();
        let role = client(&to, &h.pre);
        if let Err(e) = h.q.switch_authority(to.id, role, pair(ring, &to.cred, false)) {
            if h.stored().map(|s| s.roles.iter().any(|r| r.id == to.id)).unwrap_or(false) {
                c.violate("accept:switch_authority:session", format!("{e}"));
            }
        }
    }
}
