//! Random administrative histories in lockstep with the model.
use crate::charge::unrestricted;
use crate::enc::*;
use crate::model::*;
use crate::plan::*;
use crate::report::*;
use crate::util::*;
use crate::world::{Frame, *};
use rt::*;

/// what a history is made of
#[derive(Clone)]
pub struct Hist {
    pub steps: usize,
    pub roles: usize,
    pub ops: Vec<(Op, u32)>,
    /// percentage of steps with a planted defect
    pub hostile: u64,
    /// percentage of steps by an unpermitted or arbitrary role
    pub free: u64,
    /// percentage of extra steps that replay or misnumber a signature
    pub replay: u64,
    pub kinds: Vec<u16>,
    /// action sets the non-root roles are drawn from besides random ones
    pub legacy: u64,
    pub claimer: u64,
}
impl Default for Hist {
    fn default() -> Hist {
        Hist {
            steps: 14,
            roles: 3,
            ops: OPS.iter().filter(|o| !matches!(o, Op::CloseSwig | Op::Migrate)).map(|o| (*o, 4)).collect(),
            hostile: 18,
            free: 15,
            replay: 8,
            kinds: KINDS.to_vec(),
            legacy: 8,
            claimer: 25,
        }
    }
}
fn boost(h: &mut Hist, ops: &[(Op, u32)]) {
    for (o, n) in ops {
        match h.ops.iter_mut().find(|x| x.0 == *o) {
            Some(x) => x.1 = *n,
            None => h.ops.push((*o, *n)),
        }
    }
}
/// the history profile of a property
pub fn profile(prop: &str) -> Hist {
    let mut h = Hist::default();
    let calm = |h: &mut Hist| {
        for x in h.ops.iter_mut() {
            x.1 = 1;
        }
    };
    match prop {
        "A01" => h.free = 5,
        "A02" => {
            h.kinds = vec![K1T, K1S, R1T, R1S, K1T, R1T, ED, EDS];
            h.replay = 60;
            boost(&mut h, &[(Op::Replace, 8), (Op::Session, 8), (Op::Spend, 8)]);
        }
        "A03" => {
            calm(&mut h);
            h.kinds = vec![EDS, K1S, R1S, PES, EDS, K1S, R1S, PES, ED, K1T];
            boost(&mut h, &[(Op::Session, 24), (Op::Spend, 10), (Op::Replace, 4)]);
            h.hostile = 25;
        }
        "A04" => {
            h.free = 55;
            h.hostile = 5;
            boost(&mut h, &[(Op::CloseSwig, 2), (Op::Replace, 8), (Op::Claimer, 6), (Op::CloseToken, 6), (Op::Transfer, 6)]);
        }
        "A05" => {
            calm(&mut h);
            h.steps = 20;
            boost(&mut h, &[(Op::Add, 14), (Op::Remove, 12), (Op::Update, 8), (Op::Claimer, 2), (Op::Sub2Create, 3)]);
        }
        "A06" => {
            calm(&mut h);
            h.steps = 18;
            boost(&mut h, &[(Op::Update, 40), (Op::Spend, 8), (Op::Add, 4), (Op::Sub1Create, 4), (Op::Sub2Create, 4)]);
        }
        "A07" => {
            calm(&mut h);
            h.kinds = vec![ED, EDS, K1T, K1S, R1T, R1S, PES, PE, PE, PE];
            boost(&mut h, &[(Op::Replace, 40), (Op::Session, 6), (Op::Spend, 4)]);
            h.hostile = 30;
        }
        "A08" => {
            calm(&mut h);
            boost(&mut h, &[(Op::Add, 16), (Op::Update, 20)]);
            h.hostile = 45;
        }
        "W02" => {
            h.legacy = 75;
            calm(&mut h);
            boost(&mut h, &[(Op::Migrate, 16), (Op::Transfer, 12), (Op::Add, 4), (Op::CloseToken, 5)]);
        }
        "W03" => {
            calm(&mut h);
            boost(&mut h, &[(Op::CloseSwig, 14), (Op::CloseToken, 20), (Op::Claimer, 3)]);
            h.claimer = 50;
            h.legacy = 20;
        }
        "W04" => {
            h.claimer = 60;
            boost(&mut h, &[(Op::Claimer, 10), (Op::CloseSwig, 2), (Op::CloseToken, 4), (Op::Add, 8), (Op::Remove, 8), (Op::Update, 10), (Op::Replace, 8), (Op::Sub2Create, 8)]);
        }
        "W05" => {
            h.claimer = 40;
            calm(&mut h);
            boost(&mut h, &[(Op::Claimer, 4), (Op::Add, 10), (Op::Remove, 10), (Op::Update, 14), (Op::Replace, 6), (Op::Sub2Create, 8), (Op::Sub1Create, 4), (Op::Session, 4)]);
        }
        "S01" => {
            calm(&mut h);
            boost(&mut h, &[(Op::Sub1Create, 16), (Op::Sub1Toggle, 12), (Op::Sub1Sign, 16), (Op::Sub1Withdraw, 10), (Op::Sub1WithdrawTok, 8), (Op::Update, 2)]);
            h.free = 30;
        }
        "S02" | "S03" => {
            calm(&mut h);
            boost(&mut h, &[(Op::Sub2Create, 14), (Op::Sub2Toggle, 14), (Op::Sub2Sign, 16), (Op::Sub2Withdraw, 10), (Op::Sub2WithdrawTok, 8), (Op::Update, 3)]);
            h.free = if prop == "S02" { 40 } else { 12 };
            h.steps = 18;
        }
        "S04" => {
            calm(&mut h);
            boost(&mut h, &[(Op::Sub1Create, 10), (Op::Sub2Create, 10), (Op::Sub1Withdraw, 14), (Op::Sub1WithdrawTok, 16), (Op::Sub2Withdraw, 14), (Op::Sub2WithdrawTok, 16)]);
            h.hostile = 40;
        }
        _ => {}
    }
    h
}

/// actions a workload role may get
fn role_acts(c: &mut Case, s: &Sim, id: u32, prop: &str) -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    let pick = c.rng.below(12);
    match prop {
        "S01" | "S04" if c.rng.chance(3, 4) => {
            v.push(a_sub(id, &s.wl.id));
            if c.rng.chance(1, 4) {
                v.push(a_mark(*c.rng.pick(&[MANAGE, ALL, ALLBUT])));
            }
        }
        _ => {}
    }
    match prop {
        "S02" | "S03" | "S04" => {
            if c.rng.chance(1, 2) {
                v.push(a_mark(V2CREATE));
            }
            for k in [V2SIGN, V2WD, V2TOG, V2ALL] {
                for i in 0..3u32 {
                    if c.rng.chance(1, 4) {
                        let id = s.wl.subs + i;
                        v.push(a_v2(k, if s.wl.subs > 100 && c.rng.chance(1, 6) { near_id(&mut c.rng, id) } else { id }));
                    }
                }
            }
            if c.rng.chance(1, 4) {
                v.push(a_mark(*c.rng.pick(&[MANAGE, ALL, ALLBUT])));
            }
        }
        "A07" => {
            for _ in 0..2 {
                v.push(a_repl(any_role(&mut c.rng, &s.wl)));
            }
        }
        _ => {}
    }
    if v.is_empty() || c.rng.chance(1, 3) {
        match pick {
            0 => v.push(a_all()),
            1 => v.push(a_mark(MANAGE)),
            2 => v.push(a_mark(ALLBUT)),
            3 => v.push(a_mark(CLOSE)),
            4 => v.push(a_repl(any_role(&mut c.rng, &s.wl))),
            5 => {
                v.push(a_sub(id, &s.wl.id));
            }
            6 => v.push(a_mark(V2CREATE)),
            7 | 8 => {
                v.push(a_prog(&SYSTEM));
                v.push(a_sol(c.rng.range(1_000_000, 3_000_000_000)));
            }
            _ => {
                let m = if c.rng.chance(1, 12) { 10 + c.rng.below(25) } else { 1 + c.rng.below(4) };
                let x = rand_acts(c, s, id, m, &v);
                v.extend(x);
            }
        }
    }
    if dup_v2(&v) {
        let mut u: Vec<Act> = vec![];
        for a in v {
            let mut t = u.clone();
            t.push(a.clone());
            if !dup_v2(&t) {
                u.push(a);
            }
        }
        v = u;
    }
    // the order of actions must not matter
    c.rng.shuffle(&mut v);
    v
}
/// A wallet with a handful of roles.
pub fn fixture(c: &mut Case, h: &Hist) -> Sim {
    let mut s = fresh(c);
    let prop = c.cfg.prop.clone();
    let kind = *c.rng.pick(&h.kinds);
    let mut cred = Cred::new(kind, &mut c.rng, &s.pe);
    proving(c, &mut cred, &prop);
    if cred.session() && cred.max < 50 {
        cred.max = 1000;
    }
    let mut acts = vec![a_all()];
    if c.rng.chance(1, 6) {
        acts = vec![a_mark(MANAGE)];
        if c.rng.bool() {
            acts.push(a_mark(CLOSE));
        }
    }
    let k = c.rng.below(3);
    if k > 0 {
        let x = rand_acts(c, &s, 0, k, &acts);
        acts.extend(x);
        c.rng.shuffle(&mut acts);
    }
    s.create(c, cred, acts);
    if c.rng.chance(1, 6) {
        strangers(c, &mut s);
    }
    let old = c.rng.chance(1, 4);
    if old {
        age(c, &mut s);
    }
    let (wa, sol) = (s.wl.addr, 100_000_000_000);
    s.ch.fund(wa, sol);
    for _ in 0..c.rng.below(h.roles + 1) {
        add_role(c, &mut s, h, &prop);
        if c.dead {
            return s;
        }
    }
    if old {
        age_roles(c, &mut s);
        if c.rng.chance(1, 3) {
            crowd(c, &mut s);
        }
    }
    if c.rng.chance(h.legacy, 100) {
        make_legacy(c, &mut s);
    } else if c.rng.chance(h.claimer, 100) {
        if let Some(p) = gen(c, &mut s, Op::Claimer, &Want { permitted: true, ..Default::default() }) {
            let a = p.acting;
            ensure_live(c, &mut s, a);
            if !c.dead {
                if let Some(p) = gen(c, &mut s, Op::Claimer, &Want { acting: Some(a), ..Default::default() }) {
                    run(c, &mut s, p);
                }
            }
        }
    }
    s
}
/// a wallet that has seen many roles and sub-accounts
pub fn age(c: &mut Case, s: &mut Sim) {
    let far = [254u32, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 0x00ff_ffff, 0x7fff_fffe, 0x7fff_ffff, u32::MAX - 1000];
    if c.rng.chance(3, 4) {
        s.wl.counter = *c.rng.pick(&far);
    }
    if c.rng.chance(3, 4) {
        s.wl.subs = *c.rng.pick(&far);
    }
    put_config(s);
    c.log(format!("the next role is {} and the next sub-account {}", s.wl.counter, s.wl.subs));
    c.count("aged_wallets");
}
/// many roles and sub-accounts come and go; the next ones share the low bits of
/// their ids with one that is still there
pub fn leap(c: &mut Case, s: &mut Sim) {
    let low = |r: &mut crate::util::Rng, have: &[u32], next: u32| {
        let m = *r.pick(&[256u32, 256, 65_536, 1 << 24]);
        let mut x = r.pick(have).saturating_sub(r.below(2) as u32);
        while x < next {
            x = x.saturating_add(m);
        }
        if x < u32::MAX - 2000 { x } else { next }
    };
    let ids: Vec<u32> = s.wl.roles.iter().map(|r| r.id).filter(|i| *i > 0).collect();
    if !ids.is_empty() && c.rng.chance(3, 4) {
        s.wl.counter = low(&mut c.rng, &ids, s.wl.counter);
    }
    let ids: Vec<u32> = s.wl.sub2.iter().map(|r| r.id).collect();
    if !ids.is_empty() && s.wl.legacy.is_none() && c.rng.chance(3, 4) {
        s.wl.subs = low(&mut c.rng, &ids, s.wl.subs);
    }
    put_config(s);
    c.log(format!("the next role is {} and the next sub-account {}", s.wl.counter, s.wl.subs));
    c.count("leaps");
}
/// signature counters far from their start
pub fn age_roles(c: &mut Case, s: &mut Sim) {
    let far = [41u32, 254, 255, 256, 65_534, 65_535, 65_536, 0x00ff_ffff, 0x7fff_ffff, u32::MAX - 1000];
    let ids: Vec<u32> = s.wl.roles.iter().filter(|r| r.cred.secp()).map(|r| r.id).collect();
    for id in ids {
        let x = *c.rng.pick(&far);
        let r = s.wl.role_mut(id).unwrap();
        r.cred.odo = x;
        c.log(format!("role {} has made {} signatures", id, x));
        c.count("aged_signature_counters");
    }
    put_config(s);
}
/// a role that has collected a great many actions
pub fn crowd(c: &mut Case, s: &mut Sim) {
    let i = c.rng.below(s.wl.roles.len());
    let n = *c.rng.pick(&[126usize, 127, 128, 129, 131, 180, 250]);
    while s.wl.roles[i].acts.len() < n {
        let a = if c.rng.chance(1, 8) { a_tok(&c.rng.key(), 1 + c.rng.below(1000) as u64) } else { a_prog(&c.rng.key()) };
        let v = &mut s.wl.roles[i].acts;
        let at = if c.rng.bool() { 0 } else { c.rng.below(v.len() + 1) };
        v.insert(at, a);
    }
    put_config(s);
    let r = s.rent();
    if s.ch.lamports(&s.wl.key) < r {
        s.ch.set_lamports(s.wl.key, r);
    }
    c.log(format!("role {} has {} actions", s.wl.roles[i].id, n));
    c.count("crowded_roles");
}
/// roles nobody uses, in front of the others
pub fn strangers(c: &mut Case, s: &mut Sim) {
    for _ in 0..*c.rng.pick(&[5usize, 9, 15, 17, 33]) {
        let cred = Cred::new(ED, &mut c.rng, &s.pe);
        let mut acts = vec![unrelated(c)];
        if c.rng.bool() {
            acts.push(unrelated(c));
        }
        let id = s.wl.counter;
        s.wl.roles.push(Role { id, cred, acts });
        s.wl.counter += 1;
    }
    store(c, s, "many other roles");
}
/// something a role may hold that has no part in what it does here
pub fn unrelated(c: &mut Case) -> Act {
    let (k, t) = (c.rng.key(), c.rng.key());
    let x = 1 + c.rng.below(1000) as u64;
    let w = *c.rng.pick(&[1u64, 10, 432_000]);
    match c.rng.below(6) {
        0 | 1 => a_scope(0, x as u128, w, 0, &t, &k, c.rng.below(3) as u64, 2, 0, 8),
        2 => a_tok(&k, x),
        3 => a_tokr(&k, x, w),
        4 => a_tokd(&k, &t, x),
        _ => a_prog(&k),
    }
}
pub fn store(c: &mut Case, s: &mut Sim, what: &str) {
    put_config(s);
    let (k, r) = (s.wl.key, s.rent());
    if s.ch.lamports(&k) < r {
        s.ch.set_lamports(k, r);
    }
    c.log(format!("the wallet has {what}"));
    c.count("wide_wallets");
}
/// stores the model's state of the wallet
fn put_config(s: &mut Sim) {
    let mut a = s.ch.get(&s.wl.key);
    a.data = s.wl.bytes();
    s.ch.accts.insert(s.wl.key, a);
}
/// the stored header of a wallet from before wallet addresses existed
pub fn make_legacy(c: &mut Case, s: &mut Sim) {
    let mut a = s.ch.get(&s.wl.key);
    let rent = rent_min(a.data.len());
    let mut b = rent.to_le_bytes();
    if (rent as u32) & !0xff == 0 {
        b = (rent + 256).to_le_bytes();
    }
    a.data[40..48].copy_from_slice(&b);
    s.ch.accts.insert(s.wl.key, a);
    s.ch.accts.remove(&s.wl.addr);
    s.wl.legacy = Some(b);
    s.wl.subs = 0;
    if c.rng.bool() {
        let addr = s.wl.addr;
        let x = *c.rng.pick(&[1u64, 500_000, 10_000_000]);
        s.ch.fund(addr, x);
    }
    c.log("the wallet is in the old format".to_string());
}
/// a program-exec role that can prove a replacement, its instructions starting
/// as such proofs do
fn proving(c: &mut Case, cred: &mut Cred, prop: &str) {
    if cred.kind == PE && prop == "A07" && c.rng.chance(3, 4) {
        let n = 1 + c.rng.below(8);
        cred.prefix = b"rplauth1"[..n].to_vec();
    }
}
pub fn add_role(c: &mut Case, s: &mut Sim, h: &Hist, prop: &str) {
    let Some(actor) = s.wl.roles.iter().find(|r| r.manager()).map(|r| r.id) else { return };
    if !ensure_live(c, s, actor) || c.dead {
        return;
    }
    let id = s.wl.counter;
    let kind = *c.rng.pick(&h.kinds);
    let mut cred = Cred::new(kind, &mut c.rng, &s.pe);
    proving(c, &mut cred, prop);
    if cred.session() && cred.max < 5 && c.rng.chance(3, 4) {
        cred.max = 500;
    }
    let acts = role_acts(c, s, id, prop);
    let b = add(&s.wl, s.payer, actor, &cred, &acts);
    let name = format!("add {:?} {}", cred, show(&acts));
    s.step(c, &name, &b, actor, false, Some(true), &["A04", "A05", "A08", "W05"], Frame::default(), |w, _| {
        w.roles.push(Role { id, cred, acts });
        w.counter += 1;
    });
}
fn pick_op(c: &mut Case, h: &Hist) -> Op {
    let tot: u32 = h.ops.iter().map(|x| x.1).sum();
    let mut k = c.rng.below(tot as usize) as u32;
    for (o, n) in &h.ops {
        if k < *n {
            return *o;
        }
        k -= n;
    }
    Op::Add
}
/// One history.
pub fn history(c: &mut Case, h: &Hist) {
    let mut s = fixture(c, h);
    // transactions of secp credentials that were accepted
    let mut old: Vec<(u32, Tx)> = vec![];
    let full = s.wl.roles.len() + 10;
    let n = h.steps / 2 + c.rng.below(h.steps);
    for _ in 0..n {
        if c.dead {
            return;
        }
        step(c, &mut s, h, &mut old);
        if c.dead {
            return;
        }
        if s.wl.closed {
            after_close(c, &mut s);
            return;
        }
        if s.wl.roles.len() > full.max(14) {
            return;
        }
    }
    if !c.dead {
        lookups(c, &s);
    }
}
fn step(c: &mut Case, s: &mut Sim, h: &Hist, old: &mut Vec<(u32, Tx)>) {
    if c.rng.chance(1, 25) {
        leap(c, s);
    }
    if c.rng.chance(1, 4) {
        let d = *c.rng.pick(&[1u64, 1, 5, 30, 59, 60, 61, 200, 5000]);
        s.ch.slot += d;
        c.log(format!("slot -> {}", s.ch.slot));
    }
    let prop = c.cfg.prop.clone();
    if c.rng.chance(h.replay, 100) {
        if !old.is_empty() && c.rng.bool() {
            replay_old(c, s, old);
        } else {
            misnumber(c, s);
        }
        if c.dead {
            return;
        }
    }
    let op = pick_op(c, h);
    let w = Want { hostile: c.rng.chance(h.hostile, 100), permitted: !c.rng.chance(h.free, 100), ..Default::default() };
    if op == Op::Add && s.wl.roles.len() < 8 && !w.hostile && w.permitted && c.rng.bool() {
        add_role(c, s, h, &prop);
        return;
    }
    let Some(p) = gen(c, s, op, &w) else { return };
    let a = p.acting;
    // most steps are taken with a live session
    let p = if !auth_live(s, a, p.main) && c.rng.chance(4, 5) {
        let t = Want { acting: Some(a), ..w };
        if !ensure_live(c, s, a) || c.dead {
            return;
        }
        match gen(c, s, op, &t) {
            Some(p) => p,
            None => return,
        }
    } else {
        p
    };
    // boundaries of a live session
    if let Some(r) = s.wl.role(a) {
        if r.cred.session() && !p.main && r.cred.sess != [0; 32] && r.cred.exp >= s.ch.slot && r.cred.exp - s.ch.slot < 2_000_000 && c.rng.chance(1, 8) {
            let late = c.rng.below(2) as u64;
            s.ch.slot = r.cred.exp + late;
            c.log(format!("slot -> {} ({} the last session slot)", s.ch.slot, if late == 0 { "at" } else { "after" }));
            c.count(if late == 0 { "at_last_session_slot" } else { "after_last_session_slot" });
            let t = Want { acting: Some(a), ..w };
            let Some(p) = gen(c, s, op, &t) else { return };
            run_one(c, s, p, old);
            return;
        }
    }
    run_one(c, s, p, old);
}
fn run_one(c: &mut Case, s: &mut Sim, p: Plan, old: &mut Vec<(u32, Tx)>) {
    let tx = proof_of(s, &p);
    let signer = s.wl.role(p.acting).map_or(false, |r| r.cred.secp() && (p.main || !r.cred.session()));
    let a = p.acting;
    let ok = run_tx(c, s, p, &tx);
    if signer && ok && !c.dead {
        old.push((a, tx));
        if old.len() > 6 {
            old.remove(0);
        }
    }
}
/// an accepted signature has no second effect
fn replay_old(c: &mut Case, s: &mut Sim, old: &[(u32, Tx)]) {
    let (a, tx) = old[c.rng.below(old.len())].clone();
    let before = s.ch.clone();
    let o = s.exec(c, &tx);
    c.count("replays");
    let k = s.wl.role(a).map_or("gone", |r| kind_name(r.cred.kind));
    c.eval(&format!("replay {} op {}", k, le16(&tx.ixs[tx.at].data)));
    c.log(format!("slot {} replay of an accepted transaction of role {} -> {}", s.ch.slot, a, o.ok));
    if o.ok {
        c.diverge(&["A02", "A01"], "replay:accepted", format!("an accepted signature of role {} ({}) was accepted again", a, k));
    } else if s.ch.accts != before.accts {
        c.diverge(&["A02", "C01"], "replay:residue", "a refused transaction changed accounts");
    }
}
/// a correct signature under a wrong counter or slot
fn misnumber(c: &mut Case, s: &mut Sim) {
    let ids: Vec<u32> = s.wl.roles.iter().filter(|r| r.cred.secp()).map(|r| r.id).collect();
    if ids.is_empty() {
        return;
    }
    let a = *c.rng.pick(&ids);
    let r = s.wl.role(a).unwrap().clone();
    let mut p = None;
    for _ in 0..6 {
        let op = if r.cred.session() { Op::Session } else { *c.rng.pick(&OPS) };
        if matches!(op, Op::CloseSwig | Op::Migrate) {
            continue;
        }
        if let Some(x) = gen(c, s, op, &Want { acting: Some(a), permitted: true, ..Default::default() }) {
            if x.bad.is_empty() && !x.open && x.acting == a {
                p = Some(x);
                break;
            }
        }
    }
    let Some(p) = p else { return };
    let slot = s.ch.slot;
    let good = r.cred.odo.wrapping_add(1);
    let (counter, at, why, ok) = match c.rng.below(10) {
        0 => (r.cred.odo, slot, "the last used counter", false),
        1 => (good.wrapping_add(1), slot, "a skipped counter", false),
        2 => (good.wrapping_add(c.rng.range(2, 1 << 31) as u32), slot, "a far counter", false),
        3 => (0, slot, "counter zero", false),
        4 => (good, slot - 61, "a 61 slots old signature", false),
        5 => (good, slot.saturating_sub(c.rng.range(62, 1000)), "an old signature", false),
        6 => (good, slot + 1, "a future slot", false),
        7 => (good, slot + c.rng.range(2, 1 << 40), "a far future slot", false),
        8 => (good, slot - 60, "a 60 slots old signature", true),
        _ => (good, slot - c.rng.range(1, 59), "a fresh signature", true),
    };
    let tx = main_proof_opt(&p.base, &r.cred, &SigOpts { slot: at, counter, prefix: vec![], webauthn: None, pre: None });
    c.eval(&format!("misnumber {} {} {:?}", kind_name(r.cred.kind), why, p.op));
    c.count(&format!("signatures_with_{}", why.replace(' ', "_")));
    if ok {
        let mut p = p;
        p.props.push("A02");
        p.desc = format!("{} [{}]", p.desc, why);
        run_tx(c, s, p, &tx);
        return;
    }
    let before = s.ch.clone();
    s.fund_all(&tx);
    let before2 = s.ch.clone();
    let _ = before;
    let o = s.exec(c, &tx);
    c.log(format!("slot {} role {} {} with {} -> {}", slot, a, p.desc, why, if o.ok { "ok" } else { &o.err }));
    if o.ok {
        c.diverge(&["A02"], "number:accepted", format!("{} accepted with {} (stored counter {}, given {})", p.desc, why, r.cred.odo, counter));
    } else if s.ch.accts != before2.accts {
        c.diverge(&["A02", "C01"], "number:residue", "a refused transaction changed accounts");
    }
}
/// nothing can be done with a closed wallet
pub fn after_close(c: &mut Case, s: &mut Sim) {
    s.ch.slot += c.rng.range(1, 100);
    if c.rng.bool() {
        let (a, b) = (s.wl.key, s.wl.addr);
        s.ch.fund(a, 10_000_000);
        s.ch.fund(b, 10_000_000);
    }
    for _ in 0..6 {
        let op = *c.rng.pick(&OPS);
        if let Some(mut p) = gen(c, s, op, &Want { permitted: true, ..Default::default() }) {
            p.open = false;
            p.bad = vec![("W03", "the wallet is closed".into()), ("R01", "the wallet is closed".into())];
            // sessions cannot be opened any more; a stored one may still be live
            run(c, s, p);
            if c.dead {
                return;
            }
        }
    }
    let kind = *c.rng.pick(&KINDS);
    let cred = Cred::new(kind, &mut c.rng, &s.pe);
    let ix = create(&s.wl, &cred, &[a_all()], s.payer);
    let before = s.ch.clone();
    let o = s.ch.exec1(&ix);
    c.log(format!("create again -> {}", o.ok));
    c.count("recreations_refused");
    c.eval("recreate after close");
    if o.ok || s.ch.accts != before.accts {
        c.diverge(&["W03", "W01"], "recreated", "a wallet was created again at the id of a closed wallet");
    }
}
/// every stored role can be found by id and by authority, through the library
pub fn lookups(c: &mut Case, s: &Sim) {
    use swig_state::swig::SwigWithRoles;
    let data = s.ch.get(&s.wl.key).data;
    let sw = match SwigWithRoles::from_bytes(&data) {
        Ok(x) => x,
        Err(e) => {
            c.diverge(&["A05", "R05"], "lookup:parse", format!("the stored account cannot be parsed: {:?}", e));
            return;
        }
    };
    if sw.state.roles as usize != s.wl.roles.len() {
        c.diverge(&["A05"], "lookup:count", "stored role count differs");
        return;
    }
    for r in &s.wl.roles {
        c.count("roles_looked_up");
        match sw.get_role(r.id) {
            Ok(Some(x)) if x.position.id() == r.id && x.authority.authority_type() as u16 == r.cred.kind => {
                if x.position.num_actions() as usize != r.acts.len() {
                    c.diverge(&["A05", "A08"], "lookup:actions", format!("role {} reads back {} actions of {}", r.id, x.position.num_actions(), r.acts.len()));
                    return;
                }
            }
            _ => {
                c.diverge(&["A05"], "lookup:id", format!("role {} ({}) cannot be found by its id", r.id, kind_name(r.cred.kind)));
                return;
            }
        }
        match sw.lookup_role_id(&r.cred.lookup()) {
            Ok(Some(id)) => {
                // several roles may share an authority
                let ok = s.wl.role(id).map_or(false, |o| o.cred.lookup() == r.cred.lookup() || o.cred.ident() == r.cred.ident());
                if !ok {
                    c.diverge(&["A05"], "lookup:wrong", format!("looking up the authority of role {} gives role {}", r.id, id));
                    return;
                }
            }
            x => {
                c.diverge(&["A05"], "lookup:authority", format!("role {} ({}) cannot be found by its authority: {:?}", r.id, kind_name(r.cred.kind), x.ok()));
                return;
            }
        }
    }
    for id in [s.wl.counter, s.wl.counter + 7] {
        if !matches!(sw.get_role(id), Ok(None)) {
            c.diverge(&["A05"], "lookup:ghost", format!("a role {} is found that was never created", id));
            return;
        }
    }
    let n = s.wl.counter;
    let mut ids: Vec<u32> = (0..n.min(30)).chain(n.saturating_sub(30)..n).collect();
    for r in &s.wl.roles {
        ids.extend([r.id & 0xff, r.id & 0xffff, r.id ^ 0x100, r.id ^ 0x1_0000, r.id.swap_bytes()]);
    }
    for id in ids {
        if s.wl.role(id).is_none() && !matches!(sw.get_role(id), Ok(None)) {
            c.diverge(&["A05"], "lookup:removed", format!("removed role {} is still found", id));
            return;
        }
    }
    let _ = unrestricted;
}
