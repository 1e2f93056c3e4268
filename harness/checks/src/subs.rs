//! Executions by sub-accounts: the same inner instructions as the wallet's own
//! executions, run with a sub-account's signature, against a reference run.
use crate::enc::*;
use crate::limits::*;
use crate::model::*;
use crate::plan::*;
use crate::report::*;
use crate::util::*;
use crate::world::{Frame, *};
use rt::programs::Script;
use rt::*;

#[derive(Clone)]
struct Sub {
    key: Key,
    /// who may sign with it
    roles: Vec<u32>,
    /// V2: id and state account
    v2: Option<(u32, Key)>,
    seeds: Vec<Vec<u8>>,
    on: bool,
}
fn add_with(c: &mut Case, b: &mut Bench, mut acts: Vec<Act>) -> Option<u32> {
    let id = b.s.wl.counter;
    let kind = if c.rng.chance(2, 3) { ED } else { *c.rng.pick(&KINDS) };
    let mut cred = Cred::new(kind, &mut c.rng, &b.s.pe);
    if cred.session() {
        cred.max = 1 << 40;
    }
    // allowances that have no say over sub-accounts
    let mut more = role_acts(c, b, "C01");
    more.retain(|a| ![SUB, V2SIGN, V2ALL].contains(&a.kind) && !acts.iter().any(|x| x.kind == a.kind));
    if c.rng.bool() {
        more.truncate(1);
    }
    more.retain(|a| a.kind != SCOPE);
    acts.extend(more);
    c.rng.shuffle(&mut acts);
    let bs = add(&b.s.wl, b.s.payer, 0, &cred, &acts);
    let name = format!("add {:?} {}", cred, show(&acts));
    b.s.step(c, &name, &bs, 0, false, Some(true), &["A04", "A05", "A08"], Frame::default(), |w, _| {
        w.roles.push(Role { id, cred, acts });
        w.counter += 1;
    });
    (!c.dead && b.s.wl.role(id).is_some()).then_some(id)
}
fn setup(c: &mut Case, b: &mut Bench, v2: bool) -> Option<Sub> {
    if v2 {
        let maker = add_with(c, b, vec![a_mark(V2CREATE)])?;
        let n = b.s.wl.subs;
        if !ensure_live(c, &mut b.s, maker) || c.dead {
            return None;
        }
        let p = gen(c, &mut b.s, Op::Sub2Create, &Want { acting: Some(maker), permitted: true, ..Default::default() })?;
        crate::plan::run(c, &mut b.s, p);
        let x = b.s.wl.sub2.iter().find(|x| x.id == n).cloned()?;
        let mut roles = vec![maker];
        if c.rng.bool() {
            let k = *c.rng.pick(&[V2SIGN, V2ALL]);
            roles.push(add_with(c, b, vec![a_v2(k, n)])?);
        }
        let seeds = sub2_asset_seeds(&b.s.wl.id, n, x.abump);
        return Some(Sub { key: x.asset, roles, v2: Some((n, x.state)), seeds, on: true });
    }
    let id = b.s.wl.counter;
    let sub = a_sub(id, &b.s.wl.id);
    let maker = add_with(c, b, vec![sub])?;
    if !ensure_live(c, &mut b.s, maker) || c.dead {
        return None;
    }
    let p = gen(c, &mut b.s, Op::Sub1Create, &Want { acting: Some(maker), permitted: true, ..Default::default() })?;
    crate::plan::run(c, &mut b.s, p);
    let (key, _) = b.s.wl.role(maker)?.sub1()?;
    let (_, bump) = sub1_pda(&b.s.wl.id, maker);
    let seeds = vec![b"sub-account".to_vec(), b.s.wl.id.to_vec(), maker.to_le_bytes().to_vec(), vec![bump]];
    Some(Sub { key, roles: vec![maker], v2: None, seeds, on: true })
}
/// hands what the wallet holds to a sub-account
fn endow(b: &mut Bench, addr: &Key, to: &Key, ks: &[Key]) {
    for k in ks {
        let mut a = b.s.ch.get(k);
        let mut i = 0;
        while i + 32 <= a.data.len() {
            if a.data[i..i + 32] == addr[..] {
                a.data[i..i + 32].copy_from_slice(to);
                i += 32;
            } else {
                i += 1;
            }
        }
        b.s.ch.accts.insert(*k, a);
    }
}
pub fn run(c: &mut Case, focus: &'static str) {
    let mut b = bench(c, "C01");
    if c.dead {
        return;
    }
    let v2 = match focus {
        "S01" => c.rng.chance(3, 4),
        "S02" | "S03" => c.rng.chance(7, 8),
        _ => c.rng.bool(),
    } == (focus != "S01");
    let mut subs = vec![];
    for _ in 0..1 + c.rng.below(2) {
        match setup(c, &mut b, v2) {
            Some(x) => subs.push(x),
            None => return,
        }
        if c.dead {
            return;
        }
    }
    let addr = b.s.wl.addr;
    let mut ks: Vec<Key> = b.mints.iter().flat_map(|m| m.own.clone()).collect();
    ks.extend(&b.native.own);
    ks.extend(&b.stakes);
    let first = subs[0].key;
    // now and then something stays the wallet's
    ks.retain(|_| !c.rng.chance(1, 12));
    endow(&mut b, &addr, &first, &ks);
    for x in &subs {
        b.s.ch.fund(x.key, 40_000_000_000);
    }
    for _ in 0..10 {
        step(c, &mut b, focus, &mut subs);
        if c.dead {
            return;
        }
    }
}
fn step(c: &mut Case, b: &mut Bench, focus: &'static str, subs: &mut [Sub]) {
    let n = subs.len();
    let si = if c.rng.chance(4, 5) { 0 } else { c.rng.below(n) };
    if c.rng.chance(1, 10) {
        // switched on or off by a manager
        let x = &mut subs[si];
        let on = !x.on || c.rng.chance(1, 4);
        let payer = b.s.payer;
        let op = match x.v2 {
            Some(_) => return toggle_v2(c, b, x),
            None => toggle1(&b.s.wl, payer, x.key, x.roles[0], 0, on as u8),
        };
        let (k, r0) = (x.key, x.roles[0]);
        let ok = b.s.step(c, "toggle", &op, 0, false, Some(true), &["S01"], Frame::default(), |w, _| {
            let a = w.role_mut(r0).unwrap().acts.iter_mut().find(|a| a.kind == SUB && a.data[..32] == k).unwrap();
            a.data[33] = on as u8;
        });
        if ok {
            x.on = on;
        }
        return;
    }
    if !subs[si].on && c.rng.chance(2, 3) {
        return;
    }
    let x = subs[si].clone();
    let own = x.key;
    if b.s.ch.lamports(&own) < 1_000_000_000 {
        b.s.ch.fund(own, 40_000_000_000);
    }
    // who signs
    let stranger = c.rng.chance(1, 14);
    let acting = if stranger {
        let v: Vec<u32> = b.s.wl.roles.iter().map(|r| r.id).filter(|i| !x.roles.contains(i)).collect();
        *c.rng.pick(&v)
    } else {
        *c.rng.pick(&x.roles)
    };
    if !ensure_live(c, &mut b.s, acting) || c.dead {
        return;
    }
    let role = b.s.wl.role(acting).unwrap().clone();
    let mut ixs = vec![];
    let (tags, mut extra) = {
        let mut g = Gen { b, tags: vec![], extra: vec![], own };
        let n = *c.rng.pick(&[1usize, 1, 1, 2, 2, 3, 4]);
        for _ in 0..n {
            ixs.extend(template(c, &mut g, &role, focus));
        }
        (g.tags, g.extra)
    };
    ixs.retain(|i| i.program != swig_id());
    let mut tags = tags;
    if c.rng.chance(1, 8) {
        // down to the last lamports: rent exemption, one below, nothing at all
        let bal = b.s.ch.lamports(&own);
        let m = rent_min(0);
        let x = *c.rng.pick(&[bal, bal - m, bal - m + 1, bal - 1, bal - m - 1]);
        ixs = vec![sys_transfer(own, b.dests[0], x)];
        tags = vec!["drain"];
    }
    // one harmless instruction, for when nothing else would stand in the way
    let harmless = c.rng.chance(1, 6);
    if harmless {
        let m = if c.rng.bool() { r(own) } else { r(b.ext) };
        ixs = vec![Ix { program: memo_id(), accounts: vec![m], data: vec![0; c.rng.below(4)] }];
        if c.rng.chance(1, 4) {
            ixs = vec![Ix { program: b.pups[0], accounts: vec![m], data: Script::new().0 }];
        }
        tags = vec!["harmless"];
        extra.clear();
    }
    if c.rng.chance(1, if focus == "C01" { 12 } else { 30 }) {
        bulk(c, b, &own, &mut ixs);
    }
    if ixs.is_empty() && !c.rng.chance(1, 10) {
        return;
    }
    if let Some(p) = ixs.iter().position(|i| i.data.windows(36).any(|x| x[..4] == [1, 0, 0, 0] && x[4..] == b.pups[0])) {
        ixs.truncate(p + 1);
    }
    // what stands where the sub-account and its state belong
    let mut at = own;
    let mut sid = x.v2.map_or(0, |v| v.0);
    let mut state = x.v2.map_or(SYSTEM, |v| v.1);
    let mut wrong = "";
    if !stranger && c.rng.chance(1, 8) {
        let other = subs.iter().find(|y| y.key != x.key).cloned();
        match c.rng.below(6) {
            0 => {
                at = b.s.wl.addr;
                wrong = "the wallet account in the sub-account's place";
            }
            1 => {
                at = near(c, &own);
                let k = b.s.ch.lamports(&own);
                b.s.ch.set_lamports(at, k);
                wrong = "a plain account in the sub-account's place";
            }
            2 if other.is_some() => {
                at = other.unwrap().key;
                wrong = "another sub-account in the sub-account's place";
            }
            3 if x.v2.is_some() && other.is_some() => {
                let o = other.unwrap().v2.unwrap();
                if c.rng.bool() {
                    sid = o.0;
                    wrong = "another sub-account's id";
                } else {
                    state = o.1;
                    wrong = "another sub-account's state";
                }
            }
            4 if x.v2.is_some() => {
                let k = near(c, &state);
                let a = b.s.ch.get(&state);
                b.s.ch.accts.insert(k, a);
                state = k;
                wrong = "a copy of the state";
            }
            5 if x.v2.is_some() => {
                // the true state under a foreign owner
                let k = state;
                let mut a = b.s.ch.get(&k);
                a.owner = b.pups[0];
                let nk = c.rng.key();
                b.s.ch.accts.insert(nk, a);
                state = nk;
                wrong = "a state of another program";
            }
            _ => {
                at = b.cells[0];
                wrong = "a program's account in the sub-account's place";
            }
        }
        if at != own {
            for i in ixs.iter_mut() {
                for m in i.accounts.iter_mut() {
                    if m.key == own {
                        m.key = at;
                    }
                }
            }
        }
    }
    let head = match x.v2 {
        Some(_) => vec![w(b.s.wl.key), r(state), w(at), r(SYSTEM)],
        None => vec![w(b.s.wl.key), w(at), r(SYSTEM)],
    };
    if c.rng.chance(1, 5) {
        let k = *c.rng.pick(&b.dests);
        extra.push(w(k));
    }
    let e = encode(c, &head, &ixs, &extra, &at);
    if e.payload.len() > 60000 || e.metas.len() > 60 {
        return;
    }
    let mut payload = e.payload.clone();
    let mut dmg = "";
    if c.rng.chance(1, 14) {
        let (p, w) = damage(c, &payload);
        payload = p;
        dmg = w;
    }
    let s = &mut b.s;
    let h = head.len();
    let base = match x.v2 {
        Some(_) => sub_sign2(&s.wl, acting, sid, state, at, &e.metas[h..], &payload),
        None => sub_sign1(&s.wl, acting, at, &e.metas[h..], &payload),
    };
    let base = Base { metas: e.metas.clone(), ..base };
    let tx = prove(s.ch.slot, &base, &role.cred);
    s.fund_all(&tx);
    let outer = merged(&tx.ixs, tx.at);
    let eff = effective(&ixs, &outer, &at);
    let before = s.ch.clone();
    let mut rf = before.clone();
    let reference = rf.reference(&swig_id(), &outer, &eff, &x.seeds);
    let wr: Vec<Key> = tx.ixs.iter().flat_map(|i| i.accounts.iter()).filter(|m| outer.iter().any(|o| o.key == m.key && o.writable)).map(|m| m.key).collect();
    let rent = rf.rent_ok(&before.accts, &wr);
    let mine: &'static str = if x.v2.is_some() { "S02" } else { "S01" };
    let mut bad: Vec<(&'static str, String)> = vec![];
    if stranger {
        bad.push((mine, "a role without a right to it".into()));
    }
    if !x.on {
        bad.push((mine, "switched off".into()));
        bad.push((if x.v2.is_some() { "S03" } else { "S01" }, "switched off".into()));
    }
    if !wrong.is_empty() {
        bad.push((mine, wrong.into()));
        if x.v2.is_some() {
            bad.push(("S03", wrong.into()));
        }
        bad.push(("C01", wrong.into()));
    }
    if !dmg.is_empty() {
        bad.push(("C01", dmg.into()));
    }
    if let Err(y) = &reference {
        bad.push(("C01", format!("an inner instruction fails: {}", y)));
    } else if wrong.is_empty() {
        let a = rf.get(&own);
        if a.lamports < rent_min(a.data.len()) {
            bad.push(("S04", "below rent exemption".into()));
        } else if !rent {
            bad.push(("C01", "an account would be left short of rent".into()));
        }
    }
    if c.cfg.prop == "C01" && c.rng.chance(1, 8) {
        s.nested(c, &tx);
    }
    let o = s.exec(c, &tx);
    let verdict = bad.first().map_or("legal".to_string(), |x| x.1.split(':').next().unwrap().to_string());
    c.log(format!(
        "slot {} role {} {:?} signs as {} sub-account {} passes ({}) runs [{}]: {} -> {}{}",
        s.ch.slot,
        acting,
        role.cred,
        if x.v2.is_some() { "V2" } else { "V1" },
        short(&own),
        outer.iter().map(|m| format!("{}{}{}", short(&m.key), if m.signer { "s" } else { "" }, if m.writable { "w" } else { "" })).collect::<Vec<_>>().join(","),
        ixs.iter().map(|i| format!("{}({}):{}", short(&i.program), i.accounts.iter().map(|m| short(&m.key)).collect::<Vec<_>>().join(","), hex(&i.data))).collect::<Vec<_>>().join(" | "),
        verdict,
        if o.ok { "ok " } else { "refused " },
        o.err
    ));
    c.count(if o.ok { "sub_executions_accepted" } else { "sub_executions_refused" });
    c.count(&format!("sub_verdict_{}", verdict.replace(' ', "_")));
    let mut t = tags.clone();
    t.sort();
    t.dedup();
    if bad.is_empty() || bad.iter().any(|x| x.0 == focus) {
        c.eval(&format!("{} {:?} {} {}", verdict, t, kind_name(role.cred.kind), x.v2.is_some()));
        let d = c.hist.last().cloned().unwrap_or_default();
        if c.rng.clone().chance(1, 60) {
            c.sample(|| d);
        }
    } else {
        c.trivial();
    }
    let props = [mine, "C01", "S04"];
    if !o.ok {
        if s.ch.accts != before.accts {
            c.diverge(&props, "residue:subsign", "a refused execution changed accounts");
            return;
        }
        if bad.is_empty() {
            c.diverge(&[mine, "C01"], format!("refused:subsign:{}", t.join("+")), format!("an execution within the role's rights was refused ({})", o.err));
        }
        return;
    }
    if !bad.is_empty() {
        let p: Vec<&str> = bad.iter().map(|x| x.0).collect();
        c.diverge(&p, format!("accepted:subsign:{}", verdict.replace(' ', "-")), format!("an execution was accepted although it must be refused: {}", bad[0].1));
        return;
    }
    if !same_run(c, &o, &eff, &own, &[mine, "C01"]) {
        return;
    }
    rf.accts.retain(|_, a| a.lamports > 0);
    let k = s.wl.key;
    let mut real = s.ch.accts.clone();
    let (a, z) = (real.remove(&k).unwrap_or_default(), rf.accts.remove(&k).unwrap_or_default());
    if a.owner != z.owner || a.lamports != z.lamports || real != rf.accts {
        c.diverge(&[mine, "C01"], "effect:subsign", "accounts differ from what the encoded instructions do");
        return;
    }
    if s.ch.get(&own).owner != SYSTEM {
        // given away by the role it belongs to
        c.count("sub_account_given_away");
        c.dead = true;
        return;
    }
    let secp = role.cred.secp() && !role.cred.session();
    if let Some(r) = s.wl.role_mut(acting) {
        if secp {
            r.cred.odo = r.cred.odo.wrapping_add(1);
        }
    }
    if let Err(e) = s.wl.check(&s.ch) {
        c.diverge(&[mine, "C01", "A02"], "state:subsign", e);
    }
}
fn toggle_v2(c: &mut Case, b: &mut Bench, x: &mut Sub) {
    let (id, st) = x.v2.unwrap();
    let Some(r) = b.s.wl.roles.iter().find(|r| r.has_id(V2ALL, id)).map(|r| r.id) else { return };
    if !ensure_live(c, &mut b.s, r) || c.dead {
        return;
    }
    let on = !x.on || c.rng.chance(1, 4);
    let payer = b.s.payer;
    let op = toggle2(&b.s.wl, payer, st, r, id, on as u8);
    let fr = Frame { may: vec![st], ..Frame::default() };
    let ok = b.s.step(c, "toggle", &op, r, false, Some(true), &["S02", "S03"], fr, |w, _| {
        w.sub2.iter_mut().find(|y| y.id == id).unwrap().enabled = on;
    });
    if ok {
        x.on = on;
    }
}
