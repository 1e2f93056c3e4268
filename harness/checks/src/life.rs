//! Creation of wallets.
use crate::enc::*;
use crate::model::*;
use crate::plan::*;
use crate::report::*;
use crate::util::*;
use crate::world::{Frame, *};
use rt::*;

const P: &[&str] = &["W01"];

/// the valid addresses for these seeds besides the canonical one
fn others(seeds: &[&[u8]], canon: u8, n: usize) -> Vec<(Key, u8)> {
    let mut v = vec![];
    let mut b = canon;
    while b > 0 && v.len() < n {
        b -= 1;
        let bb = [b];
        let mut s = seeds.to_vec();
        s.push(&bb);
        if let Some(k) = rt::crypto::create_pda(&s, &swig_id()) {
            v.push((k, b));
        }
    }
    v
}
fn pre(c: &mut Case, full: u64) -> u64 {
    match c.rng.below(7) {
        0 => 1,
        1 => full - 1,
        2 => full,
        3 => full + 1,
        4 => c.rng.range(1, 3 * full),
        5 => 10 * full,
        _ => 0,
    }
}
pub fn creation(c: &mut Case) {
    let mut s = fresh(c);
    let mut cred = Cred::new(*c.rng.pick(&KINDS), &mut c.rng, &s.pe);
    cred.max = c.rng.range(1, 2000);
    let n = c.rng.below(4);
    let mut acts = if n == 0 { vec![] } else { rand_acts(c, &s, 0, n, &[]) };
    let with = c.rng.below(10);
    acts.retain(|a| a.kind != ALL && a.kind != MANAGE);
    if with < 8 {
        let g = a_mark(if with < 4 { ALL } else { MANAGE });
        let i = c.rng.below(acts.len() + 1);
        acts.insert(i, g);
        if with == 3 {
            acts.push(a_mark(MANAGE));
        }
    }
    let mut bad: Vec<String> = vec![];
    if with >= 8 {
        bad.push("a root that cannot manage authorities".into());
        if acts.is_empty() {
            acts.push(a_mark(*c.rng.pick(&[ALLBUT, CLOSE, PROGALL])));
        }
    }
    let wl = s.wl.clone();
    let auth_len = cred.stored().len();
    let mut enc = if c.rng.chance(3, 4) { acts_stored(&acts) } else { acts_bytes(&acts) };
    let (mut kind, mut auth) = (cred.kind, cred.create_data());
    let full = rent_min(64 + auth_len + enc.len() + 7);
    let (mut bump, mut wbump, mut key, mut addr, mut id) = (wl.bump, wl.abump, wl.key, wl.addr, wl.id);
    let (a, b) = (pre(c, full), pre(c, rent_min(0)));
    if a > 0 {
        s.ch.set_lamports(wl.key, a);
    }
    if b > 0 {
        s.ch.set_lamports(wl.addr, b);
    }
    let mut tweak: Option<Box<dyn Fn(&mut Ix)>> = None;
    if c.rng.chance(3, 5) {
        match c.rng.below(17) {
            0 | 1 => {
                let o = others(&[b"swig", &id], bump, 3);
                if let Some((k, b)) = o.get(c.rng.below(o.len().max(1))) {
                    (key, bump) = (*k, *b);
                    let (k, b) = addr_pda(&key);
                    (addr, wbump) = (k, b);
                    bad.push(format!("a config account at bump {} instead of {}", bump, wl.bump));
                }
            }
            2 => {
                let o = others(&[b"swig-wallet-address", &key], wbump, 3);
                if let Some((k, b)) = o.get(c.rng.below(o.len().max(1))) {
                    (addr, wbump) = (*k, *b);
                    bad.push(format!("a wallet address at bump {} instead of {}", wbump, wl.abump));
                }
            }
            3 => {
                bump = bump.wrapping_add(*c.rng.pick(&[1u8, 255, 128]));
                bad.push("a config bump that is not the address's".into());
            }
            4 => {
                wbump = wbump.wrapping_add(*c.rng.pick(&[1u8, 255, 128]));
                bad.push("a wallet address bump that is not the address's".into());
            }
            5 => {
                key = c.rng.key();
                bad.push("a config account at an arbitrary address".into());
                if c.rng.bool() {
                    let (k, b) = addr_pda(&key);
                    (addr, wbump) = (k, b);
                }
            }
            6 => {
                addr = if c.rng.bool() { c.rng.key() } else { addr_pda(&id).0 };
                bad.push("an arbitrary wallet address".into());
            }
            7 => {
                // another id's addresses
                let o = Wallet::plan(&c.rng.key());
                if c.rng.bool() {
                    id = o.id;
                } else {
                    (addr, wbump) = (o.addr, o.abump);
                }
                bad.push("an address of another id".into());
            }
            8 => {
                let (e, why) = bad_acts(c, &s, 0, &[]);
                // what is valid in the list may not make it pass as a root
                let g = acts_stored(&[a_all()]);
                if e.is_empty() {
                    enc = e;
                } else if c.rng.bool() && !why.contains("cut") && !why.contains("actions") {
                    let mut v = relink(&e, g.len());
                    let mut x = g;
                    x.append(&mut v);
                    enc = x;
                } else {
                    enc = e;
                }
                bad.push(why);
            }
            9 => {
                let (k, a, why) = bad_auth(c, &s);
                (kind, auth) = (k, a);
                bad.push(why);
            }
            10 => {
                let owner = *c.rng.pick(&[swig_id(), token_id(), stake_id()]);
                let data = if c.rng.bool() { vec![] } else { vec![1u8; 48 + c.rng.below(200)] };
                let which = if c.rng.bool() { wl.key } else { wl.addr };
                s.ch.accts.insert(which, Acct { lamports: 10_000_000_000, data, owner, executable: false });
                bad.push(format!("an account of another program at the {} address", if which == wl.key { "config" } else { "wallet" }));
            }
            11 => {
                let n = 1 + c.rng.below(300);
                let d = if c.rng.bool() { vec![0u8; n] } else { c.rng.bytes(n) };
                let which = if c.rng.bool() { wl.key } else { wl.addr };
                s.ch.accts.insert(which, Acct { lamports: 10_000_000_000, data: d, owner: SYSTEM, executable: false });
                bad.push("an account that holds data already".into());
            }
            12 => {
                let short = match c.rng.below(3) {
                    0 => 0,
                    1 => rent_min(0),
                    _ => rent_min(0) + rent_min(64 + auth_len + enc.len()) / 3,
                };
                if a + b == 0 {
                    s.ch.set_lamports(s.payer, short);
                    bad.push("a payer that cannot cover the rent".into());
                }
            }
            13 => {
                let other = c.rng.key();
                tweak = Some(Box::new(move |ix| ix.accounts[3].key = other));
                bad.push("another account in place of the system program".into());
            }
            14 => {
                tweak = Some(Box::new(|ix| ix.accounts.truncate(3)));
                bad.push("too few accounts".into());
            }
            15 => {
                let n = c.rng.below(48);
                tweak = Some(Box::new(move |ix| ix.data.truncate(n.max(2))));
                bad.push("cut arguments".into());
            }
            _ => {
                let k = c.rng.below(3);
                tweak = Some(Box::new(move |ix| {
                    let (x, y) = [(0, 1), (0, 2), (1, 2)][k];
                    let t = ix.accounts[x].key;
                    ix.accounts[x].key = ix.accounts[y].key;
                    ix.accounts[y].key = t;
                }));
                bad.push("accounts in another order".into());
            }
        }
    }
    let mut ix = create_raw(kind, &auth, &enc, &id, bump, wbump, key, addr, s.payer);
    if let Some(t) = tweak {
        t(&mut ix);
    }
    let before = s.ch.clone();
    for m in ix.accounts.clone() {
        if m.signer && m.key != s.payer {
            s.fund_signer(m.key);
        }
    }
    let o = s.ch.exec1(&ix);
    c.log(format!(
        "create id {} root {:?} actions {} config holds {} wallet holds {} defects {:?} -> {}{}",
        short(&wl.id), cred, show(&acts), a, b, bad, if o.ok { "ok" } else { "refused: " }, o.err
    ));
    c.count(if o.ok { "created" } else { "refused" });
    let sig = bad.join(",").chars().filter(|c| !c.is_ascii_digit()).collect::<String>();
    c.eval(&format!("{} {} {}:{} {}", cred.kind, sig, (a > 0) as u8, (b > 0) as u8, with));
    c.saw("creation_defects", &sig);
    if o.ok != bad.is_empty() {
        if o.ok {
            // list checks of the stored contents are another property's matter too
            c.diverge(&["W01", "A08", "R05"], format!("created:{}", sig), format!("a wallet was created with {}", bad.join(", ")));
        } else {
            c.diverge(&["W01", "A08", "R05"], "refused:create", format!("a legal creation was refused: {}", o.err));
        }
        return;
    }
    if !o.ok {
        return;
    }
    s.wl.roles.push(Role { id: 0, cred: cred.clone(), acts: acts.clone() });
    s.wl.counter = 1;
    if let Err(e) = s.wl.check(&s.ch) {
        c.diverge(&["W01", "A05", "A08", "R05"], "state:create", e);
        return;
    }
    let cfg = s.ch.get(&s.wl.key);
    let need = |have: u64, len: usize| have.max(rent_min(len));
    let (x, y) = (need(a, cfg.data.len()), need(b, 0));
    let got = (cfg.lamports, s.ch.lamports(&s.wl.addr));
    if got != (x, y) {
        c.violate("lamports:create", format!("after creation the config account holds {} (want {}), the wallet {} (want {})", got.0, x, got.1, y));
        return;
    }
    let w_acct = s.ch.get(&s.wl.addr);
    if w_acct.owner != SYSTEM || !w_acct.data.is_empty() {
        c.violate("wallet:create", "the wallet address is not a plain system account after creation");
        return;
    }
    // nothing beyond the roles but padding to eight bytes
    let want = s.wl.bytes().len();
    if cfg.data.len() != want.div_ceil(8) * 8 {
        c.violate("size:create", format!("the config account is {} bytes long, its contents take {}", cfg.data.len(), want));
        return;
    }
    let (payer, wk, wa) = (s.payer, s.wl.key, s.wl.addr);
    let paid = before.lamports(&payer) - s.ch.lamports(&payer);
    if paid != (x - a) + (y - b) {
        c.violate("cost:create", format!("creation cost {} lamports instead of {}", paid, (x - a) + (y - b)));
        return;
    }
    for (k, v) in s.ch.accts.iter() {
        if ![payer, wk, wa, ixs_sysvar_id()].contains(k) && before.get(k) != *v {
            c.violate("frame:create", format!("creation changed account {}", short(k)));
            return;
        }
    }
    // the root can act at once: a wallet never starts locked
    if s.cred(0).session() {
        let sk = c.rng.key();
        let slot = s.ch.slot;
        let b = create_session(&s.wl, s.payer, 0, 1, &sk);
        s.step(c, "session", &b, 0, true, Some(true), P, Frame::default(), |w, _| {
            let r = w.role_mut(0).unwrap();
            r.cred.sess = sk;
            r.cred.exp = slot + 1;
        });
    }
    if c.dead {
        return;
    }
    let nc = Cred::new(*c.rng.pick(&KINDS), &mut c.rng, &s.pe);
    let na = vec![a_sol(5)];
    let bb = add(&s.wl, s.payer, 0, &nc, &na);
    if c.rng.bool() {
        s.step(c, "add", &bb, 0, false, Some(true), P, Frame::default(), |w, _| {
            w.roles.push(Role { id: w.counter, cred: nc, acts: na });
            w.counter += 1;
        });
    }
    if c.dead {
        return;
    }
    // the same id again, at any of its valid addresses
    let mut at = vec![(s.wl.key, s.wl.bump)];
    at.extend(others(&[b"swig", &s.wl.id.clone()], s.wl.bump, 2));
    let claimant = Cred::new(ED, &mut c.rng, &s.pe);
    for (k, b) in at {
        let (ad, ab) = addr_pda(&k);
        for (ad, ab) in [(ad, ab), (s.wl.addr, s.wl.abump)] {
            let ix = create_raw(ED, &claimant.create_data(), &acts_stored(&[a_all()]), &s.wl.id, b, ab, k, ad, s.payer);
            let snap = s.ch.clone();
            let o = s.ch.exec1(&ix);
            c.eval(&format!("again {}", (k == s.wl.key) as u8));
            c.count("second_creations_tried");
            if o.ok {
                c.violate("second:create", "a second wallet was created for the same id");
                return;
            }
            s.ch = snap;
        }
    }
    c.sample(|| format!("wallet {} root {:?} actions {} config prefunded {} wallet prefunded {}", short(&wl.id), cred, show(&acts), a, b));
}
/// moves a list of encoded actions by `by` bytes (their headers hold absolute ends)
fn relink(e: &[u8], by: usize) -> Vec<u8> {
    let mut v = e.to_vec();
    let mut at = 0;
    while at + 8 <= v.len() {
        let end = le32(&v[at + 4..]) as usize;
        v[at + 4..at + 8].copy_from_slice(&((end + by) as u32).to_le_bytes());
        if end <= at {
            break;
        }
        at = end;
    }
    v
}
