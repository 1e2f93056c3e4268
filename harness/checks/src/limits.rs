//! Signed executions: every execution is repeated by a reference run of the
//! same inner instructions outside the wallet program; what it took out of the
//! wallet is measured there and charged to the model of the acting role.
use crate::charge::*;
use crate::enc::*;
use crate::hist::{age, age_roles, crowd, store, strangers, unrelated};
use crate::model::*;
use crate::plan::*;
use crate::report::*;
use crate::util::*;
use crate::world::{Frame, *};
use rt::programs::{stk, tok, Script};
use rt::*;
use std::collections::BTreeMap;

type Accts = BTreeMap<Key, Acct>;
fn at(m: &Accts, k: &Key) -> Acct {
    m.get(k).cloned().unwrap_or_default()
}
#[derive(Clone)]
pub struct Mint {
    pub key: Key,
    pub prog: Key,
    pub own: Vec<Key>,
    pub ext: Vec<Key>,
}
pub struct Bench {
    pub s: Sim,
    pub mints: Vec<Mint>,
    /// wrapped SOL
    pub native: Mint,
    pub stakes: Vec<Key>,
    pub dests: Vec<Key>,
    pub pups: Vec<Key>,
    /// accounts of the first puppet program
    pub cells: Vec<Key>,
    /// somebody else's key
    pub ext: Key,
    /// roles below this id only fill the table
    pub first: u32,
}
const CELL: usize = 64;
fn native_acct(owner: &Key, amount: u64, mint: &Key) -> Acct {
    let r = rent_min(165);
    Acct { lamports: r + amount, data: tok::acct_data(mint, owner, amount, Some(r)), owner: token_id(), executable: false }
}
pub fn bench(c: &mut Case, focus: &str) -> Bench {
    let mut s = fresh(c);
    let root = Cred::new(ED, &mut c.rng, &s.pe);
    s.create(c, root, vec![a_all()]);
    let addr = s.wl.addr;
    s.ch.fund(addr, 60_000_000_000);
    let ext = c.rng.key();
    s.ch.fund(ext, 1_000_000_000);
    let mut mints = vec![];
    for i in 0..2 {
        let prog = if i == 1 || c.rng.chance(1, 4) { token22_id() } else { token_id() };
        let m = c.rng.key();
        s.mint_at(m, prog);
        let own = vec![c.rng.key(), c.rng.key()];
        let ex = vec![c.rng.key(), c.rng.key()];
        for k in &own {
            s.tok_acct(*k, &m, &addr, 1_000_000, prog);
            if prog == token22_id() && c.rng.bool() {
                let mut a = s.ch.get(k);
                let n = 166 + c.rng.below(40);
                a.data.resize(n, 0);
                for b in a.data[165..].iter_mut() {
                    *b = 2;
                }
                a.lamports = rent_min(n);
                s.ch.accts.insert(*k, a);
            }
        }
        for k in &ex {
            s.tok_acct(*k, &m, &ext, 1_000_000, prog);
        }
        mints.push(Mint { key: m, prog, own, ext: ex });
    }
    let nm = c.rng.key();
    s.mint_at(nm, token_id());
    let native = Mint { key: nm, prog: token_id(), own: vec![c.rng.key()], ext: vec![c.rng.key()] };
    s.ch.accts.insert(native.own[0], native_acct(&addr, 1_000_000, &nm));
    s.ch.accts.insert(native.ext[0], native_acct(&ext, 1_000_000, &nm));
    let stakes: Vec<Key> = (0..3).map(|_| c.rng.key()).collect();
    let dests: Vec<Key> = (0..3).map(|_| c.rng.key()).collect();
    for d in &dests {
        s.ch.fund(*d, 1_000_000_000);
    }
    let pups: Vec<Key> = (0..2).map(|_| c.rng.key()).collect();
    for p in &pups {
        s.ch.add_program(*p, Prog::Puppet);
    }
    let cells: Vec<Key> = (0..3).map(|_| c.rng.key()).collect();
    let mut b = Bench { s, mints, native, stakes, dests, pups, cells, ext, first: 0 };
    for i in 0..3 {
        fill_stake(c, &mut b, i);
        fill_cell(c, &mut b, i);
    }
    let n = 2 + c.rng.below(3);
    let old = c.rng.chance(1, 6);
    let wide = c.rng.chance(1, 6);
    if wide {
        strangers(c, &mut b.s);
    }
    if old {
        age(c, &mut b.s);
    }
    b.first = b.s.wl.counter;
    for _ in 0..n {
        let kind = if c.rng.chance(2, 3) { ED } else { *c.rng.pick(&KINDS) };
        let mut cred = Cred::new(kind, &mut c.rng, &b.s.pe);
        if cred.session() {
            cred.max = 1 << 40;
        }
        let acts = role_acts(c, &b, focus);
        let bs = add(&b.s.wl, b.s.payer, 0, &cred, &acts);
        let id = b.s.wl.counter;
        let name = format!("add {:?} {}", cred, show(&acts));
        b.s.step(c, &name, &bs, 0, false, Some(true), &["A04", "A05", "A08"], Frame::default(), |w, _| {
            w.roles.push(Role { id, cred, acts });
            w.counter += 1;
        });
        if c.dead {
            c.stop();
        }
    }
    if old {
        age_roles(c, &mut b.s);
        if c.rng.chance(1, 4) {
            crowd(c, &mut b.s);
        }
    }
    if wide {
        pad(c, &mut b);
    }
    b
}
/// roles that hold many things besides
fn pad(c: &mut Case, b: &mut Bench) {
    let first = b.first;
    let used: Vec<usize> = (0..b.s.wl.roles.len()).filter(|i| b.s.wl.roles[*i].id >= first).collect();
    for i in used {
        if c.rng.bool() {
            continue;
        }
        for _ in 0..*c.rng.pick(&[4usize, 12, 20, 40]) {
            let a = unrelated(c);
            let v = &mut b.s.wl.roles[i].acts;
            let at = if c.rng.chance(2, 3) { 0 } else { c.rng.below(v.len() + 1) };
            v.insert(at, a);
        }
    }
    store(c, &mut b.s, "roles with many unrelated actions");
}
fn fill_stake(c: &mut Case, b: &mut Bench, i: usize) {
    let addr = b.s.wl.addr;
    let x = c.rng.range(1_000_000_000, 8_000_000_000);
    let k = b.stakes[i];
    match i {
        0 => b.s.stake_acct(k, 1, &addr, 0, x),
        1 => b.s.stake_acct(k, 2, &addr, x, x + c.rng.range(0, 2_000_000_000)),
        _ => {
            b.s.stake_acct(k, 2, &addr, x, x);
            let mut a = b.s.ch.get(&k);
            a.data[172..180].copy_from_slice(&3u64.to_le_bytes());
            b.s.ch.accts.insert(k, a);
        }
    }
}
fn fill_cell(c: &mut Case, b: &mut Bench, i: usize) {
    let data = c.rng.bytes(CELL);
    b.s.ch.accts.insert(b.cells[i], Acct { lamports: rent_min(CELL) + 5_000_000_000, data, owner: b.pups[0], executable: false });
}
fn lim(c: &mut Case, hi: u64) -> u64 {
    match c.rng.below(12) {
        0 => 0,
        1 => u64::MAX,
        2 => 1,
        _ => c.rng.range(1, hi),
    }
}
fn win(c: &mut Case) -> u64 {
    *c.rng.pick(&[1u64, 2, 3, 10, 10, 50, 100, 1000, 432_000, u64::MAX])
}
pub fn role_acts(c: &mut Case, b: &Bench, focus: &str) -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    if c.rng.chance(if focus == "C01" || focus == "P01" { 25 } else { 5 }, 100) {
        v.push(a_mark(if c.rng.bool() { ALL } else { ALLBUT }));
    }
    let rec = focus == "L03";
    // how likely each family is
    let p = |f: &str| -> u64 {
        if focus == f {
            90
        } else if focus == "L03" || focus == "P02" {
            60
        } else {
            40
        }
    };
    let recurring = |c: &mut Case| c.rng.chance(if rec { 80 } else { 40 }, 100);
    if c.rng.chance(p("L01"), 100) {
        let x = lim(c, 9_000_000_000);
        let two = c.rng.chance(1, 8);
        let rc = recurring(c);
        if rc || two {
            v.push(a_solr(x, win(c)));
        }
        if !rc || two {
            v.push(a_sol(lim(c, 9_000_000_000)));
        }
    }
    let d4 = if focus == "L04" { 85 } else if rec { 45 } else { 12 };
    if c.rng.chance(d4, 100) {
        for d in &b.dests {
            if c.rng.chance(2, 3) {
                let x = lim(c, 5_000_000_000);
                let a = if recurring(c) { a_solrd(d, x, win(c)) } else { a_sold(d, x) };
                v.push(a);
            }
        }
    }
    for m in b.mints.iter().chain([&b.native]) {
        if c.rng.chance(p("L02"), 100) {
            let x = lim(c, 30_000);
            let two = c.rng.chance(1, 8);
            let rc = recurring(c);
            if rc || two {
                v.push(a_tokr(&m.key, x, win(c)));
            }
            if !rc || two {
                v.push(a_tok(&m.key, lim(c, 30_000)));
            }
        }
        if c.rng.chance(d4, 100) {
            for d in m.ext.iter().chain(m.own.first()) {
                if c.rng.chance(2, 3) {
                    let x = lim(c, 20_000);
                    let a = if recurring(c) { a_tokrd(&m.key, d, x, win(c)) } else { a_tokd(&m.key, d, x) };
                    v.push(a);
                }
            }
        }
    }
    if c.rng.chance(p("L05"), 100) {
        let x = lim(c, 6_000_000_000);
        match c.rng.below(9) {
            0 => v.push(a_mark(STKALL)),
            1..=3 => v.push(a_stkr(x, win(c))),
            4 => {
                v.push(a_stk(x));
                v.push(a_stkr(lim(c, 6_000_000_000), win(c)));
            }
            5 if c.rng.bool() => {
                v.push(a_stk(x));
                v.push(a_mark(STKALL));
            }
            _ if recurring(c) => v.push(a_stkr(x, win(c))),
            _ => v.push(a_stk(x)),
        }
    }
    // scopes: where any role has one, every role of the bench has one
    for q in &b.cells[..2] {
        let nt = c.rng.below(4) as u64;
        let wd = [1usize, 4, 8, 16][nt as usize];
        let st = c.rng.below(CELL - wd + 1) as u64;
        let ty = if rec { 2 } else { c.rng.below(3) as u64 };
        let limit = match (nt, c.rng.below(5)) {
            (_, 0) => u64::MAX as u128 * 3,
            (0, _) => c.rng.range(1, 300) as u128,
            (1, _) => c.rng.range(1, 1 << 33) as u128,
            (2, _) => c.rng.u64() as u128,
            _ => (c.rng.u64() as u128) << c.rng.below(60),
        };
        let w = win(c);
        v.push(a_scope(0, limit, w, 0, &b.pups[0], q, ty, nt, st, st + wd as u64));
    }
    match c.rng.below(if focus == "P01" { 6 } else { 12 }) {
        0 => {
            v.push(a_curated());
        }
        1 => {
            v.push(a_curated());
            v.push(a_prog(&b.pups[0]));
        }
        2 => {
            for k in [SYSTEM, token_id(), token22_id(), stake_id(), b.pups[0], b.pups[1], memo_id()] {
                if c.rng.bool() {
                    v.push(a_prog(&k));
                }
            }
        }
        3 if focus == "P01" => {}
        _ => v.push(a_mark(PROGALL)),
    }
    if c.rng.chance(1, 4) {
        v.push(a_mark(CLOSE));
    }
    if c.rng.chance(1, 8) {
        v.push(a_mark(MANAGE));
    }
    c.rng.shuffle(&mut v);
    v
}
// ------------------------------------------------------------ instructions
fn tok_transfer(prog: Key, from: Key, to: Key, mint: Key, auth: Key, x: u64, checked: bool) -> Ix {
    let mut d = vec![if checked { 12 } else { 3 }];
    d.extend_from_slice(&x.to_le_bytes());
    let mut m = vec![w(from)];
    if checked {
        d.push(6);
        m.push(r(mint));
    }
    m.extend([w(to), rs(auth)]);
    Ix { program: prog, accounts: m, data: d }
}
fn ix(program: Key, accounts: Vec<Meta>, data: &[&[u8]]) -> Ix {
    Ix { program, accounts, data: data.concat() }
}
/// an amount near what the acting role may still spend under any of `kinds`
fn aim(c: &mut Case, r: &Role, kinds: &[u16], max: u64) -> u64 {
    if max == 0 {
        return 0;
    }
    let mut cand = vec![];
    for a in &r.acts {
        if kinds.contains(&a.kind) {
            for o in (0..a.data.len() / 8).map(|i| i * 8) {
                let x = le64(&a.data[o..]);
                if x <= max {
                    cand.push(x);
                }
            }
        }
    }
    if !cand.is_empty() && c.rng.chance(3, 4) {
        let x = *c.rng.pick(&cand);
        let y = match c.rng.below(6) {
            0 | 1 => x,
            2 => x.saturating_add(1),
            3 => x.saturating_sub(1),
            4 => x / 2,
            _ => c.rng.range(0, x),
        };
        return y.min(max);
    }
    match c.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => c.rng.range(1, max),
        3 => c.rng.range(1, (max / 4).max(1)),
        _ => c.rng.range(1, (max / 50).max(1)),
    }
}
pub struct Gen<'b> {
    pub b: &'b Bench,
    pub tags: Vec<&'static str>,
    pub extra: Vec<Meta>,
    /// address that signs through the wallet program
    pub own: Key,
}
/// a third-party program that passes the owner's signature on
fn through(b: &Bench, own: &Key, inner: Ix) -> Ix {
    let mut metas: Vec<Meta> = vec![];
    let mut refs = vec![];
    for m in &inner.accounts {
        let i = match metas.iter().position(|x| x.key == m.key) {
            Some(i) => {
                metas[i].writable |= m.writable;
                metas[i].signer |= m.signer;
                i
            }
            None => {
                metas.push(*m);
                metas.len() - 1
            }
        };
        refs.push((i as u8, m.signer, m.writable));
    }
    let _ = own;
    metas.push(r(inner.program));
    let pi = (metas.len() - 1) as u8;
    Ix { program: b.pups[1], accounts: metas, data: Script::new().cpi(pi, &refs, &inner.data).0 }
}
pub fn template(c: &mut Case, g: &mut Gen, role: &Role, focus: &str) -> Vec<Ix> {
    let b = g.b;
    let own = g.own;
    let ch = &b.s.ch;
    let t: usize = match focus {
        "L01" if c.rng.bool() => *c.rng.pick(&[0usize, 0, 0, 12, 13, 8]),
        "L02" if c.rng.bool() => *c.rng.pick(&[1usize, 1, 1, 2, 3, 14]),
        "L03" if c.rng.bool() => *c.rng.pick(&[0usize, 1, 4, 6]),
        "L04" if c.rng.chance(3, 4) => *c.rng.pick(&[0usize, 0, 1, 1, 13]),
        "L05" if c.rng.chance(3, 4) => *c.rng.pick(&[4usize, 4, 5, 16]),
        "L06" if c.rng.chance(3, 4) => 6,
        "P02" if c.rng.bool() => 9,
        "P01" if c.rng.bool() => *c.rng.pick(&[10usize, 10, 15, 0, 1, 4, 17]),
        _ => c.rng.below(18),
    };
    let mint = |c: &mut Case| -> Mint {
        if c.rng.chance(1, 5) {
            b.native.clone()
        } else {
            c.rng.pick(&b.mints).clone()
        }
    };
    let bal = ch.lamports(&own);
    let room = bal.saturating_sub(rent_min(0));
    match t {
        0 => {
            g.tags.push("send");
            let d = *c.rng.pick(&b.dests);
            let d = if c.rng.chance(1, 15) { own } else { d };
            let mut x = aim(c, role, &[SOL, SOLR, SOLD, SOLRD], room);
            if c.rng.chance(1, 40) {
                // leaves the wallet short of rent or asks for too much
                x = *c.rng.pick(&[bal, bal.saturating_sub(1), room + 1, bal + 1]);
            }
            let mut t = sys_transfer(own, d, x);
            if c.rng.chance(1, 12) {
                t.data.extend_from_slice(&[1, 2, 3]);
            }
            if c.rng.chance(1, 12) {
                t.accounts.push(r(b.ext));
            }
            vec![t]
        }
        1 | 11 => {
            let m = mint(c);
            g.tags.push(if m.key == b.native.key { "wsol" } else { "token" });
            let from = *c.rng.pick(&m.own);
            let to = if c.rng.chance(1, 8) { *c.rng.pick(&m.own) } else { *c.rng.pick(&m.ext) };
            let x = aim(c, role, &[TOK, TOKR, TOKD, TOKRD], tok::amount(&ch.data(&from)));
            let mut t = tok_transfer(m.prog, from, to, m.key, own, x, c.rng.bool());
            if c.rng.chance(1, 12) {
                t.data.push(0);
            }
            if c.rng.chance(1, 8) {
                for _ in 0..1 + c.rng.below(3) {
                    let k = *c.rng.pick(&[m.key, b.ext, b.dests[0], m.ext[0], from]);
                    t.accounts.push(r(k));
                }
            }
            vec![t]
        }
        2 => {
            g.tags.push("burn");
            let m = c.rng.pick(&b.mints).clone();
            let from = *c.rng.pick(&m.own);
            let x = aim(c, role, &[TOK, TOKR], tok::amount(&ch.data(&from)));
            let k = *c.rng.pick(&[8u8, 15]);
            let mut d = vec![k];
            d.extend_from_slice(&x.to_le_bytes());
            if k == 15 {
                d.push(6);
            }
            vec![Ix { program: m.prog, accounts: vec![w(from), w(m.key), rs(own)], data: d }]
        }
        3 => {
            // close, emptying first
            g.tags.push("close");
            let m = mint(c);
            let from = *c.rng.pick(&m.own);
            let x = tok::amount(&ch.data(&from));
            let mut v = vec![];
            if m.key != b.native.key || c.rng.chance(1, 4) {
                v.push(tok_transfer(m.prog, from, *c.rng.pick(&m.ext), m.key, own, x, c.rng.bool()));
            }
            let to = if c.rng.bool() { own } else { *c.rng.pick(&b.dests) };
            v.push(ix(m.prog, vec![w(from), w(to), rs(own)], &[&[9]]));
            v
        }
        4 => {
            g.tags.push("unstake");
            let k = *c.rng.pick(&b.stakes);
            let a = ch.get(&k);
            if a.data.len() < 200 {
                return vec![];
            }
            let deact = le64(&a.data[172..]);
            let locked = if le32(&a.data) == 2 && deact == u64::MAX { stk::stake(&a.data) } else { 0 };
            let free = a.lamports.saturating_sub(le64(&a.data[4..]) + locked);
            let mut x = aim(c, role, &[STK, STKR], free);
            if c.rng.chance(1, 10) && locked == 0 {
                x = a.lamports;
            }
            let to = if c.rng.chance(1, 3) { own } else { *c.rng.pick(&b.dests) };
            vec![ix(stake_id(), vec![w(k), w(to), rs(own)], &[&4u32.to_le_bytes(), &x.to_le_bytes()])]
        }
        5 => {
            g.tags.push("delegate");
            let k = *c.rng.pick(&b.stakes);
            if c.rng.bool() {
                vec![ix(stake_id(), vec![w(k), rs(own)], &[&5u32.to_le_bytes()])]
            } else {
                vec![ix(stake_id(), vec![w(k), r(b.ext), rs(own)], &[&2u32.to_le_bytes()])]
            }
        }
        6 | 7 => {
            g.tags.push("cell");
            let q = *c.rng.pick(&b.cells);
            let data = ch.data(&q);
            let sc = role.acts.iter().find(|a| a.kind == SCOPE && a.data[80..112] == q);
            let mut s = Script::new();
            match sc {
                Some(a) if !c.rng.chance(1, 12) => {
                    let (st, en) = (le64(&a.data[128..]) as usize, le64(&a.data[136..]) as usize);
                    let mut buf = [0u8; 16];
                    buf[..en - st].copy_from_slice(&data[st..en]);
                    let cur = u128::from_le_bytes(buf);
                    let used = u128::from_le_bytes(a.data[..16].try_into().unwrap());
                    let cap = u128::from_le_bytes(a.data[16..32].try_into().unwrap());
                    let left = cap.saturating_sub(used);
                    let x = match c.rng.below(7) {
                        0 | 1 => left,
                        2 => left.saturating_add(1),
                        3 => left / 2,
                        4 => cap,
                        5 => cap.saturating_add(1),
                        _ => (c.rng.u64() as u128) << c.rng.below(64),
                    };
                    let top = if en - st == 16 { u128::MAX } else { (1u128 << (8 * (en - st))) - 1 };
                    let new = if c.rng.chance(1, 6) { cur.saturating_add(x).min(top) } else { cur.saturating_sub(x) };
                    s = s.write(0, st as u16, &new.to_le_bytes()[..en - st]);
                    if c.rng.chance(1, 15) {
                        let o = match c.rng.below(5) {
                            0 => 0,
                            1 => CELL - 1,
                            2 => st.saturating_sub(1),
                            3 => en.min(CELL - 1),
                            _ => c.rng.below(CELL),
                        };
                        s = s.write(0, o as u16, &[data[o] ^ 1]);
                    }
                }
                _ => {
                    let o = c.rng.below(CELL - 4);
                    let x = c.rng.bytes(4);
                    s = s.write(0, o as u16, &x);
                }
            }
            let mut m = vec![w(q)];
            if c.rng.chance(1, 4) {
                m.push(ws(own));
            }
            vec![Ix { program: b.pups[0], accounts: m, data: s.0 }]
        }
        8 => {
            // income
            g.tags.push("income");
            match c.rng.below(3) {
                0 => {
                    let x = c.rng.range(1, 500_000_000);
                    vec![Ix { program: b.pups[0], accounts: vec![w(b.cells[2]), w(own)], data: Script::new().mv(0, 1, x).0 }]
                }
                1 => {
                    let m = mint(c);
                    let x = c.rng.range(1, 5000);
                    g.extra.push(rs(b.ext));
                    vec![tok_transfer(m.prog, m.ext[0], *c.rng.pick(&m.own), m.key, b.ext, x.min(tok::amount(&ch.data(&m.ext[0]))), false)]
                }
                _ => {
                    g.extra.push(rs(b.ext));
                    let x = c.rng.range(1, 1000);
                    vec![sys_transfer(b.ext, own, x)]
                }
            }
        }
        9 => {
            g.tags.push("seize");
            let m = mint(c);
            let a = *c.rng.pick(&m.own);
            let k = *c.rng.pick(&b.stakes);
            let d = ch.data(&a);
            let long = d.len() > 165;
            let other = |c: &mut Case, cur: Option<Key>| match cur {
                Some(k) if c.rng.bool() => near(c, &k),
                _ => b.ext,
            };
            let it = match c.rng.below(if long { 12 } else { 9 }) {
                0 => {
                    let k = other(c, tok::delegate(&d));
                    let x = if c.rng.bool() { c.rng.range(0, 900) } else { tok::delegated(&d) };
                    ix(m.prog, vec![w(a), r(k), rs(own)], &[&[4], &x.to_le_bytes()])
                }
                1 => ix(m.prog, vec![w(a), rs(own)], &[&[6, 2, 1], &other(c, Some(own))]),
                2 => ix(m.prog, vec![w(a), rs(own)], &[&[6, 3, 1], &other(c, tok::close_auth(&d))]),
                9.. => ix(m.prog, vec![w(a), rs(own)], &[&[30, c.rng.below(3) as u8]]),
                3 => ix(m.prog, vec![w(a), rs(own)], &[&[6, 3, 0]]),
                4 => ix(m.prog, vec![w(a), rs(own)], &[&[5]]),
                5 => ix(stake_id(), vec![w(k), rs(own)], &[&1u32.to_le_bytes(), &b.ext, &(c.rng.below(2) as u32).to_le_bytes()]),
                6 => ix(SYSTEM, vec![ws(own)], &[&1u32.to_le_bytes(), &b.pups[0]]),
                7 => ix(SYSTEM, vec![ws(own)], &[&8u32.to_le_bytes(), &c.rng.range(0, 40).to_le_bytes()]),
                _ => ix(SYSTEM, vec![ws(own), rt::w(b.dests[0])], &[&2u32.to_le_bytes(), &(bal - c.rng.range(0, rent_min(0))).to_le_bytes()]),
            };
            if c.rng.chance(1, 3) {
                vec![through(b, &own, it)]
            } else {
                vec![it]
            }
        }
        10 => {
            g.tags.push("other program");
            let p = *c.rng.pick(&[memo_id(), b.pups[0], b.pups[1], memo_id()]);
            let m = if c.rng.chance(3, 4) { if c.rng.bool() { ws(own) } else { r(own) } } else { r(b.ext) };
            vec![Ix { program: p, accounts: vec![m], data: vec![0; c.rng.below(4)] }]
        }
        12 => {
            g.tags.push("new account");
            let k = c.rng.key();
            g.extra.push(rs(k));
            let n = c.rng.below(30);
            let x = aim(c, role, &[SOL, SOLR], room / 2).max(rent_min(n));
            vec![ix(SYSTEM, vec![ws(own), ws(k)], &[&0u32.to_le_bytes(), &x.to_le_bytes(), &(n as u64).to_le_bytes(), &b.pups[0]])]
        }
        13 => {
            g.tags.push("hidden");
            let it = match c.rng.below(3) {
                0 => sys_transfer(own, *c.rng.pick(&b.dests), aim(c, role, &[SOL, SOLR, SOLD, SOLRD], room)),
                1 => {
                    let m = mint(c);
                    let from = *c.rng.pick(&m.own);
                    let x = aim(c, role, &[TOK, TOKR, TOKD, TOKRD], tok::amount(&ch.data(&from)));
                    tok_transfer(m.prog, from, *c.rng.pick(&m.ext), m.key, own, x, c.rng.bool())
                }
                _ => {
                    let k = *c.rng.pick(&b.stakes);
                    let x = aim(c, role, &[STK, STKR], 1_000_000_000);
                    ix(stake_id(), vec![w(k), w(*c.rng.pick(&b.dests)), rs(own)], &[&4u32.to_le_bytes(), &x.to_le_bytes()])
                }
            };
            let mut t = through(b, &own, it);
            if c.rng.chance(1, 3) {
                // and something comes back within the same instruction
                let n = t.accounts.len() as u8;
                t.program = b.pups[0];
                t.accounts.push(w(b.cells[2]));
                let wi = match t.accounts.iter().position(|m| m.key == own) {
                    Some(i) => i as u8,
                    None => return vec![t],
                };
                t.accounts[wi as usize].writable = true;
                let x = c.rng.range(1, 100_000_000);
                t.data.extend_from_slice(&Script::new().mv(n, wi, x).0);
            }
            vec![t]
        }
        14 => {
            // spending through a delegate made earlier
            g.tags.push("delegate spend");
            let m = c.rng.pick(&b.mints).clone();
            let a = m.own[0];
            let x = aim(c, role, &[TOK, TOKR, TOKD, TOKRD], tok::amount(&ch.data(&a)));
            g.extra.push(rs(b.ext));
            let mut v = vec![ix(m.prog, vec![w(a), r(b.ext), rs(own)], &[&[4], &x.to_le_bytes()])];
            v.push(tok_transfer(m.prog, a, m.ext[0], m.key, b.ext, x, false));
            if c.rng.bool() {
                v.push(ix(m.prog, vec![w(a), rs(own)], &[&[5]]));
            }
            v
        }
        15 => {
            g.tags.push("fails");
            match c.rng.below(3) {
                0 => vec![Ix { program: b.pups[0], accounts: vec![w(b.cells[2])], data: Script::new().fail().0 }],
                1 => vec![Ix { program: c.rng.key(), accounts: vec![], data: vec![] }],
                _ => vec![sys_transfer(b.dests[0], own, 5)],
            }
        }
        16 => {
            g.tags.push("split");
            let (i, j) = (c.rng.below(3), c.rng.below(3));
            let a = ch.get(&b.stakes[i]);
            if a.data.len() < 200 || i == j {
                return vec![];
            }
            let x = if c.rng.chance(1, 4) { a.lamports } else { aim(c, role, &[STK, STKR], if le32(&a.data) == 2 { stk::stake(&a.data) } else { a.lamports.saturating_sub(rent_min(200)) }) };
            vec![ix(stake_id(), vec![w(b.stakes[i]), w(b.stakes[j]), rs(own)], &[&3u32.to_le_bytes(), &x.to_le_bytes()])]
        }
        _ => {
            // the wallet administering itself without its managers
            g.tags.push("self administration");
            let wl = &b.s.wl;
            let victim = *c.rng.pick(&wl.roles.iter().map(|r| r.id).collect::<Vec<_>>());
            let cr = wl.role(victim).unwrap().cred.clone();
            let mut bs = match c.rng.below(4) {
                0 => add(wl, own, victim, &Cred::new(ED, &mut c.rng, &b.s.pe), &[a_all()]),
                1 => remove(wl, own, victim, role.id, 1),
                2 => update(wl, own, victim, role.id, &Upd::Add(acts_bytes(&[a_all()]))),
                _ => sign_ixs(wl, victim, &[sys_transfer(wl.addr, b.dests[0], 1_000_000)]),
            };
            let me = if c.rng.bool() { own } else { cr.ed };
            let n = bs.metas.iter().position(|m| m.key == me).unwrap_or_else(|| {
                bs.metas.push(r(me));
                bs.metas.len() - 1
            });
            let mut i = Ix { program: swig_id(), accounts: bs.metas.clone(), data: bs.data.clone() };
            i.data.push(n as u8);
            vec![i]
        }
    }
}
/// account list and payload of an execution
pub struct Enc {
    pub metas: Vec<Meta>,
    pub payload: Vec<u8>,
}
pub fn encode(c: &mut Case, head: &[Meta], ixs: &[Ix], extra: &[Meta], own: &Key) -> Enc {
    let mut tail: Vec<Meta> = vec![];
    let mut put = |m: Meta, head: &mut Vec<Meta>| {
        let m = Meta { signer: m.signer && m.key != *own, ..m };
        if let Some(x) = head.iter_mut().find(|x| x.key == m.key) {
            x.signer |= m.signer;
            x.writable |= m.writable;
            return;
        }
        if let Some(x) = tail.iter_mut().find(|x| x.key == m.key) {
            x.signer |= m.signer;
            x.writable |= m.writable;
            return;
        }
        tail.push(m);
    };
    let mut h = head.to_vec();
    for i in ixs {
        for m in &i.accounts {
            put(*m, &mut h);
        }
        put(r(i.program), &mut h);
    }
    for m in extra {
        put(*m, &mut h);
    }
    c.rng.shuffle(&mut tail);
    h.extend(tail);
    if c.rng.chance(1, 8) {
        let k = 1 + c.rng.below(2);
        for _ in 0..k {
            let m = *c.rng.pick(&h);
            if m.key != head[0].key {
                h.push(m);
            }
        }
    }
    let pos = |c: &mut Case, k: &Key| -> u8 {
        let v: Vec<usize> = (0..h.len()).filter(|i| h[*i].key == *k).collect();
        *c.rng.pick(&v) as u8
    };
    let mut o = vec![ixs.len() as u8];
    for i in ixs {
        let p = pos(c, &i.program);
        o.push(p);
        o.push(i.accounts.len() as u8);
        for m in &i.accounts {
            let p = pos(c, &m.key);
            o.push(p);
        }
        o.extend_from_slice(&(i.data.len() as u16).to_le_bytes());
        o.extend_from_slice(&i.data);
    }
    Enc { metas: h, payload: o }
}
/// the inner instructions with the rights the specification gives them
pub fn effective(ixs: &[Ix], outer: &[Meta], own: &Key) -> Vec<Ix> {
    ixs.iter()
        .map(|i| Ix {
            program: i.program,
            data: i.data.clone(),
            accounts: i
                .accounts
                .iter()
                .map(|m| {
                    let o = outer.iter().find(|x| x.key == m.key).unwrap();
                    Meta { key: m.key, signer: o.signer || m.key == *own, writable: o.writable }
                })
                .collect(),
        })
        .collect()
}
pub type No = (Vec<&'static str>, String);
fn no<T>(p: &[&'static str], s: &str) -> Result<T, No> {
    Err((p.to_vec(), s.to_string()))
}
fn reason_props(r: &str, acts: &[Act]) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    if r.contains("destination") || r.contains("attributed") {
        v.push("L04");
        v.push(if r.starts_with("sol") { "L01" } else { "L02" });
    } else if r.contains("sol") {
        v.push("L01");
    } else if r.contains("token") {
        v.push("L02");
    } else if r.contains("stake") {
        v.push("L05");
    } else if r.contains("scope") {
        v.push("L06");
        if acts.iter().any(|a| a.kind == SCOPE && le64(&a.data[112..]) == 2) {
            v.push("L03");
        }
    }
    if r.contains("recurring") {
        v.push("L03");
    }
    v
}
/// what an execution took, measured on the reference run
fn spent(wl: &Wallet, role: &Role, before: &Accts, snaps: &[Accts], ixs: &[Ix], outer: &[Meta]) -> Spent {
    let mut s = Spent::default();
    let mut prev = before;
    for x in snaps {
        s.sol += at(prev, &wl.addr).lamports.saturating_sub(at(x, &wl.addr).lamports);
        prev = x;
    }
    for i in ixs {
        if i.program == SYSTEM && i.data.len() >= 12 && i.data[..4] == [2, 0, 0, 0] && i.accounts.len() >= 2 && i.accounts[0].key == wl.addr {
            s.sol_to.push((i.accounts[1].key, le64(&i.data[4..])));
        }
    }
    let mut seen = vec![wl.key, wl.addr];
    for m in outer {
        if seen.contains(&m.key) {
            continue;
        }
        seen.push(m.key);
        let a = at(before, &m.key);
        let fall = |f: &dyn Fn(&Acct) -> u128| -> u128 {
            let mut t = 0u128;
            let mut p = f(&a);
            for x in snaps {
                let n = f(&at(x, &m.key));
                t += p.saturating_sub(n);
                p = n;
            }
            t
        };
        if is_own_token(wl, &a) {
            let mut to = vec![];
            for i in ixs {
                if i.program != token_id() && i.program != token22_id() {
                    continue;
                }
                let d = match i.data.first() {
                    Some(3) if i.data.len() >= 9 => 1,
                    Some(12) if i.data.len() >= 10 => 2,
                    _ => continue,
                };
                if i.accounts.len() > d && i.accounts[0].key == m.key {
                    to.push((i.accounts[d].key, le64(&i.data[1..])));
                }
            }
            s.tok.push(TokSpent { acct: m.key, mint: a.data[..32].try_into().unwrap(), spent: fall(&|x| tok::amount(&x.data) as u128) as u64, to });
        } else if is_own_stake(wl, &a) {
            let mut t = 0u64;
            let mut p = a.clone();
            for x in snaps {
                let n = at(x, &m.key);
                let st = |x: &Acct| if x.data.len() < 164 { 0 } else { stk::stake(&x.data) };
                t = t.saturating_add(p.lamports.saturating_sub(n.lamports).max(st(&p).abs_diff(st(&n))));
                p = n;
            }
            s.stake.push(t);
        } else if wl.roles.iter().any(|r| scope_of(r, &m.key).is_some()) {
            let x = match scope_of(role, &m.key) {
                Some(sc) => {
                    let (st, en) = (le64(&sc.data[128..]) as usize, le64(&sc.data[136..]) as usize);
                    fall(&|x| {
                        let mut b = [0u8; 16];
                        if en <= x.data.len() {
                            b[..en - st].copy_from_slice(&x.data[st..en]);
                        }
                        u128::from_le_bytes(b)
                    })
                }
                None => 0,
            };
            s.scope.push((m.key, x));
        }
    }
    s
}
fn scope_of<'a>(r: &'a Role, k: &Key) -> Option<&'a Act> {
    r.acts.iter().find(|a| a.kind == SCOPE && a.data[80..112] == k[..])
}
fn is_own_token(wl: &Wallet, a: &Acct) -> bool {
    (a.owner == token_id() || a.owner == token22_id()) && a.data.len() >= 165 && a.data[32..64] == wl.addr
}
fn is_own_stake(wl: &Wallet, a: &Acct) -> bool {
    a.owner == stake_id() && a.data.len() >= 200 && a.data[44..76] == wl.addr
}
/// must this execution be accepted, and what does it leave of the allowances?
fn judge(wl: &Wallet, role: &Role, slot: u64, before: &Accts, reference: &Result<Vec<Accts>, String>, rent: bool, ixs: &[Ix], outer: &[Meta]) -> (Result<Vec<Act>, No>, Spent) {
    let none = Spent::default();
    let snaps = match reference {
        Ok(s) => s,
        Err(e) => return (no(&["C01"], &format!("an inner instruction fails: {}", e)), none),
    };
    let last = snaps.last().unwrap_or(before);
    if unrestricted(role) {
        if !rent {
            return (no(&["C01"], "an account would be left short of rent"), none);
        }
        return (Ok(role.acts.clone()), none);
    }
    let sp = spent(wl, role, before, snaps, ixs, outer);
    let v = (|| {
        for i in ixs {
            if i.accounts.iter().any(|m| m.key == wl.addr) && !may_call(role, &i.program) {
                return no(&["P01"], "a program that was not granted");
            }
        }
        let (ca, cb) = (at(before, &wl.key), at(last, &wl.key));
        if ca.data != cb.data || ca.owner != cb.owner {
            return no(&["P02", "P01"], "the config account changed");
        }
        let wa = at(last, &wl.addr);
        if wa.owner != SYSTEM || !wa.data.is_empty() {
            return no(&["P02"], "the wallet account was assigned or allocated");
        }
        if wa.lamports < rent_min(0) {
            return no(&["P02"], "the wallet account would be short of rent");
        }
        let mut seen = vec![wl.key, wl.addr];
        for m in outer {
            if seen.contains(&m.key) {
                continue;
            }
            seen.push(m.key);
            let (a, z) = (at(before, &m.key), at(last, &m.key));
            if is_own_token(wl, &a) {
                if z.data.is_empty() || z.lamports == 0 {
                    if !role.has(CLOSE) {
                        return no(&["P02"], "a token account was closed without that right");
                    }
                    if z.lamports != 0 || z.owner != SYSTEM {
                        return no(&["P02"], "a token account was closed and reused");
                    }
                    continue;
                }
                if a.owner != z.owner || a.data.len() != z.data.len() || a.data[..64] != z.data[..64] || a.data[72..] != z.data[72..] {
                    return no(&["P02"], "control of a token account changed");
                }
                if z.data[108] != 1 {
                    return no(&[], "a token account that is not usable");
                }
            } else if is_own_stake(wl, &a) {
                if z.owner != a.owner || z.data.len() != a.data.len() || a.data[4..124] != z.data[4..124] {
                    return no(&["P02"], "control of a stake account changed");
                }
            } else if wl.roles.iter().any(|r| scope_of(r, &m.key).is_some()) {
                let Some(sc) = scope_of(role, &m.key) else { return no(&["L06"], "an account only other roles have a scope on") };
                let (st, en) = (le64(&sc.data[128..]) as usize, le64(&sc.data[136..]) as usize);
                if z.owner != a.owner || z.data.len() != a.data.len() || a.data[..st] != z.data[..st] || a.data[en..] != z.data[en..] {
                    return no(&["L06"], "a scoped account changed outside its balance");
                }
            }
        }
        let mut acts = role.acts.clone();
        match charge(&mut acts, &sp, slot) {
            Ok(()) => {}
            Err(r) => return Err((reason_props(r, &role.acts), r.to_string())),
        }
        if !rent {
            return no(&["C01"], "an account would be left short of rent");
        }
        Ok(acts)
    })();
    (v, sp)
}
/// which properties speak about this charge
fn touched(role: &Role, sp: &Spent, ixs: &[Ix], own: &Key) -> Vec<&'static str> {
    let mut v = vec!["A01"];
    if unrestricted(role) {
        v.push("C01");
        v.push("P01");
        return v;
    }
    let has = |k: &[u16]| role.acts.iter().any(|a| k.contains(&a.kind));
    if sp.sol > 0 {
        v.push("L01");
        if has(&[SOLD, SOLRD]) {
            v.push("L04");
        }
        if has(&[SOLR, SOLRD]) {
            v.push("L03");
        }
    }
    if sp.tok.iter().any(|t| t.spent > 0) {
        v.push("L02");
        if has(&[TOKD, TOKRD]) {
            v.push("L04");
        }
        if has(&[TOKR, TOKRD]) {
            v.push("L03");
        }
    }
    if sp.stake.iter().any(|x| *x > 0) {
        v.push("L05");
        if has(&[STKR]) {
            v.push("L03");
        }
    }
    if sp.scope.iter().any(|x| x.1 > 0) {
        v.push("L06");
        if role.acts.iter().any(|a| a.kind == SCOPE && le64(&a.data[112..]) == 2) {
            v.push("L03");
        }
    }
    if ixs.iter().any(|i| i.accounts.iter().any(|m| m.key == *own)) {
        v.push("P01");
    }
    if v.len() == 1 {
        v.push("C01");
    }
    v
}
fn kind_props(a: &Act) -> Vec<&'static str> {
    match a.kind {
        SOL => vec!["L01"],
        SOLR => vec!["L01", "L03"],
        TOK => vec!["L02"],
        TOKR => vec!["L02", "L03"],
        SOLD | TOKD => vec!["L04"],
        SOLRD | TOKRD => vec!["L04", "L03"],
        STK => vec!["L05"],
        STKR => vec!["L05", "L03"],
        SCOPE if le64(&a.data[112..]) == 2 => vec!["L06", "L03"],
        SCOPE => vec!["L06"],
        _ => vec!["P02"],
    }
}
/// whose bookkeeping differs from the model
fn blame(wl: &Wallet, acting: u32, got: &[u8]) -> Vec<&'static str> {
    let want = wl.bytes();
    if got.len() < want.len() {
        return vec!["P02", "A05"];
    }
    let mut v: Vec<&'static str> = vec![];
    let mut p = 48;
    let eq = |a: usize, b: usize| want[a..b] == got[a..b];
    if !eq(0, 48) {
        v.extend(["P02", "A05"]);
    }
    for r in &wl.roles {
        let al = 16 + r.cred.stored().len();
        if !eq(p, p + al) {
            v.extend(["P02", "A02", "A05"]);
        }
        p += al;
        for a in &r.acts {
            let n = 8 + a.data.len();
            if !eq(p, p + n) {
                v.extend(kind_props(a));
                if r.id != acting {
                    v.push("P02");
                }
            }
            p += n;
        }
    }
    if want[p..] != got[p..want.len()] {
        v.extend(["P02", "W04"]);
    }
    v
}
/// a token account with the odd delegate, close authority or extension
fn dress(c: &mut Case, b: &mut Bench, k: &Key, len: usize) {
    let mut a = b.s.ch.get(k);
    if c.rng.chance(1, 6) {
        a.data[72..76].copy_from_slice(&[1, 0, 0, 0]);
        a.data[76..108].copy_from_slice(&b.ext);
        a.data[121..129].copy_from_slice(&c.rng.range(0, 2000).to_le_bytes());
    }
    if c.rng.chance(1, 6) {
        let k = if c.rng.chance(3, 4) { b.s.wl.addr } else { b.ext };
        a.data[129..133].copy_from_slice(&[1, 0, 0, 0]);
        a.data[133..165].copy_from_slice(&k);
    }
    if len > 165 {
        a.data.resize(len, 2);
        a.lamports = rent_min(len);
    }
    b.s.ch.accts.insert(*k, a);
}
/// keeps accounts usable between executions
fn refill(c: &mut Case, b: &mut Bench) {
    let addr = b.s.wl.addr;
    if b.s.ch.lamports(&addr) < 8_000_000_000 {
        b.s.ch.fund(addr, 40_000_000_000);
    }
    let ms: Vec<Mint> = b.mints.clone();
    for m in &ms {
        for k in &m.own {
            let a = b.s.ch.get(k);
            let len = a.data.len();
            if !is_own_token(&b.s.wl, &a) || tok::amount(&a.data) < 1000 || c.rng.chance(1, 6) {
                b.s.tok_acct(*k, &m.key, &addr, 1_000_000, m.prog);
                dress(c, b, k, if m.prog == token22_id() { len } else { 0 });
            }
        }
    }
    let n = b.native.clone();
    let a = b.s.ch.get(&n.own[0]);
    if !is_own_token(&b.s.wl, &a) || tok::amount(&a.data) < 1000 || c.rng.chance(1, 6) {
        b.s.ch.accts.insert(n.own[0], native_acct(&addr, 1_000_000, &n.key));
        dress(c, b, &n.own[0], 0);
    }
    for i in 0..3 {
        let a = b.s.ch.get(&b.stakes[i]);
        if !is_own_stake(&b.s.wl, &a) || a.data[12..44] != addr || a.lamports < 100_000_000 || c.rng.chance(1, 10) {
            fill_stake(c, b, i);
        }
        let a = b.s.ch.get(&b.cells[i]);
        if a.owner != b.pups[0] || a.data.len() != CELL || a.lamports < 2_000_000_000 || c.rng.chance(1, 5) {
            fill_cell(c, b, i);
        }
    }
    b.s.ch.set_lamports(b.ext, 1_000_000_000);
}
/// moves time to somewhere interesting for the role's windows
fn advance(c: &mut Case, b: &mut Bench, role: &Role) {
    let slot = b.s.ch.slot;
    let mut to = vec![slot, slot, slot + 1];
    for a in &role.acts {
        let (w, l) = match a.kind {
            SOLR | STKR => (8, 16),
            TOKR => (32, 56),
            SOLRD => (40, 48),
            TOKRD => (72, 80),
            SCOPE if le64(&a.data[112..]) == 2 => (32, 40),
            _ => continue,
        };
        let (w, l) = (le64(&a.data[w..]), le64(&a.data[l..]));
        for k in [0u64, 1, w / 2] {
            to.push(l.saturating_add(w).saturating_add(k));
        }
        to.push(slot.saturating_add(w));
        to.push(slot.saturating_add(w).saturating_add(1));
        to.push((slot / w.max(1)).saturating_add(1).saturating_mul(w));
    }
    let t = *c.rng.pick(&to);
    if t >= slot && t < 1 << 60 {
        b.s.ch.slot = t;
    }
}
fn pick_role(c: &mut Case, b: &mut Bench) -> Option<u32> {
    let ids: Vec<u32> = b.s.wl.roles.iter().map(|r| r.id).filter(|i| *i != 0 && *i >= b.first).collect();
    let id = if c.rng.chance(1, 25) { 0 } else { *c.rng.pick(&ids) };
    if !ensure_live(c, &mut b.s, id) || c.dead {
        return None;
    }
    Some(id)
}
/// size alone must not matter: many instructions, long data, wide account lists
pub fn bulk(c: &mut Case, b: &Bench, own: &Key, ixs: &mut Vec<Ix>) {
    let mut pool = b.dests.clone();
    pool.push(b.ext);
    let one = |c: &mut Case| match c.rng.below(4) {
        0 => vec![],
        1 => vec![r(*own)],
        2 => vec![ws(*own)],
        _ => vec![w(*c.rng.pick(&pool))],
    };
    match c.rng.below(4) {
        0 => {
            for _ in 0..*c.rng.pick(&[13usize, 16, 17, 31, 33, 60]) {
                let m = one(c);
                let n = c.rng.below(3);
                ixs.push(Ix { program: memo_id(), accounts: m, data: vec![b'm'; n] });
            }
            c.count("many_inner_instructions");
        }
        1 => {
            let n = *c.rng.pick(&[127usize, 128, 255, 256, 257, 1023, 1024, 1025, 4097, 9000]);
            let d: Vec<u8> = (0..n).map(|_| c.rng.below(256) as u8).collect();
            let m = one(c);
            ixs.push(Ix { program: memo_id(), accounts: m, data: d });
            c.count("long_inner_data");
        }
        2 => {
            let n = *c.rng.pick(&[17usize, 31, 32, 33, 63, 64, 64]);
            let m = (0..n).map(|_| if c.rng.chance(1, 6) { r(*own) } else { r(*c.rng.pick(&pool)) }).collect();
            ixs.push(Ix { program: memo_id(), accounts: m, data: vec![1] });
            c.count("wide_inner_accounts");
        }
        _ => {
            // an account whose address is almost the signer's
            let mut k = *own;
            k[31] ^= 1 + c.rng.below(255) as u8;
            if c.rng.chance(1, 4) {
                k = *own;
                k[c.rng.below(32)] ^= 1 << c.rng.below(8);
            }
            ixs.push(Ix { program: memo_id(), accounts: vec![r(*own), w(k)], data: vec![] });
            c.count("almost_the_signer");
        }
    }
    let n = ixs.len();
    if c.rng.bool() && n > 1 {
        ixs.swap(0, n - 1);
    }
}
pub fn run(c: &mut Case, focus: &'static str) {
    let mut b = bench(c, focus);
    let steps = 12;
    for _ in 0..steps {
        refill(c, &mut b);
        let rid = b.s.wl.roles[c.rng.below(b.s.wl.roles.len())].id;
        let rr = b.s.wl.role(rid).unwrap().clone();
        advance(c, &mut b, &rr);
        let Some(id) = pick_role(c, &mut b) else {
            if c.dead {
                return;
            }
            continue;
        };
        let role = b.s.wl.role(id).unwrap().clone();
        let own = b.s.wl.addr;
        let mut ixs = vec![];
        let (tags, mut extra) = {
            let mut g = Gen { b: &b, tags: vec![], extra: vec![], own };
            let n = *c.rng.pick(&[1usize, 1, 1, 2, 2, 3, 4]);
            for _ in 0..n {
                ixs.extend(template(c, &mut g, &role, focus));
            }
            (g.tags, g.extra)
        };
        if ixs.is_empty() && !c.rng.chance(1, 10) {
            continue;
        }
        if c.rng.chance(1, if focus == "C01" { 10 } else { 30 }) {
            let solo = c.rng.bool();
            if solo {
                ixs.clear();
                extra.clear();
            }
            bulk(c, &b, &own, &mut ixs);
        }
        // what is left of the wallet account after giving it away is not followed
        if let Some(p) = ixs.iter().position(|i| i.data.windows(36).any(|x| x[..4] == [1, 0, 0, 0] && x[4..] == b.pups[0])) {
            ixs.truncate(p + 1);
        }
        // A limited role whose instructions move the stored roles is refused,
        // but what it reads before that is not worth following.
        if !unrestricted(&role) {
            if let Some(p) = ixs.iter().position(|i| i.program == swig_id() && i.data[0] != 1) {
                if p + 1 != ixs.len() || ixs.iter().any(|i| i.accounts.iter().any(|m| b.cells.contains(&m.key))) {
                    continue;
                }
            }
        }
        // uninvolved accounts may be passed along
        if c.rng.chance(1, 4) {
            let mut pool: Vec<Key> = vec![];
            for m in &b.mints {
                pool.extend(&m.own);
                pool.extend(&m.ext);
            }
            pool.extend(&b.stakes);
            pool.extend(&b.dests);
            let k = *c.rng.pick(&pool);
            extra.push(if c.rng.bool() { w(k) } else { r(k) });
        }
        if c.rng.chance(1, 12) {
            for _ in 0..*c.rng.pick(&[12usize, 20, 28, 36, 44]) {
                let k = c.rng.key();
                extra.push(if c.rng.chance(1, 4) { w(k) } else { r(k) });
            }
            c.count("long_account_lists");
        }
        let head = [w(b.s.wl.key), w(own), r(SYSTEM)];
        let e = encode(c, &head, &ixs, &extra, &own);
        if e.payload.len() > 60000 || e.metas.len() > 60 {
            continue;
        }
        let bad_payload = (focus == "C01" || c.rng.chance(1, 20)) && c.rng.chance(1, 5);
        execute(c, &mut b, focus, &role, &ixs, &e, &tags, bad_payload);
        if c.dead {
            return;
        }
    }
}
/// damages an encoding; says how
pub fn damage(c: &mut Case, p: &[u8]) -> (Vec<u8>, &'static str) {
    let mut o = p.to_vec();
    match c.rng.below(5) {
        0 => (vec![], "empty payload"),
        1 => {
            let k = 1 + c.rng.below(o.len() - 1).min(40);
            o.truncate(o.len() - k.min(o.len()));
            (o, "truncated payload")
        }
        2 => {
            o[0] = o[0].wrapping_add(1 + c.rng.below(3) as u8);
            (o, "more instructions announced than present")
        }
        3 => {
            if o[0] == 0 {
                return (vec![], "empty payload");
            }
            o[1] = 200 + c.rng.below(56) as u8;
            (o, "program index out of range")
        }
        _ => {
            if o[0] == 0 {
                return (vec![], "empty payload");
            }
            if o[2] == 0 {
                o[1] = 255;
                return (o, "program index out of range");
            }
            let i = 3 + c.rng.below(o[2] as usize);
            o[i] = 200 + c.rng.below(56) as u8;
            (o, "account index out of range")
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn execute(c: &mut Case, b: &mut Bench, focus: &'static str, role: &Role, ixs: &[Ix], e: &Enc, tags: &[&'static str], bad_payload: bool) {
    let s = &mut b.s;
    let own = s.wl.addr;
    let mut payload = e.payload.clone();
    let mut dmg = "";
    if bad_payload {
        let (p, w) = damage(c, &payload);
        payload = p;
        dmg = w;
    }
    let base = sign(&s.wl, role.id, &e.metas[3..], &payload);
    let base = Base { metas: e.metas.clone(), ..base };
    let tx = prove(s.ch.slot, &base, &role.cred);
    s.fund_all(&tx);
    let outer = merged(&tx.ixs, tx.at);
    let eff = effective(ixs, &outer, &own);
    let before = s.ch.clone();
    let mut rf = before.clone();
    let seeds = vec![b"swig-wallet-address".to_vec(), s.wl.key.to_vec(), vec![s.wl.abump]];
    let reference = rf.reference(&swig_id(), &outer, &eff, &seeds);
    let wr: Vec<Key> = tx.ixs.iter().flat_map(|i| i.accounts.iter()).filter(|m| outer.iter().any(|o| o.key == m.key && o.writable)).map(|m| m.key).collect();
    let rent = rf.rent_ok(&before.accts, &wr);
    let (mut want, sp) = judge(&s.wl, role, s.ch.slot, &before.accts, &reference, rent, &eff, &outer);
    if bad_payload {
        want = no(&["C01"], dmg);
    }
    if c.cfg.prop == "C01" && c.rng.chance(1, 8) {
        s.nested(c, &tx);
    }
    let o = s.exec(c, &tx);
    let verdict = match &want {
        Ok(_) => "legal".to_string(),
        Err((_, r)) => r.split(':').next().unwrap().to_string(),
    };
    c.log(format!(
        "slot {} role {} {:?} has {} passes ({}) runs [{}] took sol {} tok {:?} stake {:?} scope {:?}: {} -> {}{}",
        s.ch.slot,
        role.id,
        role.cred,
        show(&role.acts),
        outer.iter().map(|m| format!("{}{}{}", short(&m.key), if m.signer { "s" } else { "" }, if m.writable { "w" } else { "" })).collect::<Vec<_>>().join(","),
        ixs.iter().map(|i| format!("{}({}):{}", short(&i.program), i.accounts.iter().map(|m| short(&m.key)).collect::<Vec<_>>().join(","), hex(&i.data))).collect::<Vec<_>>().join(" | "),
        sp.sol,
        sp.tok.iter().filter(|t| t.spent > 0).map(|t| t.spent).collect::<Vec<_>>(),
        sp.stake,
        sp.scope.iter().map(|x| x.1).collect::<Vec<_>>(),
        verdict,
        if o.ok { "ok " } else { "refused " },
        o.err
    ));
    let hit = touched(role, &sp, &eff, &own);
    let mut t = tags.to_vec();
    t.sort();
    t.dedup();
    let relevant = match &want {
        Ok(_) => hit.contains(&focus) || focus == "C01" || focus == "P02",
        Err((p, _)) => p.contains(&focus),
    };
    c.count(if o.ok { "executions_accepted" } else { "executions_refused" });
    c.count(&format!("verdict_{}", verdict.replace(' ', "_")));
    if relevant {
        let kinds: Vec<u16> = {
            let mut k: Vec<u16> = role.acts.iter().map(|a| a.kind).filter(|k| *k != SCOPE).collect();
            k.sort();
            k.dedup();
            k
        };
        c.eval(&format!("{} {:?} {} {:?}", verdict, t, kind_name(role.cred.kind), kinds));
        let d = c.hist.last().cloned().unwrap_or_default();
        if c.rng.clone().chance(1, 60) {
            c.sample(|| d);
        }
    } else {
        c.trivial();
    }
    if !o.ok {
        if s.ch.accts != before.accts {
            c.diverge(&["C01", focus], "residue:execute", "a refused execution changed accounts");
            return;
        }
        if want.is_ok() {
            c.diverge(&hit, format!("refused:{}", t.join("+")), format!("an execution within the role's rights was refused ({})", o.err));
        }
        return;
    }
    let acts = match want {
        Ok(a) => a,
        Err((p, r)) => {
            c.diverge(&p, format!("accepted:{}", verdict.replace(' ', "-")), format!("an execution was accepted although it must be refused: {}", r));
            return;
        }
    };
    if !same_run(c, &o, &eff, &own, &["C01"]) {
        return;
    }
    // with exactly their effect
    rf.accts.retain(|_, a| a.lamports > 0);
    let cfg_key = s.wl.key;
    let mut real = s.ch.accts.clone();
    let cfg_ref = rf.accts.get(&cfg_key).cloned().unwrap_or_default();
    let own_admin = cfg_ref.data != at(&before.accts, &cfg_key).data;
    if !own_admin {
        let a = real.get(&cfg_key).cloned().unwrap_or_default();
        if a.owner != cfg_ref.owner || a.lamports != cfg_ref.lamports {
            c.diverge(&["C01", "P02"], "effect:config", "the config account's owner or lamports changed");
            return;
        }
        real.remove(&cfg_key);
        rf.accts.remove(&cfg_key);
    }
    if real != rf.accts {
        c.diverge(&["C01"], "effect:other", "accounts differ from what the encoded instructions do");
        return;
    }
    if at(&s.ch.accts, &own).owner != SYSTEM {
        c.count("wallet_given_away_by_unrestricted_role");
        c.dead = true;
        return;
    }
    if own_admin {
        // legal self-administration by an unrestricted role: not followed further
        c.count("self_administration_allowed");
        c.dead = true;
        return;
    }
    let secp = role.cred.secp() && !role.cred.session();
    if let Some(r) = s.wl.role_mut(role.id) {
        r.acts = acts;
        if secp {
            r.cred.odo = r.cred.odo.wrapping_add(1);
        }
    }
    if let Err(e) = s.wl.check(&s.ch) {
        let p = blame(&s.wl, role.id, &s.ch.data(&cfg_key));
        c.diverge(&p, "state:execute", e);
    }
}
/// exactly the encoded instructions ran, with no signature but the owner's
pub fn same_run(c: &mut Case, o: &Outcome, eff: &[Ix], own: &Key, props: &[&str]) -> bool {
    let ran: Vec<Ix> = o
        .events
        .iter()
        .filter_map(|ev| match ev {
            Ev::Enter { depth: 2, program, metas, data, .. } => Some(Ix { program: *program, accounts: metas.clone(), data: data.clone() }),
            _ => None,
        })
        .collect();
    let fix = |v: &[Ix]| -> Vec<Ix> {
        // flags of a repeated account are merged by the runtime
        v.iter()
            .map(|i| Ix {
                accounts: i
                    .accounts
                    .iter()
                    .map(|m| Meta {
                        key: m.key,
                        signer: i.accounts.iter().any(|x| x.key == m.key && x.signer),
                        writable: i.accounts.iter().any(|x| x.key == m.key && x.writable),
                    })
                    .collect(),
                ..i.clone()
            })
            .collect()
    };
    if fix(&ran) != fix(eff) {
        c.diverge(props, "ran:other", format!("{} instructions were encoded, {} ran or they differ", eff.len(), ran.len()));
        return false;
    }
    c.count_n("inner_instructions", ran.len() as u64);
    for ev in &o.events {
        if let Ev::Enter { depth: 2, pda_signers, .. } = ev {
            if pda_signers.iter().any(|k| k != own) {
                c.diverge(props, "signer:extra", "an inner instruction carried another derived signature");
                return false;
            }
        }
    }
    true
}
