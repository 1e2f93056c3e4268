//! C02: the client-side compaction of instruction lists against an independent
//! decoder and against the parser the program runs.
use crate::client::pk;
use crate::report::*;
use crate::util::*;
use pinocchio::account_info::AccountInfo;
use rt::Key;
use solana_program::instruction::{AccountMeta, Instruction};
use swig_compact_instructions::{compact_instructions, compact_instructions_sub_account, InstructionIterator};

fn show(m: &[AccountMeta]) -> String {
    m.iter()
        .map(|a| format!("{}{}{}", short(a.pubkey.as_ref()), if a.is_signer { "s" } else { "" }, if a.is_writable { "w" } else { "" }))
        .collect::<Vec<_>>()
        .join(" ")
}
/// runtime account headers, as the program's entrypoint sees them
pub struct Infos {
    mem: Vec<[u64; 12]>,
}
impl Infos {
    pub fn new(m: &[(Key, bool, bool)]) -> Infos {
        let mut mem = vec![[0u64; 12]; m.len()];
        for (b, (k, s, w)) in mem.iter_mut().zip(m) {
            let p = b.as_mut_ptr() as *mut u8;
            unsafe {
                *p = 0xff;
                *p.add(1) = *s as u8;
                *p.add(2) = *w as u8;
                std::ptr::copy_nonoverlapping(k.as_ptr(), p.add(8), 32);
            }
        }
        Infos { mem }
    }
    pub fn list(&mut self) -> Vec<AccountInfo> {
        self.mem.iter_mut().map(|b| unsafe { std::mem::transmute::<*mut u64, AccountInfo>(b.as_mut_ptr()) }).collect()
    }
}
pub struct Dec {
    pub program: u8,
    pub accounts: Vec<u8>,
    pub data: Vec<u8>,
}
/// the documented byte format; None when the bytes end early
pub fn decode(b: &[u8]) -> Option<(Vec<Dec>, usize)> {
    let mut p = 1;
    let mut v = vec![];
    for _ in 0..*b.first()? {
        let program = *b.get(p)?;
        let n = *b.get(p + 1)? as usize;
        let accounts = b.get(p + 2..p + 2 + n)?.to_vec();
        p += 2 + n;
        let l = le16(b.get(p..p + 2)?) as usize;
        let data = b.get(p + 2..p + 2 + l)?.to_vec();
        p += 2 + l;
        v.push(Dec { program, accounts, data });
    }
    Some((v, p))
}

pub fn compacting(c: &mut Case) {
    let sub = c.rng.bool();
    let cfg = c.rng.key();
    let own = c.rng.key();
    let big = c.rng.chance(1, 12);
    let mut pool: Vec<Key> = vec![cfg, own];
    for _ in 0..1 + c.rng.below(if big { 120 } else { 14 }) {
        pool.push(c.rng.key());
    }
    let nprog = 1 + c.rng.below(4);
    let progs: Vec<Key> = (0..nprog).map(|_| if c.rng.chance(1, 3) { *c.rng.pick(&pool) } else { c.rng.key() }).collect();
    // the fixed accounts
    let mut init = vec![AccountMeta { pubkey: pk(&cfg), is_signer: false, is_writable: c.rng.bool() }, AccountMeta { pubkey: pk(&own), is_signer: false, is_writable: c.rng.bool() }];
    if c.rng.chance(1, 8) {
        init.remove(1);
    }
    for _ in 0..c.rng.below(4) {
        let k = match c.rng.below(3) {
            0 => *c.rng.pick(&progs),
            1 => *c.rng.pick(&pool[2..]),
            _ => c.rng.key(),
        };
        if init.iter().all(|m| m.pubkey != pk(&k)) {
            init.push(AccountMeta { pubkey: pk(&k), is_signer: c.rng.chance(1, 3), is_writable: c.rng.bool() });
        }
    }
    let mut room = 254 - init.len();
    let mut seen: Vec<Key> = init.iter().map(|m| m.pubkey.to_bytes()).collect();
    let n = match c.rng.below(20) {
        0 => 0,
        1 => 12 + c.rng.below(if big { 40 } else { 20 }),
        _ => 1 + c.rng.below(5),
    };
    let mut ixs: Vec<Instruction> = vec![];
    for _ in 0..n {
        let m = match c.rng.below(10) {
            0 => 0,
            1 => 10 + c.rng.below(if big { 200 } else { 30 }),
            _ => 1 + c.rng.below(6),
        };
        let mut metas = vec![];
        for _ in 0..m {
            let k = *c.rng.pick(&pool);
            metas.push(AccountMeta { pubkey: pk(&k), is_signer: c.rng.bool(), is_writable: c.rng.bool() });
        }
        // what it takes: one place for the program, one for every new account
        let mut fresh: Vec<Key> = metas.iter().map(|m| m.pubkey.to_bytes()).filter(|k| !seen.contains(k)).collect();
        fresh.sort();
        fresh.dedup();
        if fresh.len() + 1 > room {
            break;
        }
        room -= fresh.len() + 1;
        seen.extend(fresh);
        let l = match c.rng.below(16) {
            0 => 0,
            1 => 255 + c.rng.below(3),
            2 if big => 65535 - c.rng.below(3),
            3 => 1000 + c.rng.below(2000),
            _ => c.rng.below(40),
        };
        ixs.push(Instruction { program_id: pk(c.rng.pick(&progs)), accounts: metas, data: c.rng.bytes(l) });
    }
    let (acc, ci) = if sub {
        compact_instructions_sub_account(pk(&cfg), pk(&own), init.clone(), ixs.clone())
    } else {
        compact_instructions(pk(&cfg), init.clone(), ixs.clone())
    };
    let bytes = ci.into_bytes();
    c.log(format!("{} of {} instructions over {} fixed accounts", if sub { "sub-account compaction" } else { "compaction" }, ixs.len(), init.len()));
    c.log(format!("fixed: {}", show(&init)));
    for i in &ixs {
        c.log(format!("  {} ({}) {} bytes", short(i.program_id.as_ref()), show(&i.accounts), i.data.len()));
    }
    c.log(format!("listed: {}", show(&acc)));
    c.eval(&format!("{} {} {} {}", sub, ixs.len().min(8), acc.len() / 16, init.len()));
    c.count_n("instructions_compacted", ixs.len() as u64);
    c.count_n("accounts_listed", acc.len() as u64);
    c.sample(|| format!("{} instructions, {} accounts listed, {} bytes", ixs.len(), acc.len(), bytes.len()));
    macro_rules! bad {
        ($fp:expr, $($t:tt)*) => {{ c.violate($fp, format!($($t)*)); return; }};
    }
    if acc.len() < init.len() || acc.iter().zip(&init).any(|(a, b)| a.pubkey != b.pubkey) {
        bad!("fixed-position", "the fixed accounts are not at their places: {} instead of {}", show(&acc), show(&init));
    }
    let Some((dec, used)) = decode(&bytes) else { bad!("truncated", "the compact form ends early: {}", hex(&bytes[..bytes.len().min(64)])) };
    if used != bytes.len() {
        bad!("trailing", "the compact form has {} bytes, its instructions take {}", bytes.len(), used);
    }
    if dec.len() != ixs.len() {
        bad!("count", "{} instructions encoded, {} given", dec.len(), ixs.len());
    }
    let mut need: Vec<(bool, bool)> = vec![(false, false); acc.len()];
    for (n, (d, ix)) in dec.iter().zip(&ixs).enumerate() {
        match acc.get(d.program as usize) {
            Some(a) if a.pubkey == ix.program_id => {}
            Some(a) => bad!("program", "instruction {n}: program {} instead of {}", a.pubkey, ix.program_id),
            None => bad!("index", "instruction {n}: program index {} of {} accounts", d.program, acc.len()),
        }
        if d.accounts.len() != ix.accounts.len() {
            bad!("accounts", "instruction {n}: {} accounts instead of {}", d.accounts.len(), ix.accounts.len());
        }
        for (j, (i, m)) in d.accounts.iter().zip(&ix.accounts).enumerate() {
            let i = *i as usize;
            match acc.get(i) {
                Some(a) if a.pubkey == m.pubkey => {
                    need[i].0 |= m.is_signer && m.pubkey != pk(&cfg) && !(sub && m.pubkey == pk(&own));
                    need[i].1 |= m.is_writable;
                }
                Some(a) => bad!("account", "instruction {n} account {j}: {} instead of {}", a.pubkey, m.pubkey),
                None => bad!("index", "instruction {n} account {j}: index {i} of {} accounts", acc.len()),
            }
        }
        if d.data != ix.data {
            bad!("data", "instruction {n}: {} bytes of data {} instead of {} bytes {}", d.data.len(), hex(&d.data[..d.data.len().min(16)]), ix.data.len(), hex(&ix.data[..ix.data.len().min(16)]));
        }
    }
    for (i, a) in acc.iter().enumerate() {
        let (s0, w0) = init.get(i).map(|m| (m.is_signer, m.is_writable)).unwrap_or((false, false));
        let s = if i < init.len() { s0 } else { need[i].0 };
        let w = w0 || need[i].1;
        if a.is_writable != w {
            bad!("writable", "account {i} {} is listed {} although it {} writing", a.pubkey, if a.is_writable { "writable" } else { "read-only" }, if w { "needs" } else { "does not need" });
        }
        if a.is_signer != s {
            bad!("signer", "account {i} {} is listed {} although it {} signing", a.pubkey, if a.is_signer { "signer" } else { "non-signer" }, if s { "needs" } else { "does not need" });
        }
    }
    // the program's own parser on the same bytes and accounts
    let list: Vec<(Key, bool, bool)> = acc.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect();
    let keys: Vec<&Key> = vec![&cfg];
    parse(c, &list, &bytes, &own, &keys, &ixs.iter().map(|i| (i.program_id.to_bytes(), i.accounts.iter().map(|m| m.pubkey.to_bytes()).collect(), i.data.clone())).collect::<Vec<_>>());
    if c.dead {
        return;
    }
    // a cut or misdirected encoding is never read as something else
    if bytes.len() > 1 {
        let cut = c.rng.below(bytes.len());
        broken(c, &list, &bytes[..cut], &own, &keys, "cut");
    }
    if c.dead {
        return;
    }
    let mut b = bytes.clone();
    for _ in 0..1 + c.rng.below(3) {
        if !b.is_empty() {
            let i = c.rng.below(b.len().min(200));
            b[i] = *c.rng.pick(&[0, 1, 254, 255, acc.len() as u8, b[i].wrapping_add(1), b[i].wrapping_sub(1)]);
        }
    }
    broken(c, &list, &b, &own, &keys, "altered");
}
type Plain = (Key, Vec<Key>, Vec<u8>);
fn run(list: &[(Key, bool, bool)], bytes: &[u8], signer: &Key, restricted: &[&Key]) -> Result<Vec<(Plain, Vec<(bool, bool)>, Vec<usize>, bool)>, u32> {
    // in a buffer of exactly this size
    let exact = bytes.to_vec().into_boxed_slice();
    let mut inf = Infos::new(list);
    let infos = inf.list();
    let it = InstructionIterator::new(&infos[..], &exact, signer, restricted).map_err(|e| e as u32)?;
    let mut v = vec![];
    for h in it {
        let h = h.map_err(|e| e as u32)?;
        v.push((
            (*h.program_id, h.accounts.iter().map(|a| *a.pubkey).collect(), h.data.to_vec()),
            h.accounts.iter().map(|a| (a.is_signer, a.is_writable)).collect(),
            h.indexes.clone(),
            h.uses_swig_signer,
        ));
        if v.len() > 300 {
            break;
        }
    }
    Ok(v)
}
fn parse(c: &mut Case, list: &[(Key, bool, bool)], bytes: &[u8], signer: &Key, restricted: &[&Key], want: &[Plain]) {
    let got = match run(list, bytes, signer, restricted) {
        Ok(v) => v,
        Err(e) => {
            c.violate("parse-refused", format!("the program's parser refuses what the client encoded: error {e}"));
            return;
        }
    };
    c.count_n("instructions_parsed", got.len() as u64);
    if got.len() != want.len() {
        c.violate("parse-count", format!("the program reads {} instructions of {}", got.len(), want.len()));
        return;
    }
    for (n, ((p, fl, idx, uses), w)) in got.iter().zip(want).enumerate() {
        if p != w {
            c.violate("parse", format!("instruction {n} is read as program {} {} accounts, {} bytes; it is {} {} accounts, {} bytes", short(&p.0), p.1.len(), p.2.len(), short(&w.0), w.1.len(), w.2.len()));
            return;
        }
        let mut sig = false;
        for (j, k) in w.1.iter().enumerate() {
            let (_, s, wr) = list[idx[j]];
            let ws = (k == signer || s) && !restricted.contains(&k);
            sig |= ws && k == signer;
            if fl[j] != (ws, wr) {
                c.violate("parse-flags", format!("instruction {n} account {j}: read as (signer, writable) {:?}, listed {:?}", fl[j], (ws, wr)));
                return;
            }
        }
        if *uses != sig {
            c.violate("parse-uses-signer", format!("instruction {n}: uses_swig_signer {} although {}", uses, sig));
            return;
        }
    }
}
fn broken(c: &mut Case, list: &[(Key, bool, bool)], bytes: &[u8], signer: &Key, restricted: &[&Key], how: &str) {
    let want = decode(bytes).map(|x| x.0).filter(|v| v.iter().all(|d| (d.program as usize) < list.len() && d.accounts.iter().all(|a| (*a as usize) < list.len())));
    let got = run(list, bytes, signer, restricted);
    c.eval(&format!("{how} {} {}", want.is_some(), got.is_ok()));
    match (&got, &want) {
        (Ok(g), None) => c.violate("broken-accepted", format!("{how} encoding {} is read as {} instructions", hex(&bytes[..bytes.len().min(80)]), g.len())),
        (Err(e), Some(_)) => c.violate("broken-refused", format!("a valid encoding {} is refused: error {e}", hex(&bytes[..bytes.len().min(80)]))),
        (Ok(g), Some(w)) => {
            let same = g.len() == w.len() && g.iter().zip(w).all(|(g, w)| g.0 .0 == list[w.program as usize].0 && g.0 .2 == w.data && g.2.iter().map(|i| *i as u8).collect::<Vec<_>>() == w.accounts);
            if !same {
                c.violate("broken-misread", format!("{how} encoding {} is read differently", hex(&bytes[..bytes.len().min(80)])));
            }
        }
        _ => {}
    }
}
