//! Independent accounting of what an execution costs a limited role.
use crate::model::*;
use crate::util::*;
use rt::*;

/// what an execution took out of the wallet, as observed
#[derive(Clone, Debug, Default)]
pub struct Spent {
    /// sum over inner instructions of the wallet address's net lamport decrease
    pub sol: u64,
    /// top-level system transfers out of the wallet address, in order
    pub sol_to: Vec<(Key, u64)>,
    /// per wallet-controlled token account in account order
    pub tok: Vec<TokSpent>,
    /// per wallet-controlled stake account in account order
    pub stake: Vec<u64>,
    /// per account some role has a scope on, in account order: charged decrease
    pub scope: Vec<(Key, u128)>,
}
#[derive(Clone, Debug)]
pub struct TokSpent {
    pub acct: Key,
    pub mint: Key,
    pub spent: u64,
    /// top-level transfers out of this account, in order
    pub to: Vec<(Key, u64)>,
}
fn g(d: &[u8], o: usize) -> u64 {
    le64(&d[o..])
}
fn p(d: &mut [u8], o: usize, v: u64) {
    d[o..o + 8].copy_from_slice(&v.to_le_bytes());
}
/// a plain allowance at `o`
fn plain(d: &mut [u8], o: usize, x: u64) -> bool {
    let a = g(d, o);
    if x > a {
        return false;
    }
    p(d, o, a - x);
    true
}
/// a recurring allowance; field offsets of quota, window, last reset, current
fn recurring(d: &mut [u8], q: usize, w: usize, l: usize, c: usize, x: u64, slot: u64, aligned: bool) -> bool {
    let (quota, window, last) = (g(d, q), g(d, w), g(d, l));
    if slot.saturating_sub(last) > window && x <= quota {
        p(d, c, quota);
        let start = if aligned { slot / window * window } else { slot };
        p(d, l, start);
    }
    plain(d, c, x)
}
fn find<'a>(acts: &'a mut [Act], f: impl Fn(&Act) -> bool) -> Option<&'a mut Act> {
    acts.iter_mut().find(|a| f(a))
}
/// charges the role or says why it may not; on refusal `acts` is unspecified
pub fn charge(acts: &mut Vec<Act>, s: &Spent, slot: u64) -> Result<(), &'static str> {
    if s.sol > 0 {
        let mut general = false;
        if let Some(a) = find(acts, |a| a.kind == SOL) {
            if !plain(&mut a.data, 0, s.sol) {
                return Err("sol limit");
            }
            general = true;
        } else if let Some(a) = find(acts, |a| a.kind == SOLR) {
            if !recurring(&mut a.data, 0, 8, 16, 24, s.sol, slot, true) {
                return Err("sol recurring limit");
            }
            general = true;
        }
        let mut dest = false;
        if acts.iter().any(|a| a.kind == SOLD || a.kind == SOLRD) {
            let mut sum = 0u64;
            for (to, x) in &s.sol_to {
                sum = sum.checked_add(*x).ok_or("overflow")?;
                if let Some(a) = find(acts, |a| a.kind == SOLRD && a.data[..32] == to[..]) {
                    if !recurring(&mut a.data, 32, 40, 48, 56, *x, slot, false) {
                        return Err("sol recurring destination limit");
                    }
                } else if let Some(a) = find(acts, |a| a.kind == SOLD && a.data[..32] == to[..]) {
                    if !plain(&mut a.data, 32, *x) {
                        return Err("sol destination limit");
                    }
                } else {
                    return Err("sol destination not listed");
                }
            }
            if s.sol_to.is_empty() || sum != s.sol {
                return Err("sol outflow not attributed");
            }
            dest = true;
        }
        if !general && !dest {
            return Err("no sol limit");
        }
    }
    for t in &s.tok {
        if t.spent == 0 {
            continue;
        }
        let mut general = false;
        if let Some(a) = find(acts, |a| a.kind == TOK && a.data[..32] == t.mint[..]) {
            if !plain(&mut a.data, 32, t.spent) {
                return Err("token limit");
            }
            general = true;
        } else if let Some(a) = find(acts, |a| a.kind == TOKR && a.data[..32] == t.mint[..]) {
            if !recurring(&mut a.data, 40, 32, 56, 48, t.spent, slot, true) {
                return Err("token recurring limit");
            }
            general = true;
        }
        let mut dest = false;
        if acts.iter().any(|a| (a.kind == TOKD || a.kind == TOKRD) && a.data[..32] == t.mint[..]) {
            let mut sum = 0u64;
            for (to, x) in &t.to {
                sum = sum.checked_add(*x).ok_or("overflow")?;
                let same = |a: &Act| a.data[..32] == t.mint[..] && a.data[32..64] == to[..];
                if let Some(a) = find(acts, |a| a.kind == TOKRD && same(a)) {
                    if !recurring(&mut a.data, 64, 72, 80, 88, *x, slot, false) {
                        return Err("token recurring destination limit");
                    }
                } else if let Some(a) = find(acts, |a| a.kind == TOKD && same(a)) {
                    if !plain(&mut a.data, 64, *x) {
                        return Err("token destination limit");
                    }
                } else {
                    return Err("token destination not listed");
                }
            }
            if t.to.is_empty() || sum != t.spent {
                return Err("token outflow not attributed");
            }
            dest = true;
        }
        if !general && !dest {
            return Err("no token limit");
        }
    }
    for x in &s.stake {
        if *x == 0 || acts.iter().any(|a| a.kind == STKALL) {
            continue;
        }
        if let Some(a) = find(acts, |a| a.kind == STK) {
            if !plain(&mut a.data, 0, *x) {
                return Err("stake limit");
            }
        } else if let Some(a) = find(acts, |a| a.kind == STKR) {
            if !recurring(&mut a.data, 0, 8, 16, 24, *x, slot, true) {
                return Err("stake recurring limit");
            }
        } else {
            return Err("no stake limit");
        }
    }
    for (target, x) in &s.scope {
        let Some(a) = find(acts, |a| a.kind == SCOPE && a.data[80..112] == target[..]) else {
            return Err("no scope on a scoped account");
        };
        if *x == 0 {
            continue;
        }
        let d = &mut a.data;
        let r128 = |d: &[u8], o: usize| u128::from_le_bytes(d[o..o + 16].try_into().unwrap());
        match g(d, 112) {
            0 => {}
            t @ (1 | 2) => {
                if t == 2 && slot.saturating_sub(g(d, 40)) > g(d, 32) {
                    d[..16].copy_from_slice(&0u128.to_le_bytes());
                    let w = g(d, 32);
                    p(d, 40, slot / w * w);
                }
                let now = r128(d, 0).saturating_add(*x);
                if now > r128(d, 16) {
                    return Err("scope limit");
                }
                d[..16].copy_from_slice(&now.to_le_bytes());
            }
            _ => return Err("scope type"),
        }
    }
    Ok(())
}
pub fn unrestricted(r: &Role) -> bool {
    r.has(ALL) || r.has(ALLBUT)
}
pub fn may_call(r: &Role, prog: &Key) -> bool {
    unrestricted(r)
        || r.has(PROGALL)
        || r.acts.iter().any(|a| a.kind == PROG && a.data[..] == prog[..])
        || (r.has(CURATED) && [SYSTEM, token_id(), token22_id(), stake_id()].contains(prog))
}
