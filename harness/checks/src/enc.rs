//! Independent client: builds every swig instruction and its authority proof.
use crate::model::*;
use rt::crypto::*;
use rt::*;

/// an instruction before the authority proof is attached
#[derive(Clone, Debug)]
pub struct Base {
    pub metas: Vec<Meta>,
    /// instruction data up to the authority payload
    pub data: Vec<u8>,
    /// the bytes a secp signature covers
    pub payload: Vec<u8>,
}
fn d16(d: u16) -> Vec<u8> {
    d.to_le_bytes().to_vec()
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
fn whole(metas: Vec<Meta>, data: Vec<u8>) -> Base {
    Base { metas, payload: data.clone(), data }
}

pub fn create_raw(kind: u16, auth: &[u8], acts: &[u8], id: &Key, bump: u8, wbump: u8, key: Key, addr: Key, payer: Key) -> Ix {
    let mut d = cat(&[
        &0u16.to_le_bytes(),
        &kind.to_le_bytes(),
        &(auth.len() as u16).to_le_bytes(),
        &[bump, wbump],
        id,
    ]);
    d.extend_from_slice(auth);
    d.extend_from_slice(acts);
    Ix { program: swig_id(), accounts: vec![w(key), ws(payer), w(addr), r(SYSTEM)], data: d }
}
pub fn create(wl: &Wallet, cred: &Cred, acts: &[Act], payer: Key) -> Ix {
    create_raw(cred.kind, &cred.create_data(), &acts_stored(acts), &wl.id, wl.bump, wl.abump, wl.key, wl.addr, payer)
}
pub fn add_raw(wl: &Wallet, payer: Key, acting: u32, kind: u16, auth: &[u8], acts: &[u8], n: u8) -> Base {
    let d = cat(&[
        &1u16.to_le_bytes(),
        &(auth.len() as u16).to_le_bytes(),
        &(acts.len() as u16).to_le_bytes(),
        &kind.to_le_bytes(),
        &[n, 0, 0, 0],
        &acting.to_le_bytes(),
        auth,
        acts,
    ]);
    whole(vec![w(wl.key), ws(payer), r(SYSTEM)], d)
}
pub fn add(wl: &Wallet, payer: Key, acting: u32, cred: &Cred, acts: &[Act]) -> Base {
    add_raw(wl, payer, acting, cred.kind, &cred.create_data(), &acts_stored(acts), acts.len() as u8)
}
/// the remove instruction carries the length of its authority payload
pub fn remove(wl: &Wallet, payer: Key, acting: u32, target: u32, payload_len: u16) -> Base {
    let d = cat(&[&2u16.to_le_bytes(), &payload_len.to_le_bytes(), &[0; 4], &acting.to_le_bytes(), &target.to_le_bytes()]);
    whole(vec![w(wl.key), ws(payer), r(SYSTEM)], d)
}
#[derive(Clone, Debug)]
pub enum Upd {
    ReplaceOld(Vec<u8>, u8),
    Replace(Vec<u8>),
    Add(Vec<u8>),
    RemoveTypes(Vec<u8>),
    RemoveIdx(Vec<u16>),
    Raw(u8, Vec<u8>),
}
pub fn update(wl: &Wallet, payer: Key, acting: u32, target: u32, op: &Upd) -> Base {
    let (n, body) = match op {
        Upd::ReplaceOld(a, n) => (*n, a.clone()),
        Upd::Replace(a) => (0, cat(&[&[0], a])),
        Upd::Add(a) => (0, cat(&[&[1], a])),
        Upd::RemoveTypes(t) => (0, cat(&[&[2], t])),
        Upd::RemoveIdx(v) => {
            let mut b = vec![3u8];
            for x in v {
                b.extend_from_slice(&x.to_le_bytes());
            }
            (0, b)
        }
        Upd::Raw(n, b) => (*n, b.clone()),
    };
    let d = cat(&[
        &3u16.to_le_bytes(),
        &(body.len() as u16).to_le_bytes(),
        &[n, 0, 0, 0],
        &acting.to_le_bytes(),
        &target.to_le_bytes(),
        &body,
    ]);
    whole(vec![w(wl.key), ws(payer), r(SYSTEM)], d)
}
pub fn create_session(wl: &Wallet, payer: Key, role: u32, dur: u64, key: &Key) -> Base {
    let d = cat(&[&5u16.to_le_bytes(), &[0; 2], &role.to_le_bytes(), &dur.to_le_bytes(), key]);
    whole(vec![w(wl.key), ws(payer), r(SYSTEM)], d)
}
pub fn create_sub1(wl: &Wallet, payer: Key, role: u32, sub: Key, bump: u8) -> Base {
    let d = cat(&[&6u16.to_le_bytes(), &[0; 2], &role.to_le_bytes(), &[bump, 0, 0, 0, 0, 0, 0, 0]]);
    whole(vec![w(wl.key), ws(payer), w(sub), r(SYSTEM)], d)
}
pub fn withdraw1(wl: &Wallet, payer: Key, role: u32, sub: Key, authctx: Key, amount: u64, tok: Option<(Key, Key, Key)>) -> Base {
    let d = cat(&[&7u16.to_le_bytes(), &[0; 2], &role.to_le_bytes(), &amount.to_le_bytes()]);
    let mut m = vec![w(wl.key), ws(payer), w(sub), r(authctx), w(wl.addr), r(SYSTEM)];
    if let Some((s, t, p)) = tok {
        m.extend([w(s), w(t), r(p)]);
    }
    whole(m, d)
}
pub fn sub_sign1(wl: &Wallet, role: u32, sub: Key, extra: &[Meta], payload: &[u8]) -> Base {
    let d = cat(&[&9u16.to_le_bytes(), &(payload.len() as u16).to_le_bytes(), &role.to_le_bytes(), &[0; 8], payload]);
    let mut m = vec![w(wl.key), w(sub), r(SYSTEM)];
    m.extend_from_slice(extra);
    Base { metas: m, data: d, payload: payload.to_vec() }
}
pub fn toggle1(wl: &Wallet, payer: Key, sub: Key, role: u32, auth_role: u32, on: u8) -> Base {
    let d = cat(&[&10u16.to_le_bytes(), &[on, 0, 0, 0, 0, 0], &role.to_le_bytes(), &auth_role.to_le_bytes()]);
    whole(vec![w(wl.key), ws(payer), w(sub)], d)
}
pub fn sign(wl: &Wallet, role: u32, extra: &[Meta], payload: &[u8]) -> Base {
    let d = cat(&[&11u16.to_le_bytes(), &(payload.len() as u16).to_le_bytes(), &role.to_le_bytes(), payload]);
    let mut m = vec![w(wl.key), w(wl.addr), r(SYSTEM)];
    m.extend_from_slice(extra);
    Base { metas: m, data: d, payload: payload.to_vec() }
}
pub fn migrate(wl: &Wallet, authority: Key, payer: Key, addr: Key, bump: u8, role: u32) -> Base {
    let d = cat(&[&12u16.to_le_bytes(), &[bump, 0], &role.to_le_bytes()]);
    whole(vec![w(wl.key), rs(authority), ws(payer), w(addr), r(SYSTEM)], d)
}
pub fn transfer_assets(wl: &Wallet, payer: Key, role: u32, toks: &[(Key, Key, Key)]) -> Base {
    let d = cat(&[&13u16.to_le_bytes(), &[0; 2], &role.to_le_bytes()]);
    let mut m = vec![w(wl.key), w(wl.addr), ws(payer), r(SYSTEM)];
    for (a, b, c) in toks {
        m.extend([w(*a), w(*b), r(*c)]);
    }
    whole(m, d)
}
pub fn close_token(wl: &Wallet, dest: Key, tprog: Key, accts: &[Key], offset: u16, role: u32) -> Base {
    let d = cat(&[&14u16.to_le_bytes(), &offset.to_le_bytes(), &role.to_le_bytes()]);
    let mut m = vec![w(wl.key), w(wl.addr), w(dest), r(tprog)];
    for a in accts {
        m.push(w(*a));
    }
    whole(m, d)
}
pub fn close_swig(wl: &Wallet, dest: Key, role: u32) -> Base {
    let d = cat(&[&15u16.to_le_bytes(), &[0; 2], &role.to_le_bytes()]);
    whole(vec![w(wl.key), w(wl.addr), w(dest), r(SYSTEM)], d)
}
pub fn replace(wl: &Wallet, second: Key, payer: Key, acting: u32, target: u32, newkey: &[u8]) -> Base {
    let _ = payer;
    let d = cat(&[
        &16u16.to_le_bytes(),
        &[0; 2],
        &acting.to_le_bytes(),
        &target.to_le_bytes(),
        &(newkey.len() as u16).to_le_bytes(),
        &[0; 2],
        newkey,
    ]);
    whole(vec![w(wl.key), r(second)], d)
}
pub fn set_claimer(wl: &Wallet, payer: Key, role: u32, claimer: &Key) -> Base {
    let d = cat(&[&17u16.to_le_bytes(), &[0; 2], &role.to_le_bytes(), claimer]);
    whole(vec![w(wl.key), ws(payer), r(SYSTEM)], d)
}
#[allow(clippy::too_many_arguments)]
pub fn create_sub2_raw(wl: &Wallet, payer: Key, role: u32, state: Key, sb: u8, asset: Key, ab: u8) -> Base {
    let d = cat(&[&18u16.to_le_bytes(), &[0; 2], &role.to_le_bytes(), &[sb, ab, 0, 0, 0, 0, 0, 0]]);
    whole(vec![w(wl.key), ws(payer), w(state), w(asset), r(SYSTEM)], d)
}
pub fn create_sub2(wl: &Wallet, payer: Key, role: u32) -> Base {
    let (s, sb) = sub2_state_pda(&wl.id, wl.subs);
    let (a, ab) = sub2_asset_pda(&wl.id, wl.subs);
    create_sub2_raw(wl, payer, role, s, sb, a, ab)
}
pub fn toggle2(wl: &Wallet, payer: Key, state: Key, auth_role: u32, sid: u32, on: u8) -> Base {
    let d = cat(&[&19u16.to_le_bytes(), &[on, 0], &auth_role.to_le_bytes(), &sid.to_le_bytes(), &[0; 4]]);
    whole(vec![w(wl.key), ws(payer), w(state)], d)
}
pub fn sub_sign2(wl: &Wallet, role: u32, sid: u32, state: Key, asset: Key, extra: &[Meta], payload: &[u8]) -> Base {
    let d = cat(&[
        &20u16.to_le_bytes(),
        &(payload.len() as u16).to_le_bytes(),
        &role.to_le_bytes(),
        &sid.to_le_bytes(),
        &[0; 4],
        payload,
    ]);
    let mut m = vec![w(wl.key), r(state), w(asset), r(SYSTEM)];
    m.extend_from_slice(extra);
    whole(m, d)
}
#[allow(clippy::too_many_arguments)]
pub fn withdraw2(wl: &Wallet, payer: Key, role: u32, sid: u32, state: Key, asset: Key, authctx: Key, amount: u64, tok: Option<(Key, Key, Key)>) -> Base {
    let d = cat(&[&21u16.to_le_bytes(), &[0; 2], &role.to_le_bytes(), &sid.to_le_bytes(), &[0; 4], &amount.to_le_bytes()]);
    let mut m = vec![w(wl.key), ws(payer), r(state), w(asset), w(wl.addr), r(authctx), r(SYSTEM)];
    if let Some((s, t, p)) = tok {
        m.extend([w(s), w(t), r(p)]);
    }
    whole(m, d)
}
pub fn _d(d: u16) -> Vec<u8> {
    d16(d)
}

// ---------------------------------------------------------------- compact
/// an inner instruction by account keys; flags come from the account list
#[derive(Clone, Debug)]
pub struct Inner {
    pub prog: Key,
    pub keys: Vec<Key>,
    pub data: Vec<u8>,
}
/// appends missing accounts (with the wanted flags) to `metas` and encodes
pub fn compact(metas: &mut Vec<Meta>, ixs: &[(Ix, bool)]) -> Vec<u8> {
    let mut o = vec![ixs.len() as u8];
    for (ix, _) in ixs {
        let pi = index_of(metas, r(ix.program));
        o.push(pi);
        o.push(ix.accounts.len() as u8);
        for m in &ix.accounts {
            let i = index_of(metas, *m);
            o.push(i);
        }
        o.extend_from_slice(&(ix.data.len() as u16).to_le_bytes());
        o.extend_from_slice(&ix.data);
    }
    o
}
fn index_of(metas: &mut Vec<Meta>, m: Meta) -> u8 {
    if let Some(i) = metas.iter().position(|x| x.key == m.key) {
        metas[i].writable |= m.writable;
        metas[i].signer |= m.signer;
        return i as u8;
    }
    metas.push(m);
    (metas.len() - 1) as u8
}
/// Builds the base of a signed execution from inner instructions given as
/// ordinary instructions. Inner signer flags of `wallet-like` keys are cleared
/// in the outer list (the program adds that signature itself).
pub fn sign_ixs(wl: &Wallet, role: u32, ixs: &[Ix]) -> Base {
    let mut metas = vec![w(wl.key), w(wl.addr), r(SYSTEM)];
    let payload = compact_for(&mut metas, ixs, &[wl.addr]);
    Base {
        data: cat(&[&11u16.to_le_bytes(), &(payload.len() as u16).to_le_bytes(), &role.to_le_bytes(), &payload]),
        metas,
        payload,
    }
}
pub fn compact_for(metas: &mut Vec<Meta>, ixs: &[Ix], own: &[Key]) -> Vec<u8> {
    let v: Vec<(Ix, bool)> = ixs
        .iter()
        .map(|ix| {
            let mut ix = ix.clone();
            for m in ix.accounts.iter_mut() {
                if own.contains(&m.key) {
                    m.signer = false;
                }
            }
            (ix, true)
        })
        .collect();
    compact(metas, &v)
}

// ---------------------------------------------------------------- proofs
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    /// whatever the program demands for this role on this instruction
    Auto,
    Main,
    Session(Key),
}
/// merged flags, as the runtime will present them
pub fn merged(ixs: &[Ix], i: usize) -> Vec<Meta> {
    let mut v = ixs[i].accounts.clone();
    for m in v.iter_mut() {
        for ix in ixs {
            for o in &ix.accounts {
                if o.key == m.key {
                    m.signer |= o.signer;
                    m.writable |= o.writable;
                }
            }
        }
        if m.key == swig_id() || m.key == SYSTEM || m.key == token_id() || m.key == token22_id() || m.key == stake_id() || m.key == ixs_sysvar_id() {
            m.writable = false;
        }
    }
    v
}
pub fn accts_bytes(m: &[Meta]) -> Vec<u8> {
    let mut o = vec![];
    for a in m {
        o.extend_from_slice(&a.key);
        o.extend_from_slice(&[a.writable as u8, a.signer as u8, 0, 0, 0, 0, 0, 0]);
    }
    o
}
#[derive(Clone, Debug)]
pub struct SigOpts {
    pub slot: u64,
    pub counter: u32,
    pub prefix: Vec<u8>,
    /// r1: extra bytes after the fixed part and the message it implies
    pub webauthn: Option<WebAuthn>,
    /// data of the preceding program instruction, when not just the prefix
    pub pre: Option<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct WebAuthn {
    pub auth_data: Vec<u8>,
    /// builds (additional payload, client data json) for a challenge
    pub raw_json: fn(&str) -> String,
}
pub fn b64url(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(A[((n >> (18 - 6 * i)) & 63) as usize] as char);
        }
    }
    o
}
pub fn hexs(b: &[u8]) -> Vec<u8> {
    crate::util::hex(b).into_bytes()
}
pub fn k1_hash(payload: &[u8], accts: &[u8], slot: u64, counter: u32, prefix: &[u8]) -> [u8; 32] {
    let h = sha256(&[payload, accts, &slot.to_le_bytes(), &counter.to_le_bytes()]);
    keccak(&[prefix, &hexs(&h)])
}
pub fn r1_hash(payload: &[u8], accts: &[u8], slot: u64, counter: u32) -> [u8; 32] {
    keccak(&[payload, accts, &slot.to_le_bytes(), &counter.to_le_bytes()])
}
/// precompile instruction over one message
pub fn r1_ix(pk: &[u8; 33], sig: &[u8; 64], msg: &[u8]) -> Ix {
    let mut d = vec![1u8, 0];
    for x in [49u16, 0xFFFF, 16, 0xFFFF, 113, msg.len() as u16, 0xFFFF] {
        d.extend_from_slice(&x.to_le_bytes());
    }
    d.extend_from_slice(pk);
    d.extend_from_slice(sig);
    d.extend_from_slice(msg);
    Ix { program: r1_id(), accounts: vec![], data: d }
}

/// A transaction: possibly a preparatory instruction, then the swig one.
#[derive(Clone, Debug)]
pub struct Tx {
    pub ixs: Vec<Ix>,
    /// index of the swig instruction
    pub at: usize,
    /// where the authority payload starts in its data
    pub auth_off: usize,
}

pub fn main_proof(slot: u64, b: &Base, c: &Cred) -> Tx {
    main_proof_opt(b, c, &SigOpts { slot, counter: c.odo.wrapping_add(1), prefix: vec![], webauthn: None, pre: None })
}
pub fn main_proof_opt(b: &Base, c: &Cred, o: &SigOpts) -> Tx {
    let mut ix = Ix { program: swig_id(), accounts: b.metas.clone(), data: b.data.clone() };
    let off = b.data.len();
    let mut ixs: Vec<Ix> = vec![];
    match c.kind {
        ED | EDS => {
            let i = add_signer(&mut ix, c.ed);
            ix.data.push(i);
            ixs.push(ix);
        }
        K1T | K1S => {
            let accts = accts_bytes(&merged(&[ix.clone()], 0));
            let h = k1_hash(&b.payload, &accts, o.slot, o.counter, &o.prefix);
            let mut s = c.k1.as_ref().unwrap().sign(&h);
            s[64] += 27;
            ix.data.extend_from_slice(&o.slot.to_le_bytes());
            ix.data.extend_from_slice(&o.counter.to_le_bytes());
            ix.data.extend_from_slice(&s);
            ix.data.extend_from_slice(&o.prefix);
            ixs.push(ix);
        }
        R1T | R1S => {
            let idx = add_ro(&mut ix, ixs_sysvar_id());
            let accts = accts_bytes(&merged(&[ix.clone()], 0));
            let h = r1_hash(&b.payload, &accts, o.slot, o.counter);
            ix.data.extend_from_slice(&o.slot.to_le_bytes());
            ix.data.extend_from_slice(&o.counter.to_le_bytes());
            ix.data.push(idx);
            ix.data.extend_from_slice(&[0; 4]);
            let msg = match &o.webauthn {
                None => h.to_vec(),
                Some(wa) => {
                    let json = (wa.raw_json)(&b64url(&h));
                    ix.data.extend_from_slice(&2u16.to_le_bytes());
                    ix.data.extend_from_slice(&(wa.auth_data.len() as u16).to_le_bytes());
                    ix.data.extend_from_slice(&wa.auth_data);
                    ix.data.extend_from_slice(&(json.len() as u16).to_le_bytes());
                    ix.data.extend_from_slice(json.as_bytes());
                    [&wa.auth_data[..], &sha256(&[json.as_bytes()])].concat()
                }
            };
            let sig = r1_sign(&c.pk33, &msg);
            ixs.push(r1_ix(&c.pk33, &sig, &msg));
            ixs.push(ix);
        }
        PE | PES => {
            let idx = add_ro(&mut ix, ixs_sysvar_id());
            ix.data.push(idx);
            let pre = Ix {
                program: c.prog,
                accounts: vec![r(ix.accounts[0].key), r(ix.accounts[1].key)],
                data: o.pre.clone().unwrap_or_else(|| c.prefix.clone()),
            };
            ixs.push(pre);
            ixs.push(ix);
        }
        _ => unreachable!(),
    }
    let at = ixs.len() - 1;
    Tx { ixs, at, auth_off: off }
}
pub fn add_ro(ix: &mut Ix, k: Key) -> u8 {
    if let Some(i) = ix.accounts.iter().position(|m| m.key == k) {
        return i as u8;
    }
    ix.accounts.push(r(k));
    (ix.accounts.len() - 1) as u8
}
/// the account a role's proof refers to, where the layout needs it early
pub fn proof_acct(c: &Cred, main: bool) -> Option<Meta> {
    if c.session() && !main {
        return Some(rs(c.sess));
    }
    match c.kind {
        ED | EDS => Some(rs(c.ed)),
        K1T | K1S => None,
        _ => Some(r(ixs_sysvar_id())),
    }
}
pub fn add_signer(ix: &mut Ix, k: Key) -> u8 {
    if let Some(i) = ix.accounts.iter().position(|m| m.key == k) {
        ix.accounts[i].signer = true;
        return i as u8;
    }
    ix.accounts.push(rs(k));
    (ix.accounts.len() - 1) as u8
}
pub fn session_proof(b: &Base, key: Key) -> Tx {
    let mut ix = Ix { program: swig_id(), accounts: b.metas.clone(), data: b.data.clone() };
    let off = b.data.len();
    let i = add_signer(&mut ix, key);
    ix.data.push(i);
    Tx { ixs: vec![ix], at: 0, auth_off: off }
}
/// the proof the program wants from this role for an ordinary instruction
pub fn prove(slot: u64, b: &Base, c: &Cred) -> Tx {
    if c.session() {
        session_proof(b, c.sess)
    } else {
        main_proof(slot, b, c)
    }
}
/// length of the authority payload `prove` will attach (for RemoveAuthority)
pub fn proof_len(c: &Cred) -> u16 {
    if c.session() {
        return 1;
    }
    match c.kind {
        K1T => 77,
        R1T => 17,
        _ => 1,
    }
}
