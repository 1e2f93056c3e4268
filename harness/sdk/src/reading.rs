//! Permissions and actions in both directions, and what the SDK's queries
//! report about a stored wallet.
use crate::net::*;
use crate::perms;
use crate::roles::{role_of, KINDS7};
use checks::client::pk;
use checks::codec::{rand_cred, Aligned};
use checks::model::*;
use checks::report::*;
use checks::util::*;
use checks::world::{fresh, Sim};
use rt::*;
use solana_program::instruction::Instruction;
use solana_sdk::signature::{Keypair, Signer};
use std::cell::RefCell;
use std::rc::Rc;
use swig_interface::UpdateAuthorityData as Wire;
use swig_sdk::types::{Permission, UpdateAuthorityData};
use swig_sdk::utils::*;
use swig_sdk::{SwigError, SwigWallet};
use swig_state::swig::SwigWithRoles;

pub fn sorted(p: &[Permission]) -> Vec<String> {
    let mut v: Vec<String> = p.iter().map(|x| format!("{x:?}")).collect();
    v.sort();
    v
}
/// what a role with these stored actions may do, as permissions: of the kinds
/// that count once, the first
pub fn expected(acts: &[(u16, Vec<u8>)]) -> Vec<Permission> {
    let once = |k: u16| matches!(k, SOL | SOLR | ALL | MANAGE | STK | STKR | STKALL | PROGALL | CURATED | ALLBUT | V2CREATE);
    let mut seen = vec![];
    let mut v = vec![];
    for (k, d) in acts {
        if once(*k) && seen.contains(k) {
            continue;
        }
        seen.push(*k);
        v.extend(perms::perm(&Act { kind: *k, data: d.clone() }));
    }
    v
}
pub fn pairs(acts: &[Act]) -> Vec<(u16, Vec<u8>)> {
    acts.iter().map(|a| (a.kind, a.data.clone())).collect()
}
/// kind and content of each encoded action, whatever its boundary says
fn plain(b: &[u8]) -> Option<Vec<(u16, Vec<u8>)>> {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let h = b.get(at..at + 8)?;
        let l = u16::from_le_bytes([h[2], h[3]]) as usize;
        v.push((u16::from_le_bytes([h[0], h[1]]), b.get(at + 8..at + 8 + l)?.to_vec()));
        at += 8 + l;
    }
    Some(v)
}
fn wire(a: &[swig_interface::ClientAction]) -> Option<Vec<(u16, Vec<u8>)>> {
    let mut b = vec![];
    for x in a {
        x.write(&mut b).ok()?;
    }
    plain(&b)
}
fn translate(c: &mut Case, s: &Sim) {
    let n = 1 + c.rng.below(6);
    let (acts, ask) = perms::some(c, s, 3, n, &[]);
    let want = pairs(&acts);
    for (a, p) in acts.iter().zip(&ask) {
        c.eval(&format!("translate {}", a.kind));
        if p.to_action_type() as u16 != a.kind {
            c.violate(format!("type:{}", a.kind), format!("{p:?} is reported as action type {}", p.to_action_type()));
        }
        // one at a time, so that a difference names its kind
        let got = wire(&Permission::to_client_actions(vec![p.clone()]));
        if got != Some(vec![(a.kind, a.data.clone())]) {
            c.violate(format!("action:{}", a.kind), format!("{p:?} becomes {got:?}, not {}", hex(&a.data)));
        }
    }
    if wire(&Permission::to_client_actions(ask.clone())) != Some(want.clone()) {
        c.violate("actions", format!("{ask:?} does not become {want:?}"));
    }
    for i in 0..4 {
        let idx: Vec<u16> = (0..c.rng.below(5)).map(|_| c.rng.u64() as u16).collect();
        let u = match i {
            0 => UpdateAuthorityData::ReplaceAll(ask.clone()),
            1 => UpdateAuthorityData::AddActions(ask.clone()),
            2 => UpdateAuthorityData::RemoveActionsByType(ask.clone()),
            _ => UpdateAuthorityData::RemoveActionsByIndex(idx.clone()),
        };
        let types: Vec<u8> = acts.iter().map(|a| a.kind as u8).collect();
        let ok = match u.to_interface_data() {
            Wire::ReplaceAll(v) => i == 0 && wire(&v).as_ref() == Some(&want),
            Wire::AddActions(v) => i == 1 && wire(&v).as_ref() == Some(&want),
            Wire::RemoveActionsByType(v) => i == 2 && v == types,
            Wire::RemoveActionsByIndex(v) => i == 3 && v == idx,
        };
        c.eval(&format!("update form {i}"));
        if !ok {
            c.violate(format!("update:{i}"), format!("{u:?} asks the program for something else"));
        }
    }
}
/// fields a role's use may have changed
fn used(c: &mut Case, a: &mut Act) {
    let r = &mut c.rng;
    if a.kind == SCOPE {
        // the SDK's permission holds 64 bits of a scope's limit
        a.data[24..32].fill(0);
    }
    let (at, n) = match a.kind {
        SOL | STK => (0, 8),
        TOK | SOLD => (32, 8),
        SOLR | STKR => (16, 16),
        TOKR | SOLRD => (48, 16),
        TOKD => (64, 8),
        TOKRD => (80, 16),
        SUB => (0, 72),
        _ => return,
    };
    if r.bool() {
        for b in &mut a.data[at..at + n] {
            *b = r.u64() as u8;
        }
        if a.kind == SUB {
            a.data[33] &= 1;
        }
    }
}
fn err(e: &SwigError) -> String {
    format!("{e:?}").split(['(', ' ', '{']).next().unwrap().to_string()
}
/// one query: what it says and what it should say
fn said<T: PartialEq + std::fmt::Debug>(c: &mut Case, name: &str, what: &str, got: Result<T, SwigError>, want: Option<T>) {
    c.eval(&format!("{name} {}", if want.is_some() { "found" } else { "absent" }));
    c.saw("queries", name);
    c.count("queries");
    match (got, want) {
        (Ok(g), Some(w)) if g == w => {}
        (Err(_), None) => {}
        (g, w) => {
            let how = match (&g, &w) {
                (Err(e), _) => err(e),
                (_, None) => "answered".into(),
                _ => "differs".into(),
            };
            c.violate(format!("query:{name}:{how}"), format!("{name} of {what}: says {g:?}, the account {w:?}"));
        }
    }
}
pub fn reading(c: &mut Case) {
    let mut s = fresh(c);
    translate(c, &s);
    // a wallet of several roles, some of them gone, all of them used
    let mut w = Wallet::plan(&c.rng.key());
    s.wl = w.clone();
    w.counter = *c.rng.pick(&[0u32, 0, 250, 65_534, 1 << 31]);
    w.subs = *c.rng.pick(&[0u32, 1, 255, 70_000]);
    let n = 1 + c.rng.below(7);
    for _ in 0..n {
        w.counter += c.rng.below(3) as u32;
        let used_creds: Vec<Cred> = w.roles.iter().map(|r| r.cred.clone()).collect();
        let mut cr = rand_cred(c, &used_creds);
        cr.odo = if cr.secp() { *c.rng.pick(&[0, 1, 255, 65_536, u32::MAX]) } else { 0 };
        if cr.session() {
            cr.exp = c.rng.u64();
        }
        let k = c.rng.below(8);
        let mut acts = checks::plan::rand_acts(c, &s, w.counter, k, &[]);
        for a in &mut acts {
            used(c, a);
        }
        if c.rng.chance(1, 8) {
            acts.clear();
            acts.push(a_mark(CLOSE));
        }
        w.roles.push(Role { id: w.counter, cred: cr, acts });
        w.counter += 1;
    }
    if c.rng.bool() {
        w.claimer = Some(c.rng.key());
    }
    let bytes = w.bytes();
    c.log(format!("wallet {} counter {} roles {:?}", short(&w.id), w.counter, w.roles));
    let first = |lookup: &dyn Fn(&Cred) -> bool| w.roles.iter().find(|r| lookup(&r.cred)).map(|r| r.id);
    let mem = Aligned::new(&bytes);
    let parsed = match SwigWithRoles::from_bytes(mem.get()) {
        Ok(p) => p,
        Err(e) => {
            c.diverge(&["R05"], "parse", format!("a stored wallet cannot be read: {e:?}"));
            return;
        }
    };
    for r in &w.roles {
        c.eval(&format!("read {} {}", kind_name(r.cred.kind), r.acts.len()));
        match parsed.get_role(r.id) {
            Ok(Some(x)) => match Permission::from_role(&x) {
                Ok(p) => {
                    let (g, e) = (sorted(&p), sorted(&expected(&pairs(&r.acts))));
                    if g != e {
                        let miss = e.iter().find(|x| !g.contains(x));
                        let extra = g.iter().find(|x| !e.contains(x));
                        let k = miss.or(extra).map(|x| x.split([' ', '{', '(']).next().unwrap().to_string()).unwrap_or("count".into());
                        c.violate(format!("from_role:{k}"), format!("role {}: permissions missing {miss:?} invented {extra:?}: {g:?} for {:?}", r.id, r.acts));
                    }
                }
                Err(e) => c.violate("from_role", format!("role {} of actions {:?}: {e:?}", r.id, r.acts)),
            },
            x => c.diverge(&["R05", "A05"], "get_role", format!("role {} not found: {:?}", r.id, x.is_ok())),
        }
        let kind = r.cred.kind;
        let of = |k33: &[u8; 33]| w.roles.iter().find(|r| r.cred.secp() && r.cred.pk33 == *k33).map(|r| (r.cred.kind, r.cred.odo));
        match kind {
            K1T | K1S | R1T | R1S => {
                let hit = of(&r.cred.pk33);
                let want = |k: u16| hit.filter(|x| x.0 == k).map(|x| x.1);
                said(c, "get_secp256k1_signature_counter", "a 33-byte key", get_secp256k1_signature_counter(mem.get(), &r.cred.pk33), want(K1T));
                if kind == K1T || kind == K1S {
                    let u = r.cred.k1.as_ref().unwrap().uncompressed();
                    said(c, "get_secp256k1_signature_counter", "a 64-byte key", get_secp256k1_signature_counter(mem.get(), &u[1..]), want(K1T));
                }
                said(c, "get_secp256r1_signature_counter", "a key", get_secp256r1_signature_counter(mem.get(), &r.cred.pk33), want(R1T));
            }
            _ => {}
        }
    }
    let stranger = Cred::new(*c.rng.pick(&[K1T, R1T]), &mut c.rng, &s.pe);
    said(c, "get_secp256k1_signature_counter", "a stranger", get_secp256k1_signature_counter(mem.get(), &stranger.pk33), None);
    said(c, "get_secp256r1_signature_counter", "a stranger", get_secp256r1_signature_counter(mem.get(), &stranger.pk33), None);

    // the wallet object, opened as one of the roles the SDK can act for
    let lam = rent_min(bytes.len()) + c.rng.below(1_000_000) as u64;
    s.ch.accts.insert(w.key, Acct { lamports: lam, data: bytes, owner: swig_id(), executable: false });
    let fee = Keypair::new_from_array(c.rng.key());
    let able: Vec<Role> = w.roles.iter().filter(|r| KINDS7.contains(&r.cred.kind)).cloned().collect();
    let Some(r) = able.get(c.rng.below(able.len().max(1))).cloned() else { return };
    // the role whose authority is found by that credential is the first
    let same = |a: &Cred, b: &Cred| match (a.kind, b.kind) {
        (ED | EDS, ED | EDS) => a.ed == b.ed,
        (PE, PE) => a.prog == b.prog && a.prefix == b.prefix,
        (x, y) if x != PE && x != PES && y != PE && y != PES && x != ED && x != EDS && y != ED && y != EDS => a.pk33 == b.pk33,
        _ => false,
    };
    // V2 sub-accounts: enabled, switched off, someone else's, not made
    let made = c.rng.u64() as u32;
    let (st, sb) = sub2_state_pda(&w.id, made);
    let (asset, ab) = sub2_asset_pda(&w.id, made);
    let good = Sub2 { id: made, state: st, sbump: sb, asset, abump: ab, enabled: c.rng.bool() };
    let mut b = good.bytes(&w.id);
    let spoil = c.rng.below(4);
    let mut owner = swig_id();
    if spoil == 1 {
        let i = c.rng.below(b.len());
        b[i] ^= if i == 3 { 4 } else { 1 << c.rng.below(8) };
    } else if spoil == 2 {
        owner = c.rng.key();
    }
    s.ch.accts.insert(st, Acct { lamports: 2_000_000, data: b, owner, executable: false });
    let (sub1, _) = sub1_pda(&w.id, r.id);
    let has1 = c.rng.bool();
    if has1 {
        s.ch.fund(sub1, 1_000_000);
    }
    s.ch.slot = c.rng.u64() >> 1;
    let slot = s.ch.slot;
    let net = Shared(Rc::new(RefCell::new(Net::new(s.ch.clone()))));
    solana_client::install(Some(Box::new(net.clone())));
    let no = Instruction { program_id: pk(&r.cred.prog), accounts: vec![], data: vec![] };
    let opened = SwigWallet::new(w.id, role_of(&r.cred, c.rng.bool(), &no), &fee, "http://localhost".into(), None);
    let who = first(&|x| same(x, &r.cred));
    let q = match opened {
        Ok(q) => q,
        Err(e) => {
            c.violate(format!("open:{}:{}", kind_name(r.cred.kind), err(&e)), format!("a wallet with role {} {:?} cannot be opened: {e}", r.id, r.cred));
            return;
        }
    };
    if !net.0.borrow().sent.is_empty() {
        c.violate("open:sent", "opening an existing wallet sent a transaction");
        return;
    }
    said(c, "get_current_role_id", "the wallet", q.get_current_role_id(), who);
    if who != Some(r.id) {
        return;
    }
    let cur = expected(&pairs(&r.acts));
    said(c, "current_role", "its id", Ok(q.current_role.role_id), Some(r.id));
    said(c, "current_role", "its type", Ok(q.current_role.authority_type as u16), Some(r.cred.kind));
    said(c, "current_role", "its sessions", Ok(q.current_role.session_based), Some(r.cred.session()));
    said(c, "current_role", "its permissions", Ok(sorted(&q.current_role.permissions)), Some(sorted(&cur)));
    said(c, "get_current_permissions", "the wallet", q.get_current_permissions().map(sorted), Some(sorted(&cur)));
    said(c, "get_current_authority_permissions", "the wallet", q.get_current_authority_permissions().map(|p| sorted(&p)), Some(sorted(&cur)));
    if r.cred.secp() {
        said(c, "get_odometer", "the wallet", q.get_odometer(), Some(r.cred.odo));
    }
    said(c, "get_role_count", "the wallet", q.get_role_count(), Some(w.counter));
    said(c, "get_sub_account_v2_counter", "the wallet", q.get_sub_account_v2_counter(), Some(w.subs));
    said(c, "get_balance", "the wallet", q.get_balance(), Some(lam));
    said(c, "get_swig_account", "the wallet", q.get_swig_account(), Some(pk(&w.key)));
    said(c, "get_swig", "the wallet", Ok(q.get_swig()), Some(pk(&w.key)));
    said(c, "get_swig_wallet_address", "the wallet", q.get_swig_wallet_address(), Some(pk(&w.addr)));
    said(c, "get_swig_id", "the wallet", Ok(*q.get_swig_id()), Some(w.id));
    said(c, "get_current_slot", "the wallet", q.get_current_slot(), Some(slot));
    said(c, "get_fee_payer", "the wallet", Ok(q.get_fee_payer()), Some(fee.pubkey()));
    said(c, "get_sub_account", "the wallet", q.get_sub_account(), Some(has1.then(|| pk(&sub1))));
    let v2 = if spoil == 1 || spoil == 2 { None } else { Some(Some(pk(&asset))) };
    said(c, "get_sub_account_v2", "a sub-account", q.get_sub_account_v2(made), v2);
    said(c, "get_sub_account_v2", "no sub-account", q.get_sub_account_v2(made ^ 1), Some(None));
    let all = cur.contains(&Permission::All);
    said(c, "has_all_permissions", "the wallet", q.has_all_permissions(), Some(all));
    said(c, "can_manage_authority", "the wallet", q.can_manage_authority(), Some(cur.contains(&Permission::ManageAuthority)));
    for p in &cur {
        said(c, "has_permission", "one it has", q.has_permission(p), Some(true));
    }
    let other = perms::perm(&checks::plan::rand_act(c, &s, 1));
    if let Some(p) = &other {
        said(c, "has_permission", "another", q.has_permission(p), Some(cur.contains(p)));
    }
    let fixed = cur.iter().find_map(|p| match p {
        Permission::Sol { amount, recurring: None } => Some(*amount),
        _ => None,
    });
    let rec = cur.iter().find_map(|p| match p {
        Permission::Sol { amount, recurring: Some(r) } => Some((*amount, r.clone())),
        _ => None,
    });
    said(c, "get_sol_limit", "the wallet", q.get_sol_limit(), Some(fixed.or(rec.as_ref().map(|r| r.0))));
    said(c, "get_recurring_sol_limit", "the wallet", q.get_recurring_sol_limit(), Some(rec.as_ref().map(|r| r.1.clone())));
    // where one limit alone decides
    for _ in 0..2 {
        let x = match fixed.or(rec.as_ref().map(|r| r.1.current_amount)) {
            Some(l) if c.rng.bool() => l.wrapping_add(c.rng.below(3) as u64).wrapping_sub(1),
            _ => c.rng.u64() >> c.rng.below(64),
        };
        let want = match (&fixed, &rec) {
            _ if all => Some(true),
            (Some(l), None) => Some(x <= *l),
            (None, Some((m, r))) if x > *m && x > r.current_amount => Some(false),
            (None, Some((_, r))) if x <= r.current_amount => Some(true),
            (None, None) if !cur.iter().any(|p| matches!(p, Permission::AllButManageAuthority | Permission::SolDestination { .. })) => Some(false),
            _ => None,
        };
        if want.is_some() {
            said(c, "can_spend_sol", &format!("{x}"), q.can_spend_sol(x), want);
        }
    }
    // every role, by id and by authority
    let mut ids: Vec<u32> = w.roles.iter().map(|r| r.id).collect();
    ids.push(w.counter);
    ids.push(c.rng.u64() as u32);
    for id in ids {
        let r = w.role(id);
        let what = format!("role {id}");
        said(c, "get_authority_type", &what, q.get_authority_type(id).map(|t| t as u16), r.map(|r| r.cred.kind));
        said(c, "is_session_based", &what, q.is_session_based(id), r.map(|r| r.cred.session()));
        said(c, "get_role_permissions", &what, q.get_role_permissions(id).map(|p| sorted(&p)), r.map(|r| sorted(&expected(&pairs(&r.acts)))));
        if r.map(|r| !matches!(r.cred.kind, PE | PES)).unwrap_or(true) {
            said(c, "get_authority_identity", &what, q.get_authority_identity(id), r.map(|r| r.cred.ident()));
        }
        if let Some(p) = r.and_then(|r| expected(&pairs(&r.acts)).first().cloned()).or(other.clone()) {
            let want = r.map(|r| expected(&pairs(&r.acts)).contains(&p));
            said(c, "role_has_permission", &what, q.role_has_permission(id, &p), want);
        }
        let shown = match r.map(|r| r.cred.kind) {
            Some(ED | EDS) => Some(Some(pk(&r.unwrap().cred.ed).to_string())),
            Some(R1T | R1S) => Some(Some(format!("0x{}", r.unwrap().cred.pk33.iter().map(|b| format!("{b:02x}")).collect::<String>()))),
            None => Some(None),
            _ => None,
        };
        if let Some(want) = shown {
            said(c, "get_formatted_authority_address", &what, q.get_formatted_authority_address(id), want);
        }
        if let Some(r) = r {
            let hit = match r.cred.kind {
                PES => w.roles.iter().find(|x| x.cred.kind == PES && x.cred.prog == r.cred.prog && x.cred.prefix == r.cred.prefix).map(|x| x.id),
                _ => first(&|x| same(x, &r.cred)),
            };
            if r.cred.kind != PES {
                let l = r.cred.lookup();
                said(c, "get_role_id", &what, q.get_role_id(&l), hit);
                said(c, "authenticate_authority", &what, q.authenticate_authority(&l), Some(()));
            }
        }
    }
    said(c, "get_role_id", "a stranger", q.get_role_id(&stranger.pk33), None);
    said(c, "authenticate_authority", "a stranger", q.authenticate_authority(&stranger.pk33), None);
    if !net.0.borrow().sent.is_empty() {
        c.violate("query:sent", "a query sent a transaction");
    }
    c.sample(|| format!("wallet of {} roles opened as {:?}: {:?}", w.roles.len(), r.cred, cur));
}
