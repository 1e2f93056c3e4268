//! The client roles and the instruction builder of the Rust SDK against the
//! program: what they build must be accepted and do exactly what an
//! independently encoded instruction does.
use crate::perms;
use checks::client::*;
use checks::enc::*;
use checks::model::*;
use checks::plan::tok_pair;
use checks::report::*;
use checks::world::*;
use rt::crypto::*;
use rt::*;
use solana_program::instruction::{AccountMeta, Instruction};
use swig_sdk::client_role::*;
use swig_sdk::types::UpdateAuthorityData;
use swig_sdk::{SwigError, SwigInstructionBuilder};
use swig_state::authority::ed25519::CreateEd25519SessionAuthority;
use swig_state::authority::secp256k1::CreateSecp256k1SessionAuthority;
use swig_state::authority::secp256r1::CreateSecp256r1SessionAuthority;

pub const KINDS7: [u16; 7] = [ED, EDS, K1T, K1S, R1T, R1S, PE];

fn k1_key(x: &Cred, prefixed: bool) -> Box<[u8]> {
    let u = x.k1.as_ref().unwrap().uncompressed();
    if prefixed {
        u.to_vec().into()
    } else {
        u[1..].to_vec().into()
    }
}
/// the SDK's role for a credential of the model
pub fn role_of(x: &Cred, prefixed: bool, pre: &Instruction) -> Box<dyn ClientRole> {
    let (a, b) = (x.clone(), x.clone());
    let k1 = move |h: &[u8]| sign_k1(&a, h);
    let r1 = move |h: &[u8]| r1_sign(&b.pk33, h);
    match x.kind {
        ED => Box::new(Ed25519ClientRole::new(pk(&x.ed))),
        EDS => Box::new(Ed25519SessionClientRole::new(CreateEd25519SessionAuthority::new(x.ed, x.sess, x.max))),
        K1T => {
            let mut r = Secp256k1ClientRole::new(k1_key(x, prefixed), Box::new(k1));
            r.update_odometer(x.odo).unwrap();
            Box::new(r)
        }
        K1S => {
            let k: [u8; 64] = k1_key(x, false)[..].try_into().unwrap();
            Box::new(Secp256k1SessionClientRole::new_with_odometer(CreateSecp256k1SessionAuthority::new(k, x.sess, x.max), Box::new(k1), x.odo))
        }
        R1T => {
            let mut r = Secp256r1ClientRole::new(x.pk33, Box::new(r1));
            r.update_odometer(x.odo).unwrap();
            Box::new(r)
        }
        R1S => Box::new(Secp256r1SessionClientRole::new_with_odometer(CreateSecp256r1SessionAuthority::new(x.pk33, x.sess, x.max), Box::new(r1), x.odo)),
        _ => {
            let pre = pre.clone();
            Box::new(ProgramExecClientRole::new(pk(&x.prog), x.prefix.clone(), move || pre.clone()))
        }
    }
}
fn auth_name(k: u16) -> &'static str {
    kind_name(k)
}
pub const OPS: usize = 17;
const NAMES: [&str; OPS] = [
    "build_swig_account",
    "add_authority_instruction",
    "remove_authority",
    "update_authority",
    "create_session_instruction",
    "create_sub_account",
    "withdraw_from_sub_account",
    "withdraw_token_from_sub_account",
    "sign_instruction_with_sub_account",
    "toggle_sub_account",
    "set_rent_claimer",
    "sign_v2_instruction",
    "create_sub_account_v2",
    "sign_instruction_with_sub_account_v2",
    "withdraw_from_sub_account_v2",
    "withdraw_token_from_sub_account_v2",
    "toggle_sub_account_v2",
];

fn creating(c: &mut Case, kind: u16) {
    let mut s = fresh(c);
    let mut cred = Cred::new(kind, &mut c.rng, &s.pe);
    cred.long = true;
    let wl = s.wl.clone();
    let no = Instruction { program_id: pk(&cred.prog), accounts: vec![], data: vec![] };
    let b = SwigInstructionBuilder::new(wl.id, role_of(&cred, c.rng.bool(), &no), pk(&s.payer), 0);
    let swig = pk(&wl.key);
    if b.get_swig_account().ok() != Some(swig)
        || *b.get_swig_id() != wl.id
        || SwigInstructionBuilder::swig_key(&wl.id) != swig
        || SwigInstructionBuilder::swig_wallet_address_key(&swig).to_bytes() != wl.addr
        || b.swig_wallet_address().to_bytes() != wl.addr
    {
        c.violate("address", "the SDK derives other addresses than the program");
        return;
    }
    if b.get_current_authority().ok() != Some(cred.create_data()) {
        c.violate(format!("authority-bytes:{kind}"), format!("authority bytes of {:?} are {:?}", cred, b.get_current_authority()));
        return;
    }
    let mine = create(&wl, &cred, &[a_all()], s.payer);
    match b.build_swig_account() {
        Err(e) => c.violate("build:create", format!("the builder failed: {e}")),
        Ok(t) => same(c, &mut s, NAMES[0], &format!("create {:?}", cred), &[mine], &[to_ix(&t)], auth_name(kind)),
    }
}

pub fn building(c: &mut Case) {
    let kind = KINDS7[c.case as usize % 7];
    let op = (c.case as usize / 7) % OPS;
    if op == 0 {
        return creating(c, kind);
    }
    let Some(mut w) = setup(c, kind) else { return };
    let me = w.me;
    let cred = w.s.cred(me);
    if op == 4 && !cred.session() {
        return;
    }
    // what the SDK says it does not support must stay a clean refusal
    let no_pe = kind == PE && (op == 10 || op >= 12);
    let sub1 = if (6..=9).contains(&op) { with_sub1(c, &mut w) } else { None };
    let sub2 = if op > 12 && !no_pe { with_sub2(c, &mut w) } else { None };
    if c.dead {
        return;
    }
    let target = w.target;
    let wl = w.s.wl.clone();
    let cred = w.s.cred(me);
    let main = op == 4 || !cred.session();
    let payer = w.s.payer;
    let slot = w.s.ch.slot.saturating_sub(c.rng.below(20) as u64);
    let now = Some(slot);
    let second = match op {
        8 => sub1.unwrap_or_default(),
        11 => wl.addr,
        _ => payer,
    };
    let n = c.rng.below(3);
    let mut pre_data = cred.prefix.clone();
    pre_data.extend(c.rng.bytes(n));
    let pre = Instruction {
        program_id: pk(&cred.prog),
        accounts: vec![AccountMeta::new_readonly(pk(&wl.key), false), AccountMeta::new_readonly(pk(&second), false)],
        data: pre_data.clone(),
    };
    let prefixed = c.rng.bool();
    let mut b = SwigInstructionBuilder::new(wl.id, role_of(&cred, prefixed, &pre), pk(&payer), me);
    if b.get_role_id() != me {
        c.violate("role-id", "the builder reports another role");
        return;
    }
    // sometimes a builder that was first pointed elsewhere
    if c.rng.chance(1, 4) {
        let other = Cred::new(*c.rng.pick(&KINDS7), &mut c.rng, &w.s.pe);
        b = SwigInstructionBuilder::new(wl.id, role_of(&other, false, &pre), pk(&c.rng.key()), me + 1);
        b.switch_authority(me, role_of(&cred, prefixed, &pre)).unwrap();
        b.switch_payer(pk(&payer)).unwrap();
    }
    let ctx = proof_acct(&cred, main).map(|m| m.key).unwrap_or(SYSTEM);
    let (desc, bases, built): (String, Vec<Base>, Result<Vec<Instruction>, SwigError>) = match op {
        1 => {
            let nc = Cred::new(*c.rng.pick(&KINDS), &mut c.rng, &w.s.pe);
            let k = 1 + c.rng.below(4);
            let (acts, perms) = perms::some(c, &w.s, wl.counter, k, &[]);
            let data = nc.create_data();
            let t = b.add_authority_instruction(auth_type(nc.kind), &data, perms, now);
            (format!("add {:?} {}", nc, show(&acts)), vec![add(&wl, payer, me, &nc, &acts)], t)
        }
        2 => (format!("remove role {target}"), vec![remove(&wl, payer, me, target, if main { proof_len(&cred) } else { 1 })], b.remove_authority(target, now)),
        3 => {
            let k = 1 + c.rng.below(4);
            let keep = wl.role(target).unwrap().acts.clone();
            let (acts, perms) = perms::some(c, &w.s, target, k, &keep);
            let (u, d) = match c.rng.below(4) {
                0 => (Upd::Replace(acts_stored(&acts)), UpdateAuthorityData::ReplaceAll(perms)),
                1 => (Upd::Add(acts_stored(&acts)), UpdateAuthorityData::AddActions(perms)),
                2 => {
                    // by type: of what the role has, and of what it has not
                    let mut t = vec![keep[1].clone(), keep[3].clone()];
                    t.extend(acts.iter().filter(|a| !keep.iter().any(|k| k.kind == a.kind)).cloned());
                    c.rng.shuffle(&mut t);
                    let kinds = t.iter().map(|a| a.kind as u8).collect();
                    let p = t.iter().filter_map(norm_perm).collect();
                    (Upd::RemoveTypes(kinds), UpdateAuthorityData::RemoveActionsByType(p))
                }
                _ => {
                    let mut t = vec![0u16, 2, 3];
                    c.rng.shuffle(&mut t);
                    (Upd::RemoveIdx(t.clone()), UpdateAuthorityData::RemoveActionsByIndex(t))
                }
            };
            (format!("update role {target} {:?}", u), vec![update(&wl, payer, me, target, &u)], b.update_authority(target, now, d))
        }
        4 => {
            let sk = c.rng.key();
            let dur = c.rng.range(1, cred.max);
            (format!("session of {dur}"), vec![create_session(&wl, payer, me, dur, &sk)], b.create_session_instruction(pk(&sk), dur, now, None))
        }
        5 => {
            let (sub, bump) = sub1_pda(&wl.id, me);
            ("create V1 sub-account".into(), vec![create_sub1(&wl, payer, me, sub, bump)], b.create_sub_account(now))
        }
        6 => {
            let Some(sub) = sub1 else { return };
            let amt = c.rng.range(1, 1_000_000_000);
            (format!("withdraw {amt} from the V1 sub-account"), vec![withdraw1(&wl, payer, me, sub, ctx, amt, None)], b.withdraw_from_sub_account(pk(&sub), amt, now))
        }
        7 => {
            let Some(sub) = sub1 else { return };
            let t = tok_pair(c, &mut w.s, &sub, false);
            let amt = t.amount;
            (
                format!("withdraw {amt} tokens from the V1 sub-account"),
                vec![withdraw1(&wl, payer, me, sub, ctx, amt, Some((t.src, t.dst, t.prog)))],
                b.withdraw_token_from_sub_account(pk(&sub), pk(&t.src), pk(&t.dst), pk(&t.prog), amt, now),
            )
        }
        8 => {
            let Some(sub) = sub1 else { return };
            let ixs = apart(c, &mut w.s, sub);
            let mut metas = vec![w_(wl.key), w_(sub), r(SYSTEM)];
            let payload = compact_for(&mut metas, &ixs, &[sub]);
            (
                format!("sign {} instructions for the V1 sub-account", ixs.len()),
                vec![sub_sign1(&wl, me, sub, &metas[3..], &payload)],
                b.sign_instruction_with_sub_account(ixs.iter().map(from_ix).collect(), now),
            )
        }
        9 => {
            // one's own sub-account, or another role's
            let Some(sub) = sub1 else { return };
            let on = c.rng.bool();
            if c.rng.bool() {
                (format!("toggle the V1 sub-account {on}"), vec![toggle1(&wl, payer, sub, me, me, on as u8)], b.toggle_sub_account(pk(&sub), me, me, on, now))
            } else {
                let Some((sub, owner)) = others_sub1(c, &mut w) else { return };
                let wl = w.s.wl.clone();
                (
                    format!("toggle the V1 sub-account of role {owner} {on}"),
                    vec![toggle1(&wl, payer, sub, owner, me, on as u8)],
                    b.toggle_sub_account(pk(&sub), owner, me, on, now),
                )
            }
        }
        10 => {
            let cl = c.rng.key();
            ("set the rent claimer".into(), vec![set_claimer(&wl, payer, me, &cl)], b.set_rent_claimer(pk(&cl), now))
        }
        11 => {
            let mut ixs = apart(c, &mut w.s, wl.addr);
            if c.rng.chance(1, 3) {
                // the payer signs one of them too
                let i = c.rng.below(ixs.len() + 1);
                ixs.insert(i, checks::plan::sys_transfer(payer, wl.addr, c.rng.range(1, 1_000_000)));
            }
            (
                format!("sign {} instructions", ixs.len()),
                ixs.iter().map(|i| sign_ixs(&wl, me, &[i.clone()])).collect(),
                b.sign_v2_instruction(ixs.iter().map(from_ix).collect(), now),
            )
        }
        12 => {
            let (st, sb) = sub2_state_pda(&wl.id, wl.subs);
            let (asset, ab) = sub2_asset_pda(&wl.id, wl.subs);
            if b.sub_account_v2_pdas(wl.subs) != (pk(&st), pk(&asset)) {
                c.violate("address:v2", "the SDK derives other V2 sub-account addresses than the program");
                return;
            }
            ("create a V2 sub-account".into(), vec![create_sub2(&wl, payer, me)], b.create_sub_account_v2(pk(&st), pk(&asset), sb, ab, now))
        }
        13 => {
            let (sid, st, asset) = sub2.unwrap_or_default();
            let ixs = apart(c, &mut w.s, asset);
            let mut metas = vec![w_(wl.key), r(st), w_(asset), r(SYSTEM)];
            let payload = compact_for(&mut metas, &ixs, &[asset]);
            (
                format!("sign {} instructions for V2 sub-account {sid}", ixs.len()),
                vec![sub_sign2(&wl, me, sid, st, asset, &metas[4..], &payload)],
                b.sign_instruction_with_sub_account_v2(sid, ixs.iter().map(from_ix).collect(), now),
            )
        }
        14 => {
            let (sid, st, asset) = sub2.unwrap_or_default();
            let amt = c.rng.range(1, 1_000_000_000);
            (format!("withdraw {amt} from V2 sub-account {sid}"), vec![withdraw2(&wl, payer, me, sid, st, asset, ctx, amt, None)], b.withdraw_from_sub_account_v2(sid, amt, now))
        }
        15 => {
            let (sid, st, asset) = sub2.unwrap_or_default();
            let t = tok_pair(c, &mut w.s, &asset, false);
            let amt = t.amount;
            (
                format!("withdraw {amt} tokens from V2 sub-account {sid}"),
                vec![withdraw2(&wl, payer, me, sid, st, asset, ctx, amt, Some((t.src, t.dst, t.prog)))],
                b.withdraw_token_from_sub_account_v2(sid, pk(&t.src), pk(&t.dst), pk(&t.prog), amt, now),
            )
        }
        _ => {
            let (sid, st, _) = sub2.unwrap_or_default();
            let on = c.rng.bool();
            (format!("toggle V2 sub-account {sid} {on}"), vec![toggle2(&wl, payer, st, me, sid, on as u8)], b.toggle_sub_account_v2(sid, on, now))
        }
    };
    let name = NAMES[op];
    let sig = format!("{} {}", auth_name(kind), bases.len());
    if no_pe {
        c.eval(&format!("{name} unsupported"));
        c.saw("unsupported", &format!("{name} by {}", auth_name(kind)));
        if built.is_ok() {
            c.violate(format!("unsupported:{name}"), format!("{desc}: built although program-exec roles have no such instruction"));
        }
        return;
    }
    let mut mine = vec![];
    for (i, base) in bases.iter().enumerate() {
        let t = if main {
            let counter = cred.odo.wrapping_add(1 + i as u32);
            main_proof_opt(base, &cred, &SigOpts { slot, counter, prefix: vec![], webauthn: None, pre: Some(pre_data.clone()) })
        } else {
            session_proof(base, cred.sess)
        };
        mine.extend(t.ixs);
    }
    let theirs = match built {
        Ok(v) => v,
        Err(e) => {
            c.log(desc.clone());
            c.violate(format!("build:{name}:{}", auth_name(kind)), format!("{desc} by {:?}: the builder failed: {e}", cred));
            return;
        }
    };
    let theirs: Vec<Ix> = theirs.iter().map(to_ix).collect();
    let label = format!("{name}:{}", auth_name(kind));
    same(c, &mut w.s, Box::leak(label.into_boxed_str()), &desc, &mine, &theirs, &sig);
}
pub fn norm_perm(a: &Act) -> Option<swig_sdk::types::Permission> {
    perms::norm(a).and_then(|a| perms::perm(&a))
}
/// inner instructions whose accounts differ from each other, so that no
/// account has other rights in one than in the next
pub fn apart(c: &mut Case, s: &mut Sim, who: Key) -> Vec<Ix> {
    let mut v = vec![];
    for _ in 0..1 + c.rng.below(4) {
        let d = c.rng.key();
        s.ch.fund(d, 1_000_000_000);
        v.push(inner(c, s, who, d).remove(0));
    }
    v
}
