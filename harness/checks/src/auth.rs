//! Attacks on authentication: every legal instruction is also attempted with
//! proofs that must not count.
use crate::enc::*;
use crate::hist::*;
use crate::model::*;
use crate::plan::*;
use crate::report::*;
use crate::util::*;
use crate::world::*;
use rt::crypto::*;
use rt::*;

pub struct Bad {
    pub tx: Tx,
    pub why: String,
}

// ------------------------------------------------------------ secp256r1
/// what the authenticator signs and what the client passes along
#[derive(Clone)]
pub struct Assertion {
    /// appended to the authority payload
    pub extra: Vec<u8>,
    /// the signed message
    pub msg: Vec<u8>,
    pub name: String,
}
pub struct R1Parts {
    pub ix: Ix,
    pub off: usize,
    pub hash: [u8; 32],
}
/// the wallet instruction of an r1 role up to the fixed part of its proof
pub fn r1_parts(b: &Base, slot: u64, counter: u32) -> R1Parts {
    let mut ix = Ix { program: swig_id(), accounts: b.metas.clone(), data: b.data.clone() };
    let off = b.data.len();
    let idx = add_ro(&mut ix, ixs_sysvar_id());
    let accts = accts_bytes(&merged(&[ix.clone()], 0));
    let hash = r1_hash(&b.payload, &accts, slot, counter);
    ix.data.extend_from_slice(&slot.to_le_bytes());
    ix.data.extend_from_slice(&counter.to_le_bytes());
    ix.data.push(idx);
    ix.data.extend_from_slice(&[0; 4]);
    R1Parts { ix, off, hash }
}
pub fn r1_finish(p: &R1Parts, pk: &[u8; 33], a: &Assertion) -> Tx {
    let mut ix = p.ix.clone();
    ix.data.extend_from_slice(&a.extra);
    let sig = r1_sign(pk, &a.msg);
    Tx { ixs: vec![r1_ix(pk, &sig, &a.msg), ix], at: 1, auth_off: p.off }
}
fn raw_assertion(auth_data: &[u8], json: &str, name: &str) -> Assertion {
    let mut extra = 2u16.to_le_bytes().to_vec();
    extra.extend_from_slice(&(auth_data.len() as u16).to_le_bytes());
    extra.extend_from_slice(auth_data);
    extra.extend_from_slice(&(json.len() as u16).to_le_bytes());
    extra.extend_from_slice(json.as_bytes());
    Assertion { extra, msg: [auth_data, &sha256(&[json.as_bytes()])[..]].concat(), name: name.into() }
}
const ORIGINS: [&str; 6] = [
    "https://example.com",
    "https://wallet.example.org:8443",
    "android:apk-key-hash:Zm9vYmFyMTIz",
    "http://localhost:3000",
    "https://xn--bcher-kva.example",
    "a",
];
/// a well-formed assertion for this challenge
pub fn good_assertion(c: &mut Case, hash: &[u8; 32]) -> Assertion {
    match c.rng.below(5) {
        0 => Assertion { extra: vec![], msg: hash.to_vec(), name: "direct".into() },
        1 | 2 => {
            let n = *c.rng.pick(&[37usize, 37, 37, 69, 120, 195]);
            let ad = c.rng.bytes(n);
            let j = good_json(c, &b64url(hash));
            raw_assertion(&ad, &j, "raw client data")
        }
        _ => {
            let n = *c.rng.pick(&[37usize, 37, 37, 69, 120, 195]);
            let ad = c.rng.bytes(n);
            let origin = *c.rng.pick(&ORIGINS);
            let order = good_order(c);
            huff_assertion(c, &ad, &order, origin, origin, hash, "rebuilt client data")
        }
    }
}
fn good_json(c: &mut Case, ch: &str) -> String {
    let sp = |c: &mut Case| if c.rng.chance(1, 6) { " " } else { "" };
    let mut f: Vec<String> = vec![];
    for (k, v) in [("type", "\"webauthn.get\"".to_string()), ("challenge", format!("\"{}\"", ch)), ("origin", format!("\"{}\"", *c.rng.pick(&ORIGINS)))] {
        let (a, b) = (sp(c), sp(c));
        f.push(format!("\"{}\"{}:{}{}", k, a, b, v));
    }
    if c.rng.bool() {
        f.push(format!("\"crossOrigin\":{}", if c.rng.bool() { "true" } else { "false" }));
    }
    if c.rng.chance(1, 3) {
        f.push("\"topOrigin\":\"https://top.example\"".into());
    }
    if c.rng.chance(1, 3) {
        f.push("\"tokenBinding\":{\"status\":\"supported\"}".into());
    }
    if c.rng.chance(1, 3) {
        f.push("\"other_keys_can_be_added_here\":\"do not compare clientDataJSON against a template. See {https://goo.gl/yabPex}\"".into());
    }
    if c.rng.chance(1, 5) {
        f.push(format!("\"n\":{}", c.rng.below(1000)));
    }
    if c.rng.bool() {
        c.rng.shuffle(&mut f);
    }
    let pre = if c.rng.chance(1, 8) { "\n " } else { "" };
    format!("{}{{{}}}", pre, f.join(if c.rng.chance(1, 6) { ", " } else { "," }))
}
fn good_order(c: &mut Case) -> [u8; 4] {
    let mut o = *c.rng.pick(&[[1u8, 2, 3, 4], [1, 2, 3, 0], [1, 2, 0, 0], [1, 2, 4, 0], [1, 2, 4, 3]]);
    if c.rng.chance(2, 3) {
        c.rng.shuffle(&mut o);
    }
    o
}
fn order_json(order: &[u8], ch: &str, origin: &str, ty: &str) -> String {
    let f: Vec<String> = order
        .iter()
        .filter_map(|k| match k {
            1 => Some(format!("\"type\":\"{}\"", ty)),
            2 => Some(format!("\"challenge\":\"{}\"", ch)),
            3 => Some(format!("\"origin\":\"{}\"", origin)),
            4 => Some("\"crossOrigin\":false".into()),
            _ => None,
        })
        .collect();
    format!("{{{}}}", f.join(","))
}
/// tree and bits of an origin
fn huffman(c: &mut Case, s: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut chars: Vec<u8> = s.to_vec();
    chars.sort();
    chars.dedup();
    if chars.len() < 2 {
        for x in [b'x', b'y'] {
            if !chars.contains(&x) {
                chars.push(x);
            }
        }
    }
    c.rng.shuffle(&mut chars);
    let mut nodes: Vec<[u8; 3]> = chars.iter().map(|x| [0, *x, 0]).collect();
    let mut codes: Vec<(usize, Vec<u8>)> = vec![];
    let mut open: Vec<usize> = (0..nodes.len()).collect();
    let mut kids: Vec<Option<(usize, usize)>> = vec![None; nodes.len()];
    while open.len() > 1 {
        let i = c.rng.below(open.len());
        let a = open.swap_remove(i);
        let i = c.rng.below(open.len());
        let b = open.swap_remove(i);
        nodes.push([1, a as u8, b as u8]);
        kids.push(Some((a, b)));
        open.push(nodes.len() - 1);
    }
    let mut stack = vec![(nodes.len() - 1, vec![])];
    while let Some((n, code)) = stack.pop() {
        match kids[n] {
            Some((a, b)) => {
                stack.push((a, [code.clone(), vec![0]].concat()));
                stack.push((b, [code, vec![1]].concat()));
            }
            None => codes.push((n, code)),
        }
    }
    let mut bits: Vec<u8> = vec![];
    for x in s {
        let n = chars.iter().position(|y| y == x).unwrap();
        bits.extend_from_slice(&codes.iter().find(|k| k.0 == n).unwrap().1);
    }
    let mut enc = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        enc[i / 8] |= b << (7 - i % 8);
    }
    (nodes.concat(), enc)
}
fn huff_assertion(c: &mut Case, ad: &[u8], order: &[u8; 4], origin: &str, signed_origin: &str, hash: &[u8; 32], name: &str) -> Assertion {
    let (tree, enc) = huffman(c, origin.as_bytes());
    let mut e = 1u16.to_le_bytes().to_vec();
    e.extend_from_slice(&(ad.len() as u16).to_le_bytes());
    e.extend_from_slice(ad);
    e.extend_from_slice(order);
    e.extend_from_slice(&(origin.len() as u16).to_le_bytes());
    e.extend_from_slice(&(tree.len() as u16).to_le_bytes());
    e.extend_from_slice(&(enc.len() as u16).to_le_bytes());
    e.extend_from_slice(&tree);
    e.extend_from_slice(&enc);
    let json = order_json(order, &b64url(hash), signed_origin, "webauthn.get");
    Assertion { extra: e, msg: [ad, &sha256(&[json.as_bytes()])[..]].concat(), name: name.into() }
}
/// an assertion that must not count for this challenge
fn bad_assertion(c: &mut Case, hash: &[u8; 32]) -> Assertion {
    let n = *c.rng.pick(&[37usize, 37, 69, 100]);
    let ad = c.rng.bytes(n);
    let ch = b64url(hash);
    let mut other = *hash;
    other[c.rng.below(32)] ^= 1 << c.rng.below(8);
    let raw = |ty: &str, ch: &str| format!("{{\"type\":\"{}\",\"challenge\":\"{}\",\"origin\":\"https://example.com\",\"crossOrigin\":false}}", ty, ch);
    match c.rng.below(29) {
        0 => {
            let ty = *c.rng.pick(&["webauthn.create", "payment.get", "webauthn.ge", "webauthn.gett", "", "WEBAUTHN.GET", "webauthn.get "]);
            raw_assertion(&ad, &raw(ty, &ch), "an assertion of another type")
        }
        1 => raw_assertion(&ad, &raw("webauthn.get", &b64url(&other)), "another challenge"),
        2 => raw_assertion(&ad, &format!("{{\"type\":\"webauthn.get\",\"x\":{{\"challenge\":\"{}\"}},\"origin\":\"a\"}}", ch), "a nested challenge"),
        3 => raw_assertion(&ad, &raw("webauthn.get", &format!("{}=", ch)), "a padded challenge"),
        4 => raw_assertion(&ad, &raw("webauthn.get", &ch[..42]), "a shortened challenge"),
        5 => raw_assertion(&ad, &raw("webauthn.get", &format!("{}A", ch)), "a longer challenge"),
        6 => {
            let mut a = raw_assertion(&ad, &raw("webauthn.get", &ch), "other authenticator data");
            a.msg[c.rng.below(n)] ^= 1;
            a
        }
        7 => {
            let j = raw("webauthn.get", &ch);
            let mut a = raw_assertion(&ad, &j, "client data that was not signed");
            let k = raw("webauthn.get", &b64url(&other));
            a.msg = [&ad[..], &sha256(&[k.as_bytes()])].concat();
            a
        }
        8 => {
            let mut a = raw_assertion(&ad, &raw("webauthn.get", &ch), "an unknown assertion kind");
            let k = *c.rng.pick(&[0u16, 3, 4, 0x0102, 0x0200, u16::MAX]);
            a.extra[..2].copy_from_slice(&k.to_le_bytes());
            a
        }
        9 => {
            let mut a = raw_assertion(&ad, &raw("webauthn.get", &ch), "trailing bytes");
            a.extra.push(b' ');
            a
        }
        10 => {
            let j = raw("webauthn.get", &ch);
            let mut a = raw_assertion(&ad, &j, "a wrong client data length");
            let l = a.extra.len() - j.len() - 2;
            let d = *c.rng.pick(&[0usize, 1, j.len() - 1, j.len() + 1, 0xffff]);
            a.extra[l..l + 2].copy_from_slice(&(d as u16).to_le_bytes());
            a
        }
        11 => raw_assertion(&ad, &format!("{{\"challenge\":\"{}\",\"origin\":\"https://example.com\"}}", ch), "no type"),
        12 => raw_assertion(&ad, &format!("{{\"challenge\":\"{}\",\"x\":{{\"type\":\"webauthn.get\"}}}}", ch), "a nested type"),
        13 => raw_assertion(&ad, &raw("webauthn.get", &ch).replace("challenge", "challengf"), "no challenge"),
        14 => raw_assertion(&ad, &format!("{{\"type\":\"webauthn.get\",\"x\":\"challenge\",\"y\":\"{}\"}}", ch), "the challenge as another field"),
        15 => {
            let mut o = good_order(c);
            let why = match c.rng.below(4) {
                0 => {
                    o = [1, 3, 4, 0];
                    "no challenge field"
                }
                1 => {
                    o = [2, 3, 4, 0];
                    "no type field"
                }
                2 => {
                    o = [1, 2, 2, 3];
                    "two challenge fields"
                }
                _ => {
                    o[c.rng.below(4)] = 5 + c.rng.below(250) as u8;
                    "an unknown field"
                }
            };
            huff_assertion(c, &ad, &o, "https://example.com", "https://example.com", hash, why)
        }
        16 => huff_assertion(c, &ad, &[1, 2, 3, 4], "https://example.com", "https://example.net", hash, "another origin than the signed one"),
        17 => huff_assertion(c, &ad, &[1, 2, 3, 4], "https://example.com", "https://example.com", &other, "another challenge (rebuilt)"),
        18 => {
            // signed as another type
            let mut a = huff_assertion(c, &ad, &[1, 2, 3, 4], "https://example.com", "https://example.com", hash, "an assertion of another type (rebuilt)");
            let j = order_json(&[1, 2, 3, 4], &ch, "https://example.com", "webauthn.create");
            a.msg = [&ad[..], &sha256(&[j.as_bytes()])].concat();
            a
        }
        19 => {
            let mut a = huff_assertion(c, &ad, &[1, 2, 3, 4], "https://example.com", "https://example.com", hash, "a cut assertion");
            let k = 1 + c.rng.below(a.extra.len() - 2);
            a.extra.truncate(a.extra.len() - k);
            if a.extra.is_empty() {
                a.extra = vec![1];
            }
            a
        }
        20 => {
            let mut a = huff_assertion(c, &ad, &[1, 2, 3, 4], "https://example.com", "https://example.com", hash, "a signature over the challenge itself with an assertion");
            a.msg = hash.to_vec();
            a
        }
        21 => {
            let mut a = raw_assertion(&ad, &raw("webauthn.get", &ch), "an assertion without its data");
            a.extra = vec![];
            a
        }
        22 => {
            let mut a = raw_assertion(&ad, &raw("webauthn.get", &ch), "an assertion whose message has no client data hash");
            a.msg = ad.clone();
            a
        }
        23 => {
            let mut a = huff_assertion(c, &ad, &[1, 2, 3, 4], "https://example.com", "https://example.com", hash, "other authenticator data (rebuilt)");
            a.msg[c.rng.below(n)] ^= 0x80;
            a
        }
        24 => {
            let big = c.rng.bytes(*c.rng.clone().pick(&[196usize, 200, 228, 400]));
            raw_assertion(&big, &raw("webauthn.get", &ch), "oversized authenticator data")
        }
        25 | 26 => {
            let j = raw("webauthn.get", &ch);
            let (mut j, why) = match c.rng.below(6) {
                0 => (j.replacen("\"type\":", *c.rng.pick(&["\"type\"", "\"type\" ", "\"type\";", "\"type\"="]), 1), "no colon after a field's name"),
                1 => (j.replacen("\"challenge\":", *c.rng.pick(&["\"challenge\"", "\"challenge\" ", "\"challenge\";", "\"challenge\","]), 1), "no colon after a field's name"),
                2 => (j[1..].to_string(), "no opening brace"),
                3 => (j.replacen("\"type\"", "type", 1), "a field's name without quotes"),
                4 => (j.replacen(&format!("\"{ch}\""), &ch, 1), "a challenge without quotes"),
                _ => (j.replacen("\"webauthn.get\"", "webauthn.get", 1), "a type without quotes"),
            };
            if c.rng.chance(1, 4) {
                j = j.replace(",\"origin", " ,\n\"origin");
            }
            raw_assertion(&ad, &j, why)
        }
        27 => {
            let pad = "x".repeat(1024);
            raw_assertion(&ad, &format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{}\",\"p\":\"{}\"}}", ch, pad), "oversized client data")
        }
        _ => {
            let j = format!("[{}]", raw("webauthn.get", &ch));
            raw_assertion(&ad, &j, "client data that is not an object")
        }
    }
}
/// variations around the verification instruction
fn bad_precompile(c: &mut Case, s: &Sim, p: &R1Parts, pk: &[u8; 33]) -> Bad {
    let msg = p.hash.to_vec();
    let sig = r1_sign(pk, &msg);
    let other = r1_pub(&c.rng.key());
    let mut om = msg.clone();
    om[c.rng.below(32)] ^= 1 << c.rng.below(8);
    let good = r1_ix(pk, &sig, &msg);
    let memo = Ix { program: s.pe, accounts: vec![], data: vec![1] };
    let sw = p.ix.clone();
    let lead = lead(c, s);
    let from = lead.len() as u16;
    let mk = |ixs: Vec<Ix>, at: usize, why: &str| Bad { tx: Tx { ixs: [lead.clone(), ixs].concat(), at: at + lead.len(), auth_off: p.off }, why: why.into() };
    let set = |d: &mut Vec<u8>, field: usize, v: u16| d[2 + 2 * field..4 + 2 * field].copy_from_slice(&v.to_le_bytes());
    match c.rng.below(16) {
        0 => mk(vec![sw], 0, "no verification"),
        1 => mk(vec![sw, good], 0, "verification afterwards"),
        2 => {
            let k = 1 + c.rng.below(3);
            let mut v = vec![good];
            v.extend(vec![memo; k]);
            v.push(sw);
            mk(v, k + 1, "verification not right before")
        }
        3 => mk(vec![r1_ix(&other, &r1_sign(&other, &msg), &msg), sw], 1, "another key"),
        4 => mk(vec![r1_ix(pk, &r1_sign(pk, &om), &om), sw], 1, "another message"),
        5 => {
            let n = *c.rng.pick(&[0usize, 31, 33, 64]);
            let mut m = msg.clone();
            m.resize(n, 0);
            mk(vec![r1_ix(pk, &r1_sign(pk, &m), &m), sw], 1, "a message of another length")
        }
        6 => {
            // two verifications of which the first is foreign
            let mut ix = good;
            let mut d = vec![2u8, 0];
            d.extend_from_slice(&ix.data[2..16]);
            d.extend_from_slice(&ix.data[2..16]);
            d.extend_from_slice(&ix.data[16..]);
            for k in 0..2 {
                for f in [0usize, 2, 4] {
                    let at = 2 + 14 * k + 2 * f;
                    let v = le16(&d[at..]) + 14;
                    d[at..at + 2].copy_from_slice(&v.to_le_bytes());
                }
            }
            ix.data = d;
            mk(vec![ix, sw], 1, "two verifications")
        }
        7 => {
            // the role's key is on display, another one is verified
            let mut ix = r1_ix(pk, &r1_sign(&other, &msg), &msg);
            let at = ix.data.len() as u16;
            ix.data.extend_from_slice(&other);
            set(&mut ix.data, 2, at);
            mk(vec![ix, sw], 1, "a displaced public key")
        }
        8 => {
            let mut ix = r1_ix(pk, &r1_sign(pk, &om), &msg);
            let at = ix.data.len() as u16;
            ix.data.extend_from_slice(&om);
            set(&mut ix.data, 4, at);
            mk(vec![ix, sw], 1, "a displaced message")
        }
        9 => {
            // everything verified lives in another instruction
            let real = r1_ix(&other, &r1_sign(&other, &om), &om);
            let mut ix = r1_ix(pk, &sig, &msg);
            let which = *c.rng.pick(&[7usize, 2, 4, 6]);
            // the verified triple comes from instruction 0
            for f in [1usize, 3, 6] {
                if which == 7 || f == 3 || f == 6 || which == f {
                    set(&mut ix.data, f, from);
                }
            }
            set(&mut ix.data, 1, from);
            mk(vec![real, ix, sw], 2, "verified data of another instruction")
        }
        10 | 11 => {
            // another key's or another message's signature, with what it
            // verifies taken from another instruction
            let key = c.rng.bool();
            let sg = if key { r1_sign(&other, &msg) } else { r1_sign(pk, &om) };
            let mut ix = r1_ix(pk, &sg, &msg);
            let real = if key { r1_ix(&other, &sg, &msg) } else { r1_ix(pk, &sg, &om) };
            set(&mut ix.data, if key { 3 } else { 6 }, from);
            for f in [1usize, 3, 6] {
                if c.rng.chance(1, 3) {
                    set(&mut ix.data, f, from);
                }
            }
            let (ixs, at) = if c.rng.bool() {
                (vec![real, ix, sw], 2)
            } else {
                // the other instruction comes later
                for f in [1usize, 3, 6] {
                    if le16(&ix.data[2 + 2 * f..]) == from as u16 {
                        set(&mut ix.data, f, from + 2);
                    }
                }
                (vec![ix, sw, real], 1)
            };
            mk(ixs, at, if key { "a public key of another instruction" } else { "a message of another instruction" })
        }
        12 => {
            let mut ix = good;
            ix.program = s.pe;
            mk(vec![ix, sw], 1, "another program's instruction")
        }
        13 => {
            // another account in place of the sysvar
            let mut sw = sw;
            let at = p.off + 12;
            sw.data[at] = *c.rng.pick(&[0u8, 1, 2, 200, 255]);
            if sw.accounts.get(sw.data[at] as usize).map_or(false, |m| m.key == ixs_sysvar_id()) {
                sw.data[at] = 200;
            }
            mk(vec![good, sw], 1, "another account as the instructions sysvar")
        }
        14 => {
            let mut ix = good;
            set(&mut ix.data, 5, *c.rng.pick(&[0u16, 1, 16, 31]));
            let n = le16(&ix.data[12..]) as usize;
            let m = msg[..n].to_vec();
            ix.data[49..113].copy_from_slice(&r1_sign(pk, &m));
            mk(vec![ix, sw], 1, "a verified part of the message")
        }
        _ => {
            let mut ix = good;
            let n = c.rng.below(110);
            ix.data.truncate(n);
            // the precompile itself refuses; a data-only stand-in does not
            ix.program = if c.rng.bool() { s.pe } else { r1_id() };
            mk(vec![ix, sw], 1, "a cut verification")
        }
    }
}

/// unrelated instructions at the start of a transaction
fn lead(c: &mut Case, s: &Sim) -> Vec<Ix> {
    let n = if c.rng.bool() { 0 } else { 1 + c.rng.below(4) };
    vec![Ix { program: s.pe, accounts: vec![], data: vec![7] }; n]
}
/// the same transaction between unrelated instructions
fn surround(c: &mut Case, s: &Sim, t: &mut Tx) {
    let l = lead(c, s);
    t.at += l.len();
    t.ixs.splice(0..0, l);
    t.ixs.extend(lead(c, s));
}
// ---------------------------------------------------------- program exec
fn bad_exec(c: &mut Case, s: &mut Sim, p: &Plan, cr: &Cred) -> Bad {
    let good = proof_of(s, p);
    let pre = good.ixs[0].clone();
    let sw = good.ixs[1].clone();
    let off = good.auth_off;
    let memo = Ix { program: s.payer, accounts: vec![], data: vec![] };
    let noise = Ix { program: s.pe, accounts: vec![r(c.rng.key()), r(c.rng.key()), r(c.rng.key())], data: vec![0, 0] };
    let _ = memo;
    let lead = lead(c, s);
    let from = lead.len() as u8;
    let mk = |ixs: Vec<Ix>, at: usize, why: &str| Bad { tx: Tx { ixs: [lead.clone(), ixs].concat(), at: at + lead.len(), auth_off: off }, why: why.into() };
    let which = c.rng.below(18);
    // the same faults in an instruction named by its position
    let mut sw = sw;
    if (3..=10).contains(&which) && c.rng.chance(1, 3) {
        sw.data.push(from);
        if p.op == Op::Remove {
            sw.data[2..4].copy_from_slice(&2u16.to_le_bytes());
        }
    }
    match which {
        0 => mk(vec![sw], 0, "no preceding instruction"),
        1 => mk(vec![sw, pre], 0, "the instruction afterwards"),
        2 => mk(vec![pre, noise, sw], 2, "the instruction not right before"),
        3 => {
            let k = c.rng.key();
            s.ch.add_program(k, Prog::Memo);
            let mut q = pre;
            q.program = k;
            mk(vec![q, sw], 1, "another program")
        }
        4 => {
            let mut q = pre;
            let n = cr.prefix.len();
            let i = c.rng.below(n);
            q.data[i] ^= 1 << c.rng.below(8);
            mk(vec![q, sw], 1, "another prefix")
        }
        5 => {
            let mut q = pre;
            let n = c.rng.below(cr.prefix.len());
            q.data.truncate(n);
            mk(vec![q, sw], 1, "a shortened prefix")
        }
        6 => {
            let mut q = pre;
            q.accounts.swap(0, 1);
            if q.accounts[0].key == q.accounts[1].key {
                q.accounts[0].key = c.rng.key();
            }
            mk(vec![q, sw], 1, "swapped accounts")
        }
        7 => {
            let mut q = pre;
            q.accounts[0].key = c.rng.key();
            mk(vec![q, sw], 1, "another config account")
        }
        8 => {
            let mut q = pre;
            q.accounts[1].key = c.rng.key();
            mk(vec![q, sw], 1, "another second account")
        }
        9 => {
            let mut q = pre;
            q.accounts.truncate(c.rng.below(2));
            mk(vec![q, sw], 1, "too few accounts")
        }
        10 => {
            let mut q = pre;
            q.accounts.insert(0, r(c.rng.key()));
            mk(vec![q, sw], 1, "shifted accounts")
        }
        11 => {
            // the named position is not the instruction
            let mut sw = sw;
            sw.data.push(from + 1);
            mk(vec![pre, noise, sw], 2, "another position")
        }
        12 => {
            let mut sw = sw;
            sw.data.push(*c.rng.pick(&[from + 1, from + 2, from + 3, 255]));
            mk(vec![pre, sw], 1, "its own or a later position")
        }
        13 => {
            let mut sw = sw;
            sw.data.push(from + 2);
            mk(vec![noise, sw, pre], 1, "a later instruction by position")
        }
        14 => {
            let mut sw = sw;
            sw.data.push(from);
            sw.data.push(from);
            mk(vec![pre, sw], 1, "an overlong proof")
        }
        15 => {
            let mut sw = sw;
            let at = off;
            sw.data[at] = *c.rng.pick(&[0u8, 1, 2, 100, 255]);
            if sw.accounts.get(sw.data[at] as usize).map_or(false, |m| m.key == ixs_sysvar_id()) {
                sw.data[at] = 100;
            }
            mk(vec![pre, sw], 1, "another account as the instructions sysvar")
        }
        16 if p.op == Op::Replace && cr.kind == PE => {
            // names exactly the replacement
            let mut q = pre;
            let n = 1 + c.rng.below(40);
            let x = c.rng.bytes(n);
            q.data.extend_from_slice(&x);
            mk(vec![q, sw], 1, "an overlong replacement proof")
        }
        _ => {
            // a look-alike sysvar account
            let mut sw = sw;
            let k = c.rng.key();
            let fake = fake_sysvar(&pre, &sw);
            s.ch.accts.insert(k, Acct { lamports: 10_000_000, data: fake, owner: s.pe, executable: false });
            let at = sw.data[off] as usize;
            if sw.accounts[at].key == ixs_sysvar_id() {
                sw.accounts[at].key = k;
            }
            mk(vec![noise, sw], 1, "a forged instructions sysvar")
        }
    }
}
/// serialized like the instructions sysvar, saying that `pre` came before
fn fake_sysvar(pre: &Ix, sw: &Ix) -> Vec<u8> {
    let mut d = 2u16.to_le_bytes().to_vec();
    d.extend_from_slice(&[0; 4]);
    for (i, ix) in [pre, sw].iter().enumerate() {
        let o = d.len() as u16;
        d[2 + 2 * i..4 + 2 * i].copy_from_slice(&o.to_le_bytes());
        d.extend_from_slice(&(ix.accounts.len() as u16).to_le_bytes());
        for m in &ix.accounts {
            d.push(m.signer as u8 | (m.writable as u8) << 1);
            d.extend_from_slice(&m.key);
        }
        d.extend_from_slice(&ix.program);
        d.extend_from_slice(&(ix.data.len() as u16).to_le_bytes());
        d.extend_from_slice(&ix.data);
    }
    d.extend_from_slice(&1u16.to_le_bytes());
    d
}

// --------------------------------------------------------------- general
fn unsign(ix: &mut Ix, k: &Key) {
    for m in ix.accounts.iter_mut() {
        if m.key == *k {
            m.signer = false;
        }
    }
}
fn general(c: &mut Case, s: &Sim, p: &Plan, cr: &Cred, main: bool) -> Option<Bad> {
    let good = proof_of(s, p);
    let off = good.auth_off;
    let mk = |tx: Tx, why: &str| Some(Bad { tx, why: why.into() });
    match c.rng.below(12) {
        0 => {
            let mut t = good;
            t.ixs[t.at].data.truncate(off);
            mk(t, "no proof")
        }
        1 => {
            // somebody else of the wallet
            let o: Vec<Cred> = s.wl.roles.iter().filter(|r| r.id != p.acting).map(|r| r.cred.clone()).collect();
            if o.is_empty() {
                return None;
            }
            let o = c.rng.pick(&o).clone();
            let same = o.kind == cr.kind && o.ident() == cr.ident();
            let lax = matches!(o.kind, PE | PES) && matches!(cr.kind, PE | PES);
            if same || lax || (o.session() && o.sess == cr.sess) {
                return None;
            }
            if o.session() && c.rng.bool() {
                return mk(session_proof(&p.base, o.sess), "another role's session key");
            }
            mk(main_proof(s.ch.slot, &p.base, &o), "another role's credential")
        }
        2 => {
            let mut o = Cred::new(if matches!(cr.kind, PE | PES) { ED } else { cr.kind }, &mut c.rng, &s.pe);
            o.odo = cr.odo;
            mk(main_proof(s.ch.slot, &p.base, &o), "a stranger's credential")
        }
        3 => mk(session_proof(&p.base, c.rng.key()), "a stranger's signature"),
        4 if cr.session() && !main => mk(main_proof(s.ch.slot, &p.base, cr), "the main credential in place of the session key"),
        4 if cr.session() && main && cr.live(s.ch.slot) && cr.sess != [0; 32] => mk(session_proof(&p.base, cr.sess), "the session key in place of the main credential"),
        4 if cr.kind == ED => {
            let mut t = good;
            let at = t.at;
            unsign(&mut t.ixs[at], &cr.ed);
            mk(t, "the key without its signature")
        }
        5 if cr.session() && !main => {
            let mut t = good;
            let at = t.at;
            unsign(&mut t.ixs[at], &cr.sess);
            mk(t, "the session key without its signature")
        }
        5 | 6 if cr.kind == ED || (cr.session() && !main) => {
            let key = if cr.kind == ED { cr.ed } else { cr.sess };
            let mut t = good;
            let at = t.at;
            let n = t.ixs[at].accounts.len();
            let i = *c.rng.pick(&[0usize, 1, 2, n - 1, n, 255]);
            if t.ixs[at].accounts.get(i).map_or(false, |m| m.key == key) {
                return None;
            }
            t.ixs[at].data[off] = i as u8;
            mk(t, "the index of another account")
        }
        7 if cr.session() && !main => {
            // an expired session, just by a slot or by far
            None
        }
        8 => {
            // only the payer signs, with a long empty proof
            let mut t = good;
            let at = t.at;
            t.ixs[at].data.truncate(off);
            let n = *c.rng.pick(&[1usize, 2, 17, 77, 78]);
            let i = t.ixs[at].accounts.iter().position(|m| m.signer && m.key != cr.ed && (main || m.key != cr.sess));
            let i = i.unwrap_or(0) as u8;
            t.ixs[at].data.extend_from_slice(&vec![i; n]);
            if t.ixs[at].accounts.get(i as usize).map_or(false, |m| m.key == ixs_sysvar_id() || m.key == cr.ed || m.key == cr.sess) {
                return None;
            }
            mk(t, "an index-only proof")
        }
        _ => None,
    }
}
/// changes to what a secp signature covers
fn covered(c: &mut Case, s: &Sim, p: &Plan, cr: &Cred) -> Option<Bad> {
    let mut t = proof_of(s, p);
    let at = t.at;
    let off = t.auth_off;
    let mk = |tx: Tx, why: &str| Some(Bad { tx, why: why.into() });
    let k1 = matches!(cr.kind, K1T | K1S);
    let n = t.ixs[at].accounts.len();
    match c.rng.below(12) {
        0 | 1 => {
            let i = c.rng.below(off);
            if p.op == Op::Sub1Sign && (8..16).contains(&i) {
                return None;
            }
            t.ixs[at].data[i] ^= 1 << c.rng.below(8);
            mk(t, if i < off - p.base.payload.len().min(off) { "changed arguments" } else { "changed payload" })
        }
        2 => {
            let k = c.rng.key();
            t.ixs[at].accounts.push(r(k));
            mk(t, "an added account")
        }
        3 => {
            let k = t.ixs[at].accounts[n - 1].key;
            if k == ixs_sysvar_id() {
                return None;
            }
            t.ixs[at].accounts.pop();
            mk(t, "a removed account")
        }
        4 => {
            let i = c.rng.below(n);
            let j = c.rng.below(n);
            let (a, b) = (t.ixs[at].accounts[i], t.ixs[at].accounts[j]);
            if a.key == b.key {
                return None;
            }
            t.ixs[at].accounts.swap(i, j);
            mk(t, "reordered accounts")
        }
        5 => {
            let i = c.rng.below(n);
            let before = merged(&t.ixs, at);
            let m = &mut t.ixs[at].accounts[i];
            m.writable = !m.writable;
            if merged(&t.ixs, at).iter().zip(before.iter()).all(|(a, b)| a.writable == b.writable) {
                return None;
            }
            mk(t, "a changed writable flag")
        }
        6 => {
            let i = c.rng.below(n);
            let before = merged(&t.ixs, at);
            let m = &mut t.ixs[at].accounts[i];
            if m.key == ixs_sysvar_id() || m.key == SYSTEM || m.key == swig_id() || s.ch.get(&m.key).executable {
                return None;
            }
            m.signer = !m.signer;
            if merged(&t.ixs, at).iter().zip(before.iter()).all(|(a, b)| a.signer == b.signer) {
                return None;
            }
            mk(t, "a changed signer flag")
        }
        7 => {
            let i = c.rng.below(n);
            if t.ixs[at].accounts[i].key == ixs_sysvar_id() {
                return None;
            }
            t.ixs[at].accounts[i].key = c.rng.key();
            mk(t, "a replaced account")
        }
        8 => {
            let i = off + c.rng.below(12);
            t.ixs[at].data[i] ^= 1 << c.rng.below(8);
            mk(t, "a changed slot or counter")
        }
        9 if k1 && c.rng.bool() => {
            let a = off + 12;
            let mut sig: [u8; 65] = t.ixs[at].data[a..a + 65].try_into().unwrap();
            let high = sig[64] >= 27;
            sig[64] -= if high { 27 } else { 0 };
            let mut m = malleate(&sig);
            m[64] += if high { 27 } else { 0 };
            t.ixs[at].data[a..a + 65].copy_from_slice(&m);
            mk(t, "the high-s twin of the signature")
        }
        9 if k1 => {
            let i = off + 12 + c.rng.below(64);
            t.ixs[at].data[i] ^= 1 << c.rng.below(8);
            mk(t, "a changed signature")
        }
        10 if k1 => {
            let k = 1 + c.rng.below(12);
            t.ixs[at].data.extend_from_slice(&vec![b'x'; k]);
            mk(t, "an added signing prefix")
        }
        11 if k1 => {
            let k = 1 + c.rng.below(70);
            let l = t.ixs[at].data.len();
            t.ixs[at].data.truncate(l - k);
            mk(t, "a cut signature")
        }
        _ => {
            // the same proof for another instruction
            None
        }
    }
}
/// the proof of one instruction presented with another one
fn transplant(c: &mut Case, s: &mut Sim, p: &Plan, cr: &Cred) -> Option<Bad> {
    for _ in 0..4 {
        let op = *c.rng.pick(&OPS);
        if matches!(op, Op::CloseSwig | Op::Migrate) {
            continue;
        }
        let w = Want { acting: Some(p.acting), permitted: true, ..Default::default() };
        let Some(q) = gen(c, s, op, &w) else { continue };
        if q.main != p.main || q.base.payload == p.base.payload || q.acting != p.acting {
            continue;
        }
        let tq = proof_of(s, &q);
        let mut tp = proof_of(s, p);
        let proof = tq.ixs[tq.at].data[tq.auth_off..].to_vec();
        let at = tp.at;
        tp.ixs[at].data.truncate(tp.auth_off);
        tp.ixs[at].data.extend_from_slice(&proof);
        if matches!(cr.kind, R1T | R1S) {
            tp.ixs[0] = tq.ixs[0].clone();
            // keep pointing at the sysvar
            let i = tp.ixs[at].accounts.iter().position(|m| m.key == ixs_sysvar_id()).unwrap() as u8;
            let o = tp.auth_off + 12;
            tp.ixs[at].data[o] = i;
        }
        return Some(Bad { tx: tp, why: "the proof of another instruction".into() });
    }
    None
}

/// one wallet, several legal instructions, many false proofs of each
pub fn attacks(c: &mut Case, kinds: &[u16], rounds: usize) {
    let h = Hist { kinds: kinds.to_vec(), roles: 3, claimer: 10, ..Hist::default() };
    let mut s = fixture(c, &h);
    for _ in 0..rounds {
        if c.dead {
            return;
        }
        if c.rng.chance(1, 4) {
            s.ch.slot += c.rng.range(1, 70);
        }
        let ids: Vec<u32> = s.wl.roles.iter().filter(|r| kinds.contains(&r.cred.kind)).map(|r| r.id).collect();
        if ids.is_empty() {
            return;
        }
        let acting = *c.rng.pick(&ids);
        let cr0 = s.cred(acting);
        let op = if cr0.session() && c.rng.chance(1, 3) { Op::Session } else { *c.rng.pick(&OPS) };
        if op != Op::Session && !ensure_live(c, &mut s, acting) {
            continue;
        }
        if c.dead {
            return;
        }
        let w = Want { acting: Some(acting), permitted: true, ..Default::default() };
        let Some(p) = gen(c, &mut s, op, &w) else { continue };
        if !p.bad.is_empty() || p.open {
            continue;
        }
        let cr = s.cred(acting);
        let main = p.main || !cr.session();
        let mut p = p;
        if c.rng.chance(1, 5) && !matches!(p.op, Op::Sub1Withdraw | Op::Sub1WithdrawTok | Op::Sub2Withdraw | Op::Sub2WithdrawTok | Op::CloseToken) {
            // a proof covers every account of a long list
            let n = c.rng.range(30, 62) as usize;
            while p.base.metas.len() < n {
                p.base.metas.push(r(c.rng.key()));
            }
            c.count("long_account_lists");
        }
        let r1 = main && matches!(cr.kind, R1T | R1S);
        let pe = main && matches!(cr.kind, PE | PES);
        let secp = main && cr.secp();
        let mut props: Vec<&str> = vec!["A01"];
        if r1 {
            props.push("R03");
        }
        if pe {
            props.push("R02");
        }
        if !main || cr.session() {
            props.push("A03");
        }
        // attempts prepare accounts of their own, which must not outlive them
        let kept = s.ch.clone();
        for _ in 0..10 {
            let slot = s.ch.slot;
            let b = match c.rng.below(8) {
                0 | 1 | 2 if r1 => {
                    let parts = r1_parts(&p.base, slot, cr.odo.wrapping_add(1));
                    if c.rng.bool() {
                        Some(bad_precompile(c, &s, &parts, &cr.pk33))
                    } else {
                        let a = bad_assertion(c, &parts.hash);
                        let mut t = r1_finish(&parts, &cr.pk33, &a);
                        surround(c, &s, &mut t);
                        Some(Bad { tx: t, why: a.name })
                    }
                }
                0 | 1 | 2 | 3 if pe => Some(bad_exec(c, &mut s, &p, &cr)),
                3 | 4 | 5 if secp => covered(c, &s, &p, &cr),
                6 if secp => transplant(c, &mut s, &p, &cr),
                _ => {
                    let mut b = general(c, &s, &p, &cr, main);
                    if let Some(b) = &mut b {
                        surround(c, &s, &mut b.tx);
                    }
                    b
                }
            };
            let Some(b) = b else { continue };
            // some other kind of proof may begin with the index of the key that signs
            let key = if cr.kind == ED { cr.ed } else { cr.sess };
            let ix = &b.tx.ixs[b.tx.at];
            let signs = |i: u8| ix.accounts.get(i as usize).map_or(false, |m| m.signer && m.key == key);
            if b.why.contains("credential") && (cr.kind == ED || (cr.session() && !main)) && ix.data.get(b.tx.auth_off).map_or(false, |i| signs(*i)) {
                continue;
            }
            let mut ch = s.ch.clone();
            for ix in &b.tx.ixs {
                for m in &ix.accounts {
                    if m.signer && !ch.exists(&m.key) {
                        ch.fund(m.key, 10_000_000);
                    }
                }
            }
            let before = ch.clone();
            let o = ch.exec(&b.tx.ixs);
            c.count("false_proofs");
            c.eval(&format!("{:?} {} {} {}", p.op, kind_name(cr.kind), main, b.why));
            if o.ok {
                c.log(format!("slot {} role {} {:?} {} with {}", slot, acting, cr, p.desc, b.why));
                let mut pr = props.clone();
                if b.why.contains("counter") || b.why.contains("twin") {
                    pr.push("A02");
                }
                c.diverge(&pr, format!("forged:{}:{}", kind_name(cr.kind), b.why.replace(' ', "-")), format!("{} by role {} accepted with {}", p.desc, acting, b.why));
                return;
            }
            if ch.accts != before.accts {
                c.diverge(&props, "forged:residue", "a refused transaction changed accounts");
                return;
            }
        }
        s.ch = kept;
        // an expired session is tried on a copy one slot late
        if cr.session() && !main {
            let mut ch = s.ch.clone();
            ch.slot = cr.exp + 1;
            let t = proof_of(&s, &p);
            for ix in &t.ixs {
                for m in &ix.accounts {
                    if m.signer && !ch.exists(&m.key) {
                        ch.fund(m.key, 10_000_000);
                    }
                }
            }
            if ch.exec(&t.ixs).ok {
                c.log(format!("role {} {:?} {}", acting, cr, p.desc));
                c.diverge(&props, "forged:expired-session", format!("{} accepted one slot after the session ended", p.desc));
                return;
            }
            c.count("expired_sessions_tried");
        }
        // and the true proof, in any of its forms, is accepted
        let mut p = p;
        for x in &props {
            p.props.push(x);
        }
        let slot = s.ch.slot;
        if r1 {
            let parts = r1_parts(&p.base, slot, cr.odo.wrapping_add(1));
            let a = good_assertion(c, &parts.hash);
            c.eval(&format!("{:?} {} good {}", p.op, kind_name(cr.kind), a.name));
            c.count(&format!("good_{}", a.name.replace(' ', "_")));
            let mut t = r1_finish(&parts, &cr.pk33, &a);
            surround(c, &s, &mut t);
            p.desc = format!("{} [{}]", p.desc, a.extra.escape_ascii());
            run_tx(c, &mut s, p, &t);
        } else if pe {
            let mut t = proof_of(&s, &p);
            let strict = p.op == Op::Replace && cr.kind == PE;
            let mut form = "right before";
            if !strict && c.rng.bool() {
                let extra = c.rng.bytes(5);
                t.ixs[0].data.extend_from_slice(&extra);
                t.ixs[0].accounts.push(r(c.rng.key()));
                form = "with more data and accounts";
            }
            if c.rng.bool() {
                let noise = Ix { program: s.pe, accounts: vec![], data: vec![0] };
                let k = c.rng.below(3);
                for _ in 0..k {
                    t.ixs.insert(1, noise.clone());
                    t.at += 1;
                }
                let j = c.rng.below(3);
                for _ in 0..j {
                    t.ixs.insert(0, noise.clone());
                    t.at += 1;
                }
                let at = t.at;
                t.ixs[at].data.push(j as u8);
                if p.op == Op::Remove {
                    // carries the length of its proof
                    t.ixs[at].data[2..4].copy_from_slice(&2u16.to_le_bytes());
                }
                form = "by position";
            }
            if form != "by position" {
                surround(c, &s, &mut t);
            }
            c.eval(&format!("{:?} {} good {}", p.op, kind_name(cr.kind), form));
            run_tx(c, &mut s, p, &t);
        } else if secp && matches!(cr.kind, K1T | K1S) && c.rng.bool() {
            let n = 1 + c.rng.below(30);
            let prefix = c.rng.bytes(n);
            let mut b = p.base.clone();
            if p.op == Op::Remove {
                b.data[2..4].copy_from_slice(&((77 + n) as u16).to_le_bytes());
                b.payload = b.data.clone();
            }
            let t = main_proof_opt(&b, &cr, &SigOpts { slot, counter: cr.odo.wrapping_add(1), prefix, webauthn: None, pre: None });
            c.eval(&format!("{:?} {} good with a signing prefix", p.op, kind_name(cr.kind)));
            if run_tx(c, &mut s, p, &t) && !c.dead {
                replay_malleated(c, &mut s, &t, acting);
            }
        } else {
            let mut t = proof_of(&s, &p);
            surround(c, &s, &mut t);
            c.eval(&format!("{:?} {} good", p.op, kind_name(cr.kind)));
            if run_tx(c, &mut s, p, &t) && !c.dead && secp {
                replay_malleated(c, &mut s, &t, acting);
            }
        }
        if s.wl.closed {
            return;
        }
    }
}
/// the accepted signature again, verbatim or in its other form
fn replay_malleated(c: &mut Case, s: &mut Sim, t: &Tx, acting: u32) {
    let Some(cr) = s.cred_opt(acting) else { return };
    let mut t = t.clone();
    if matches!(cr.kind, K1T | K1S) && c.rng.bool() {
        let a = t.auth_off + 12;
        let d = &mut t.ixs[t.at].data;
        let mut sig: [u8; 65] = d[a..a + 65].try_into().unwrap();
        if sig[64] >= 27 {
            sig[64] -= 27;
        }
        let mut m = malleate(&sig);
        m[64] += 27;
        d[a..a + 65].copy_from_slice(&m);
    }
    let mut ch = s.ch.clone();
    let o = ch.exec(&t.ixs);
    c.count("replays");
    if o.ok {
        c.diverge(&["A02", "A01"], "replay:accepted", format!("an accepted signature of role {} was accepted again", acting));
    }
}
/// two roles that share a key and agree in their counters: what one has
/// signed must not count again as the other's
pub fn twins(c: &mut Case) {
    let h = Hist { kinds: vec![ED, K1T, R1T], roles: 2, claimer: 10, ..Hist::default() };
    let mut s = fixture(c, &h);
    let kind = *c.rng.pick(&[K1T, R1T]);
    let cred = Cred::new(kind, &mut c.rng, &s.pe);
    let mut ids = vec![];
    for _ in 0..2 {
        let mut acts = vec![a_all()];
        if c.rng.bool() && ids.is_empty() {
            let n = s.wl.counter;
            let id = s.wl.id;
            acts.push(a_sub(n, &id));
        }
        for y in s.wl.sub2.clone() {
            acts.push(a_v2(V2ALL, y.id));
        }
        let (payer, id) = (s.payer, s.wl.counter);
        let b = add(&s.wl, payer, 0, &cred, &acts);
        if !ensure_live(c, &mut s, 0) {
            return;
        }
        let k = cred.clone();
        let ok = s.step(c, "twin", &b, 0, false, None, &["A04"], crate::world::Frame::default(), |w, _| {
            w.roles.push(Role { id, cred: k, acts });
            w.counter += 1;
        });
        if !ok || c.dead {
            return;
        }
        ids.push(id);
    }
    for round in 0..6 {
        let (a, b) = if c.rng.bool() { (ids[0], ids[1]) } else { (ids[1], ids[0]) };
        let op = *c.rng.pick(&OPS);
        if matches!(op, Op::Session | Op::Migrate) {
            continue;
        }
        let w = Want { acting: Some(a), permitted: true, ..Default::default() };
        let Some(p) = gen(c, &mut s, op, &w) else { continue };
        if !p.bad.is_empty() || p.open {
            continue;
        }
        let desc = p.desc.clone();
        let t = proof_of(&s, &p);
        let same = s.wl.role(a).map(|r| r.cred.odo) == s.wl.role(b).map(|r| r.cred.odo);
        if !run_tx(c, &mut s, p, &t) || c.dead {
            return;
        }
        if s.wl.closed || s.wl.role(a).map(|r| r.cred.pk33) != s.wl.role(b).map(|r| r.cred.pk33) {
            return;
        }
        let end = t.auth_off.min(48);
        for o in (0..end.saturating_sub(3)).step_by(2) {
            if t.ixs[t.at].data[o..o + 4] != a.to_le_bytes() {
                continue;
            }
            let mut u = t.clone();
            u.ixs[u.at].data[o..o + 4].copy_from_slice(&b.to_le_bytes());
            let mut ch = s.ch.clone();
            let r = ch.exec(&u.ixs);
            c.count("replays_as_the_other_role");
            c.eval(&format!("{op:?} {} {same} {}", kind_name(kind), round == 0));
            if r.ok {
                c.log(format!("the same signature as role {b}'s: accepted"));
                c.diverge(&["A02"], format!("replay:same-key:{op:?}"), format!("{desc}: role {a}'s accepted signature was accepted once more as role {b}'s, which holds the same key"));
                return;
            }
        }
        // bring the other one's counter level again
        let to = c.rng.key();
        s.ch.fund(to, 1_000_000);
        let w = Want { acting: Some(b), permitted: true, ..Default::default() };
        let Some(p) = gen(c, &mut s, Op::Claimer, &w) else { return };
        run(c, &mut s, p);
        if c.dead || s.wl.closed {
            return;
        }
    }
}
