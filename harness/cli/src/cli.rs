//! The command-line client: argument vectors and dialogues, each against the
//! operation its words stand for.
use crate::net::{compiled, Net, Shared};
use crate::perms;
use crate::stored;
use checks::enc::*;
use checks::model::*;
use checks::report::*;
use checks::util::*;
use checks::world::*;
use rt::*;
use solana_sdk::signature::{Keypair, Signer};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use swig_cli::{command, context, interactive, out, script, SwigCliContext, Q};

fn b58(k: &[u8]) -> String {
    bs58::encode(k).into_string()
}
/// a credential and the texts the client knows it by
#[derive(Clone)]
struct Held {
    id: u32,
    cred: Cred,
    secret: String,
}
fn type_name(kind: u16) -> &'static str {
    match kind {
        ED => "Ed25519",
        EDS => "Ed25519Session",
        K1T => "Secp256k1",
        K1S => "Secp256k1Session",
        R1T => "Secp256r1",
        _ => "Secp256r1Session",
    }
}
/// the key as a user writes it
fn public_text(c: &mut Case, x: &Cred, mode: usize) -> String {
    let body = match x.kind {
        ED | EDS => return b58(&x.ed),
        K1T | K1S => match mode % 3 {
            0 => hex(&x.k1.as_ref().unwrap().uncompressed()),
            1 => hex(&x.pk33),
            _ => hex(&x.k1.as_ref().unwrap().uncompressed()[1..]),
        },
        _ => hex(&x.pk33),
    };
    if c.rng.bool() {
        format!("0x{body}")
    } else {
        body
    }
}
/// the type this many leading fields of the CLI's JSON stand for
fn json(a: &Act) -> Option<String> {
    let d = &a.data[..];
    let k = |i: usize| b58(&d[i..i + 32]);
    let n = |i: usize| le64(&d[i..]);
    let rec = |w: u64| format!(r#","recurring":{{"window":{w}}}"#);
    Some(match a.kind {
        ALL => r#"{"type":"all"}"#.into(),
        CURATED => r#"{"type":"programCurated"}"#.into(),
        ALLBUT => r#"{"type":"allButManageAuthority"}"#.into(),
        MANAGE => r#"{"type":"manageAuthority"}"#.into(),
        PROGALL => r#"{"type":"programAll"}"#.into(),
        SOL => format!(r#"{{"type":"sol","amount":{}}}"#, n(0)),
        SOLR => format!(r#"{{"type":"sol","amount":{}{}}}"#, n(0), rec(n(8))),
        PROG => format!(r#"{{"programId":"{}","type":"program"}}"#, k(0)),
        SUB => format!(r#"{{"type":"subAccount","subAccount":"{}"}}"#, k(0)),
        SOLD => format!(r#"{{"type":"solDestination","destination":"{}","amount":{}}}"#, k(0), n(32)),
        SOLRD => format!(r#"{{"type":"solDestination","destination":"{}","amount":{}{}}}"#, k(0), n(32), rec(n(40))),
        TOKD => format!(r#"{{"type":"tokenDestination","mint":"{}","destination":"{}","amount":{}}}"#, k(0), k(32), n(64)),
        TOKRD => format!(r#"{{"type":"tokenDestination","mint":"{}","destination":"{}","amount":{}{}}}"#, k(0), k(32), n(64), rec(n(72))),
        SCOPE => {
            let mut s = format!(r#"{{"type":"programScope","programId":"{}","targetAccount":"{}","numericType":{}"#, k(48), k(80), n(120));
            if n(112) > 0 {
                s += &format!(r#","limit":{}"#, n(16));
            }
            if n(112) == 2 {
                s += &format!(r#","window":{}"#, n(32));
            }
            s += &format!(r#","balanceFieldStart":{},"balanceFieldEnd":{}}}"#, n(128), n(136));
            s
        }
        _ => return None,
    })
}
/// the words of the menus, in the order they are asked for
fn menu(kind: u16) -> Option<&'static str> {
    Some(match kind {
        ALL => "All",
        MANAGE => "Manage Authority",
        ALLBUT => "All But Manage Authority",
        TOK | TOKR => "Token",
        SOL | SOLR => "SOL",
        TOKD | TOKRD => "Token Destination",
        SOLD | SOLRD => "SOL Destination",
        PROG => "Program",
        PROGALL => "Program All",
        SCOPE => "Program Scope",
        CURATED => "Program Curated",
        SUB => "Sub Account",
        STKALL => "Stake All",
        _ => return None,
    })
}
/// what the dialogue can express
fn dialogue(a: &Act) -> Option<Act> {
    menu(a.kind)?;
    Some(match a.kind {
        SUB => Act { kind: SUB, data: vec![0; 72] },
        SCOPE => {
            let d = &a.data;
            let (l, w) = if le64(&d[112..]) == 2 { (le64(&d[16..]), le64(&d[32..])) } else { (0, 0) };
            let t = d[80..112].try_into().unwrap();
            a_scope(0, l as u128, w, 0, &token_id(), &t, if l == 0 && w == 0 { 0 } else { 2 }, 2, 64, 72)
        }
        _ => a.clone(),
    })
}
/// the fields of an action by the words they are asked for
fn field(a: &Act, prompt: &str) -> Option<String> {
    let p = prompt.to_lowercase();
    let d = &a.data[..];
    let n = |i: usize| Some(le64(&d[i..]).to_string());
    let k = |i: usize| Some(b58(&d[i..i + 32]));
    if p.contains("window") {
        return match a.kind {
            SOLR => n(8),
            TOKR => n(32),
            SOLRD => n(40),
            TOKRD => n(72),
            SCOPE => n(32),
            _ => None,
        };
    }
    if p.contains("mint") {
        return k(0);
    }
    if p.contains("target") {
        return k(80);
    }
    if p.contains("destination") {
        return match a.kind {
            SOLD | SOLRD => k(0),
            TOKD | TOKRD => k(32),
            _ => None,
        };
    }
    if p.contains("program") {
        return k(0);
    }
    if p.contains("sub-account") {
        return Some(b58(&[9; 32]));
    }
    match a.kind {
        SOL | SOLR => n(0),
        TOK | SOLD | SOLRD => n(32),
        TOKR => n(40),
        TOKD | TOKRD => n(64),
        SCOPE => n(16),
        _ => None,
    }
}
fn limited(a: &Act) -> bool {
    match a.kind {
        SOLR | TOKR | SOLRD | TOKRD => true,
        SCOPE => le64(&a.data[112..]) == 2,
        _ => false,
    }
}
/// a user: the menu entries wanted in turn, the permissions, plain answers
struct User {
    menus: Vec<String>,
    perms: Vec<Act>,
    /// answers by a word of the prompt
    says: Vec<(&'static str, String)>,
    cur: Option<Act>,
    lost: Rc<RefCell<Option<String>>>,
}
impl User {
    fn answer(&mut self, q: Q) -> Option<String> {
        let r = match &q {
            Q::Select(p, items) => {
                let p = p.to_lowercase();
                let want = if p.contains("permission type") && !self.perms.is_empty() {
                    let a = if self.perms.is_empty() { None } else { Some(self.perms.remove(0)) };
                    self.cur = a;
                    self.cur.as_ref().and_then(|a| menu(a.kind)).map(|s| s.to_string())
                } else if p.contains("token program") {
                    Some("SPL Token".into())
                } else if self.menus.is_empty() {
                    Some("Exit".into())
                } else {
                    Some(self.menus.remove(0))
                };
                want.and_then(|w| items.iter().position(|i| i.split(" (").next() == Some(&w))).map(|i| i.to_string())
            }
            Q::Confirm(p) => {
                let p = p.to_lowercase();
                let yes = if p.contains("recurring") { self.cur.as_ref().map(limited).unwrap_or(false) } else { !self.perms.is_empty() };
                Some(if yes { "y" } else { "n" }.to_string())
            }
            Q::Input(p) | Q::Password(p) => match self.says.iter().find(|(w, _)| p.to_lowercase().contains(w)) {
                Some((_, s)) => Some(s.clone()),
                None => self.cur.as_ref().and_then(|a| field(a, p)),
            },
        };
        if r.is_none() {
            let (Q::Select(p, _) | Q::Confirm(p) | Q::Input(p) | Q::Password(p)) = q;
            let mut l = self.lost.borrow_mut();
            if l.is_none() {
                *l = Some(p.to_string());
            }
        }
        r
    }
}
struct Hist {
    s: Sim,
    net: Shared,
    held: Vec<Held>,
    me: usize,
    id_text: String,
    fee: Keypair,
    ctx: SwigCliContext,
}
impl Hist {
    fn stored(&self) -> Option<stored::Stored> {
        stored::read(&self.net.0.borrow().ch.data(&self.s.wl.key))
    }
    fn pull(&mut self) {
        self.s.ch = self.net.0.borrow().ch.clone();
        let Some(st) = self.stored() else { return };
        self.s.wl.counter = st.counter;
        self.s.wl.subs = st.subs;
        for h in &mut self.held {
            if let Some(r) = st.roles.iter().find(|r| r.id == h.id) {
                h.cred.odo = r.odo().unwrap_or(0);
            }
        }
    }
    fn there(&self, id: u32) -> bool {
        self.stored().map(|s| s.roles.iter().any(|r| r.id == id)).unwrap_or(false)
    }
    fn acts_of(&self, id: u32) -> Vec<Act> {
        self.stored()
            .and_then(|s| s.roles.iter().find(|r| r.id == id).map(|r| r.acts.iter().map(|(k, d)| Act { kind: *k, data: d.clone() }).collect()))
            .unwrap_or_default()
    }
    /// who acts, in the words of the command line
    fn who(&self, c: &mut Case, fee: bool) -> Vec<String> {
        let h = &self.held[self.me];
        let mut v: Vec<String> = vec!["--authority-type".into(), type_name(h.cred.kind).into()];
        v.extend(["--authority".into(), public_text(c, &h.cred, 0)]);
        v.extend(["--authority-kp".into(), h.secret.clone()]);
        v.extend(["--swig-id".into(), self.id_text.clone()]);
        if fee {
            v.extend(["--fee-payer".into(), self.fee.to_base58_string()]);
        }
        v
    }
}
const DURING: &str = "the operation its words stand for";
fn cred_of(c: &mut Case, kind: u16, pe: &Key) -> (Cred, String) {
    let mut x = Cred::new(kind, &mut c.rng, pe);
    x.long = true;
    let secret = match kind {
        ED | EDS => {
            let k = Keypair::new_from_array(c.rng.key());
            x.ed = k.pubkey().to_bytes();
            k.to_base58_string()
        }
        K1T | K1S => {
            let s = hex(&x.k1.as_ref().unwrap().sk.to_bytes());
            if c.rng.bool() { format!("0x{s}") } else { s }
        }
        _ => hex(&x.pk33),
    };
    (x, secret)
}
fn some_acts(c: &mut Case, s: &Sim, id: u32, n: usize, keep: &[Act], f: &dyn Fn(&Act) -> Option<Act>) -> Vec<Act> {
    let mut v = vec![];
    for _ in 0..40 {
        if v.len() == n {
            break;
        }
        for a in checks::plan::rand_acts(c, s, id, 1, keep) {
            if let Some(a) = perms::norm(&a).and_then(|a| f(&a)) {
                // what the library takes as a number must fit one
                v.push(a);
            }
        }
    }
    if v.is_empty() {
        v.push(a_sol(7));
    }
    v
}
/// a permission text that stands for nothing
fn bad_json(c: &mut Case) -> String {
    let k = b58(&c.rng.key());
    match c.rng.below(9) {
        0 => r#"{"type":"everything"}"#.into(),
        1 => r#"{"amount":5}"#.into(),
        2 => r#"{"type":"program"}"#.into(),
        3 => r#"{"type":"program","programId":"0OIl"}"#.into(),
        4 => format!(r#"{{"type":"programScope","programId":"{k}"}}"#),
        5 => r#"{"type":"solDestination","amount":5}"#.into(),
        6 => format!(r#"{{"type":"tokenDestination","mint":"{k}","amount":5}}"#),
        7 => r#"{"type":7}"#.into(),
        _ => r#"{"type":"all""#.into(),
    }
}
fn with_perms(c: &mut Case, v: &mut Vec<String>, ps: &[String]) {
    match c.rng.below(3) {
        0 => ps.iter().for_each(|p| v.extend(["--permissions".into(), p.clone()])),
        1 => v.extend(["--permissions".into(), ps.join(",")]),
        _ => {
            v.push("--permissions".into());
            v.extend(ps.iter().cloned());
        }
    }
}
pub fn history(c: &mut Case) {
    if c.case % 16 == 15 {
        return pairs(c);
    }
    let talk = c.rng.chance(1, 3);
    let mut kind = [ED, ED, K1T, R1T][c.case as usize % 4];
    if talk && c.rng.chance(1, 6) {
        kind = *c.rng.pick(&[K1S, R1S]);
    }
    let mut s = fresh(c);
    let n = 1 + c.rng.below(36);
    let id_text: String = (0..n).map(|_| *c.rng.pick(b"abcXYZ019_") as char).collect();
    let id = format!("{:0<32}", id_text).as_bytes()[..32].try_into().unwrap();
    s.wl = Wallet::plan(&id);
    let (mut x, secret) = cred_of(c, kind, &s.pe);
    if x.session() {
        // a session that has never been opened
        x.sess = [0; 32];
        x.max = 100;
    }
    let fee = if kind == ED && c.rng.bool() { Keypair::try_from_base58_string(&secret).unwrap() } else { Keypair::new_from_array(c.rng.key()) };
    s.payer = fee.pubkey().to_bytes();
    s.ch.fund(s.payer, 1_000_000_000_000);
    if kind == ED {
        s.ch.fund(x.ed, 1_000_000_000_000);
    }
    let net = Shared(Rc::new(RefCell::new(Net::new(s.ch.clone()))));
    solana_client::install(Some(Box::new(net.clone())));
    s.wl.roles = vec![Role { id: 0, cred: x.clone(), acts: vec![a_all()] }];
    let ctx = context(fee.insecure_clone());
    let mut h = Hist { s, net, held: vec![Held { id: 0, cred: x, secret }], me: 0, id_text, fee, ctx };
    // a new wallet
    let what = if talk {
        let says = vec![("swig id", h.id_text.clone()), ("fee payer", h.fee.to_base58_string()), ("authority keypair", h.held[0].secret.trim_start_matches(if kind == R1T { "0x" } else { "-" }).to_string())];
        Do::Talk(vec!["Create New Wallet".into(), type_name(kind).into()], vec![], says)
    } else {
        let mut args = vec!["create".to_string()];
        let who = h.who(c, true);
        args.extend(who);
        Do::Args(args)
    };
    let reference = vec![create(&h.s.wl, &h.held[0].cred, &[a_all()], h.s.payer)];
    if !judge(c, &mut h, "create", what, Some(reference), true) {
        return;
    }
    let wa = h.s.wl.addr;
    h.net.0.borrow_mut().ch.fund(wa, 10_000_000_000);
    h.pull();
    if h.held[0].cred.session() {
        return;
    }
    for _ in 0..2 + c.rng.below(8) {
        if c.dead {
            break;
        }
        step(c, &mut h);
        h.pull();
    }
    script(None);
    c.sample(|| format!("{} roles held after a history of {}", h.held.len(), type_name(kind)));
}
enum Do {
    Args(Vec<String>),
    Talk(Vec<String>, Vec<Act>, Vec<(&'static str, String)>),
}
/// runs it; true when it was done
fn judge(c: &mut Case, h: &mut Hist, name: &str, what: Do, reference: Option<Vec<Ix>>, must: bool) -> bool {
    let payer = h.s.payer;
    let hash = {
        let mut n = h.net.0.borrow_mut();
        n.hash = c.rng.key();
        n.hash
    };
    let mut a = h.net.0.borrow().ch.clone();
    let want = match &reference {
        Some(v) if !v.is_empty() => match compiled(&payer, v, hash) {
            Ok(v) => {
                let o = a.exec(&v);
                a.accts.remove(&ixs_sysvar_id());
                o.ok
            }
            Err(_) => return false,
        },
        _ => false,
    };
    let (before, n0) = {
        let n = h.net.0.borrow();
        (n.ch.accts.clone(), n.sent.len())
    };
    out::take();
    let lost = Rc::new(RefCell::new(None));
    let (way, shown, r) = match what {
        Do::Args(v) => {
            let r = catch_unwind(AssertUnwindSafe(|| command(&mut h.ctx, &v)));
            ("command", v.join(" "), r)
        }
        Do::Talk(menus, perms, says) => {
            let shown = format!("{menus:?} {} {says:?}", show(&perms));
            let mut u = User { menus, perms, says, cur: None, lost: lost.clone() };
            script(Some(Box::new(move |q| u.answer(q))));
            let r = catch_unwind(AssertUnwindSafe(|| interactive(&mut h.ctx)));
            script(None);
            ("dialogue", shown, r)
        }
    };
    let text = out::take();
    let r = match r {
        Ok(r) => r,
        Err(_) => Err("panicked".into()),
    };
    let after = h.net.0.borrow().ch.accts.clone();
    let sent = h.net.0.borrow().sent.len() - n0;
    // a dialogue says what it could not do; with nothing sent and no word of
    // success there is nothing it claims
    let ok = r.is_ok() && !text.contains("Failed") && (sent > 0 || text.to_lowercase().contains("success"));
    let k = kind_name(h.held[h.me].cred.kind);
    c.eval(&format!("{way} {name} {k} {ok} {want}"));
    c.count(&format!("{way}s"));
    c.saw(if ok { "done" } else { "refused" }, &format!("{way} {name} by {k}"));
    c.log(format!("{way} {shown}: reference {want}, client {:?}{}", r, lost.borrow().as_ref().map(|p: &String| format!(", no answer to {p:?}")).unwrap_or_default()));
    if after != before && !ok {
        c.violate(format!("silent:{way}:{name}"), format!("reported as failed, but it changed the accounts: {r:?} {text}"));
        return false;
    }
    if ok && !want {
        c.violate(format!("accept:{way}:{name}"), format!("reported as done, but {DURING} is refused"));
        return false;
    }
    if ok && after != a.accts {
        let d = a.accts.keys().chain(after.keys()).find(|k| a.accts.get(*k) != after.get(*k)).cloned().unwrap_or_default();
        c.violate(format!("state:{way}:{name}"), format!("another effect on account {} than {DURING}", short(&d)));
        return false;
    }
    if ok && sent != 1 {
        c.violate(format!("sent:{way}:{name}"), format!("sent {sent} transactions"));
        return false;
    }
    if ok && h.net.0.borrow().payers.last() != Some(&payer) {
        c.violate(format!("payer:{way}:{name}"), format!("the fee payer is not {}", short(&payer)));
        return false;
    }
    if !ok && want && must {
        c.violate(format!("refused:{way}:{name}"), format!("{DURING} is accepted, the client says {r:?} {text}"));
        return false;
    }
    ok
}
fn proved(c: &mut Case, h: &mut Hist, base: Base) -> Vec<Ix> {
    let cred = h.held[h.me].cred.clone();
    let slot = h.s.ch.slot;
    let _ = c;
    let t = main_proof_opt(&base, &cred, &SigOpts { slot, counter: cred.odo.wrapping_add(1), prefix: vec![], webauthn: None, pre: None });
    t.ixs
}
fn step(c: &mut Case, h: &mut Hist) {
    h.s.ch.slot += c.rng.below(4) as u64;
    h.net.0.borrow_mut().ch.slot = h.s.ch.slot;
    // who acts: a role of a kind the client can act for, mostly the root
    let able: Vec<usize> = (0..h.held.len()).filter(|i| matches!(h.held[*i].cred.kind, ED | K1T | R1T) && h.there(h.held[*i].id)).collect();
    let talk = c.rng.bool();
    if !talk {
        if able.is_empty() {
            return;
        }
        h.me = if c.rng.chance(2, 3) { able[0] } else { *c.rng.pick(&able) };
    } else if h.ctx.wallet.is_none() {
        return;
    } else {
        // the dialogue goes on as whoever the last command was
        let me = h.ctx.wallet.as_ref().unwrap().get_current_role_id().ok();
        let Some(i) = h.held.iter().position(|x| Some(x.id) == me) else { return };
        h.me = i;
        if !h.there(h.held[i].id) {
            return;
        }
    }
    let me = h.held[h.me].clone();
    let (wl, usual) = (h.s.wl.clone(), h.s.payer);
    let ed = me.cred.kind == ED;
    let sub = sub1_pda(&wl.id, me.id).0;
    if talk && c.rng.chance(1, 6) {
        // the dialogue goes on as someone else
        let to: Vec<usize> = (0..h.held.len()).filter(|i| matches!(h.held[*i].cred.kind, ED | R1T)).collect();
        if to.is_empty() {
            return;
        }
        let i = *c.rng.pick(&to);
        let x = h.held[i].clone();
        let there = h.there(x.id);
        let spare = Keypair::new_from_array(c.rng.key()).to_base58_string();
        let says = vec![
            ("role id", x.id.to_string()),
            ("secp256r1", x.secret.clone()),
            ("authority keypair", if x.cred.kind == ED { x.secret.clone() } else { spare }),
        ];
        let mut u = User { menus: vec!["Switch Authority".into(), type_name(x.cred.kind).into()], perms: vec![], says, cur: None, lost: Rc::default() };
        let n0 = h.net.0.borrow().sent.len();
        script(Some(Box::new(move |q| u.answer(q))));
        let r = catch_unwind(AssertUnwindSafe(|| interactive(&mut h.ctx))).unwrap_or(Err("panicked".into()));
        script(None);
        let text = out::take();
        c.eval(&format!("dialogue switch {} {}", kind_name(x.cred.kind), r.is_ok()));
        c.count("switches");
        c.log(format!("dialogue: switch to role {} {}: {r:?}", x.id, type_name(x.cred.kind)));
        let now = h.ctx.wallet.as_ref().unwrap().get_current_role_id().ok();
        if h.net.0.borrow().sent.len() != n0 {
            c.violate("switch:sent", "switching sent a transaction");
        } else if r.is_ok() != there || (there && now != Some(x.id)) {
            c.violate("switch", format!("switching to role {} ({}): {r:?} {text}, now {now:?}", x.id, if there { "there" } else { "gone" }));
        } else if !there {
            // a dialogue as nobody
            h.ctx.wallet = None;
        }
        return;
    }
    let mut op = c.rng.below(if talk || ed { 11 } else { 5 });
    if (talk || ed) && h.s.ch.accts.contains_key(&sub) && c.rng.bool() {
        op = 7 + c.rng.below(3);
    }
    // commands without a fee payer are paid for by who gives them
    let payer = match talk {
        true => h.ctx.wallet.as_ref().unwrap().get_fee_payer().to_bytes(),
        false if op > 4 => me.cred.ed,
        false => usual,
    };
    if payer != usual {
        h.s.ch.fund(payer, 1_000_000_000_000);
        h.net.0.borrow_mut().ch = h.s.ch.clone();
    }
    h.s.payer = payer;
    act(c, h, talk, op);
    h.s.payer = usual;
}
fn act(c: &mut Case, h: &mut Hist, talk: bool, op: usize) {
    let me = h.held[h.me].clone();
    let (wl, payer) = (h.s.wl.clone(), h.s.payer);
    let sub = sub1_pda(&wl.id, me.id).0;
    match op {
        0 | 1 => {
            let kind = *c.rng.pick(&[ED, ED, K1T, K1T, R1T, R1T, EDS, K1S, R1S]);
            let (x, secret) = cred_of(c, kind, &h.s.pe);
            let n = 1 + c.rng.below(4);
            let mode = c.rng.below(3);
            let can = |a: &Act| if talk { dialogue(a) } else { json(a).map(|_| a.clone()) };
            let mut acts = some_acts(c, &h.s, wl.counter, n, &[], &can);
            if c.rng.bool() && !acts.iter().any(|a| a.kind == ALL) {
                acts.push(a_all());
            }
            if c.rng.bool() && !acts.iter().any(|a| a.kind == SUB) {
                acts.extend(perms::norm(&a_sub(wl.counter, &wl.id)).and_then(|a| can(&a)));
            }
            let mut y = x.clone();
            if kind == K1T && mode == 1 {
                y.long = false;
            }
            let mut text = public_text(c, &x, mode);
            let mut wrong = false;
            if c.rng.chance(1, 12) {
                // not a key of that kind
                wrong = true;
                let z = c.rng.bytes(40);
                // 64 bytes are a key without its prefix, whatever they are
                let how = if matches!(kind, K1T | K1S) && mode != 1 { 2 + c.rng.below(3) } else { c.rng.below(5) };
                text = match how {
                    0 => text + "00",
                    1 => text[..text.len() - 2].into(),
                    2 => text.replacen(&text[4..5], "?", 1),
                    3 if matches!(kind, ED | EDS) => hex(&x.pk33),
                    3 => b58(&z[..32]),
                    _ => hex(&z),
                };
            }
            let mut reference = Some(proved(c, h, add(&wl, payer, me.id, &y, &acts)));
            let new = Held { id: wl.counter, cred: x, secret };
            let what = if talk {
                Do::Talk(vec!["Add Authority".into(), type_name(kind).into()], acts, vec![("public key", text)])
            } else {
                let mut v = vec!["add-authority".to_string()];
                v.extend(h.who(c, true));
                v.extend(["--new-authority-type".into(), type_name(kind).into(), "--new-authority".into(), text]);
                let mut ps: Vec<String> = acts.iter().filter_map(json).collect();
                if c.rng.chance(1, 8) {
                    let i = c.rng.below(ps.len() + 1);
                    ps.insert(i, bad_json(c));
                    reference = None;
                }
                with_perms(c, &mut v, &ps);
                Do::Args(v)
            };
            if wrong {
                // the account is created for nobody, or not at all
                reference = None;
            }
            let must = matches!(kind, ED | K1T | R1T) && !(talk && mode == 1 && kind == K1T);
            if judge(c, h, "add", what, reference, must) {
                h.held.push(new);
            }
        }
        2 => {
            let t = if c.rng.chance(1, 6) { None } else { h.held.iter().filter(|x| x.id != me.id && h.there(x.id)).map(|x| x.id).collect::<Vec<_>>().pop() };
            let mode = c.rng.below(3);
            let (text, reference) = match t {
                Some(t) => {
                    let x = h.held.iter().find(|x| x.id == t).unwrap().cred.clone();
                    let n = proof_len(&me.cred);
                    let r = proved(c, h, remove(&wl, payer, me.id, t, n));
                    let text = if talk { if matches!(x.kind, ED | EDS) { b58(&x.ed) } else { format!("0x{}", hex(&x.pk33)) } } else { public_text(c, &x, mode) };
                    (text, Some(r))
                }
                None if talk => return,
                None => (b58(&c.rng.key()), None),
            };
            let what = if talk {
                Do::Talk(vec!["Remove Authority".into(), text], vec![], vec![])
            } else {
                let mut v = vec!["remove-authority".to_string()];
                v.extend(h.who(c, true));
                v.extend(["--remove-authority".into(), text]);
                Do::Args(v)
            };
            judge(c, h, "remove", what, reference, true);
        }
        3 | 4 => {
            let t = h.held[c.rng.below(h.held.len())].clone();
            if talk && (t.id == 0 || !h.there(t.id)) {
                return;
            }
            let have = h.acts_of(t.id);
            let can = |a: &Act| if talk { dialogue(a) } else { json(a).map(|_| a.clone()) };
            let n = 1 + c.rng.below(3);
            let acts = some_acts(c, &h.s, t.id, n, &have, &can);
            let mode = c.rng.below(4);
            let (mut u, menu_text, op) = match mode {
                0 => (Upd::Replace(acts_stored(&acts)), "Replace All", "ReplaceAll"),
                1 => (Upd::Add(acts_stored(&acts)), "Add Actions", "AddActions"),
                2 => (Upd::RemoveTypes(vec![]), "Remove Actions By Type", "RemoveActionsByType"),
                _ => (Upd::RemoveIdx(vec![]), "Remove Actions By Index", "RemoveActionsByIndex"),
            };
            let mut idx = vec![];
            let mut types: Vec<Act> = vec![];
            let mut extra: Vec<String> = vec![];
            let mut bad = false;
            match mode {
                0 | 1 => {
                    let mut ps: Vec<String> = acts.iter().filter_map(json).collect();
                    if !talk && c.rng.chance(1, 8) {
                        ps.push(bad_json(c));
                        bad = true;
                    }
                    with_perms(c, &mut extra, &ps);
                }
                2 => {
                    // the simple kinds, by name
                    let simple: [(u16, &str); 14] = [
                        (ALL, "All"),
                        (ALLBUT, "AllButManageAuthority"),
                        (MANAGE, "ManageAuthority"),
                        (SOL, "Sol"),
                        (TOK, "Token"),
                        (PROG, "Program"),
                        (PROGALL, "ProgramAll"),
                        (CURATED, "ProgramCurated"),
                        (SCOPE, "ProgramScope"),
                        (SUB, "SubAccount"),
                        (STK, "Stake"),
                        (STKALL, "StakeAll"),
                        (SOLD, "SolDestination"),
                        (TOKD, "TokenDestination"),
                    ];
                    let mut pool: Vec<(u16, &str)> = simple.iter().filter(|x| have.iter().any(|a| a.kind == x.0)).cloned().collect();
                    c.rng.shuffle(&mut pool);
                    if pool.is_empty() || c.rng.chance(1, 4) {
                        pool.push(*c.rng.pick(&simple));
                    }
                    pool.truncate(1 + c.rng.below(2));
                    if talk {
                        pool.retain(|x| menu(x.0).is_some());
                        if pool.is_empty() {
                            return;
                        }
                    }
                    types = pool.iter().map(|x| Act { kind: x.0, data: vec![0; 160] }).collect();
                    u = Upd::RemoveTypes(pool.iter().map(|x| x.0 as u8).collect());
                    let mut names: Vec<String> = pool.iter().map(|x| x.1.to_string()).collect();
                    if !talk && c.rng.chance(1, 10) {
                        names.push("Everything".into());
                        bad = true;
                    }
                    extra.extend(["--action-types".into(), names.join(",")]);
                }
                _ => {
                    idx = vec![c.rng.below(have.len().max(1) + 1) as u16];
                    if c.rng.bool() {
                        idx.push(idx[0] + 1);
                    }
                    u = Upd::RemoveIdx(idx.clone());
                    extra.extend(["--indices".into(), idx.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",")]);
                }
            }
            let mut reference = Some(proved(c, h, update(&wl, payer, me.id, t.id, &u)));
            if bad {
                reference = None;
            }
            let what = if talk {
                let text = if matches!(t.cred.kind, ED | EDS) { b58(&t.cred.ed) } else { format!("0x{}", hex(&t.cred.pk33)) };
                let ps = if mode == 2 { types } else { acts };
                let line = idx.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(", ");
                Do::Talk(vec!["Update Authority".into(), text, menu_text.into()], ps, vec![("indices", line)])
            } else {
                let mut v = vec!["update-authority".to_string()];
                v.extend(h.who(c, true));
                v.extend(["--authority-to-update-id".into(), t.id.to_string(), "--operation".into(), op.into()]);
                v.extend(extra);
                Do::Args(v)
            };
            judge(c, h, &format!("update:{op}"), what, reference, true);
        }
        5 => {
            // asking, without changing
            if talk {
                return;
            }
            let role = c.rng.bool();
            let t = h.held[c.rng.below(h.held.len())].clone();
            let mode = c.rng.below(3);
            let mut v = vec![if role { "get-role-id" } else { "balance" }.to_string()];
            v.extend(h.who(c, false));
            if role {
                v.extend(["--authority-to-fetch".into(), public_text(c, &t.cred, mode), "--authority-type-to-fetch".into(), type_name(t.cred.kind).into()]);
            }
            let n0 = h.net.0.borrow().sent.len();
            out::take();
            let r = catch_unwind(AssertUnwindSafe(|| command(&mut h.ctx, &v))).unwrap_or(Err("panicked".into()));
            let text = out::take();
            c.eval(&format!("ask {role} {}", r.is_ok()));
            c.count("questions");
            c.log(format!("{}: {r:?} {text}", v.join(" ")));
            if h.net.0.borrow().sent.len() != n0 {
                c.violate("ask:sent", "a question sent a transaction");
            }
            if role {
                let want = h.there(t.id).then_some(t.id);
                let got: Option<u32> = text.trim().rsplit(' ').next().and_then(|s| s.parse().ok());
                if r.is_ok() != want.is_some() || (r.is_ok() && got != want) {
                    c.violate("ask:role", format!("the role of {} is {want:?}, answered {r:?} {text}", type_name(t.cred.kind)));
                }
            } else {
                let n = h.net.0.borrow();
                let l = |k: &Key| n.ch.accts.get(k).map(|a| a.lamports).unwrap_or(0) as f64 / 1e9;
                let got: f64 = text.split_whitespace().find_map(|s| s.parse().ok()).unwrap_or(-1.0);
                let (x, y) = (l(&wl.key), l(&wl.addr));
                drop(n);
                if r.is_err() || ((got - x).abs() > 1e-8 && (got - y).abs() > 1e-8) {
                    c.violate("ask:balance", format!("the balance is {x} and {y}, answered {r:?} {text}"));
                }
            }
        }
        6 => {
            if h.s.ch.accts.contains_key(&sub) {
                return;
            }
            let (k, bump) = sub1_pda(&wl.id, me.id);
            let r = proved(c, h, create_sub1(&wl, payer, me.id, k, bump));
            let what = if talk {
                Do::Talk(vec!["Sub Accounts".into(), "Create sub-account".into()], vec![], vec![])
            } else {
                let mut v = vec!["create-sub-account".to_string()];
                v.extend(h.who(c, false));
                Do::Args(v)
            };
            judge(c, h, "sub:create", what, Some(r), true);
        }
        7 => {
            let (to, n) = (c.rng.key(), c.rng.range(1, 3_000_000_000));
            if h.s.ch.accts.contains_key(&sub) {
                h.s.ch.fund(sub, 5_000_000_000);
            }
            h.s.ch.fund(to, 1_000_000);
            h.net.0.borrow_mut().ch = h.s.ch.clone();
            let ixs = vec![checks::plan::sys_transfer(sub, to, n)];
            let mut metas = vec![w(wl.key), w(sub), r(SYSTEM)];
            let payload = compact_for(&mut metas, &ixs, &[sub]);
            let rf = proved(c, h, sub_sign1(&wl, me.id, sub, &metas[3..], &payload));
            let what = if talk {
                Do::Talk(vec!["Sub Accounts".into(), "Transfer from sub-account".into()], vec![], vec![("recipient", b58(&to)), ("amount", n.to_string())])
            } else {
                let mut v = vec!["transfer-from-sub-account".to_string()];
                v.extend(h.who(c, false));
                v.extend(["--recipient".into(), b58(&to), "--amount".into(), n.to_string()]);
                Do::Args(v)
            };
            judge(c, h, "sub:transfer", what, Some(rf), true);
        }
        8 => {
            let on = talk || c.rng.bool();
            let rf = proved(c, h, toggle1(&wl, payer, sub, me.id, me.id, on as u8));
            let what = if talk {
                Do::Talk(vec!["Sub Accounts".into(), "Toggle sub-account".into()], vec![], vec![("role", me.id.to_string())])
            } else {
                let mut v = vec!["toggle-sub-account".to_string()];
                v.extend(h.who(c, false));
                v.extend(["--sub-account-role-id".into(), me.id.to_string()]);
                if on {
                    v.push("--enabled".into());
                }
                Do::Args(v)
            };
            if h.s.ch.accts.contains_key(&sub) {
                judge(c, h, "sub:toggle", what, Some(rf), true);
            }
        }
        9 => {
            if h.s.ch.accts.contains_key(&sub) {
                h.s.ch.fund(sub, 5_000_000_000);
            }
            h.net.0.borrow_mut().ch = h.s.ch.clone();
            let n = c.rng.range(1, 6_000_000_000);
            let at = proof_acct(&me.cred, true).map(|m| m.key).unwrap_or(SYSTEM);
            let rf = proved(c, h, withdraw1(&wl, payer, me.id, sub, at, n, None));
            let what = if talk {
                Do::Talk(vec!["Sub Accounts".into(), "Withdraw from sub-account to Swig wallet".into()], vec![], vec![("account address", b58(&sub)), ("amount", n.to_string())])
            } else {
                let mut v = vec!["withdraw-from-sub-account".to_string()];
                v.extend(h.who(c, false));
                v.extend(["--sub-account".into(), b58(&sub), "--amount".into(), n.to_string()]);
                Do::Args(v)
            };
            judge(c, h, "sub:withdraw", what, Some(rf), true);
        }
        _ => {
            if !talk {
                return;
            }
            let (to, n) = (c.rng.key(), c.rng.range(1, 3_000_000_000));
            h.s.ch.fund(to, 1_000_000);
            h.net.0.borrow_mut().ch = h.s.ch.clone();
            let rf = proved(c, h, sign_ixs(&wl, me.id, &[checks::plan::sys_transfer(wl.addr, to, n)]));
            let what = Do::Talk(vec!["Transfer".into()], vec![], vec![("recipient", b58(&to)), ("amount", n.to_string())]);
            judge(c, h, "transfer", what, Some(rf), true);
        }
    }
}
/// generated key pairs belong together
fn pairs(c: &mut Case) {
    let kind = *c.rng.pick(&[ED, EDS, K1T, K1S, R1T, R1S]);
    let mut ctx = context(Keypair::new_from_array(c.rng.key()));
    let mut v: Vec<String> = vec!["generate".into(), "--authority-type".into(), type_name(kind).into()];
    let as_text = c.rng.bool();
    v.extend(["--output-format".into(), if as_text { "text" } else { "json" }.into()]);
    out::take();
    let r = catch_unwind(AssertUnwindSafe(|| command(&mut ctx, &v))).unwrap_or(Err("panicked".into()));
    let text = out::take();
    c.eval(&format!("generate {} {as_text}", kind_name(kind)));
    c.count("generated");
    c.log(format!("{}: {r:?}", v.join(" ")));
    // by the name of the field, in either form
    let get = |name: &str| -> String {
        let flat = text.replace(['{', '}', '"'], "").replace(',', "\n").to_lowercase().replace('_', " ");
        let raw = text.replace(['{', '}', '"'], "").replace(',', "\n");
        for (l, r) in flat.lines().zip(raw.lines()) {
            if l.trim().starts_with(name) {
                if let Some((_, x)) = r.split_once(':') {
                    return x.trim().to_string();
                }
            }
        }
        String::new()
    };
    let (public, private) = (get("public key"), get("private key"));
    let fits = match kind {
        ED | EDS => Keypair::try_from_base58_string(&private).map(|k| k.pubkey().to_string() == public).unwrap_or(false),
        K1T | K1S => match private.parse::<alloy_signer_local::LocalSigner>() {
            Ok(k) => hex(&k.credential().verifying_key().to_encoded_point(false).as_bytes()[1..]) == public && get("eth").to_lowercase() == format!("{:?}", k.address()),
            Err(_) => false,
        },
        // the model's private key is the public key it stands for
        _ => private == public && public.len() == 66,
    };
    if r.is_err() || !fits {
        c.violate(format!("generate:{}", kind_name(kind)), format!("the generated {} pair does not belong together: {r:?} {text}", type_name(kind)));
    }
}

/// keeps what is printed meanwhile off the process's output
pub struct Quiet(i32);
extern "C" {
    fn dup(a: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
impl Quiet {
    pub fn new() -> Quiet {
        use std::os::fd::AsRawFd;
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        unsafe {
            let keep = dup(1);
            dup2(null.as_raw_fd(), 1);
            Quiet(keep)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.0, 1);
        }
    }
}
