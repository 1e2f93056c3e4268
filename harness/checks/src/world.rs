//! A simulated chain with wallets kept in lockstep with their models.
use crate::enc::*;
use crate::model::*;
use crate::report::*;
use crate::util::*;
use rt::programs::{stk, tok};
use rt::*;

pub struct Sim {
    pub ch: Chain,
    pub payer: Key,
    /// program whose instructions authenticate program-exec roles
    pub pe: Key,
    pub wl: Wallet,
}
/// what an accepted step may touch
#[derive(Clone, Debug, Default)]
pub struct Frame {
    /// accounts that may change besides the config account and the payer
    pub may: Vec<Key>,
    /// the wallet's own address may change
    pub wallet: bool,
    /// skip the lamport rules of administration
    pub free: bool,
}
pub const STATE_PROPS: &[&str] = &["A05", "A08", "R05"];

pub fn fresh(c: &mut Case) -> Sim {
    let mut ch = Chain::new();
    ch.slot = *c.rng.pick(&[100u64, 1000, 123_456, 987_654_321]);
    let payer = c.rng.key();
    ch.fund(payer, 1_000_000_000_000);
    let pe = c.rng.key();
    ch.add_program(pe, Prog::Memo);
    let id = c.rng.key();
    Sim { ch, payer, pe, wl: Wallet::plan(&id) }
}

impl Sim {
    pub fn fund_signer(&mut self, k: Key) {
        if !self.ch.exists(&k) {
            self.ch.fund(k, 10_000_000);
        }
    }
    /// creates the wallet; must succeed
    pub fn create(&mut self, c: &mut Case, cred: Cred, acts: Vec<Act>) {
        let ix = create(&self.wl, &cred, &acts, self.payer);
        c.log(format!("slot {} create wallet {} root {:?} actions {}", self.ch.slot, short(&self.wl.id), cred, show(&acts)));
        let o = self.ch.exec1(&ix);
        c.must(&o, "create");
        self.wl.roles.push(Role { id: 0, cred, acts });
        self.wl.counter = 1;
        if let Err(e) = self.wl.check(&self.ch) {
            c.diverge(&["W01", "A05", "A08", "R05"], "state:create", e);
            c.stop();
        }
    }
    pub fn fund_all(&mut self, tx: &Tx) {
        for ix in &tx.ixs {
            for m in &ix.accounts {
                if m.signer {
                    self.fund_signer(m.key);
                }
            }
        }
    }
    pub fn exec(&mut self, c: &mut Case, tx: &Tx) -> Outcome {
        self.fund_all(tx);
        let o = self.ch.exec(&tx.ixs);
        c.count("transactions");
        c.count(if o.ok { "accepted" } else { "rejected" });
        if o.panicked {
            c.count("aborted");
        }
        o
    }
    /// the same instruction, brought by another program instead of the
    /// transaction itself: it must be refused
    pub fn nested(&mut self, c: &mut Case, tx: &Tx) {
        let Some(via) = self.ch.progs.iter().find(|p| *p.1 == rt::Prog::Puppet).map(|p| *p.0) else { return };
        let ix = &tx.ixs[tx.at];
        let n = ix.accounts.len() as u8;
        let idx: Vec<(u8, bool, bool)> = ix.accounts.iter().enumerate().map(|(i, m)| (i as u8, m.signer, m.writable)).collect();
        let mut accounts = ix.accounts.clone();
        accounts.push(rt::r(ix.program));
        let mut ixs = tx.ixs.clone();
        ixs[tx.at] = rt::Ix { program: via, accounts, data: rt::programs::Script::new().cpi(n, &idx, &ix.data).0 };
        let mut ch = self.ch.clone();
        let o = ch.exec(&ixs);
        c.count(if o.ok { "nested_ok" } else { "nested_refused" });
        c.eval(&format!("nested {}", o.err.split(' ').next().unwrap_or("")));
        if o.ok {
            c.diverge(&["C01"], "nested", "an execution brought by another program's call was accepted");
        } else if ch.accts != self.ch.accts {
            c.diverge(&["C01"], "nested:residue", "a refused execution changed accounts");
        }
    }
    pub fn cred(&self, role: u32) -> Cred {
        self.wl.role(role).map(|r| r.cred.clone()).unwrap()
    }
    pub fn cred_opt(&self, role: u32) -> Option<Cred> {
        self.wl.role(role).map(|r| r.cred.clone())
    }
    /// One administrative step in lockstep. `want`: Some(accept?) or None when
    /// the specification leaves it open. Returns whether it was accepted.
    #[allow(clippy::too_many_arguments)]
    pub fn step(
        &mut self,
        c: &mut Case,
        name: &str,
        base: &Base,
        acting: u32,
        main: bool,
        want: Option<bool>,
        props: &[&str],
        fr: Frame,
        apply: impl FnOnce(&mut Wallet, &mut Chain),
    ) -> bool {
        let tx = match self.wl.role(acting) {
            Some(r) => {
                let cred = r.cred.clone();
                if main || !cred.session() {
                    main_proof(self.ch.slot, base, &cred)
                } else {
                    session_proof(base, cred.sess)
                }
            }
            None => session_proof(base, self.payer),
        };
        self.step_tx(c, name, &tx, acting, main, want, props, fr, apply)
    }
    #[allow(clippy::too_many_arguments)]
    pub fn step_tx(
        &mut self,
        c: &mut Case,
        name: &str,
        tx: &Tx,
        acting: u32,
        main: bool,
        want: Option<bool>,
        props: &[&str],
        fr: Frame,
        apply: impl FnOnce(&mut Wallet, &mut Chain),
    ) -> bool {
        self.fund_all(tx);
        let before = self.ch.clone();
        let o = self.exec(c, tx);
        c.log(format!(
            "slot {} {} by role {} -> {}{}",
            self.ch.slot,
            name,
            acting,
            if o.ok { "ok" } else { "refused: " },
            o.err
        ));
        c.count(&format!("{}_{}", name.split(' ').next().unwrap(), if o.ok { "ok" } else { "refused" }));
        let short_name = name.split(' ').next().unwrap().to_string();
        if let Some(wa) = want {
            if wa && !o.ok {
                let mut p = props.to_vec();
                p.push("A01");
                c.diverge(&p, format!("refused:{}", short_name), format!("legal {} was refused: {}", name, o.err));
                return false;
            }
            if !wa && o.ok {
                c.diverge(props, format!("accepted:{}", short_name), format!("{} was accepted although it must be refused", name));
                return true;
            }
        }
        if !o.ok {
            return false;
        }
        // the acting credential's counter
        if let Some(r) = self.wl.role_mut(acting) {
            if r.cred.secp() && (main || !r.cred.session()) {
                r.cred.odo = r.cred.odo.wrapping_add(1);
            }
        }
        apply(&mut self.wl, &mut self.ch);
        if let Err(e) = self.wl.check(&self.ch) {
            let mut p = props.to_vec();
            p.extend(STATE_PROPS);
            c.diverge(&p, format!("state:{}", short_name), format!("after {}: {}", name, e));
            return true;
        }
        self.frame(c, &short_name, &before, &fr, props);
        true
    }
    /// only the accounts an operation is about may change, and lamports move
    /// only as far as rent requires
    pub fn frame(&mut self, c: &mut Case, name: &str, before: &Chain, fr: &Frame, props: &[&str]) {
        let mut p = props.to_vec();
        p.push("W05");
        let mut keys: Vec<Key> = before.accts.keys().cloned().collect();
        keys.extend(self.ch.accts.keys().cloned());
        keys.sort();
        keys.dedup();
        let mut delta: i128 = 0;
        for k in keys {
            let a = before.get(&k);
            let b = self.ch.get(&k);
            if a == b {
                continue;
            }
            delta += b.lamports as i128 - a.lamports as i128;
            let ok = k == self.wl.key || k == self.payer || fr.may.contains(&k) || (fr.wallet && k == self.wl.addr);
            if !ok {
                c.diverge(&p, format!("frame:{}", name), format!("{} changed account {} ({} -> {} lamports)", name, short(&k), a.lamports, b.lamports));
                return;
            }
        }
        if delta != 0 {
            c.diverge(&p, format!("lamports:{}", name), "lamports were not conserved");
            return;
        }
        if fr.free {
            return;
        }
        let (a, b) = (before.get(&self.wl.key), self.ch.get(&self.wl.key));
        if b.lamports < rent_min(b.data.len()) {
            c.diverge(&p, format!("rent:{}", name), format!("{} left the config account below rent exemption ({} < {})", name, b.lamports, rent_min(b.data.len())));
            return;
        }
        // cost to the payer is at most the rent shortfalls
        let mut bound = rent_min(b.data.len()).saturating_sub(a.lamports) as i128;
        for k in &fr.may {
            let (x, y) = (before.get(k), self.ch.get(k));
            bound += rent_min(y.data.len()).saturating_sub(x.lamports) as i128;
        }
        let paid = before.lamports(&self.payer) as i128 - self.ch.lamports(&self.payer) as i128;
        if paid > bound {
            c.diverge(&p, format!("cost:{}", name), format!("{} cost the payer {} lamports, the rent shortfall is {}", name, paid, bound));
            return;
        }
        if b.data.len() >= a.data.len() && b.lamports < a.lamports {
            c.diverge(&p, format!("drain:{}", name), format!("{} took {} lamports out of the config account without shrinking it", name, a.lamports - b.lamports));
        }
    }
    pub fn rent(&self) -> u64 {
        rent_min(self.ch.get(&self.wl.key).data.len())
    }
    pub fn mint(&mut self, c: &mut Case) -> Key {
        let k = c.rng.key();
        self.mint_at(k, token_id());
        k
    }
    pub fn mint_at(&mut self, k: Key, prog: Key) {
        self.ch.accts.insert(k, Acct { lamports: rent_min(82), data: tok::mint_data(6, 1_000_000_000, &[9u8; 32]), owner: prog, executable: false });
    }
    pub fn tok_acct(&mut self, k: Key, mint: &Key, owner: &Key, amount: u64, prog: Key) {
        self.ch.accts.insert(
            k,
            Acct { lamports: rent_min(165), data: tok::acct_data(mint, owner, amount, None), owner: prog, executable: false },
        );
    }
    pub fn stake_acct(&mut self, k: Key, state: u32, auth: &Key, stake: u64, extra: u64) {
        self.ch.accts.insert(
            k,
            Acct { lamports: rent_min(200) + extra, data: stk::data(state, rent_min(200), auth, auth, stake), owner: stake_id(), executable: false },
        );
    }
}
pub fn show(a: &[Act]) -> String {
    let v: Vec<String> = a.iter().map(|x| if x.data.is_empty() { format!("{}", x.kind) } else { format!("{}:{}", x.kind, hex(&x.data)) }).collect();
    format!("[{}]", v.join(" "))
}

pub fn dispatch(cfg: &Cfg, out: &mut Local) -> (&'static str, &'static [&'static str]) {
    match cfg.prop.as_str() {
        "SMOKE" => {
            run_stage(cfg, out, "smoke", 200, std::time::Duration::from_secs(20), &|c| {
                let mut s = fresh(c);
                let k = *c.rng.pick(&KINDS);
                let mut cred = Cred::new(k, &mut c.rng, &s.pe);
                cred.max = 1000;
                s.create(c, cred, vec![a_all()]);
                let (wa, wk) = (s.wl.addr, s.wl.key);
                s.ch.fund(wa, 1_000_000_000);
                let _ = wk;
                if s.cred(0).session() {
                    let key = c.rng.key();
                    let b = create_session(&s.wl, s.payer, 0, 100, &key);
                    let slot = s.ch.slot;
                    s.step(c, "session", &b, 0, true, Some(true), &["SMOKE"], Frame::default(), |w, _| {
                        let r = w.role_mut(0).unwrap();
                        r.cred.sess = key;
                        r.cred.exp = slot + 100;
                    });
                }
                let dest = c.rng.key();
                let t = rt::Ix { program: SYSTEM, accounts: vec![ws(wa), w(dest)], data: [&2u32.to_le_bytes()[..], &5_000_000u64.to_le_bytes()].concat() };
                let b = sign_ixs(&s.wl, 0, &[t]);
                s.step(c, "sign", &b, 0, false, Some(true), &["SMOKE"], Frame { may: vec![dest], wallet: true, free: true }, |_, _| {});
                c.eval(&format!("{}", k));
                let nc = Cred::new(*c.rng.pick(&KINDS), &mut c.rng, &s.pe);
                let acts = vec![a_sol(5), a_mark(MANAGE)];
                let b = add(&s.wl, s.payer, 0, &nc, &acts);
                s.step(c, "add", &b, 0, false, Some(true), &["SMOKE"], Frame::default(), |w, _| {
                    w.roles.push(Role { id: w.counter, cred: nc, acts });
                    w.counter += 1;
                });
            });
            ("smoke", &[])
        }
        p if crate::checks::has(p) => crate::checks::run(cfg, out),
        _ => ("unknown property", &[]),
    }
}

/// a key that is not this one: any, or one that differs from it in a single byte
pub fn near(c: &mut Case, k: &Key) -> Key {
    if c.rng.bool() {
        return c.rng.key();
    }
    let mut o = *k;
    let i = c.rng.below(32);
    o[i] ^= 1 + c.rng.below(255) as u8;
    o
}
