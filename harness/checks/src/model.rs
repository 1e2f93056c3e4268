//! Independent model of a wallet: what the accepted operations so far imply.
use crate::util::*;
use rt::crypto::*;
use rt::*;

pub const ED: u16 = 1;
pub const EDS: u16 = 2;
pub const K1T: u16 = 3;
pub const K1S: u16 = 4;
pub const R1T: u16 = 5;
pub const R1S: u16 = 6;
pub const PE: u16 = 7;
pub const PES: u16 = 8;
pub const KINDS: [u16; 8] = [ED, EDS, K1T, K1S, R1T, R1S, PE, PES];
pub fn kind_name(k: u16) -> &'static str {
    ["?", "Ed25519", "Ed25519Session", "Secp256k1", "Secp256k1Session", "Secp256r1", "Secp256r1Session", "ProgramExec", "ProgramExecSession"]
        [(k as usize).min(8)]
}

// permissions
pub const SOL: u16 = 1;
pub const SOLR: u16 = 2;
pub const PROG: u16 = 3;
pub const SCOPE: u16 = 4;
pub const TOK: u16 = 5;
pub const TOKR: u16 = 6;
pub const ALL: u16 = 7;
pub const MANAGE: u16 = 8;
pub const SUB: u16 = 9;
pub const STK: u16 = 10;
pub const STKR: u16 = 11;
pub const STKALL: u16 = 12;
pub const PROGALL: u16 = 13;
pub const CURATED: u16 = 14;
pub const ALLBUT: u16 = 15;
pub const SOLD: u16 = 16;
pub const SOLRD: u16 = 17;
pub const TOKD: u16 = 18;
pub const TOKRD: u16 = 19;
pub const CLOSE: u16 = 20;
pub const REPL: u16 = 21;
pub const V2CREATE: u16 = 22;
pub const V2ALL: u16 = 23;
pub const V2SIGN: u16 = 24;
pub const V2WD: u16 = 25;
pub const V2TOG: u16 = 26;
pub fn act_len(k: u16) -> usize {
    match k {
        SOL | STK | REPL | V2ALL | V2SIGN | V2WD | V2TOG => 8,
        SOLR | STKR | PROG | CURATED => 32,
        SCOPE => 144,
        TOK | SOLD => 40,
        TOKR | SOLRD => 64,
        SUB | TOKD => 72,
        TOKRD => 96,
        _ => 0,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Act {
    pub kind: u16,
    pub data: Vec<u8>,
}
pub fn act(kind: u16, parts: &[&[u8]]) -> Act {
    let mut data = vec![];
    for p in parts {
        data.extend_from_slice(p);
    }
    debug_assert_eq!(data.len(), act_len(kind), "kind {kind}");
    Act { kind, data }
}
fn u(x: u64) -> [u8; 8] {
    x.to_le_bytes()
}
pub fn a_all() -> Act {
    act(ALL, &[])
}
pub fn a_mark(k: u16) -> Act {
    act(k, &[])
}
pub fn a_sol(x: u64) -> Act {
    act(SOL, &[&u(x)])
}
pub fn a_solr(q: u64, w: u64) -> Act {
    act(SOLR, &[&u(q), &u(w), &u(0), &u(q)])
}
pub fn a_prog(p: &Key) -> Act {
    act(PROG, &[p])
}
pub fn a_tok(m: &Key, x: u64) -> Act {
    act(TOK, &[m, &u(x)])
}
pub fn a_tokr(m: &Key, q: u64, w: u64) -> Act {
    act(TOKR, &[m, &u(w), &u(q), &u(q), &u(0)])
}
pub fn a_sub(role: u32, swig_id: &Key) -> Act {
    // unset grant as a client supplies it
    let mut d = vec![0u8; 72];
    d[36..40].copy_from_slice(&role.to_le_bytes());
    d[40..72].copy_from_slice(swig_id);
    Act { kind: SUB, data: d }
}
pub fn a_stk(x: u64) -> Act {
    act(STK, &[&u(x)])
}
pub fn a_stkr(q: u64, w: u64) -> Act {
    act(STKR, &[&u(q), &u(w), &u(0), &u(q)])
}
pub fn a_curated() -> Act {
    act(CURATED, &[&[0u8; 32]])
}
pub fn a_sold(d: &Key, x: u64) -> Act {
    act(SOLD, &[d, &u(x)])
}
pub fn a_solrd(d: &Key, q: u64, w: u64) -> Act {
    act(SOLRD, &[d, &u(q), &u(w), &u(0), &u(q)])
}
pub fn a_tokd(m: &Key, d: &Key, x: u64) -> Act {
    act(TOKD, &[m, d, &u(x)])
}
pub fn a_tokrd(m: &Key, d: &Key, q: u64, w: u64) -> Act {
    act(TOKRD, &[m, d, &u(q), &u(w), &u(0), &u(q)])
}
pub fn a_repl(role: u32) -> Act {
    act(REPL, &[&role.to_le_bytes(), &[0; 4]])
}
pub fn a_v2(kind: u16, id: u32) -> Act {
    act(kind, &[&id.to_le_bytes(), &[0; 4]])
}
#[allow(clippy::too_many_arguments)]
pub fn a_scope(current: u128, limit: u128, window: u64, last: u64, prog: &Key, target: &Key, st: u64, nt: u64, start: u64, end: u64) -> Act {
    act(
        SCOPE,
        &[&current.to_le_bytes(), &limit.to_le_bytes(), &u(window), &u(last), prog, target, &u(st), &u(nt), &u(start), &u(end)],
    )
}

/// as sent by a client (link fields zero unless stated)
pub fn acts_bytes(a: &[Act]) -> Vec<u8> {
    let mut o = vec![];
    for x in a {
        o.extend_from_slice(&x.kind.to_le_bytes());
        o.extend_from_slice(&(x.data.len() as u16).to_le_bytes());
        o.extend_from_slice(&[0; 4]);
        o.extend_from_slice(&x.data);
    }
    o
}
/// with running boundaries, as a careful client sends them and as stored
pub fn acts_stored(a: &[Act]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    for x in a {
        o.extend_from_slice(&x.kind.to_le_bytes());
        o.extend_from_slice(&(x.data.len() as u16).to_le_bytes());
        let b = (o.len() + 4 + x.data.len()) as u32;
        o.extend_from_slice(&b.to_le_bytes());
        o.extend_from_slice(&x.data);
    }
    o
}

#[derive(Clone)]
pub struct Cred {
    pub kind: u16,
    pub ed: Key,
    pub k1: Option<K1>,
    pub pk33: [u8; 33],
    pub prog: Key,
    pub prefix: Vec<u8>,
    pub odo: u32,
    pub sess: Key,
    pub max: u64,
    pub exp: u64,
    /// create with the long form of the key where the type has one
    pub long: bool,
}
impl std::fmt::Debug for Cred {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}({}, odo {}, max {}, exp {})", kind_name(self.kind), short(&self.ident()), self.odo, self.max, self.exp)
    }
}
impl Cred {
    pub fn new(kind: u16, r: &mut Rng, prog: &Key) -> Cred {
        let seed = r.key();
        let mut c = Cred {
            kind,
            ed: seed,
            k1: None,
            pk33: [0; 33],
            prog: *prog,
            prefix: vec![],
            odo: 0,
            sess: [0; 32],
            max: 0,
            exp: 0,
            long: r.bool(),
        };
        match kind {
            K1T | K1S => {
                let k = K1::from_seed(&seed);
                c.pk33 = k.compressed();
                c.k1 = Some(k);
            }
            R1T | R1S => c.pk33 = r1_pub(&seed),
            PE | PES => {
                // a replacement proof is exactly "rplauth1" + hash; prefix random otherwise
                let n = *r.pick(&[1usize, 2, 3, 4, 8, 13, 39, 40]);
                let mut p = r.bytes(n);
                if p[0] < 2 {
                    p[0] = 2;
                }
                c.prefix = p;
            }
            _ => {}
        }
        if c.session() {
            c.max = *r.pick(&[0u64, 1, 10, 100, 1000, 1 << 40]);
            if r.chance(3, 4) && c.max == 0 {
                c.max = 50;
            }
            if r.bool() {
                c.sess = r.key();
            }
        }
        c
    }
    pub fn session(&self) -> bool {
        matches!(self.kind, EDS | K1S | R1S | PES)
    }
    pub fn secp(&self) -> bool {
        matches!(self.kind, K1T | K1S | R1T | R1S)
    }
    pub fn ident(&self) -> Vec<u8> {
        match self.kind {
            ED | EDS => self.ed.to_vec(),
            PE | PES => self.prog.to_vec(),
            _ => self.pk33.to_vec(),
        }
    }
    fn xy(&self) -> [u8; 64] {
        self.k1.as_ref().unwrap().uncompressed()[1..].try_into().unwrap()
    }
    /// bytes that ask for this authority to be created
    pub fn create_data(&self) -> Vec<u8> {
        let mut o = vec![];
        match self.kind {
            ED => o.extend_from_slice(&self.ed),
            EDS => {
                o.extend_from_slice(&self.ed);
                o.extend_from_slice(&self.sess);
                o.extend_from_slice(&u(self.max));
            }
            K1T => {
                if self.long {
                    o.extend_from_slice(&self.xy())
                } else {
                    o.extend_from_slice(&self.pk33)
                }
            }
            K1S => {
                if self.long {
                    o.extend_from_slice(&self.xy());
                } else {
                    o.extend_from_slice(&self.pk33);
                    o.extend_from_slice(&[0; 31]);
                }
                o.extend_from_slice(&self.sess);
                o.extend_from_slice(&u(self.max));
            }
            R1T => o.extend_from_slice(&self.pk33),
            R1S => {
                o.extend_from_slice(&self.pk33);
                o.extend_from_slice(&[0; 7]);
                o.extend_from_slice(&self.sess);
                o.extend_from_slice(&u(self.max));
            }
            PE | PES => {
                o.extend_from_slice(&self.prog);
                o.push(self.prefix.len() as u8);
                o.extend_from_slice(&[0; 7]);
                o.extend_from_slice(&self.prefix);
                o.resize(80, 0);
                if self.kind == PES {
                    o.extend_from_slice(&self.sess);
                    o.extend_from_slice(&u(self.max));
                    o.extend_from_slice(&u(0));
                }
            }
            _ => {}
        }
        o
    }
    /// bytes of this authority as the documented layout stores it
    pub fn stored(&self) -> Vec<u8> {
        let mut o = vec![];
        match self.kind {
            ED => o.extend_from_slice(&self.ed),
            EDS => {
                o.extend_from_slice(&self.ed);
                o.extend_from_slice(&self.sess);
                o.extend_from_slice(&u(self.max));
                o.extend_from_slice(&u(self.exp));
            }
            K1T | R1T => {
                o.extend_from_slice(&self.pk33);
                o.extend_from_slice(&[0; 3]);
                o.extend_from_slice(&self.odo.to_le_bytes());
            }
            K1S | R1S => {
                o.extend_from_slice(&self.pk33);
                o.extend_from_slice(&[0; 3]);
                o.extend_from_slice(&self.odo.to_le_bytes());
                o.extend_from_slice(&self.sess);
                o.extend_from_slice(&u(self.max));
                o.extend_from_slice(&u(self.exp));
            }
            PE | PES => {
                o.extend_from_slice(&self.prog);
                o.push(self.prefix.len() as u8);
                o.extend_from_slice(&[0; 7]);
                o.extend_from_slice(&self.prefix);
                o.resize(80, 0);
                if self.kind == PES {
                    o.extend_from_slice(&self.sess);
                    o.extend_from_slice(&u(self.max));
                    o.extend_from_slice(&u(self.exp));
                }
            }
            _ => {}
        }
        o
    }
    /// bytes a client passes to look the role up by authority
    pub fn lookup(&self) -> Vec<u8> {
        match self.kind {
            ED | EDS => self.ed.to_vec(),
            PE => self.stored(),
            PES => {
                let mut o = self.prog.to_vec();
                o.push(self.prefix.len() as u8);
                o.extend_from_slice(&self.prefix);
                o
            }
            _ => self.pk33.to_vec(),
        }
    }
    pub fn live(&self, slot: u64) -> bool {
        self.session() && slot <= self.exp
    }
}

#[derive(Clone, Debug)]
pub struct Role {
    pub id: u32,
    pub cred: Cred,
    pub acts: Vec<Act>,
}
impl Role {
    pub fn has(&self, k: u16) -> bool {
        self.acts.iter().any(|a| a.kind == k)
    }
    pub fn has_id(&self, k: u16, id: u32) -> bool {
        self.acts.iter().any(|a| a.kind == k && le32(&a.data) == id)
    }
    /// the role's V1 sub-account grant as stored: (address, enabled) once created
    pub fn sub1(&self) -> Option<(Key, bool)> {
        self.acts.iter().find(|a| a.kind == SUB && a.data[..32] != [0u8; 32]).map(|a| (a.data[..32].try_into().unwrap(), a.data[33] == 1))
    }
    pub fn v2(&self, kind: u16, id: u32) -> bool {
        self.has_id(V2ALL, id) || self.has_id(kind, id)
    }
    pub fn manager(&self) -> bool {
        self.has(ALL) || self.has(MANAGE)
    }
}

#[derive(Clone, Debug)]
pub struct Sub2 {
    pub id: u32,
    pub state: Key,
    pub sbump: u8,
    pub asset: Key,
    pub abump: u8,
    pub enabled: bool,
}

impl Sub2 {
    pub fn bytes(&self, id: &Key) -> Vec<u8> {
        let mut o = vec![2u8, self.sbump, self.abump, self.enabled as u8];
        o.extend_from_slice(&self.id.to_le_bytes());
        o.extend_from_slice(id);
        o.extend_from_slice(&self.asset);
        o
    }
}
#[derive(Clone, Debug)]
pub struct Wallet {
    pub id: Key,
    pub key: Key,
    pub bump: u8,
    pub addr: Key,
    pub abump: u8,
    /// stored wallet bump (0 in the old format)
    pub wbump: u8,
    pub roles: Vec<Role>,
    pub counter: u32,
    pub subs: u32,
    pub sub2: Vec<Sub2>,
    pub claimer: Option<Key>,
    pub closed: bool,
    /// header tail of a wallet in the old format
    pub legacy: Option<[u8; 8]>,
}
pub fn swig_pda(id: &Key) -> (Key, u8) {
    find_pda(&[b"swig", id], &swig_id()).unwrap()
}
pub fn addr_pda(swig: &Key) -> (Key, u8) {
    find_pda(&[b"swig-wallet-address", swig], &swig_id()).unwrap()
}
pub fn sub1_pda(id: &Key, role: u32) -> (Key, u8) {
    find_pda(&[b"sub-account", id, &role.to_le_bytes()], &swig_id()).unwrap()
}
pub fn sub2_state_pda(id: &Key, sid: u32) -> (Key, u8) {
    find_pda(&[b"sub-account-v2-state", id, &sid.to_le_bytes()], &swig_id()).unwrap()
}
pub fn sub2_asset_pda(id: &Key, sid: u32) -> (Key, u8) {
    find_pda(&[b"sub-account-v2", id, &sid.to_le_bytes()], &swig_id()).unwrap()
}

pub fn sub2_asset_seeds(id: &Key, sid: u32, bump: u8) -> Vec<Vec<u8>> {
    vec![b"sub-account-v2".to_vec(), id.to_vec(), sid.to_le_bytes().to_vec(), vec![bump]]
}

pub fn tail_bytes(c: &Key) -> Vec<u8> {
    let mut o = vec![1u8, 1, 32, 0, 0, 0, 0, 0];
    o.extend_from_slice(c);
    o
}

impl Wallet {
    pub fn plan(id: &Key) -> Wallet {
        let (key, bump) = swig_pda(id);
        let (addr, abump) = addr_pda(&key);
        Wallet {
            id: *id,
            key,
            bump,
            addr,
            abump,
            wbump: abump,
            roles: vec![],
            counter: 0,
            subs: 0,
            sub2: vec![],
            claimer: None,
            closed: false,
            legacy: None,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        if self.closed {
            return vec![255];
        }
        let mut o = vec![1u8, self.bump];
        o.extend_from_slice(&self.id);
        o.extend_from_slice(&(self.roles.len() as u16).to_le_bytes());
        o.extend_from_slice(&self.counter.to_le_bytes());
        match self.legacy {
            Some(x) => o.extend_from_slice(&x),
            None => {
                o.extend_from_slice(&[self.wbump, 0, 0, 0]);
                o.extend_from_slice(&self.subs.to_le_bytes());
            }
        }
        let base = o.len();
        for r in &self.roles {
            let auth = r.cred.stored();
            let acts = acts_stored(&r.acts);
            let end = o.len() - base + 16 + auth.len() + acts.len();
            o.extend_from_slice(&r.cred.kind.to_le_bytes());
            o.extend_from_slice(&(auth.len() as u16).to_le_bytes());
            o.extend_from_slice(&(r.acts.len() as u16).to_le_bytes());
            o.extend_from_slice(&[0; 2]);
            o.extend_from_slice(&r.id.to_le_bytes());
            o.extend_from_slice(&(end as u32).to_le_bytes());
            o.extend_from_slice(&auth);
            o.extend_from_slice(&acts);
        }
        if let Some(c) = &self.claimer {
            o.extend_from_slice(&tail_bytes(c));
        }
        o
    }
    pub fn idx(&self, id: u32) -> Option<usize> {
        self.roles.iter().position(|r| r.id == id)
    }
    pub fn role(&self, id: u32) -> Option<&Role> {
        self.roles.iter().find(|r| r.id == id)
    }
    pub fn role_mut(&mut self, id: u32) -> Option<&mut Role> {
        self.roles.iter_mut().find(|r| r.id == id)
    }
    /// compares the stored config account with the model
    pub fn check(&self, ch: &Chain) -> Result<(), String> {
        let a = ch.get(&self.key);
        let want = self.bytes();
        if self.closed {
            if a.data.first() != Some(&255) || a.owner != swig_id() {
                return Err(format!("closed wallet account not marked closed: {:?}", a.data.first()));
            }
            return Ok(());
        }
        if a.owner != swig_id() {
            return Err("config account owner changed".into());
        }
        if a.data.len() < want.len() {
            return Err(format!("config account too short: {} < {}", a.data.len(), want.len()));
        }
        if a.data[..want.len()] != want[..] {
            return Err(self.diff(&a.data));
        }
        if a.data[want.len()..].iter().any(|b| *b != 0) {
            return Err("bytes after the roles and tail are not zero".into());
        }
        for x in &self.sub2 {
            let a = ch.get(&x.state);
            if a.owner != swig_id() || a.data != x.bytes(&self.id) {
                return Err(format!("state of sub-account {} differs from the model: {}", x.id, hex(&a.data)));
            }
        }
        Ok(())
    }
    pub fn diff(&self, got: &[u8]) -> String {
        let want = self.bytes();
        let i = (0..want.len().min(got.len())).find(|i| want[*i] != got[*i]).unwrap_or(want.len());
        let lo = i.saturating_sub(8);
        let hi = (i + 24).min(want.len()).min(got.len());
        let place = if i < 48 {
            "header".to_string()
        } else {
            let mut p = 48;
            let mut s = "tail".to_string();
            for r in &self.roles {
                let l = 16 + r.cred.stored().len() + acts_stored(&r.acts).len();
                if i < p + l {
                    s = format!("role {} (kind {}, offset {} in role)", r.id, kind_name(r.cred.kind), i - p);
                    break;
                }
                p += l;
            }
            s
        };
        format!(
            "config account differs from the model at byte {} [{}]: want ..{}.. got ..{}..",
            i,
            place,
            hex(&want[lo..hi.max(lo)]),
            hex(&got[lo..hi.max(lo)])
        )
    }
}
