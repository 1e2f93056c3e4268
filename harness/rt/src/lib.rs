//! A mock Solana runtime that executes the real swig program natively.
//!
//! It models: account storage, atomic transactions, merged signer/writable
//! privileges, CPI with privilege checks and PDA signers, owner-only writes,
//! lamport conservation, rent-state transitions, account resizing limits, the
//! sysvars and syscalls swig uses, and the builtin/SPL programs swig talks to.
//! Everything that happens is written to an event log the monitors read.
pub mod crypto;
pub mod programs;
pub mod sysc;
use std::cell::Cell;
use std::collections::BTreeMap;

pub type Key = [u8; 32];

pub fn k58(s: &str) -> Key {
    let v = bs58::decode(s).into_vec().unwrap();
    v.try_into().unwrap()
}
macro_rules! keyfn {
    ($n:ident, $s:expr) => {
        pub fn $n() -> Key {
            use std::sync::OnceLock;
            static C: OnceLock<Key> = OnceLock::new();
            *C.get_or_init(|| k58($s))
        }
    };
}
keyfn!(swig_id, "swigypWHEksbC64pWKwah1WTeh9JXwx8H1rJHLdbQMB");
keyfn!(token_id, "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
keyfn!(token22_id, "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
keyfn!(stake_id, "Stake11111111111111111111111111111111111111");
keyfn!(r1_id, "Secp256r1SigVerify1111111111111111111111111");
keyfn!(ixs_sysvar_id, "Sysvar1nstructions1111111111111111111111111");
keyfn!(sysvar_owner, "Sysvar1111111111111111111111111111111111111");
keyfn!(native_mint, "So11111111111111111111111111111111111111112");
keyfn!(native_loader, "NativeLoader1111111111111111111111111111111");
keyfn!(rent_sysvar_id, "SysvarRent111111111111111111111111111111111");
keyfn!(clock_sysvar_id, "SysvarC1ock11111111111111111111111111111111");
keyfn!(memo_id, "MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr");
pub const SYSTEM: Key = [0u8; 32];

pub const MAX_INCREASE: usize = 10240;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Key,
    pub executable: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Meta {
    pub key: Key,
    pub signer: bool,
    pub writable: bool,
}
pub fn w(key: Key) -> Meta {
    Meta { key, signer: false, writable: true }
}
pub fn r(key: Key) -> Meta {
    Meta { key, signer: false, writable: false }
}
pub fn ws(key: Key) -> Meta {
    Meta { key, signer: true, writable: true }
}
pub fn rs(key: Key) -> Meta {
    Meta { key, signer: true, writable: false }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ix {
    pub program: Key,
    pub accounts: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Enter {
        depth: usize,
        program: Key,
        metas: Vec<Meta>,
        data: Vec<u8>,
        pda_signers: Vec<Key>,
    },
    Exit {
        depth: usize,
        program: Key,
        ok: bool,
        watch: Vec<Acct>,
    },
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub failed_ix: usize,
    pub events: Vec<Ev>,
    pub panicked: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prog {
    Swig,
    System,
    Token,
    Stake,
    R1,
    Puppet,
    Memo,
}

#[derive(Clone)]
pub struct Chain {
    pub accts: BTreeMap<Key, Acct>,
    pub progs: BTreeMap<Key, Prog>,
    pub slot: u64,
    pub unix_ts: i64,
    pub watch: Vec<Key>,
    /// counts program executions over the chain's life (evidence)
    pub n_tx: u64,
    pub n_ix: u64,
    pub n_cpi: u64,
}

pub fn rent_min(len: usize) -> u64 {
    (128 + len as u64) * 3480 * 2
}

pub struct Frame {
    pub program: Key,
    pub metas: Vec<Meta>,
    /// buffer offset of each *unique* account (first occurrence)
    pub buf: Option<InputBuf>,
    pub sum: u128,
}

pub struct InputBuf {
    pub mem: Vec<u64>,
    /// (key, offset of raw Account, original data length)
    pub accts: Vec<(Key, usize, usize)>,
}

pub type R<T> = Result<T, String>;
fn er<T>(s: &str) -> R<T> {
    Err(s.to_string())
}

pub struct Exec<'c> {
    pub chain: &'c mut Chain,
    pub frames: Vec<Frame>,
    pub events: Vec<Ev>,
    pub return_data: (Key, Vec<u8>),
    pub tx_ixs: Vec<Ix>,
    pub panicked: bool,
}

thread_local! {
    pub static CUR: Cell<*mut Exec<'static>> = const { Cell::new(std::ptr::null_mut()) };
    pub static QUIET: Cell<bool> = const { Cell::new(true) };
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// called before each transaction; executions it makes itself are not reported
pub type Tap = Box<dyn FnMut(&Chain, &[Ix])>;
thread_local! {
    pub static TAP: std::cell::RefCell<Option<Tap>> = const { std::cell::RefCell::new(None) };
}

/// Under the address sanitizer, the bytes between accounts are off limits.
pub mod san {
    #[cfg(swig_asan)]
    extern "C" {
        fn __asan_poison_memory_region(p: *const u8, n: usize);
        fn __asan_unpoison_memory_region(p: *const u8, n: usize);
    }
    pub const ON: bool = cfg!(swig_asan);
    pub fn hide(_p: *const u8, _n: usize) {
        #[cfg(swig_asan)]
        unsafe {
            __asan_poison_memory_region(_p, _n)
        }
    }
    pub fn show(_p: *const u8, _n: usize) {
        #[cfg(swig_asan)]
        unsafe {
            __asan_unpoison_memory_region(_p, _n)
        }
    }
    #[no_mangle]
    pub extern "C" fn swig_resized(data: *mut u8, old: usize, new: usize) {
        if new > old {
            show(unsafe { data.add(old) }, new - old);
        } else {
            hide(unsafe { data.add(new) }, old - new);
        }
    }
}

/// What memory holds before it is written: fresh heap memory (under the
/// sanitizer) and the stack below the program's entry point.
pub mod fill {
    use std::cell::Cell;
    thread_local! {
        static BYTE: Cell<Option<u8>> = const { Cell::new(None) };
    }
    pub fn set(b: Option<u8>) {
        BYTE.with(|x| x.set(b));
    }
    pub fn get() -> Option<u8> {
        BYTE.with(|x| x.get())
    }
    pub fn stack() {
        if let Some(b) = get() {
            smear(b);
        }
    }
    #[inline(never)]
    fn smear(b: u8) {
        let mut a = std::mem::MaybeUninit::<[u8; 200_000]>::uninit();
        unsafe { std::ptr::write_bytes(a.as_mut_ptr() as *mut u8, b, 200_000) };
        std::hint::black_box(&mut a);
    }
    #[cfg(swig_asan)]
    struct Heap;
    #[cfg(swig_asan)]
    unsafe impl std::alloc::GlobalAlloc for Heap {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            let p = std::alloc::System.alloc(l);
            if let (Some(b), false) = (get(), p.is_null()) {
                std::ptr::write_bytes(p, b, l.size());
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            std::alloc::System.dealloc(p, l)
        }
    }
    #[cfg(swig_asan)]
    #[global_allocator]
    static HEAP: Heap = Heap;
}

/// payload used to abort native execution of a program when a CPI fails
pub struct Abort(pub String);

thread_local! {
    /// the source file of this thread's last panic
    static NATIVE_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// where this thread panicked, when that is in the code under test
pub fn panicked_in_repo() -> Option<String> {
    let f = NATIVE_PANIC.with(|l| l.borrow().clone());
    f.split_once("/repo/").map(|x| x.1.to_string())
}
pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let inside = CUR.with(|c| !c.get().is_null());
        let at = i.location().map_or(String::new(), |l| l.file().to_string());
        NATIVE_PANIC.with(|l| *l.borrow_mut() = at.clone());
        if inside {
            LAST_PANIC.with(|l| *l.borrow_mut() = format!("{}", i));
        } else if !at.contains("/repo/") {
            def(i);
        }
    }));
}

impl Chain {
    pub fn new() -> Self {
        let mut c = Chain {
            accts: BTreeMap::new(),
            progs: BTreeMap::new(),
            slot: 1000,
            unix_ts: 1_700_000_000,
            watch: vec![],
            n_tx: 0,
            n_ix: 0,
            n_cpi: 0,
        };
        for (k, p) in [
            (swig_id(), Prog::Swig),
            (SYSTEM, Prog::System),
            (token_id(), Prog::Token),
            (token22_id(), Prog::Token),
            (stake_id(), Prog::Stake),
            (r1_id(), Prog::R1),
            (memo_id(), Prog::Memo),
        ] {
            c.add_program(k, p);
        }
        c
    }
    pub fn add_program(&mut self, k: Key, p: Prog) {
        self.progs.insert(k, p);
        self.accts.insert(
            k,
            Acct { lamports: 1, data: vec![1, 2, 3, 4], owner: native_loader(), executable: true },
        );
    }
    pub fn fund(&mut self, k: Key, lamports: u64) {
        let a = self.accts.entry(k).or_default();
        a.lamports += lamports;
    }
    pub fn set_lamports(&mut self, k: Key, lamports: u64) {
        self.accts.entry(k).or_default().lamports = lamports;
    }
    pub fn get(&self, k: &Key) -> Acct {
        self.accts.get(k).cloned().unwrap_or_default()
    }
    pub fn lamports(&self, k: &Key) -> u64 {
        self.accts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn data(&self, k: &Key) -> Vec<u8> {
        self.accts.get(k).map(|a| a.data.clone()).unwrap_or_default()
    }
    pub fn exists(&self, k: &Key) -> bool {
        self.accts.get(k).map(|a| a.lamports > 0).unwrap_or(false)
    }

    /// Executes a transaction atomically.
    pub fn exec(&mut self, ixs: &[Ix]) -> Outcome {
        if let Some(mut t) = TAP.with(|t| t.borrow_mut().take()) {
            t(self, ixs);
            TAP.with(|x| *x.borrow_mut() = Some(t));
        }
        let before = self.accts.clone();
        self.n_tx += 1;
        // merge privileges as the message compiler does
        let mut flags: BTreeMap<Key, (bool, bool)> = BTreeMap::new();
        for ix in ixs {
            for m in &ix.accounts {
                let e = flags.entry(m.key).or_insert((false, false));
                e.0 |= m.signer;
                e.1 |= m.writable;
            }
        }
        // program ids and sysvars are demoted to read-only by the runtime
        for (k, f) in flags.iter_mut() {
            if self.progs.contains_key(k) || *k == ixs_sysvar_id() || *k == rent_sysvar_id() || *k == clock_sysvar_id() {
                f.1 = false;
            }
        }
        let ixs: Vec<Ix> = ixs
            .iter()
            .map(|ix| Ix {
                program: ix.program,
                data: ix.data.clone(),
                accounts: ix
                    .accounts
                    .iter()
                    .map(|m| Meta { key: m.key, signer: flags[&m.key].0, writable: flags[&m.key].1 })
                    .collect(),
            })
            .collect();
        // instructions sysvar
        self.accts.insert(
            ixs_sysvar_id(),
            Acct { lamports: 1, data: ser_sysvar(&ixs), owner: sysvar_owner(), executable: false },
        );
        let mut ex = Exec {
            chain: self,
            frames: vec![],
            events: vec![],
            return_data: (SYSTEM, vec![]),
            tx_ixs: ixs.clone(),
            panicked: false,
        };
        let mut res: R<()> = Ok(());
        let mut failed = usize::MAX;
        for (i, ix) in ixs.iter().enumerate() {
            let s = ex.chain.accts.get_mut(&ixs_sysvar_id()).unwrap();
            let n = s.data.len();
            s.data[n - 2..].copy_from_slice(&(i as u16).to_le_bytes());
            if let Err(e) = ex.run_ix(&ix.program, ix.accounts.clone(), &ix.data, vec![]) {
                res = Err(e);
                failed = i;
                break;
            }
        }
        let events = std::mem::take(&mut ex.events);
        let panicked = ex.panicked;
        drop(ex);
        self.accts.remove(&ixs_sysvar_id());
        if res.is_ok() {
            // rent state transitions
            let touched: Vec<Key> = flags.iter().filter(|x| x.1 .1).map(|x| *x.0).collect();
            if !self.rent_ok(&before, &touched) {
                res = Err("InsufficientFundsForRent".into());
                failed = ixs.len();
            }
        }
        let err = match res {
            Ok(()) => {
                self.accts.retain(|_, a| a.lamports > 0);
                String::new()
            }
            Err(e) => {
                self.accts = before;
                e
            }
        };
        Outcome { ok: err.is_empty(), err, failed_ix: failed, events, panicked }
    }
    /// the runtime's rent-state rule at the end of a transaction
    pub fn rent_ok(&self, before: &BTreeMap<Key, Acct>, touched: &[Key]) -> bool {
        for k in touched {
            let post = self.get(k);
            let pre = before.get(k).cloned().unwrap_or_default();
            let exempt = |a: &Acct| a.lamports >= rent_min(a.data.len());
            if post.lamports == 0 || exempt(&post) {
                continue;
            }
            let pre_paying = pre.lamports > 0 && !exempt(&pre);
            if !(pre_paying && pre.data.len() == post.data.len() && post.lamports <= pre.lamports) {
                return false;
            }
        }
        true
    }
    /// Runs instructions one after another as calls of `caller` with the rights
    /// of `outer` and one derived signer, without the caller's own code.
    /// Returns the accounts after each of them.
    pub fn reference(&mut self, caller: &Key, outer: &[Meta], ixs: &[Ix], seeds: &[Vec<u8>]) -> Result<Vec<BTreeMap<Key, Acct>>, String> {
        let mut snaps = vec![];
        let mut ex = Exec { chain: self, frames: vec![], events: vec![], return_data: (SYSTEM, vec![]), tx_ixs: vec![], panicked: false };
        let sum = ex.sum(outer);
        ex.frames.push(Frame { program: *caller, metas: outer.to_vec(), buf: None, sum });
        for ix in ixs {
            ex.cpi(&ix.program, &ix.accounts, &ix.data, &[seeds.to_vec()], None)?;
            snaps.push(ex.chain.accts.clone());
        }
        Ok(snaps)
    }
    pub fn exec1(&mut self, ix: &Ix) -> Outcome {
        self.exec(std::slice::from_ref(ix))
    }
}

pub fn ser_sysvar(ixs: &[Ix]) -> Vec<u8> {
    let mut out = Vec::new();
    out.extend_from_slice(&(ixs.len() as u16).to_le_bytes());
    let off_pos = out.len();
    out.resize(out.len() + 2 * ixs.len(), 0);
    for (i, ix) in ixs.iter().enumerate() {
        let start = out.len() as u16;
        out[off_pos + 2 * i..off_pos + 2 * i + 2].copy_from_slice(&start.to_le_bytes());
        out.extend_from_slice(&(ix.accounts.len() as u16).to_le_bytes());
        for m in &ix.accounts {
            out.push((m.signer as u8) | ((m.writable as u8) << 1));
            out.extend_from_slice(&m.key);
        }
        out.extend_from_slice(&ix.program);
        out.extend_from_slice(&(ix.data.len() as u16).to_le_bytes());
        out.extend_from_slice(&ix.data);
    }
    out.extend_from_slice(&[0, 0]);
    out
}

impl<'c> Exec<'c> {
    pub fn a(&mut self, k: &Key) -> &mut Acct {
        self.chain.accts.entry(*k).or_default()
    }
    fn sum(&mut self, metas: &[Meta]) -> u128 {
        let mut seen: Vec<Key> = vec![];
        let mut s = 0u128;
        for m in metas {
            if !seen.contains(&m.key) {
                seen.push(m.key);
                s += self.chain.accts.get(&m.key).map(|a| a.lamports).unwrap_or(0) as u128;
            }
        }
        s
    }
    pub fn run_ix(&mut self, program: &Key, mut metas: Vec<Meta>, data: &[u8], pda_signers: Vec<Key>) -> R<()> {
        if self.frames.len() >= 5 {
            return er("CallDepth");
        }
        let contains = self.frames.iter().any(|f| f.program == *program);
        if contains && self.frames.last().map(|f| f.program) != Some(*program) {
            return er("ReentrancyNotAllowed");
        }
        let kind = match self.chain.progs.get(program) {
            Some(k) => *k,
            None => return er("UnsupportedProgramId"),
        };
        // merge duplicate metas
        for i in 0..metas.len() {
            for j in 0..metas.len() {
                if metas[j].key == metas[i].key {
                    let (s, wr) = (metas[j].signer, metas[j].writable);
                    metas[i].signer |= s;
                    metas[i].writable |= wr;
                }
            }
        }
        self.chain.n_ix += 1;
        if !self.frames.is_empty() {
            self.chain.n_cpi += 1;
        }
        let sum = self.sum(&metas);
        let depth = self.frames.len() + 1;
        self.events.push(Ev::Enter {
            depth,
            program: *program,
            metas: metas.clone(),
            data: data.to_vec(),
            pda_signers,
        });
        self.return_data = (SYSTEM, vec![]);
        self.frames.push(Frame { program: *program, metas: metas.clone(), buf: None, sum });
        let res = match kind {
            Prog::Swig => self.run_swig(&metas, data),
            Prog::System => programs::system(self, &metas, data),
            Prog::Token => programs::token(self, &metas, data),
            Prog::Stake => programs::stake(self, &metas, data),
            Prog::R1 => programs::r1(self, data),
            Prog::Puppet => programs::puppet(self, &metas, data),
            Prog::Memo => Ok(()),
        };
        let res = res.and_then(|_| {
            let s = self.sum(&metas);
            if s != sum {
                return er("UnbalancedInstruction");
            }
            Ok(())
        });
        self.frames.pop();
        let watch: Vec<Acct> = self.chain.watch.clone().iter().map(|k| self.chain.get(k)).collect();
        self.events.push(Ev::Exit { depth, program: *program, ok: res.is_ok(), watch });
        res
    }

    fn run_swig(&mut self, metas: &[Meta], data: &[u8]) -> R<()> {
        let program = swig_id();
        if metas.len() > 255 {
            return er("MaxAccountsExceeded");
        }
        // serialize
        let mut size = 8usize;
        for m in metas {
            size += 96 + self.chain.accts.get(&m.key).map(|a| a.data.len()).unwrap_or(0) + MAX_INCREASE + 16;
        }
        size += 8 + data.len() + 32;
        let mut mem: Vec<u64> = vec![0; size / 8 + 4];
        let base = mem.as_mut_ptr() as *mut u8;
        let buf: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(base, mem.len() * 8) };
        buf[0..8].copy_from_slice(&(metas.len() as u64).to_le_bytes());
        let mut p = 8usize;
        let mut list: Vec<(Key, usize, usize, usize)> = vec![]; // key, off, len, index
        for (i, m) in metas.iter().enumerate() {
            if let Some(d) = list.iter().find(|x| x.0 == m.key) {
                buf[p] = d.3 as u8;
                p += 8;
                continue;
            }
            let a = self.chain.get(&m.key);
            let off = p;
            buf[p] = 0xff;
            buf[p + 1] = m.signer as u8;
            buf[p + 2] = m.writable as u8;
            buf[p + 3] = a.executable as u8;
            p += 8;
            buf[p..p + 32].copy_from_slice(&m.key);
            p += 32;
            buf[p..p + 32].copy_from_slice(&a.owner);
            p += 32;
            buf[p..p + 8].copy_from_slice(&a.lamports.to_le_bytes());
            p += 8;
            buf[p..p + 8].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
            p += 8;
            buf[p..p + a.data.len()].copy_from_slice(&a.data);
            p += a.data.len() + MAX_INCREASE;
            p = (p + 7) & !7;
            buf[p..p + 8].copy_from_slice(&u64::MAX.to_le_bytes()); // rent epoch
            p += 8;
            list.push((m.key, off, a.data.len(), i));
            // up to the rent epoch
            let end = off + 88 + a.data.len();
            san::hide(unsafe { base.add(end) }, p - 8 - end);
        }
        buf[p..p + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
        p += 8;
        buf[p..p + data.len()].copy_from_slice(data);
        p += data.len();
        buf[p..p + 32].copy_from_slice(&program);
        // the program does not ask for its own address
        san::hide(unsafe { base.add(p) }, 32);
        let me = self.frames.len() - 1;
        self.frames[me].buf = Some(InputBuf { mem, accts: list.iter().map(|x| (x.0, x.1, x.2)).collect() });

        let prev = CUR.with(|c| c.replace(self as *mut Exec<'_> as *mut Exec<'static>));
        fill::stack();
        let r = std::panic::catch_unwind(|| unsafe {
            let ctx = pinocchio::entrypoint::InstructionContext::new_unchecked(base);
            swig::process_instruction(ctx)
        });
        CUR.with(|c| c.set(prev));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                let code: u64 = e.into();
                return Err(format!("swig error {:#x}", code));
            }
            Err(p) => {
                if let Some(a) = p.downcast_ref::<Abort>() {
                    return Err(a.0.clone());
                }
                self.panicked = true;
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                return Err(format!("panic: {}", m));
            }
        }
        self.flush(me, None)
    }

    /// Copies the program's view of its accounts back, enforcing the runtime's
    /// write rules. `only`: restrict to these keys (before a CPI).
    pub fn flush(&mut self, fi: usize, only: Option<&[Key]>) -> R<()> {
        let program = self.frames[fi].program;
        let metas = self.frames[fi].metas.clone();
        let b = match &self.frames[fi].buf {
            Some(b) => b,
            None => return Ok(()),
        };
        let bytes: &[u8] =
            unsafe { std::slice::from_raw_parts(b.mem.as_ptr() as *const u8, b.mem.len() * 8) };
        let mut ups: Vec<(Key, Acct)> = vec![];
        for (k, off, orig) in &b.accts {
            if let Some(o) = only {
                if !o.contains(k) {
                    continue;
                }
            }
            let o = *off;
            let owner: Key = bytes[o + 40..o + 72].try_into().unwrap();
            let lamports = u64::from_le_bytes(bytes[o + 72..o + 80].try_into().unwrap());
            let len = u64::from_le_bytes(bytes[o + 80..o + 88].try_into().unwrap()) as usize;
            if len > orig + MAX_INCREASE {
                return er("InvalidRealloc");
            }
            let data = &bytes[o + 88..o + 88 + len];
            let cur = self.chain.accts.get(k).cloned().unwrap_or_default();
            let m = metas.iter().find(|m| m.key == *k).unwrap();
            if cur.lamports == lamports && cur.data == data && cur.owner == owner {
                continue;
            }
            let mut na = cur.clone();
            if cur.lamports != lamports {
                if lamports < cur.lamports && cur.owner != program {
                    return er("ExternalAccountLamportSpend");
                }
                if !m.writable {
                    return er("ReadonlyLamportChange");
                }
                if cur.executable {
                    return er("ExecutableLamportChange");
                }
                na.lamports = lamports;
            }
            if cur.data != data {
                if cur.executable {
                    return er("ExecutableDataModified");
                }
                if !m.writable {
                    return er("ReadonlyDataModified");
                }
                if cur.owner != program {
                    return er(if cur.data.len() != len { "AccountDataSizeChanged" } else { "ExternalAccountDataModified" });
                }
                na.data = data.to_vec();
            }
            if cur.owner != owner {
                if cur.owner != program || !m.writable || cur.executable || na.data.iter().any(|b| *b != 0) {
                    return er("ModifiedProgramId");
                }
                na.owner = owner;
            }
            ups.push((*k, na));
        }
        for (k, a) in ups {
            self.chain.accts.insert(k, a);
        }
        Ok(())
    }
    /// After a CPI: copies the accounts' new state into the caller's buffer.
    pub fn refresh(&mut self, fi: usize, keys: &[Key]) -> R<()> {
        let chain_get: Vec<(Key, Acct)> = keys.iter().map(|k| (*k, self.chain.get(k))).collect();
        let b = match &mut self.frames[fi].buf {
            Some(b) => b,
            None => return Ok(()),
        };
        let n = b.mem.len() * 8;
        let bytes: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(b.mem.as_mut_ptr() as *mut u8, n) };
        for (k, a) in chain_get {
            if let Some((_, off, orig)) = b.accts.iter().find(|x| x.0 == k) {
                let o = *off;
                if a.data.len() > orig + MAX_INCREASE {
                    return er("InvalidRealloc");
                }
                bytes[o + 40..o + 72].copy_from_slice(&a.owner);
                bytes[o + 72..o + 80].copy_from_slice(&a.lamports.to_le_bytes());
                let old_len = u64::from_le_bytes(bytes[o + 80..o + 88].try_into().unwrap()) as usize;
                san::show(bytes[o + 88..].as_ptr(), a.data.len().max(old_len));
                bytes[o + 80..o + 88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
                bytes[o + 88..o + 88 + a.data.len()].copy_from_slice(&a.data);
                if old_len > a.data.len() {
                    for x in &mut bytes[o + 88 + a.data.len()..o + 88 + old_len] {
                        *x = 0;
                    }
                    san::hide(bytes[o + 88 + a.data.len()..].as_ptr(), old_len - a.data.len());
                }
            }
        }
        Ok(())
    }

    /// Cross-program invocation from the current frame.
    pub fn cpi(&mut self, program: &Key, metas: &[Meta], data: &[u8], seeds: &[Vec<Vec<u8>>], infos: Option<&[Key]>) -> R<()> {
        let fi = self.frames.len() - 1;
        let caller = self.frames[fi].program;
        let mut pda = vec![];
        for s in seeds {
            let refs: Vec<&[u8]> = s.iter().map(|x| x.as_slice()).collect();
            match crypto::create_pda(&refs, &caller) {
                Some(k) => pda.push(k),
                None => return er("InvalidSeeds"),
            }
        }
        let cm = self.frames[fi].metas.clone();
        for m in metas {
            let c = match cm.iter().find(|c| c.key == m.key) {
                Some(c) => c,
                None => return er("MissingAccount"),
            };
            if m.writable && !c.writable {
                return er("PrivilegeEscalation writable");
            }
            if m.signer && !(c.signer || pda.contains(&m.key)) {
                return er("PrivilegeEscalation signer");
            }
            if let Some(i) = infos {
                if !i.contains(&m.key) {
                    return er("MissingAccount info");
                }
            }
        }
        if !cm.iter().any(|c| c.key == *program) {
            return er("MissingAccount program");
        }
        if data.len() > 10 * 1024 {
            return er("MaxInstructionDataLenExceeded");
        }
        let keys: Vec<Key> = metas.iter().map(|m| m.key).collect();
        self.flush(fi, Some(&keys))?;
        let s = self.sum(&cm);
        if s != self.frames[fi].sum {
            return er("UnbalancedInstruction");
        }
        self.run_ix(program, metas.to_vec(), data, pda)?;
        // readonly accounts cannot have changed; refresh all
        self.refresh(fi, &keys)
    }

    // helpers for native programs: checks of the runtime on borrowed accounts
    pub fn debit(&mut self, m: &Meta, amount: u64) -> R<()> {
        let p = self.frames.last().unwrap().program;
        let a = self.a(&m.key);
        if amount == 0 {
            return Ok(());
        }
        if a.owner != p {
            return er("ExternalAccountLamportSpend");
        }
        if !m.writable {
            return er("ReadonlyLamportChange");
        }
        a.lamports = a.lamports.checked_sub(amount).ok_or("InsufficientFunds".to_string())?;
        Ok(())
    }
    pub fn credit(&mut self, m: &Meta, amount: u64) -> R<()> {
        if amount == 0 {
            return Ok(());
        }
        if !m.writable {
            return er("ReadonlyLamportChange");
        }
        let a = self.a(&m.key);
        a.lamports = a.lamports.checked_add(amount).ok_or("ArithmeticOverflow".to_string())?;
        Ok(())
    }
    pub fn data_mut(&mut self, m: &Meta) -> R<&mut Vec<u8>> {
        let p = self.frames.last().unwrap().program;
        if !m.writable {
            return er("ReadonlyDataModified");
        }
        let a = self.a(&m.key);
        if a.owner != p {
            return er("ExternalAccountDataModified");
        }
        Ok(&mut a.data)
    }
    pub fn set_owner(&mut self, m: &Meta, owner: Key) -> R<()> {
        let p = self.frames.last().unwrap().program;
        let a = self.a(&m.key);
        if a.owner == owner {
            return Ok(());
        }
        if a.owner != p || !m.writable || a.data.iter().any(|b| *b != 0) {
            return er("ModifiedProgramId");
        }
        a.owner = owner;
        Ok(())
    }
}

impl Default for Chain {
    fn default() -> Self {
        Self::new()
    }
}
