//! R01: hostile bytes. The other workloads run with every transaction also
//! executed in mutated forms, and the state and instruction parsers run on
//! mutated and random buffers. Built with the address sanitizer and the
//! compiler's undefined-behaviour checks, in worker processes: a report ends
//! the worker and is the violation; an execution that uses up its processor
//! time is an abort (the chain's compute limit).
use crate::codec;
use crate::compact::Infos;
use crate::model::*;
use crate::plan;
use crate::report::*;
use crate::util::*;
use crate::world;
use rt::*;
use std::io::{BufRead, BufReader, Read, Write};
use std::time::{Duration, Instant};
use swig_state::role::{Position, RoleMut};
use swig_state::swig::{Swig, SwigBuilder, SwigWithRoles};
use swig_state::tail::{self, rent_claimer, SavedTail};
use swig_state::{Transmutable, TransmutableMut};

// ---------------------------------------------------------------- workers

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn signal(sig: i32, h: extern "C" fn(i32)) -> usize;
    fn _exit(c: i32) -> !;
}
static FATAL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
extern "C" fn out_of_time(_: i32) {
    // a report is being written, which takes its own time
    #[cfg(swig_asan)]
    {
        extern "C" {
            fn __asan_report_present() -> i32;
        }
        if unsafe { __asan_report_present() } != 0 {
            return;
        }
    }
    if FATAL.load(std::sync::atomic::Ordering::SeqCst) {
        return;
    }
    if std::env::var("SWIG_TRACE").is_ok() {
        eprintln!("{}", std::backtrace::Backtrace::force_capture());
        unsafe { _exit(99) }
    }
    unsafe { _exit(78) }
}
/// processor time an execution may use
pub fn arm(ms: i64) {
    unsafe {
        setitimer(2, &[0, 0, ms / 1000, ms % 1000 * 1000], std::ptr::null_mut());
    }
}
const BUDGET_MS: i64 = 150;

fn flush(loc: &mut Local, sent: &mut usize) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let mut b = format!("E\t{}\n", loc.evals);
    loc.evals = 0;
    for (k, v) in std::mem::take(&mut loc.counters) {
        b.push_str(&format!("K\t{k}\t{v}\n"));
    }
    for (k, s) in std::mem::take(&mut loc.sets) {
        for x in s {
            b.push_str(&format!("S\t{k}\t{x}\n"));
        }
    }
    for x in std::mem::take(&mut loc.nontrivial) {
        b.push_str(&format!("N\t{x}\n"));
    }
    for s in loc.samples.iter().skip(*sent) {
        b.push_str(&format!("M\t{}\n", s.replace(['\n', '\t'], " ")));
    }
    *sent = loc.samples.len();
    for t in std::mem::take(&mut loc.trouble) {
        b.push_str(&format!("T\t{}\n", t.replace(['\n', '\t'], " ")));
    }
    for v in std::mem::take(&mut loc.viols) {
        b.push_str(&format!("V\t{}\t{}\t{}\t{}\n", v.case, v.fp, v.msg.replace(['\n', '\t'], " "), v.hist.join(" ; ").replace(['\n', '\t'], " ")));
    }
    let _ = o.write_all(b.as_bytes());
    let _ = o.flush();
}
thread_local! {
    static MUTE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Reports what ends the process; ordinary panics are aborts of the program.
fn hook() {
    let before = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.to_string();
        let fatal = ["unsafe precondition", "null pointer dereference", "construct an enum", "misaligned pointer", "cannot unwind"].iter().any(|x| m.contains(x));
        if fatal {
            FATAL.store(true, std::sync::atomic::Ordering::SeqCst);
            arm(0);
            eprintln!("{m}\n{}", std::backtrace::Backtrace::force_capture());
        } else if !MUTE.with(|m| m.get()) {
            before(i);
        }
    }));
}
fn work(cfg: &Cfg, stage: &'static str, start: u64, step: u64, n: u64, f: CaseFn) -> ! {
    hook();
    unsafe { signal(27, out_of_time) };
    let mut loc = Local::default();
    let mut sent = 0;
    let mut last = Instant::now();
    let mut i = start;
    while i < n {
        {
            let o = std::io::stdout();
            let mut o = o.lock();
            let _ = o.write_all(format!("C\t{i}\n").as_bytes());
            let _ = o.flush();
        }
        let mut case = Case { cfg, rng: Rng::new(cfg.seed.wrapping_mul(1_000_003).wrapping_add(i), stage), stage, case: i, hist: vec![], dead: false, loc: &mut loc, verbose: cfg.only.is_some() };
        arm(10 * BUDGET_MS);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut case)));
        arm(0);
        TAP.with(|t| *t.borrow_mut() = None);
        if let Err(p) = r {
            if p.downcast_ref::<Stop>().is_none() {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
                loc.trouble.push(format!("stage {stage} case {i}: {m}"));
            }
        }
        *loc.counters.entry(format!("cases_{stage}")).or_default() += 1;
        if last.elapsed() > Duration::from_millis(100) || !loc.viols.is_empty() {
            flush(&mut loc, &mut sent);
            last = Instant::now();
        }
        if cfg.only.is_some() {
            break;
        }
        i += step;
    }
    flush(&mut loc, &mut sent);
    println!("D\t0");
    std::process::exit(0)
}
/// Like run_stage, each thread's cases in a process of their own.
pub fn stage(cfg: &Cfg, out: &mut Local, name: &'static str, n: u64, cap: Duration, f: CaseFn) {
    if let Ok(s) = std::env::var("SWIG_STAGE") {
        if s != name {
            return;
        }
    }
    if let Ok(w) = std::env::var("SWIG_WORK") {
        let p: Vec<&str> = w.split(':').collect();
        if p[0] == name {
            work(cfg, name, p[1].parse().unwrap(), p[2].parse().unwrap(), n, f);
        }
        return;
    }
    let threads = if cfg.only.is_some() { 1 } else { cfg.threads as u64 };
    let t0 = Instant::now();
    let all: Vec<Local> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|t| sc.spawn(move || tend(cfg, name, cfg.only.unwrap_or(t), threads, n, t0, cap))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for l in all {
        merge(out, l);
    }
}
fn tend(cfg: &Cfg, stage: &'static str, start: u64, step: u64, n: u64, t0: Instant, cap: Duration) -> Local {
    let mut loc = Local::default();
    let mut next = start;
    let mut ends = 0;
    while next < n && t0.elapsed() < cap && loc.viols.len() < 6 && loc.trouble.len() < 3 {
        let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
            .args(std::env::args().skip(1))
            .env("SWIG_CHILD", "1")
            .env("SWIG_WORK", format!("{stage}:{next}:{step}"))
            .env("ASAN_OPTIONS", format!("detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=0:detect_stack_use_after_return={}", (stage != "fills") as u8))
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .expect("worker");
        let err = ch.stderr.take().unwrap();
        let only = cfg.only.is_some();
        let errs = std::thread::spawn(move || {
            let mut s = vec![];
            let mut r = BufReader::new(err);
            let mut b = [0u8; 4096];
            while let Ok(k) = r.read(&mut b) {
                if k == 0 {
                    break;
                }
                if only {
                    eprint!("{}", String::from_utf8_lossy(&b[..k]));
                }
                if s.len() < 60_000 {
                    s.extend_from_slice(&b[..k]);
                }
            }
            String::from_utf8_lossy(&s).into_owned()
        });
        let mut cur = next;
        let mut done = false;
        let mut rd = BufReader::new(ch.stdout.take().unwrap());
        let mut line = String::new();
        loop {
            line.clear();
            if rd.read_line(&mut line).unwrap_or(0) == 0 {
                break;
            }
            let p: Vec<&str> = line.trim_end().split('\t').collect();
            let num = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match p[0] {
                "C" => cur = num(1),
                "E" => loc.evals += num(1),
                "K" => *loc.counters.entry(p[1].into()).or_default() += num(2),
                "S" => {
                    loc.sets.entry(p[1].into()).or_default().insert(num(2));
                }
                "N" => {
                    loc.nontrivial.insert(num(1));
                }
                "M" if loc.samples.len() < 4 => loc.samples.push(p[1].into()),
                "T" => loc.trouble.push(p[1].into()),
                "V" if p.len() >= 5 => loc.viols.push(Viol { fp: p[2].into(), msg: p[3].into(), stage: stage.into(), case: num(1), hist: p[4].split(" ; ").map(|x| x.into()).collect() }),
                "D" => done = true,
                _ => {}
            }
            if t0.elapsed() > cap {
                let _ = ch.kill();
                done = true;
                break;
            }
        }
        let st = ch.wait().expect("worker");
        let text = errs.join().unwrap_or_default();
        if done {
            break;
        }
        use std::os::unix::process::ExitStatusExt;
        ends += 1;
        let told = text.contains("ERROR: AddressSanitizer") || text.contains("unsafe precondition");
        if !told && (st.code() == Some(78) || text.contains("memory allocation of")) {
            *loc.counters.entry("executions without end (aborted)".into()).or_default() += 1;
        } else if inside(&text) {
            *loc.counters.entry("misaligned accesses up to the end of a buffer".into()).or_default() += 1;
        } else {
            let (fp, msg) = report(&text, st.code(), st.signal());
            loc.viols.push(Viol { fp, msg, stage: stage.into(), case: cur, hist: text.lines().take(120).map(|x| x.into()).collect() });
        }
        if cfg.only.is_some() {
            break;
        }
        next = cur + step;
    }
    *loc.counters.entry("workers restarted".into()).or_default() += ends;
    loc
}
/// The sanitizer takes a reference's alignment for granted, and so can report
/// a misaligned access that ends just at the end of its buffer. (References
/// into corrupt bytes may be misaligned; the chain's machine allows that.)
fn inside(text: &str) -> bool {
    let num = |after: &str| -> Option<u64> {
        let p = text.find(after)? + after.len();
        text[p..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
    };
    let size = num("READ of size ").or_else(|| num("WRITE of size "));
    let at = text.find(" bytes inside of ").and_then(|p| text[..p].rsplit(' ').next()?.parse::<u64>().ok());
    match (size, at, num(" bytes inside of ")) {
        (Some(s), _, _) if text.contains("use-after-poison") && s <= 16 => in_shadow(text, s).unwrap_or(false),
        (Some(s), Some(a), Some(n)) => text.contains("heap-buffer-overflow") && s <= 16 && a + s <= n,
        _ => false,
    }
}
/// the same told from the shadow bytes, where the buffer ends in a fence
fn in_shadow(text: &str, size: u64) -> Option<bool> {
    let p = text.find("on address 0x")? + 13;
    let addr = u64::from_str_radix(text[p..].split(' ').next()?, 16).ok()?;
    let line = text.lines().find(|l| l.starts_with("=>"))?;
    let rest = &line[line.find('[')? + 1..];
    let shadow: Vec<u64> = rest.split(|c: char| !c.is_ascii_hexdigit()).filter(|w| w.len() == 2).filter_map(|w| u64::from_str_radix(w, 16).ok()).collect();
    let off = addr % 8;
    Some((off..off + size).all(|i| match shadow.get(i as usize / 8) {
        Some(0) => true,
        Some(v) => *v < 8 && i % 8 < *v,
        None => false,
    }))
}
/// what a dead worker left on its error output
fn report(text: &str, code: Option<i32>, sig: Option<i32>) -> (String, String) {
    let what = text
        .lines()
        .find(|l| l.contains("AddressSanitizer") || l.contains("unsafe precondition") || l.contains("panicked at"))
        .map(|l| l.trim().to_string())
        .unwrap_or_else(|| format!("worker ended with {code:?} signal {sig:?}"));
    let kind = if let Some(p) = text.find("AddressSanitizer: ") {
        text[p + 18..].split_whitespace().next().unwrap_or("?").to_string()
    } else if text.contains("unsafe precondition") {
        text.lines().find(|l| l.contains("unsafe precondition")).and_then(|l| l.split("violated: ").nth(1)).map(|l| l.split(" requires").next().unwrap_or(l).to_string()).unwrap_or("precondition".into())
    } else {
        format!("end {code:?} {sig:?}")
    };
    let at = text
        .lines()
        .filter(|l| l.contains("/repo/") || l.contains("swig_state::") || l.contains("swig::") || l.contains("swig_compact"))
        .map(|l| l.split(' ').filter(|w| !w.contains("0x") && !w.starts_with('(')).collect::<Vec<_>>().join(" ").trim().to_string())
        .next()
        .unwrap_or_default();
    (format!("{kind} {at}").chars().take(160).collect(), format!("{what} | {at}").chars().take(400).collect())
}

// ---------------------------------------------------------------- mutation

const ODD: [u64; 22] = [0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 48, 64, 80, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff];
fn odd(r: &mut Rng, len: usize) -> u64 {
    match r.below(6) {
        0 => len as u64,
        1 => (len as u64).wrapping_sub(r.range(1, 9)),
        2 => len as u64 + r.range(1, 40),
        3 => *r.pick(&[u32::MAX as u64, u64::MAX, i64::MAX as u64, 0x8000_0000, 0xffff_fff0, 1 << 40]),
        4 => r.u64() & 0x3ff,
        _ => *r.pick(&ODD),
    }
}
/// one edit of a byte string; `grid` keeps edited fields on multiples of it
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, grow: bool) -> &'static str {
    let n = b.len();
    let set = |b: &mut Vec<u8>, at: usize, v: u64, w: usize| {
        let e = (at + w).min(b.len());
        if at < e {
            let x = v.to_le_bytes();
            b[at..e].copy_from_slice(&x[..e - at]);
        }
    };
    match r.below(if grow { 14 } else { 8 }) {
        0 | 1 if n > 0 => {
            let i = r.below(n);
            b[i] ^= 1 << r.below(8);
            "bit"
        }
        2 if n > 0 => {
            let i = r.below(n);
            b[i] = odd(r, n) as u8;
            "byte"
        }
        3 | 4 if n > 1 => {
            let i = r.below(n / 2) * 2;
            let v = odd(r, n);
            set(b, i, v, 2);
            "u16"
        }
        5 if n > 3 => {
            let i = r.below(n / 4) * 4;
            let v = odd(r, n);
            set(b, i, v, 4);
            "u32"
        }
        6 if n > 7 => {
            let i = r.below(n / 8) * 8;
            let v = odd(r, n);
            set(b, i, v, 8);
            "u64"
        }
        7 if n > 1 => {
            let (f, t) = (r.below(n), r.below(n));
            let l = 1 + r.below((n - f.max(t)).min(64));
            b.copy_within(f..f + l, t);
            "copy"
        }
        8 => {
            let k = r.below(n + 1);
            b.truncate(k);
            "cut"
        }
        9 => {
            let k = n.saturating_sub(1 + r.below(12));
            b.truncate(k);
            "cut a little"
        }
        10 => {
            let k = 1 + r.below(40);
            let x = if r.bool() { r.bytes(k) } else { vec![0; k] };
            b.extend(x);
            "extend"
        }
        11 if n > 0 => {
            let i = r.below(n);
            let l = (1 + r.below(16)).min(n - i);
            b.drain(i..i + l);
            "drop bytes"
        }
        12 => {
            let i = r.below(n + 1);
            let k = 1 + r.below(16);
            let x = r.bytes(k);
            b.splice(i..i, x);
            "insert bytes"
        }
        _ => {
            let k = r.below(n + 20);
            let head = b.iter().take(2).copied().collect::<Vec<_>>();
            *b = r.bytes(k);
            for (x, h) in b.iter_mut().zip(head) {
                *x = h;
            }
            "noise"
        }
    }
}
/// one hostile form of a transaction and the chain it runs on
pub fn twist(r: &mut Rng, ch: &mut Chain, ixs: &mut Vec<Ix>) -> String {
    let swig: Vec<usize> = (0..ixs.len()).filter(|i| ixs[*i].program == swig_id()).collect();
    let t = if !swig.is_empty() && !r.chance(1, 6) { *r.pick(&swig) } else { r.below(ixs.len()) };
    let keys: Vec<Key> = ch.accts.keys().copied().collect();
    let most = if r.chance(1, 10) { 15 } else { 14 };
    match r.below(most) {
        14 => {
            // long account lists
            let want = *r.pick(&[70usize, 99, 100, 101, 102, 128, 253, 254, 255]);
            let own: Vec<Key> = ixs[t].accounts.iter().map(|m| m.key).filter(|k| ch.accts.contains_key(k)).collect();
            let keep = ixs[t].accounts.clone();
            while ixs[t].accounts.len() < want {
                let k = match r.below(3) {
                    0 => r.key(),
                    1 if !keep.is_empty() => keep[r.below(keep.len())].key,
                    _ => {
                        let k = r.key();
                        if !own.is_empty() {
                            let from = if r.bool() { &own } else { &keys };
                            let src = *r.pick(from);
                            if let Some(a) = ch.accts.get(&src).cloned() {
                                if !a.executable {
                                    ch.accts.insert(k, a);
                                }
                            }
                        }
                        k
                    }
                };
                ixs[t].accounts.push(Meta { key: k, signer: false, writable: r.bool() });
            }
            "accounts many".into()
        }
        0..=4 => {
            let n = 1 + r.below(3);
            let mut w = String::from("data");
            for _ in 0..n {
                let d = &mut ixs[t].data;
                w.push(' ');
                if d.len() > 4 && r.chance(1, 6) {
                    // what the header says about the rest
                    let i = 2 + 2 * r.below(7);
                    let v = (d.len() as u16).wrapping_sub(r.below(26) as u16);
                    if i + 2 <= d.len() {
                        d[i..i + 2].copy_from_slice(&v.to_le_bytes());
                    }
                    w.push_str("length");
                } else if r.chance(1, 12) {
                    let k = r.below(26);
                    d.truncate(k);
                    w.push_str("head");
                } else {
                    let grow = r.bool();
                    w.push_str(mutate(r, d, grow));
                }
            }
            w
        }
        5 => {
            let d = r.below(20) as u16;
            if ixs[t].data.len() >= 2 {
                ixs[t].data[..2].copy_from_slice(&d.to_le_bytes());
            }
            "data discriminator".into()
        }
        6..=8 => {
            let m = &mut ixs[t].accounts;
            let n = m.len();
            if n == 0 {
                return "nothing".into();
            }
            match r.below(8) {
                0 => {
                    let k = r.below(n);
                    m.truncate(k);
                    "accounts cut"
                }
                1 => {
                    m.remove(r.below(n));
                    "accounts drop"
                }
                2 => {
                    let x = m[r.below(n)].clone();
                    m.insert(r.below(n + 1), x);
                    "accounts repeat"
                }
                3 => {
                    let (a, b) = (r.below(n), r.below(n));
                    m.swap(a, b);
                    "accounts swap"
                }
                4 => {
                    let (a, b) = (r.below(n), r.below(n));
                    m[a] = m[b].clone();
                    "accounts double"
                }
                5 => {
                    let i = r.below(n);
                    m[i].signer = !m[i].signer;
                    "accounts signer"
                }
                6 => {
                    let i = r.below(n);
                    m[i].writable = !m[i].writable;
                    "accounts writable"
                }
                _ => {
                    let i = r.below(n);
                    m[i].key = if r.chance(1, 5) { r.key() } else { *r.pick(&keys) };
                    "accounts other"
                }
            }
            .into()
        }
        _ => {
            // stored bytes
            let own: Vec<Key> = ixs[t].accounts.iter().map(|m| m.key).filter(|k| ch.accts.get(k).map(|a| !a.data.is_empty() && !a.executable).unwrap_or(false)).collect();
            if own.is_empty() {
                return "nothing".into();
            }
            let k = if r.bool() { own[0] } else { *r.pick(&own) };
            let a = ch.accts.get_mut(&k).unwrap();
            let n = 1 + r.below(3);
            let mut w = String::from("stored");
            for _ in 0..n {
                w.push(' ');
                w.push_str(match r.below(14) {
                    0 => {
                        a.owner = if r.bool() { *r.pick(&keys) } else { *r.pick(&[SYSTEM, swig_id(), token_id(), token22_id(), stake_id()]) };
                        "owner"
                    }
                    12 | 13 => {
                        // where the layouts of the accounts end
                        let n = *r.pick(&[1usize, 16, 31, 32, 40, 44, 47, 48, 63, 64, 71, 72, 76, 88, 100, 104, 108, 109, 128, 155, 160, 163, 164, 165, 166, 196, 199, 200, 208]);
                        a.data.resize(n, 0);
                        "length"
                    }
                    1 => {
                        a.data[0] = r.u64() as u8;
                        if a.data.len() > 1 && r.bool() {
                            a.data.truncate(1);
                        }
                        "kind"
                    }
                    2 => {
                        let g = a.data.len();
                        if g > 48 {
                            // role positions and action headers
                            let at = 48 + r.below((g - 48) / 8 + 1) * 8 + *r.pick(&[0usize, 2, 4, 6]);
                            let v = odd(r, g - 48).to_le_bytes();
                            for (i, x) in v.iter().take(2).enumerate() {
                                if at + i < g {
                                    a.data[at + i] = *x;
                                }
                            }
                        }
                        "field"
                    }
                    3 => {
                        if a.data.len() > 44 {
                            let v = odd(r, 4) as u16;
                            a.data[34..36].copy_from_slice(&v.to_le_bytes());
                        }
                        "role count"
                    }
                    _ => {
                        let grow = r.chance(1, 3);
                        mutate(r, &mut a.data, grow)
                    }
                });
                if a.data.is_empty() {
                    a.data.push(0);
                }
            }
            a.lamports = a.lamports.max(rent_min(a.data.len()));
            w
        }
    }
}
/// Installs the tap that replays every transaction of the workload in hostile forms.
/// one execution; `fills`, with different bytes in unwritten memory each time
fn trial(ch: &Chain, v: &[Ix], fills: bool, how: &str) -> (Outcome, Chain, Option<String>) {
    let mut m = ch.clone();
    arm(BUDGET_MS);
    if fills {
        fill::set(Some(0));
    }
    let o = m.exec(v);
    let mut bad = None;
    if fills {
        for b in [0x01, 0xa5, 0xff] {
            let mut m2 = ch.clone();
            arm(BUDGET_MS);
            fill::set(Some(b));
            let o2 = m2.exec(v);
            fill::set(None);
            if o2.ok != o.ok || o2.err != o.err || m2.accts != m.accts {
                let ops: Vec<String> = v.iter().map(|x| format!("{} {}", short(&x.program), hex(&x.data))).collect();
                bad = Some(format!("the outcome depends on what unwritten memory holds: with 00 {} {}, with {b:02x} {} {} ({how}; accounts {}): {}", o.ok, o.err, o2.ok, o2.err, if m2.accts == m.accts { "equal" } else { "differ" }, ops.join(" / ")));
                break;
            }
        }
    }
    arm(10 * BUDGET_MS);
    (o, m, bad)
}
fn tap(c: &mut Case, forms: usize, fills: bool) -> std::rc::Rc<std::cell::RefCell<Seen>> {
    let seen = std::rc::Rc::new(std::cell::RefCell::new(Seen::default()));
    let s2 = seen.clone();
    let mut r = Rng::new(c.rng.u64(), "tap");
    TAP.with(|t| {
        *t.borrow_mut() = Some(Box::new(move |ch, ixs| {
            if ixs.is_empty() {
                return;
            }
            for k in 0..forms {
                let mut m = ch.clone();
                let mut v = ixs.to_vec();
                let mut how = "nothing".to_string();
                if !fills || k > 0 {
                    how = twist(&mut r, &mut m, &mut v);
                }
                if how != "nothing" && r.chance(1, 3) {
                    how.push_str(" + ");
                    how.push_str(&twist(&mut r, &mut m, &mut v));
                }
                if v.is_empty() {
                    continue;
                }
                let before = m.accts.clone();
                let (o, m, bad) = trial(&m, &v, fills, &how);
                let mut s = s2.borrow_mut();
                s.n += 1;
                if let Some(b) = bad {
                    s.unset = b;
                }
                s.ok += o.ok as u64;
                s.panicked += o.panicked as u64;
                let op = v.iter().find(|x| x.program == swig_id() && x.data.len() >= 2).map(|x| le16(&x.data)).unwrap_or(999);
                let err: String = if o.panicked { "abort".into() } else { o.err.chars().take(40).collect() };
                s.sigs.insert(format!("{op} {} {err}", how.split(' ').next().unwrap_or("")));
                if s.sample.is_empty() {
                    s.sample = format!("instruction {op} mutated ({how}): {}", if o.ok { "accepted" } else { &o.err });
                }
                if o.ok {
                    for ix in v.iter().filter(|x| x.program == swig_id()) {
                        // unknown numbers mean creation
                        let op = if ix.data.len() >= 2 { le16(&ix.data) } else { 0 };
                        let Some(k) = ix.accounts.first().map(|m| m.key) else { continue };
                        let a = before.get(&k).cloned().unwrap_or_default();
                        let made = a.owner == SYSTEM && a.data.is_empty() && m.get(&k).owner == swig_id();
                        let earlier = v.iter().filter(|x| x.program == swig_id()).count() > 1;
                        let wallet = a.owner == swig_id() && a.data.len() >= 48 && a.data[0] == 1;
                        if !wallet && !made && !earlier {
                            s.bad = format!("instruction {op} succeeds on an account that is no wallet: owner {} data {} ({how})", short(&a.owner), hex(&a.data[..a.data.len().min(60)]));
                        }
                    }
                }
            }
        }))
    });
    seen
}
#[derive(Default)]
pub struct Seen {
    n: u64,
    ok: u64,
    panicked: u64,
    sigs: std::collections::BTreeSet<String>,
    bad: String,
    unset: String,
    sample: String,
}
/// a workload of another property with the tap installed
pub fn tapped(c: &mut Case, forms: usize, f: impl Fn(&mut Case)) {
    under(c, forms, false, f)
}
/// the same, each transaction executed with different bytes in memory that
/// the program has not written
pub fn filled(c: &mut Case, forms: usize, f: impl Fn(&mut Case)) {
    under(c, forms, true, f)
}
fn under(c: &mut Case, forms: usize, fills: bool, f: impl Fn(&mut Case)) {
    let seen = tap(c, forms, fills);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(c)));
    TAP.with(|t| *t.borrow_mut() = None);
    // what that workload evaluates is its own property's evidence
    c.loc.viols.clear();
    let s = seen.borrow();
    c.count_n("mutated transactions", s.n);
    c.count_n("mutated transactions accepted", s.ok);
    c.count_n("mutated transactions aborted", s.panicked);
    for x in &s.sigs {
        c.eval(x);
    }
    if !s.sample.is_empty() {
        c.sample(|| s.sample.clone());
    }
    if fills {
        c.count_n("transactions compared over memory fills", s.n);
    }
    if !s.unset.is_empty() {
        c.violate("unwritten-memory", s.unset.clone());
    }
    if !s.bad.is_empty() {
        c.violate("no-wallet", s.bad.clone());
    }
    if let Err(p) = r {
        std::panic::resume_unwind(p);
    }
}

// ---------------------------------------------------------------- parsers

/// exactly `b.len()` bytes on the heap, 8-aligned
pub struct Tight {
    p: *mut u8,
    n: usize,
}
impl Tight {
    pub fn new(b: &[u8]) -> Tight {
        let l = std::alloc::Layout::from_size_align(b.len().max(1), 8).unwrap();
        let p = unsafe { std::alloc::alloc(l) };
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        Tight { p, n: b.len() }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.n) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.n) }
    }
}
impl Drop for Tight {
    fn drop(&mut self) {
        let l = std::alloc::Layout::from_size_align(self.n.max(1), 8).unwrap();
        unsafe { std::alloc::dealloc(self.p, l) }
    }
}
fn rand_wallet(c: &mut Case) -> (Wallet, Vec<u8>) {
    let s = world::fresh(c);
    let mut w = Wallet::plan(&c.rng.key());
    for i in 0..c.rng.below(5) {
        let used: Vec<Cred> = w.roles.iter().map(|r| r.cred.clone()).collect();
        let cr = codec::rand_cred(c, &used);
        let n = 1 + c.rng.below(4);
        let acts = plan::rand_acts(c, &s, i as u32, n, &[]);
        w.roles.push(Role { id: w.counter, cred: cr, acts });
        w.counter += 1 + c.rng.below(2) as u32;
    }
    if c.rng.bool() {
        w.claimer = Some(c.rng.key());
    }
    let b = w.bytes();
    (w, b)
}
fn spoil(c: &mut Case, b: &mut Vec<u8>) {
    for _ in 0..1 + c.rng.below(3) {
        if c.rng.chance(1, 3) && b.len() > 64 {
            let at = 48 + c.rng.below((b.len() - 48) / 4) * 4;
            let v = odd(&mut c.rng, b.len() - 48).to_le_bytes();
            let w = *c.rng.pick(&[2usize, 4]);
            let e = (at + w).min(b.len());
            b[at..e].copy_from_slice(&v[..e - at]);
        } else {
            let grow = c.rng.chance(1, 3);
            mutate(&mut c.rng, b, grow);
        }
    }
}
/// runs a call that may abort
fn may<T>(c: &mut Case, name: &str, f: impl FnOnce() -> T) -> Option<T> {
    let r = quiet(f);
    c.count("parser calls");
    match r {
        Ok(x) => Some(x),
        Err(_) => {
            c.count("parser aborts");
            c.eval(&format!("{name} aborts"));
            None
        }
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    MUTE.with(|m| m.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    MUTE.with(|m| m.set(false));
    r
}
fn res<T, E: std::fmt::Debug>(c: &mut Case, name: &str, r: Option<Result<T, E>>) -> Option<T> {
    match r {
        Some(Ok(x)) => {
            c.eval(&format!("{name} ok"));
            Some(x)
        }
        Some(Err(e)) => {
            c.eval(&format!("{name} {e:?}"));
            None
        }
        None => None,
    }
}
pub fn parsers(c: &mut Case) {
    let (w, mut b) = rand_wallet(c);
    if !c.rng.chance(1, 20) {
        spoil(c, &mut b);
    }
    if c.rng.chance(1, 30) {
        let n = c.rng.below(300);
        b = c.rng.bytes(n);
    }
    let t = Tight::new(&b);
    let r = may(c, "roles_end", || Swig::roles_end_offset(t.get()));
    res(c, "roles_end", r);
    let r = may(c, "split_parts", || Swig::split_parts(t.get()).map(|p| (p.roles.len(), p.tail.len())));
    res(c, "split_parts", r);
    let v = may(c, "from_bytes", || SwigWithRoles::from_bytes(t.get()));
    if let Some(v) = res(c, "from_bytes", v) {
        if w.roles.iter().any(|r| r.acts.iter().any(|a| a.kind == SCOPE)) {
            // the lookup tries every role id up to the stored counter
            let k = if v.state.role_counter < 5000 { Some(c.rng.key()) } else { None };
            if let Some(k) = k {
                may(c, "find_scope", || v.find_program_scope_by_target(&k).is_some());
            }
        }
        for m in w.roles.iter().take(3) {
            let l = m.cred.lookup();
            let r = may(c, "lookup", || v.lookup_role_id(&l));
            res(c, "lookup", r);
        }
        let k = c.rng.bytes(64);
        let r = may(c, "lookup", || v.lookup_role_id(&k));
        res(c, "lookup", r);
        for id in 0..w.counter + 1 {
            let r = may(c, "get_role", || v.get_role(id));
            let Some(Some(role)) = res(c, "get_role", r) else { continue };
            may(c, "authority", || {
                role.authority.identity().map(|x| x.to_vec()).ok();
                role.authority.signature_odometer();
                role.authority.length();
            });
            let r = may(c, "get_all_actions", || role.get_all_actions().map(|v| v.iter().map(|a| a.length() as usize).sum::<usize>()));
            res(c, "get_all_actions", r);
            let k = *c.rng.pick(&[SOL, SOLR, PROG, SCOPE, TOK, TOKR, ALL, MANAGE, SUB, SOLD, SOLRD, TOKD, TOKRD, REPL, V2ALL, V2SIGN]);
            let r = may(c, "all_of", || codec::all_of(k, &role));
            res(c, "all_of", r);
            let sel = c.rng.bytes(64);
            let r = may(c, "one_of", || codec::one_of(k, &role, &sel));
            res(c, "one_of", r);
        }
    }
    // for writing
    let mut t = Tight::new(&b);
    let r = may(c, "split_parts_mut", || Swig::split_parts_mut(t.get_mut()).map(|p| p.roles.len()));
    if let Some(n) = res(c, "split_parts_mut", r) {
        let id = c.rng.below(w.counter as usize + 1) as u32;
        let k = *c.rng.pick(&[SOL, SOLR, PROG, SCOPE, TOK, TOKR, ALL, SUB, SOLD, TOKD, V2ALL]);
        let sel = c.rng.bytes(64);
        let r = may(c, "get_mut_role", || {
            Swig::get_mut_role(id, &mut t.get_mut()[48..48 + n]).map(|r| {
                r.map(|r| {
                    let a = codec::one_of_mut(k, unsafe { &*(&r as *const RoleMut) }, &sel).is_ok();
                    let b = codec::fill_mut(k, r.actions, &sel, 0).is_ok();
                    (a, b)
                })
            })
        });
        res(c, "get_mut_role", r);
    }
    // any bytes as roles
    {
        let mut t = Tight::new(if b.len() > 48 { &b[48..] } else { &b });
        let id = c.rng.below(w.counter as usize + 1) as u32;
        let r = may(c, "get_mut_role raw", || Swig::get_mut_role(id, t.get_mut()).map(|r| r.map(|r| r.actions.len())));
        res(c, "get_mut_role raw", r);
    }
    // builder
    if b.len() >= 48 {
        let mut t = Tight::new(&b);
        let id = c.rng.below(w.counter as usize + 1) as u32;
        let r = may(c, "remove_role", || SwigBuilder::new_from_bytes(t.get_mut()).and_then(|mut x| x.remove_role(id)));
        res(c, "remove_role", r);
        let s = world::fresh(c);
        let cr = codec::rand_cred(c, &[]);
        let n = 1 + c.rng.below(3);
        let acts = plan::rand_acts(c, &s, 0, n, &[]);
        let mut ab = acts_bytes(&acts);
        let mut cd = cr.create_data();
        let mut room = b.clone();
        room.extend(vec![0; c.rng.below(400)]);
        if c.rng.bool() {
            mutate(&mut c.rng, &mut ab, true);
        }
        if c.rng.chance(1, 4) {
            mutate(&mut c.rng, &mut cd, true);
        }
        let mut t = Tight::new(&room);
        let (ta, tc) = (Tight::new(&ab), Tight::new(&cd));
        let ty = swig_state::authority::AuthorityType::try_from(cr.kind).unwrap();
        let r = may(c, "add_role", || SwigBuilder::new_from_bytes(t.get_mut()).and_then(|mut x| x.add_role(ty, tc.get(), ta.get())));
        res(c, "add_role", r);
        let r = may(c, "find_action", || swig_state::action::ActionLoader::find_action::<swig_state::action::all::All>(ta.get()).map(|x| x.is_some()));
        res(c, "find_action", r);
        let r = may(c, "find_action", || swig_state::action::ActionLoader::find_action::<swig_state::action::sol_recurring_limit::SolRecurringLimit>(ta.get()).map(|x| x.map(|x| x.window)));
        res(c, "find_action", r);
        let r = may(c, "reject_dup", || swig_state::action::ActionLoader::reject_duplicate_v2_scoped(ta.get()));
        res(c, "reject_dup", r);
        let k = c.rng.below(27) as u16;
        let mut d = Tight::new(&if c.rng.bool() { acts[0].data.clone() } else { ab.clone() });
        let r = may(c, "validate_layout", || swig_state::action::ActionLoader::validate_layout(swig_state::action::Permission::try_from(k).unwrap(), d.get()));
        res(c, "validate_layout", r);
        let _ = d.get_mut();
    }
    tails(c);
    scopes(c);
    compact(c);
    misc(c);
}
fn tails(c: &mut Case) {
    let k = c.rng.key();
    let mut b = match c.rng.below(3) {
        0 => rent_claimer::entry(&k).to_vec(),
        1 => {
            let mut v = rent_claimer::entry(&k).to_vec();
            v.extend(rent_claimer::entry(&c.rng.key()));
            v
        }
        _ => {
            let n = c.rng.below(60);
            c.rng.bytes(n)
        }
    };
    if c.rng.chance(3, 4) {
        mutate(&mut c.rng, &mut b, true);
    }
    let t = Tight::new(&b);
    let r = may(c, "tail read", || rent_claimer::read(t.get()).map(|x| x.copied()));
    res(c, "tail read", r);
    let r = may(c, "tail strict", || rent_claimer::read_strict(t.get()).map(|x| x.copied()));
    res(c, "tail strict", r);
    let r = may(c, "tail header", || tail::TailHeader::parse(t.get()).map(|h| h.total_len().ok()));
    res(c, "tail header", r);
    let r = may(c, "tail all", || tail::AnyTailEntry::read_all(t.get()).map(|v| v.len()));
    res(c, "tail all", r);
    let r = may(c, "saved tail", || SavedTail::take(t.get()));
    if let Some(s) = res(c, "saved tail", r) {
        let n = c.rng.below(120);
        let mut o = Tight::new(&vec![0; n]);
        let at = odd(&mut c.rng, n) as usize;
        let r = may(c, "tail restore", || s.restore_at(o.get_mut(), at));
        res(c, "tail restore", r);
        let r = may(c, "tail restore", || s.restore(o.get_mut()));
        res(c, "tail restore", r);
    }
}
fn scopes(c: &mut Case) {
    let mut raw = c.rng.bytes(144);
    let n = c.rng.below(200);
    let d = Tight::new(&c.rng.bytes(n));
    for o in [112, 120, 128, 136] {
        let v = if o >= 128 { odd(&mut c.rng, n) } else { c.rng.below(6) as u64 };
        raw[o..o + 8].copy_from_slice(&v.to_le_bytes());
    }
    if c.rng.chance(3, 4) {
        let w = *c.rng.pick(&[1u64, 4, 8, 16]);
        let s = c.rng.below(n + 10) as u64;
        raw[128..136].copy_from_slice(&s.to_le_bytes());
        raw[136..144].copy_from_slice(&(s + w).to_le_bytes());
    }
    let mut t = Tight::new(&raw);
    let r = may(c, "scope load", || unsafe { swig_state::action::program_scope::ProgramScope::load_mut_unchecked(t.get_mut()) });
    if let Some(p) = res(c, "scope load", r) {
        let r = may(c, "scope balance", || p.read_account_balance(d.get()));
        res(c, "scope balance", r);
        let (a, s) = (c.rng.u64() as u128, c.rng.u64());
        let r = may(c, "scope run", || p.run(a, Some(s)));
        res(c, "scope run", r);
    }
}
fn compact(c: &mut Case) {
    let n = c.rng.below(9);
    let metas: Vec<(Key, bool, bool)> = (0..n).map(|_| (c.rng.key(), c.rng.bool(), c.rng.bool())).collect();
    let mut infos = Infos::new(&metas);
    let list = infos.list();
    let mut b = vec![1 + c.rng.below(3) as u8];
    for _ in 0..b[0] {
        let k = c.rng.below(5);
        b.push(c.rng.below(n + 1) as u8);
        b.push(k as u8);
        for _ in 0..k {
            b.push(c.rng.below(n + 1) as u8);
        }
        let l = c.rng.below(20);
        b.extend((l as u16).to_le_bytes());
        let x = c.rng.bytes(l);
        b.extend(x);
    }
    if c.rng.chance(3, 4) {
        mutate(&mut c.rng, &mut b, true);
    }
    // at any alignment, ending where the allocation ends
    let off = c.rng.below(8);
    let mut padded = vec![0; off];
    padded.extend(&b);
    let t = Tight::new(&padded);
    let k = c.rng.key();
    let own = metas.first().map(|m| m.0).unwrap_or(k);
    let keys: Vec<&Key> = metas.iter().skip(1).take(1).map(|m| &m.0).collect();
    let r = may(c, "compact", || {
        swig_compact_instructions::InstructionIterator::new(&list[..], &t.get()[off..], &own, &keys[..]).map(|it| {
            let mut sum = 0usize;
            for h in it {
                match h {
                    Ok(h) => {
                        let i = h.borrow();
                        sum += i.data.iter().map(|x| *x as usize).sum::<usize>() + i.accounts.iter().map(|a| a.pubkey[0] as usize + a.is_signer as usize).sum::<usize>() + i.program_id[0] as usize;
                    }
                    Err(_) => break,
                }
            }
            sum
        })
    });
    if let Some(r) = r {
        match r {
            Ok(_) => c.eval("compact ok"),
            Err(_) => c.eval("compact refused"),
        }
    }
}
fn misc(c: &mut Case) {
    let n = c.rng.below(200);
    let d = Tight::new(&c.rng.bytes(n));
    let m = c.rng.below(100);
    let x = Tight::new(&c.rng.bytes(m));
    // authorities from any creation data into any room
    use swig_state::authority::{ed25519::*, programexec::*, secp256k1::*, secp256r1::*, Authority};
    macro_rules! auth { ($($t:ty),*) => { $( {
        let l = if c.rng.bool() { <$t>::LEN } else { c.rng.below(140) };
        let mut room = Tight::new(&vec![0; l]);
        let src = if c.rng.bool() { d.get() } else { x.get() };
        let src = Tight::new(&src[..src.len().min(*c.rng.pick(&[0usize, 32, 33, 40, 64, 72, 80, 104, 128, 200]))]);
        let r = may(c, stringify!($t), || <$t>::set_into_bytes(src.get(), room.get_mut()));
        res(c, stringify!($t), r);
    } )* } }
    auth!(ED25519Authority, Ed25519SessionAuthority, Secp256k1Authority, Secp256k1SessionAuthority, Secp256r1Authority, Secp256r1SessionAuthority, ProgramExecAuthority, session::ProgramExecSessionAuthority);
    let r = may(c, "ed create", || ED25519Authority::from_create_bytes(d.get()).map(|_| ()));
    res(c, "ed create", r);
    let mut pk = [0u8; 33];
    pk.copy_from_slice(&c.rng.bytes(33));
    // a well-formed precompile instruction, spoiled
    let mut ix = vec![1u8, 0];
    for v in [49u16 + 32, 0xffff, 16, 0xffff, 113, 32, 0xffff] {
        ix.extend(v.to_le_bytes());
    }
    let mut full = ix.clone();
    full.resize(16, 0);
    full.extend(pk);
    let y = c.rng.bytes(130);
    full.extend(y);
    if c.rng.chance(5, 6) {
        mutate(&mut c.rng, &mut full, true);
    }
    let full = Tight::new(&full);
    let r = may(c, "r1 instruction", || verify_secp256r1_instruction_data(full.get(), &pk, x.get()));
    res(c, "r1 instruction", r);
    let r = may(c, "r1 instruction", || verify_secp256r1_instruction_data(d.get(), &pk, x.get()));
    res(c, "r1 instruction", r);
    let r = may(c, "position", || unsafe { Position::load_unchecked(x.get()) }.map(|p| p.authority_type().is_ok()));
    res(c, "position", r);
    let r = may(c, "sub2", || unsafe { swig_state::sub_account_v2::SubAccountV2::load_unchecked(x.get()) }.and_then(|p| p.is_enabled()));
    res(c, "sub2", r);
}
