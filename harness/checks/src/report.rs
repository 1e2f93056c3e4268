//! Case runner, violation reporting, evidence.
use crate::util::*;
use rt::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub root: String,
    /// run exactly this case
    pub only: Option<u64>,
    pub threads: usize,
    /// (fingerprint, text) of the listed findings
    pub known: Vec<(String, String)>,
}
impl Cfg {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub fp: String,
    pub msg: String,
    pub stage: String,
    pub case: u64,
    pub hist: Vec<String>,
}

#[derive(Default)]
pub struct Local {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub viols: Vec<Viol>,
    /// occurrences of listed findings
    pub known: BTreeMap<String, u64>,
    pub foreign: u64,
    pub trouble: Vec<String>,
}

pub struct Case<'a> {
    pub cfg: &'a Cfg,
    pub rng: Rng,
    pub stage: &'static str,
    pub case: u64,
    pub hist: Vec<String>,
    pub dead: bool,
    pub loc: &'a mut Local,
    pub verbose: bool,
}

/// marker unwound through a case when it cannot continue
pub struct Stop;

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl<'a> Case<'a> {
    pub fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.verbose {
            eprintln!("  {}", s);
        }
        self.hist.push(s);
    }
    pub fn count(&mut self, k: &str) {
        *self.loc.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        *self.loc.counters.entry(k.to_string()).or_default() += n;
    }
    /// distinct values observed under a name
    pub fn saw(&mut self, k: &str, v: &str) {
        self.loc.sets.entry(k.to_string()).or_default().insert(fnv(v.as_bytes()));
    }
    /// one monitored evaluation; `sig` identifies what was exercised
    pub fn eval(&mut self, sig: &str) {
        self.loc.evals += 1;
        self.loc.nontrivial.insert(fnv(sig.as_bytes()));
    }
    pub fn trivial(&mut self) {
        self.loc.evals += 1;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.loc.samples.len() < 4 {
            let s = s();
            self.loc.samples.push(s);
        }
    }
    /// A divergence between the code and the specification of this property.
    pub fn violate(&mut self, fp: impl Into<String>, msg: impl Into<String>) {
        let v = Viol { fp: fp.into(), msg: msg.into(), stage: self.stage.to_string(), case: self.case, hist: self.hist.clone() };
        if self.verbose {
            eprintln!("  !! {} :: {}", v.fp, v.msg);
        }
        self.dead = true;
        if self.cfg.known.iter().any(|(fp, _)| *fp == v.fp) {
            *self.loc.known.entry(v.fp).or_default() += 1;
        } else {
            self.loc.viols.push(v);
        }
    }
    /// A divergence that concerns only the listed properties.
    pub fn diverge(&mut self, props: &[&str], fp: impl Into<String>, msg: impl Into<String>) {
        if props.contains(&self.cfg.prop.as_str()) || std::env::var("SWIG_ALL").is_ok() {
            self.violate(fp, msg);
        } else {
            let (fp, msg) = (fp.into(), msg.into());
            if self.verbose {
                eprintln!("  (other property {:?}) {} :: {}", props, fp, msg);
            }
            self.loc.foreign += 1;
            self.dead = true;
        }
    }
    pub fn stop(&self) -> ! {
        std::panic::resume_unwind(Box::new(Stop))
    }
    /// a step that has to succeed for the case to make sense
    pub fn must(&mut self, o: &Outcome, what: &str) {
        if !o.ok {
            self.violate(format!("must:{}", what), format!("a legal step was refused: {} ({})", what, o.err));
            self.stop();
        }
    }
}

pub struct Shared {
    pub m: Mutex<Local>,
    pub next: AtomicU64,
    pub stop: AtomicBool,
    pub start: Instant,
}

fn cur_file(cfg: &Cfg) -> std::path::PathBuf {
    std::path::PathBuf::from(format!("{}/evidence/.cur-{}", cfg.root, cfg.prop))
}

/// a case takes milliseconds; one that takes this long does not end
const HANG_MS: u64 = 40_000;
pub type CaseFn<'f> = &'f (dyn Fn(&mut Case) + Sync);

/// Runs `n` cases of a stage over all threads, for at most `cap`.
pub fn run_stage(cfg: &Cfg, out: &mut Local, stage: &'static str, n: u64, cap: Duration, f: CaseFn) {
    use std::os::unix::fs::FileExt;
    let only = std::env::var("SWIG_STAGE").ok();
    if let Some(s) = only {
        if s != stage {
            return;
        }
    }
    let sh = Shared { m: Mutex::new(Local::default()), next: AtomicU64::new(0), stop: AtomicBool::new(false), start: Instant::now() };
    let done = AtomicU64::new(0);
    let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(cur_file(cfg)).ok();
    let threads = if cfg.only.is_some() { 1 } else { cfg.threads };
    // when each thread began its current case; 0 while it has none
    let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let left = AtomicU64::new(threads as u64);
    std::thread::scope(|sc| {
        {
            let (sh, beat, left) = (&sh, &beat, &left);
            sc.spawn(move || loop {
                if left.load(Ordering::Relaxed) == 0 {
                    return;
                }
                std::thread::sleep(Duration::from_millis(5));
                let now = sh.start.elapsed().as_millis() as u64 + 1;
                if beat.iter().any(|b| {
                    let b = b.load(Ordering::Relaxed);
                    b != 0 && now.saturating_sub(b) > HANG_MS
                }) {
                    std::process::exit(77);
                }
            });
        }
        for t in 0..threads {
            let (sh, done, cur, beat, left) = (&sh, &done, &cur, &beat, &left);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut loc = Local::default();
                    loop {
                        let i = match cfg.only {
                            Some(c) => {
                                if sh.next.fetch_add(1, Ordering::Relaxed) > 0 {
                                    break;
                                }
                                c
                            }
                            None => sh.next.fetch_add(1, Ordering::Relaxed),
                        };
                        if cfg.only.is_none() && (i >= n || sh.stop.load(Ordering::Relaxed) || sh.start.elapsed() > cap) {
                            break;
                        }
                        if let Some(c) = cur {
                            let line = format!("{:<20} {:>12} {:>24}\n", stage, i, sh.start.elapsed().as_millis());
                            let _ = c.write_all_at(line.as_bytes(), (t * 59) as u64);
                        }
                        let mut case = Case {
                            cfg,
                            rng: Rng::new(cfg.seed.wrapping_mul(1_000_003).wrapping_add(i), stage),
                            stage,
                            case: i,
                            hist: vec![],
                            dead: false,
                            loc: &mut loc,
                            verbose: cfg.only.is_some(),
                        };
                        beat[t].store(sh.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut case)));
                        beat[t].store(0, Ordering::Relaxed);
                        if let Err(p) = r {
                            if p.downcast_ref::<Stop>().is_none() {
                                let m = p
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_else(|| "?".into());
                                match rt::panicked_in_repo() {
                                    // a panic of the library under test, called with what it must take
                                    Some(f) => case.violate(format!("panic:{}", f.replace(' ', "-")), format!("{} panics: {}", f, m)),
                                    None => loc.trouble.push(format!("stage {} case {}: {}", stage, i, m)),
                                }
                            }
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                        if loc.viols.len() > 40 || loc.trouble.len() > 3 {
                            sh.stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let mut g = sh.m.lock().unwrap();
                    merge(&mut g, loc);
                    left.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
    });
    let g = sh.m.into_inner().unwrap();
    merge(out, g);
    *out.counters.entry(format!("cases_{}", stage)).or_default() += done.load(Ordering::Relaxed);
}

pub fn merge(a: &mut Local, b: Local) {
    a.evals += b.evals;
    a.nontrivial.extend(b.nontrivial);
    for s in b.samples {
        if a.samples.len() < 6 {
            a.samples.push(s);
        }
    }
    for (k, v) in b.counters {
        *a.counters.entry(k).or_default() += v;
    }
    for (k, v) in b.sets {
        a.sets.entry(k).or_default().extend(v);
    }
    a.viols.extend(b.viols);
    for (k, v) in b.known {
        *a.known.entry(k).or_default() += v;
    }
    a.foreign += b.foreign;
    a.trouble.extend(b.trouble);
}

/// known findings: lines `finding: property=<id> <fingerprint> :: <text>`
pub fn known(root: &str, prop: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.txt", root);
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: property=") {
                if let Some((id, rest)) = rest.split_once(' ') {
                    if id == prop {
                        if let Some((fp, text)) = rest.split_once(" :: ") {
                            v.push((fp.trim().to_string(), text.to_string()));
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn finish(cfg: &Cfg, mut out: Local, rule: &str, assumptions: &[&str], start: Instant) -> i32 {
    let _ = std::fs::remove_file(cur_file(cfg));
    out.viols.sort_by_key(|v| (v.stage.clone(), v.case));
    let fresh: Vec<&Viol> = out.viols.iter().collect();
    let hit = &out.known;
    for (fp, text) in &cfg.known {
        println!("KNOWN-FINDING: property={} {} [{}; seen {} times in this run]", cfg.prop, text, fp, hit.get(fp).copied().unwrap_or(0));
    }
    // evidence
    let mut cov = String::new();
    cov.push_str(&format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, ", out.evals, out.nontrivial.len()));
    cov.push_str(&format!("\"rule\": {}, \"samples\": [", jstr(rule)));
    cov.push_str(&out.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    cov.push(']');
    for (k, v) in &out.counters {
        cov.push_str(&format!(", {}: {}", jstr(k), v));
    }
    for (k, v) in &out.sets {
        cov.push_str(&format!(", {}: {}", jstr(&format!("distinct_{}", k)), v.len()));
    }
    cov.push_str(&format!(", \"cases_ended_by_other_properties_divergence\": {}", out.foreign));
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        jstr(&cfg.prop),
        jstr(&cfg.tier),
        cfg.seed,
        cov,
        assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        fresh.len()
    );
    let dir = format!("{}/evidence", cfg.root);
    let _ = std::fs::create_dir_all(&dir);
    if cfg.only.is_none() {
        let _ = std::fs::write(format!("{}/{}.json", dir, cfg.prop), ev);
    }
    println!(
        "property={} tier={} evaluations={} distinct={} violations={} known={} wall={:.1}s",
        cfg.prop,
        cfg.tier,
        out.evals,
        out.nontrivial.len(),
        fresh.len(),
        hit.values().sum::<u64>(),
        start.elapsed().as_secs_f64()
    );
    if std::env::var("SWIG_STATS").is_ok() {
        for (k, v) in &out.counters {
            println!("   {} = {}", k, v);
        }
        for (k, v) in &out.sets {
            println!("   distinct {} = {}", k, v.len());
        }
        println!("   foreign = {}", out.foreign);
    }
    for t in out.trouble.iter().take(5) {
        println!("harness trouble: {}", t);
    }
    if !fresh.is_empty() {
        let mut seen: HashSet<String> = HashSet::new();
        for v in fresh {
            if seen.len() >= 12 || !seen.insert(v.fp.clone()) {
                continue;
            }
            let rp = format!("{}/replay-{}-{}-{}.txt", dir, cfg.prop, v.stage, v.case);
            let body = format!(
                "property {}\ntier {} seed {} stage {} case {}\nfingerprint {}\n{}\n\nreplay: SWIG_STAGE={} VERIF_SEED={} {}/run.sh {} {} --case {}\n\nhistory:\n{}\n",
                cfg.prop, cfg.tier, cfg.seed, v.stage, v.case, v.fp, v.msg, v.stage, cfg.seed, cfg.root, cfg.prop, cfg.tier, v.case,
                v.hist.join("\n")
            );
            let _ = std::fs::write(&rp, body);
            println!("  {} [{} case {}]: {}", v.fp, v.stage, v.case, v.msg);
            println!("VIOLATION property={} replay={}", cfg.prop, rp);
        }
        return 1;
    }
    if !out.trouble.is_empty() {
        return 2;
    }
    if cfg.only.is_none() && (out.evals == 0 || out.nontrivial.len() < 2) {
        println!("nothing was observed: the workload never reached the monitored behaviour");
        println!("VIOLATION property={} replay=none-observed", cfg.prop);
        return 1;
    }
    0
}

/// Parent side: runs the check in a child process so that a crash or a hang of
/// the program under test is itself an observation.
pub fn supervise(cfg: &Cfg) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let limit = Duration::from_secs(std::env::var("SWIG_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(840));
    let mut ch = std::process::Command::new(exe)
        .args(std::env::args().skip(1))
        .env("SWIG_CHILD", "1")
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = st.signal() {
                return crash(cfg, &format!("the process died of signal {}", sig));
            }
            let c = st.code().unwrap_or(2);
            if c == 101 {
                return 2;
            }
            if c == 77 {
                return crash(cfg, "a case runs without end: an execution hangs");
            }
            return c;
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return crash(cfg, "the workload did not finish: an execution hangs");
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
fn crash(cfg: &Cfg, why: &str) -> i32 {
    let cur = std::fs::read_to_string(cur_file(cfg)).unwrap_or_default();
    let dir = format!("{}/evidence", cfg.root);
    let rp = format!("{}/replay-{}-crash.txt", dir, cfg.prop);
    let _ = std::fs::write(
        &rp,
        format!("property {}\n{}\nseed {}\ncases running on each thread (stage, case, ms):\n{}\n", cfg.prop, why, cfg.seed, cur),
    );
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 0, \"distinct_nontrivial\": 0, \"rule\": \"crashed\", \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
        jstr(&cfg.prop), jstr(&cfg.tier), cfg.seed, jstr(why)
    );
    let _ = std::fs::write(format!("{}/{}.json", dir, cfg.prop), ev);
    println!("{}\n{}", why, cur);
    println!("VIOLATION property={} replay={}", cfg.prop, rp);
    1
}
