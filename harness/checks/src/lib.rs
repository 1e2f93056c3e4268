#![allow(dead_code)]
pub mod auth;
pub mod charge;
pub mod checks;
pub mod client;
pub mod codec;
pub mod compact;
pub mod enc;
pub mod hist;
pub mod hostile;
pub mod life;
pub mod limits;
pub mod model;
pub mod plan;
pub mod report;
pub mod subs;
pub mod util;
pub mod world;
use report::*;
use std::time::Instant;

pub type Dispatch = fn(&Cfg, &mut Local) -> (&'static str, &'static [&'static str]);

pub fn main(dispatch: Dispatch) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: swigcheck PROP [quick|thorough] [--case N]");
        std::process::exit(2);
    }
    let tier = a.get(2).filter(|s| !s.starts_with("--")).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let only = a.iter().position(|s| s == "--case").and_then(|i| a.get(i + 1)).and_then(|s| s.parse().ok());
    let root = std::env::var("SWIG_ROOT").unwrap_or("/verif".into());
    let cfg = Cfg {
        known: known(&root, &a[1]),
        prop: a[1].clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        root,
        only,
        threads: std::env::var("SWIG_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(7),
    };
    if std::env::var("SWIG_CHILD").is_err() && only.is_none() {
        std::process::exit(supervise(&cfg));
    }
    rt::install_panic_hook();
    let t = Instant::now();
    let mut out = Local::default();
    let (rule, assume) = dispatch(&cfg, &mut out);
    std::process::exit(finish(&cfg, out, rule, assume, t));
}
