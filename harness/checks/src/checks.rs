//! Which workloads decide which property.
use crate::auth;
use crate::client;
use crate::codec;
use crate::compact;
use crate::hist;
use crate::hostile;
use crate::life;
use crate::limits;
use crate::model::*;
use crate::report::*;
use crate::subs;
use std::time::Duration;

const HIST: &[&str] = &["A02", "A03", "A04", "A05", "A06", "A07", "A08", "S01", "S02", "S03", "S04", "W02", "W03", "W04", "W05"];

const OTHER: &[&str] = &["A01", "C02", "R01", "R02", "R03", "R04", "R05", "W01"];
const SIGN: &[&str] = &["L01", "L02", "L03", "L04", "L05", "L06", "P01", "P02", "C01"];

pub fn has(p: &str) -> bool {
    HIST.contains(&p) || OTHER.contains(&p) || SIGN.contains(&p)
}
/// quick and thorough case counts with their time caps; a quick run has three
/// times the count named where the stage is started
pub fn stage(cfg: &Cfg, out: &mut Local, name: &'static str, quick: u64, thorough: u64, f: CaseFn) {
    let (n, t) = if cfg.thorough() { (thorough, 220) } else { (if quick > 1 { quick * 3 } else { quick }, 40) };
    run_stage(cfg, out, name, n, Duration::from_secs(t), f);
}
pub fn run(cfg: &Cfg, out: &mut Local) -> (&'static str, &'static [&'static str]) {
    let p = cfg.prop.as_str();
    if HIST.contains(&p) {
        let h = hist::profile(p);
        stage(cfg, out, "hist", 30000, 600000, &|c| hist::history(c, &h));
    }
    if let Some(f) = SIGN.iter().find(|x| **x == p) {
        stage(cfg, out, "sign", 30000, 600000, &|c| limits::run(c, f));
    }
    if let Some(f) = ["S01", "S02", "S03", "S04", "C01"].iter().find(|x| **x == p) {
        stage(cfg, out, "subsign", 20000, 400000, &|c| subs::run(c, f));
    }
    match p {
        "A01" => stage(cfg, out, "auth", 12000, 400000, &|c| auth::attacks(c, &KINDS, 8)),
        "A02" => {
            stage(cfg, out, "auth", 4000, 100000, &|c| auth::attacks(c, &[K1T, K1S, R1T, R1S], 8));
            stage(cfg, out, "twins", 6000, 200000, &|c| auth::twins(c));
        }
        "A03" => stage(cfg, out, "auth", 4000, 100000, &|c| auth::attacks(c, &[EDS, K1S, R1S, PES], 8)),
        "R02" => stage(cfg, out, "auth", 12000, 400000, &|c| auth::attacks(c, &[PE, PES], 8)),
        "R03" => stage(cfg, out, "auth", 12000, 400000, &|c| auth::attacks(c, &[R1T, R1S], 8)),
        "C02" => stage(cfg, out, "compact", 200000, 6000000, &|c| compact::compacting(c)),
        "R05" => {
            stage(cfg, out, "guard", 1, 40, &|c| codec::guard(c));
            stage(cfg, out, "layouts", 60000, 2000000, &|c| codec::layouts(c));
            stage(cfg, out, "wallets", 60000, 2000000, &|c| codec::wallets(c));
        }
        "R01" => {
            let st = |out: &mut Local, name: &'static str, quick: u64, thorough: u64, secs: u64, f: CaseFn| {
                let (n, t) = if cfg.thorough() { (thorough, 5 * secs) } else { (quick, secs) };
                hostile::stage(cfg, out, name, n, Duration::from_secs(t), f);
            };
            st(out, "parsers", 200_000, 10_000_000, 20, &|c| hostile::parsers(c));
            st(out, "hist", 20_000, 1_000_000, 40, &|c| {
                let h = hist::profile(*c.rng.pick(HIST));
                hostile::tapped(c, 3, |c| hist::history(c, &h))
            });
            st(out, "sign", 20_000, 1_000_000, 25, &|c| {
                let f = *c.rng.pick(SIGN);
                if c.rng.chance(1, 4) {
                    return hostile::tapped(c, 3, |c| subs::run(c, f));
                }
                hostile::tapped(c, 3, |c| limits::run(c, f))
            });
            st(out, "auth", 10_000, 400_000, 15, &|c| hostile::tapped(c, 2, |c| auth::attacks(c, &KINDS, 6)));
            st(out, "create", 20_000, 400_000, 10, &|c| hostile::tapped(c, 4, life::creation));
            st(out, "fills", 20_000, 1_000_000, 20, &|c| match c.rng.below(6) {
                0 | 1 => {
                    let h = hist::profile(*c.rng.pick(HIST));
                    hostile::filled(c, 2, |c| hist::history(c, &h))
                }
                2 | 3 => {
                    let f = *c.rng.pick(SIGN);
                    if c.rng.chance(1, 4) {
                        return hostile::filled(c, 2, |c| subs::run(c, f));
                    }
                    hostile::filled(c, 2, |c| limits::run(c, f))
                }
                4 => hostile::filled(c, 2, |c| auth::attacks(c, &KINDS, 6)),
                _ => hostile::filled(c, 2, |c| auth::attacks(c, &KINDS[4..6], 6)),
            });
            st(out, "client", 10_000, 400_000, 10, &|c| hostile::tapped(c, 4, client::builders));
        }
        "R04" => stage(cfg, out, "builders", 60000, 2000000, &|c| client::builders(c)),
        "W01" => stage(cfg, out, "create", 40000, 1000000, &|c| life::creation(c)),
        _ => {}
    }
    ("distinct (operation, credential type, reason for refusal) combinations observed", ASSUME)
}
pub const ASSUME: &[&str] = &[
    "the harness runtime models the Solana runtime's account, signer, rent and CPI rules",
    "stub system, token, stake and precompile programs behave like the real ones for the instructions used",
];
