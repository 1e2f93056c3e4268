//! The Rust SDK against the program.
mod net;
mod perms;
mod reading;
mod roles;
mod stored;
mod wallet;
use checks::report::*;

fn dispatch(cfg: &Cfg, out: &mut Local) -> (&'static str, &'static [&'static str]) {
    match cfg.prop.as_str() {
        "R06" => checks::checks::stage(cfg, out, "roles", 80000, 3000000, &|c| roles::building(c)),
        "R07" => checks::checks::stage(cfg, out, "reading", 60000, 2000000, &|c| reading::reading(c)),
        "R08" => checks::checks::stage(cfg, out, "wallet", 36000, 2000000, &|c| wallet::history(c)),
        _ => return ("unknown property", &[]),
    }
    ("distinct (operation, credential type, reason for refusal) combinations observed", checks::checks::ASSUME)
}
fn main() {
    checks::main(dispatch)
}
