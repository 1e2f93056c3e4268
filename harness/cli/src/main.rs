//! The command-line client against the program.
mod cli;
#[path = "../../sdk/src/net.rs"]
mod net;
#[allow(dead_code)]
#[path = "../../sdk/src/perms.rs"]
mod perms;
#[path = "../../sdk/src/stored.rs"]
mod stored;
use checks::report::*;

fn dispatch(cfg: &Cfg, out: &mut Local) -> (&'static str, &'static [&'static str]) {
    if cfg.prop != "R09" {
        return ("unknown property", &[]);
    }
    // the library's own listing goes to the process's output
    let _quiet = cli::Quiet::new();
    checks::checks::stage(cfg, out, "command line", 20000, 800000, &|c| cli::history(c));
    ("distinct (operation, credential type, outcome) combinations observed", checks::checks::ASSUME)
}
fn main() {
    checks::main(dispatch)
}
