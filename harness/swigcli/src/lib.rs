//! The command-line client as a library: what it prints is kept, what it asks
//! is answered by a script.
pub mod out {
    use std::cell::RefCell;
    thread_local! {
        static LINES: RefCell<String> = const { RefCell::new(String::new()) };
    }
    pub fn put(s: String) {
        LINES.with(|x| x.borrow_mut().push_str(&s))
    }
    pub fn take() -> String {
        LINES.with(|x| std::mem::take(&mut *x.borrow_mut()))
    }
}
macro_rules! println {
    () => { $crate::out::put("\n".into()) };
    ($($t:tt)*) => { $crate::out::put(format!($($t)*) + "\n") };
}
#[allow(unused_macros)]
macro_rules! print {
    ($($t:tt)*) => { $crate::out::put(format!($($t)*)) };
}
include!("/repo/cli/src/main.rs");

pub use dialoguer::{script, Q};
pub fn command(ctx: &mut SwigCliContext, args: &[String]) -> std::result::Result<(), String> {
    let cli = SwigCli::try_parse_from(std::iter::once("swig".to_string()).chain(args.iter().cloned())).map_err(|e| format!("usage: {e}"))?;
    let cmd = cli.command.ok_or("no command")?;
    run_command_mode(ctx, cmd).map_err(|e| e.to_string())
}
pub fn interactive(ctx: &mut SwigCliContext) -> std::result::Result<(), String> {
    run_interactive_mode(ctx).map_err(|e| e.to_string())
}
pub fn context(payer: Keypair) -> SwigCliContext {
    SwigCliContext {
        payer,
        config_dir: PathBuf::from("."),
        rpc_url: "http://localhost".into(),
        authority: None,
        wallet: None,
        swig_id: None,
        config: SwigConfig::default(),
    }
}
