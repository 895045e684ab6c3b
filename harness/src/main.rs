mod api;
mod arch;
mod big;
mod bound;
mod cli;
mod conc;
mod crypto;
mod drive;
mod gen;
mod header;
mod fsmon;
mod io;
mod keys;
mod mem;
mod monio;
mod ops;
mod pty;
mod random;
mod refimpl;
mod robust;
mod trace;
mod ub;
mod util;
mod watch;

use util::Ctx;

#[global_allocator]
static ALLOC: mem::Mon = mem::Mon;

type Check = fn(&mut Ctx);
const CHECKS: &[(&str, Check)] = &[
    ("C01", crypto::c01),
    ("C02", crypto::c02),
    ("C03", crypto::c03),
    ("C04", crypto::c04),
    ("C05", crypto::c05),
    ("C06", crypto::c06),
    ("C07", keys::c07),
    ("C08", keys::c08),
    ("C09", header::c09),
    ("C10", robust::c10),
    ("C11", ub::c11),
    ("C12", header::c12),
    ("C13", header::c13),
    ("C14", random::c14),
    ("C15", random::c15),
    ("C16", mem::c16),
    ("C17", arch::c17),
    ("C18", arch::c18),
    ("C19", fsmon::c19),
    ("C20", fsmon::c20),
    ("C21", io::c21),
    ("C22", fsmon::c22),
    ("C23", io::c23),
    ("C24", io::c24),
    ("C25", cli::c25),
    ("C26", cli::c26),
    ("C27", cli::c27),
    ("C28", conc::c28),
    ("C29", crypto::c29),
    ("C31", crypto::c31),
    ("C32", fsmon::c32),
    ("C33", cli::c33),
    ("C34", bound::c34),
];

fn main() {
    ops::install_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            if !CHECKS.iter().any(|c| c.0 == id) {
                eprintln!("no such check: {id}");
                std::process::exit(2);
            }
            std::process::exit(watch::parent(&id));
        }
        Some("check-inner") => {
            let id = args.get(2).cloned().unwrap_or_default();
            watch::child();
            let Some((_, f)) = CHECKS.iter().find(|c| c.0 == id) else {
                eprintln!("no such check: {id}");
                std::process::exit(2);
            };
            let mut ctx = Ctx::new(&id);
            f(&mut ctx);
            while ctx.again() {
                f(&mut ctx);
            }
            trace::cleanup();
            std::process::exit(ctx.finish());
        }
        Some("drive") => std::process::exit(drive::main(&args[2..])),
        _ => {
            eprintln!("usage: vmon check <ID>");
            std::process::exit(2);
        }
    }
}
