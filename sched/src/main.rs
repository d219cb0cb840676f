#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#[path = "../../mc/src/cfi.rs"]
mod cfi;
#[path = "../../mc/src/dwarf.rs"]
mod dwarf;
#[path = "../../mc/src/elf.rs"]
mod elf;
#[path = "../../mc/src/ev.rs"]
mod ev;
#[path = "../../mc/src/macho.rs"]
mod macho;
#[path = "../../mc/src/pdb.rs"]
mod pdb;
#[path = "../../mc/src/pe.rs"]
mod pe;
#[path = "../../mc/src/mk.rs"]
mod mk;
#[allow(dead_code)]
mod rt;
#[path = "../../mc/src/sym.rs"]
mod sym;
#[path = "../../mc/src/util.rs"]
mod util;

mod explore;
mod scen;

/// Every run is a process of its own here, see explore.rs.
mod watch {
    pub fn part(_: &str) {}
    pub fn case<T>(_: usize, _: usize, f: impl FnOnce() -> T) -> T {
        f()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args
        .get(2)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or("quick".into());
    std::panic::set_hook(Box::new(|_| {}));
    let mut cx = ev::Ctx::new(&id, tier == "thorough");
    if !["C01", "C02", "C03", "C04"].contains(&id.as_str()) {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    }
    let dir = ev::Scratch::new(&format!("sched-{id}"));
    std::env::set_var("HOME", dir.p("home"));
    let jobs = scen::scenarios(&id, cx.thorough, &dir);
    explore::explore(&mut cx, &dir, jobs);
    drop(dir);
    let rc = cx.finish();
    std::process::exit(rc);
}
