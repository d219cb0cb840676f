mod cfi;
mod cli;
mod container;
mod crash;
mod download;
mod dwarf;
mod elf;
mod ev;
mod ident;
mod large;
mod lines;
mod macho;
mod mapping;
mod merge;
mod mk;
mod mutate;
mod names;
mod options;
mod outfault;
mod paths;
mod repeat;
mod pdb;
mod pe;
mod server;
mod store;
mod sym;
mod syms;
mod unwind;
mod util;
mod watch;

#[global_allocator]
static ALLOC: watch::Alloc = watch::Alloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args
        .get(2)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or("quick".into());
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if id == "__hist" {
        repeat::worker(&args[2..]);
        return;
    }
    if id == "__mut" {
        std::process::exit(mutate::worker(&args[2..]));
    }
    // the library looks for $HOME/.dump_syms/config
    std::env::set_var("HOME", "/nonexistent");
    if id != "pdb" {
        watch::start(&id, tier == "thorough");
    }
    let mut cx = ev::Ctx::new(&id, tier == "thorough");
    match id.as_str() {
        "pdb" => {
            // development aid: a PDB on stdout
            use std::io::Write;
            let p = pdb::Pdb {
                files: vec![b"d:\\x\\a.c".to_vec(), b"d:\\x\\b.c".to_vec()],
                inlinees: vec![(b"ia".to_vec(), 0, 5)],
                publics: vec![(b"?pub@@YAXXZ".to_vec(), 1, 0x500, 2), (b"dat".to_vec(), 2, 0, 0)],
                frames: vec![pdb::Frame { start: 0x1100, size: 0x10, locals: 4, params: 8, prolog: 2, program: Some(b"$T0 .raSearch =".to_vec()) }],
                modules: vec![vec![pdb::Proc {
                    name: b"f0".to_vec(),
                    seg: 1,
                    off: 0x100,
                    size: 0x10,
                    lines: vec![(0, 0, 10), (4, 1, 11), (8, 0, 12)],
                    lines_size: 0x10,
                    sites: vec![pdb::Site { inlinee: 0, lines: vec![(4, 4, 0, 7)], kids: vec![] }],
                    ..Default::default()
                }]],
                ..Default::default()
            };
            std::io::stdout().write_all(&p.build()).unwrap();
            return;
        }
        "C05" => outfault::c05(&mut cx),
        "C06" => mutate::c06(&mut cx),
        "C07" => lines::c07(&mut cx),
        "C08" => lines::c08(&mut cx),
        "C09" => syms::c09(&mut cx),
        "C10" => names::c10(&mut cx),
        "C11" => merge::c11(&mut cx),
        "C12" => paths::c12(&mut cx),
        "C13" => mapping::c13(&mut cx),
        "C14" => store::c14(&mut cx),
        "C15" => download::c15(&mut cx),
        "C16" => crash::c16(&mut cx),
        "C17" => ident::c17(&mut cx),
        "C18" => container::c18(&mut cx),
        "C19" => names::c19(&mut cx),
        "C20" => repeat::c20(&mut cx),
        "C21" => unwind::c21(&mut cx),
        "C22" => options::c22(&mut cx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    let rc = cx.finish();
    std::process::exit(rc);
}
