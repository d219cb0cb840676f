//! C22: every command-line option acts on every file of a run, alone and with the others.
use crate::cfi::{self, Fde};
use crate::cli;
use crate::elf::Elf;
use crate::ev::*;
use crate::macho::{self, Mach};
use crate::{mk, pdb, pe, util};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;

const GUID: [u8; 16] = [0x44, 0x33, 0x22, 0x11, 0x66, 0x55, 0x88, 0x77, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff, 0x01];

/// The files: (name, contents).
const NAMES: [&str; 7] = ["e.so", "f.so", "m.dylib", "w.dll", "p.pdb", "g.exe", "bad.txt"];
const MODULES: [&str; 7] = ["e.so", "f.so", "m.dylib", "w.pdb", "p.pdb", "g.exe", ""];
const E: usize = 0;
const F: usize = 1;
const M: usize = 2;
const W: usize = 3;
const P: usize = 4;
/// a PE file with DWARF in it
const G: usize = 5;
const BAD: usize = 6;

fn unit(base: u64) -> mk::Unit {
    mk::Unit {
        comp_dir: Some(b"/src/x".to_vec()),
        origins: vec![(b"inlinee".to_vec(), None)],
        funs: vec![mk::fun("fun", base + 0x1010, 0x20).rows(&[(0, 0, 10), (8, 1, 20), (16, 0, 30)]).inl(vec![mk::Inl {
            lo: 8,
            hi: 16,
            origin: 0,
            call_file: 0,
            call_line: 15,
            kids: vec![],
        }])],
        ..Default::default()
    }
}

fn a_pdb(guid: [u8; 16]) -> Vec<u8> {
    pdb::Pdb {
        page: 0x200,
        guid,
        age: 2,
        files: vec![b"/src/x/a.c".to_vec(), b"/src/x/b.c".to_vec()],
        inlinees: vec![(b"inlinee".to_vec(), 1, 20)],
        modules: vec![vec![pdb::Proc {
            name: b"fun".to_vec(),
            seg: 1,
            off: 0x10,
            size: 0x20,
            lines: vec![(0, 0, 10), (8, 0, 15), (16, 0, 30)],
            lines_size: 0x20,
            sites: vec![pdb::Site { inlinee: 0, lines: vec![(8, 8, 1, 20)], kids: vec![] }],
            ..Default::default()
        }]],
        ..Default::default()
    }
    .build()
}

fn file(k: usize) -> Vec<u8> {
    match k {
        E | F => {
            let mut e = Elf::new().text(0x1000, 0x100).dwarf(mk::dwarf(&[unit(0)]));
            e.build_id = Some(vec![k as u8 + 0xe0; 20]);
            if k == E {
                let at = 0x3000;
                let fr = cfi::frame(at, &[Fde { addr: 0x1010, size: 0x20, steps: vec![16] }], true);
                e.extra.push((b".eh_frame".to_vec(), fr, at));
            }
            e.build()
        }
        M => {
            let one = |cpu, sub, id: u8, name: &[u8]| {
                let mut m = Mach::default();
                m.cputype = cpu;
                m.cpusub = sub;
                m.uuid = Some([id; 16]);
                m.syms = vec![(name.to_vec(), m.text_addr + 0x100)];
                m.build()
            };
            macho::fat(&[
                (macho::X86_64, 3, one(macho::X86_64, 3, 0xa1, b"_intel")),
                (macho::ARM64, 0, one(macho::ARM64, 0, 0xa2, b"_arm")),
            ])
        }
        W => {
            let mut p = pe::Pe::default();
            p.codeview = Some((GUID, 2, b"c:\\b\\w.pdb".to_vec()));
            p.exports = vec![(b"exported".to_vec(), 0x1010)];
            p.pdata = vec![(0x1010, 0x1030)];
            p.build()
        }
        G => pe::Pe::default().dwarf(mk::dwarf(&[unit(pe::Pe::BASE)])).build(),
        P => {
            let mut g = GUID;
            g[15] = 0x77;
            a_pdb(g)
        }
        _ => b"this is no object file at all\n".to_vec(),
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct O {
    inlines: bool,
    cfi: bool,
    arm: bool,
    map: bool,
    server: bool,
    info: bool,
}

const WID: &str = "1122334455667788 99AABBCCDDEEFF01";

fn id(k: usize, o: O) -> String {
    match k {
        E => "E0".repeat(16) + "0",
        F => "E1".repeat(16) + "0",
        M => (if o.arm { "A2" } else { "A1" }).repeat(16) + "0",
        W => WID.replace(' ', "") + "2",
        G => "0".repeat(33),
        _ => WID.replace(' ', "").replace("FF01", "FF77") + "2",
    }
}

/// The text of the file's module; None if the file has to be refused.
fn text(k: usize, o: O, gen: &str) -> Option<String> {
    if k == BAD || (o.cfi && matches!(k, F | M | P | G)) {
        return None;
    }
    let (os, cpu) = match k {
        E | F => ("Linux", "x86_64"),
        M => ("Mac", if o.arm { "arm64" } else { "x86_64" }),
        _ => ("windows", "x86_64"),
    };
    let mut t = format!("MODULE {os} {cpu} {} {}\n", id(k, o), MODULES[k]);
    t += &match k {
        E | F => format!("INFO CODE_ID {}\n", id(k, o)[..2].repeat(20)),
        M => format!("INFO CODE_ID {}\n", id(k, o)[..2].repeat(16)),
        W | G => format!("INFO CODE_ID 50000001200000 {}\n", NAMES[k]),
        _ => String::new(),
    };
    if o.info {
        t += "INFO CHANNEL a b\nINFO X yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy\n";
    } else {
        t += &format!("INFO {gen}\n");
    }
    let src = if o.map { "hg:src:x" } else { "/src/x" };
    let win = matches!(k, P) || (k == W && o.server);
    if win || matches!(k, E | F | G) {
        t += &format!("FILE 0 {src}/a.c\n");
        if o.inlines {
            t += &format!("FILE 1 {src}/b.c\nINLINE_ORIGIN 0 inlinee{}\n", if win { "()" } else { "" });
        }
        if matches!(k, E | F) {
            t += "PUBLIC 1000 0 <.text ELF section in @>\n".replace('@', NAMES[k]).as_str();
        }
        t += "FUNC 1010 20 0 fun\n";
        if o.inlines {
            t += "INLINE 0 15 0 0 1018 8\n1010 8 10 0\n1018 8 20 1\n1020 10 30 0\n";
        } else {
            t += "1010 8 10 0\n1018 8 15 0\n1020 10 30 0\n";
        }
    } else if k == M {
        t += if o.arm { "PUBLIC 100 0 arm\n" } else { "PUBLIC 100 0 intel\n" };
    } else {
        t += "FUNC 1010 20 0 exported\n";
    }
    if os == "windows" {
        t += &format!("PUBLIC 1030 0 <unknown in {}>\n", MODULES[k]);
    }
    t += match k {
        E => "STACK CFI INIT 1010 20 .cfa: $rsp 8 + .ra: .cfa -8 + ^\nSTACK CFI 1011 .cfa: $rsp 16 +\n",
        W => "STACK CFI INIT 1010 20 .cfa: $rsp 16 + $rbp: .cfa 16 - ^ .ra: .cfa 8 - ^\n",
        _ => "",
    };
    Some(t)
}

/// The numbers given to source files are free: renumbers them by path, module by module.
fn canon(t: &str) -> String {
    let mut mods: Vec<Vec<&str>> = vec![];
    for l in t.lines() {
        if l.starts_with("MODULE ") || mods.is_empty() {
            mods.push(vec![]);
        }
        mods.last_mut().unwrap().push(l);
    }
    let mut out = String::new();
    for m in mods {
        let mut files: Vec<(&str, &str)> = m.iter().filter_map(|l| l.strip_prefix("FILE ")?.split_once(' ')).map(|(n, p)| (p, n)).collect();
        files.sort();
        let num = |n: &str| files.iter().position(|f| f.1 == n).map_or("?".to_string(), |p| p.to_string());
        let mut done = false;
        for l in m {
            if l.starts_with("FILE ") {
                if !done {
                    files.iter().enumerate().for_each(|(i, f)| out += &format!("FILE {i} {}\n", f.0));
                }
                done = true;
                continue;
            }
            let mut w: Vec<String> = l.split(' ').map(String::from).collect();
            if w[0] == "INLINE" && w.len() > 3 {
                w[3] = num(&w[3]);
            } else if w.len() == 4 && w[0].chars().all(|c| c.is_ascii_hexdigit()) {
                w[3] = num(&w[3]);
            }
            out += &(w.join(" ") + "\n");
        }
    }
    if !t.ends_with('\n') && !t.is_empty() {
        out += "(cut off)";
    }
    out
}

fn gen() -> String {
    let v = std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_default();
    let v = v.lines().find_map(|l| l.strip_prefix("version = ")).unwrap_or("").trim_matches('"').to_string();
    format!("GENERATOR mozilla/dump_syms {v}")
}

/// (standard output, output file, store)
const DEST: [&str; 6] = ["", "-", "out", "s", "out+s", "-+s"];

pub fn c22(cx: &mut Ctx) {
    let t = cx.thorough;
    let sc = Scratch::new("c22");
    std::fs::create_dir_all(sc.p("in")).unwrap();
    std::fs::create_dir_all(sc.p("home")).unwrap();
    for k in 0..NAMES.len() {
        std::fs::write(sc.p("in").join(NAMES[k]), file(k)).unwrap();
    }
    let cached = sc.p("cache/w.pdb").join(id(W, O::default()));
    std::fs::create_dir_all(&cached).unwrap();
    std::fs::write(cached.join("w.pdb"), a_pdb(GUID)).unwrap();
    // all the lists of different files, in every order
    let mut lists: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for n in 0..3 {
        let kinds = if n < 2 { NAMES.len() } else { G };
        let kinds = if t { kinds.max(BAD) } else { kinds };
        last = last
            .iter()
            .flat_map(|l| (0..kinds).filter(|k| !l.contains(k)).map(move |k| [l.clone(), vec![k]].concat()).collect::<Vec<_>>())
            .collect();
        lists.extend(last.iter().cloned());
    }
    let gen = gen();
    let jobs: &[&[&str]] = &[&[], &["-j", "1"], &["-j3", "--verbose", "off", "-t", "dsym"]];
    let n = lists.len() * 64 * DEST.len();
    cx.note("file_lists", lists.len());
    cx.run("options", n, |i| {
        let dest = DEST[i % DEST.len()];
        let b = i / DEST.len() % 64;
        let l = &lists[i / DEST.len() / 64];
        let o = O {
            inlines: b & 1 > 0,
            cfi: b & 2 > 0,
            arm: b & 4 > 0,
            map: b & 8 > 0,
            server: b & 16 > 0,
            info: b & 32 > 0,
        };
        let mut st = Stats::default();
        // the quick check takes three files with one destination and one number of jobs
        let some = !t && l.len() == 3;
        if some && dest != "s" {
            return Ok(st);
        }
        st.states = 1;
        let d = sc.0.join(format!("{:?}", std::thread::current().id()));
        for j in if some { &jobs[..1] } else { jobs } {
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join("out.sym"), "before").unwrap();
            let mut a: Vec<String> = l.iter().map(|k| sc.p("in").join(NAMES[*k]).to_str().unwrap().to_string()).collect();
            let mut add = |v: &[&str]| a.extend(v.iter().map(|s| s.to_string()));
            if dest.starts_with("out") {
                add(&["-o", d.join("out.sym").to_str().unwrap()]);
            } else if dest.starts_with('-') {
                add(&["-o", "-"]);
            }
            if dest.ends_with('s') {
                add(&["--store", d.join("store").to_str().unwrap()]);
            }
            if o.inlines {
                add(&["--inlines"]);
            }
            if o.cfi {
                add(&["--check-cfi"]);
            }
            if o.arm {
                add(&["--arch", "arm64"]);
            }
            if o.map {
                add(&["--mapping-var", "v=src", "--mapping-src", "/src/([a-z])/(.*)", "--mapping-dest", "hg:{v}:{1}/{2}"]);
            }
            if o.server {
                add(&["--symbol-server", &format!("SRV*{}*http://127.0.0.1:1/", sc.s("cache"))]);
            }
            if o.info {
                add(&["--extra-info", "CHANNEL a b", "--extra-info", "X yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy", "--no-generator"]);
            }
            add(j);
            let r = cli::run(&a, &d, &sc.p("home"), None, &d);
            st.traces += 1;
            st.transitions += a.len() as u64;
            let bad = |e: String| Bad::new(format!("dump_syms {}: {e}", a.join(" ")));
            if r.timeout {
                return Err(bad("does not end".into()));
            }
            let texts: Vec<Option<String>> = l.iter().map(|k| text(*k, o, &gen)).collect();
            let ok = texts.iter().all(|t| t.is_some());
            if (r.code == Some(0)) != ok {
                return Err(bad(format!("exit status {:?}, expected {}: {}", r.code, if ok { "0" } else { "a failure" }, r.stderr)));
            }
            let good: Vec<&String> = texts.iter().flatten().collect();
            let to_stdout = dest.is_empty() || dest.starts_with('-');
            let want: String = if to_stdout { good.iter().map(|s| s.as_str()).collect() } else { String::new() };
            let got = canon(&String::from_utf8_lossy(&r.stdout));
            if got != want {
                return Err(bad(format!("standard output\n{got}expected\n{want}")));
            }
            let out = std::fs::read_to_string(d.join("out.sym")).unwrap();
            if dest.starts_with("out") && !good.is_empty() {
                if !good.iter().any(|g| **g == canon(&out)) {
                    return Err(bad(format!("output file\n{out}expected one of\n{good:?}")));
                }
            } else if out != "before" {
                return Err(bad(format!("the output file was written:\n{out}")));
            }
            let mut want: BTreeMap<String, String> = BTreeMap::new();
            if dest.ends_with('s') {
                for (k, t) in l.iter().zip(&texts) {
                    if let Some(t) = t {
                        let base = MODULES[*k].strip_suffix(".pdb").unwrap_or(MODULES[*k]);
                        want.insert(format!("{}/{}/{base}.sym", MODULES[*k], id(*k, o)), t.clone());
                    }
                }
            }
            let got: BTreeMap<String, String> = util::tree(&d.join("store"))
                .into_iter()
                .filter_map(|(p, c)| c.map(|c| (p, canon(&String::from_utf8_lossy(&c)))))
                .collect();
            if got != want {
                return Err(bad(format!("store\n{got:#?}\nexpected\n{want:#?}")));
            }
            let left: Vec<String> =
                util::tree(&d).into_keys().filter(|p| !["stdout", "stderr", "out.sym"].contains(&p.as_str()) && !p.starts_with("store")).collect();
            if !left.is_empty() {
                return Err(bad(format!("created {left:?}")));
            }
        }
        if i % 4999 == 7 {
            st.samples.push(json!(format!("{:?} {o:?} to {dest:?}", l.iter().map(|k| NAMES[*k]).collect::<Vec<_>>())));
        }
        Ok(st)
    });
    if !cx.bads.is_empty() {
        return;
    }
    // listing architectures writes nothing, whatever else is asked for
    cx.run("list_arch", lists.len() * DEST.len() * 4, |i| {
        let dest = DEST[i % DEST.len()];
        let b = i / DEST.len() % 4;
        let l = &lists[i / DEST.len() / 4];
        let d = sc.0.join(format!("{:?}", std::thread::current().id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        let mut a: Vec<String> = l.iter().map(|k| sc.p("in").join(NAMES[*k]).to_str().unwrap().to_string()).collect();
        let mut add = |v: &[&str]| a.extend(v.iter().map(|s| s.to_string()));
        add(&["--list-arch"]);
        if dest.starts_with("out") {
            add(&["-o", d.join("out.sym").to_str().unwrap()]);
        } else if dest.starts_with('-') {
            add(&["-o", "-"]);
        }
        if dest.ends_with('s') {
            add(&["--store", d.join("store").to_str().unwrap()]);
        }
        if b & 1 > 0 {
            add(&["--arch", "arm64"]);
        }
        if b & 2 > 0 {
            add(&["--check-cfi", "--inlines", "-j4"]);
        }
        let r = cli::run(&a, &d, &sc.p("home"), None, &d);
        let bad = |e: String| Bad::new(format!("dump_syms {}: {e}", a.join(" ")));
        let got = String::from_utf8_lossy(&r.stdout).into_owned();
        let mut want = String::new();
        for k in l.iter().take_while(|k| **k != BAD) {
            let s = if *k == M { "s" } else { "" };
            let archs = if *k == M { "x86_64, arm64" } else { "x86_64" };
            want += &format!("{} contains the following architecture{s}:\n{archs}\n", NAMES[*k]);
        }
        let fails = l.contains(&BAD);
        if (r.code == Some(0)) == fails || r.timeout {
            return Err(bad(format!("exit status {:?}: {}", r.code, r.stderr)));
        }
        if if fails { !got.starts_with(&want) } else { got != want } {
            return Err(bad(format!("standard output\n{got}expected\n{want}")));
        }
        let left: Vec<String> = util::tree(&d).into_keys().filter(|p| !["stdout", "stderr"].contains(&p.as_str())).collect();
        if !left.is_empty() {
            return Err(bad(format!("created {left:?}")));
        }
        Ok(Stats { states: 1, transitions: a.len() as u64, traces: 1, samples: vec![] })
    });
    if !cx.bads.is_empty() {
        return;
    }
    by_id(cx, &sc);
}

/// Dumping a file named by its id: it comes out of the cache, never from the current directory.
fn by_id(cx: &mut Ctx, sc: &Scratch) {
    let pid = id(P, O::default());
    let code = "50000001200000";
    let put = |cache: &str, name: &str, id: &str, b: &[u8]| {
        let d = sc.p(cache).join(name).join(id);
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join(name), b).unwrap();
    };
    // one cache has everything, the other nothing
    std::fs::create_dir_all(sc.p("none")).unwrap();
    put("full", "p.pdb", &pid, &file(P));
    put("full", "w.dll", code, &file(W));
    put("full", "w.pdb", &id(W, O::default()), &a_pdb(GUID));
    put("full", "e.so", "e0", &file(E));
    // the same names under another id
    put("full", "p.pdb", "0", &file(F));
    put("none", "p.pdb", "0", &file(F));
    put("none", "w.dll", "0", &file(F));
    // (kind, option, id)
    let looks: &[(usize, &str, &str)] = &[(P, "--debug-id", &pid), (W, "--code-id", code), (E, "--debug-id", "e0"), (E, "--code-id", "e0")];
    // (configuration, found)
    let none = sc.s("none");
    let full = sc.s("full");
    let u = "http://127.0.0.1:1";
    let confs = [
        (format!("SRV*{full}*{u}"), true),
        (format!("SRV*{none}*{u};srv*{full}*{u}"), true),
        (format!("SRV*{u}; SRV * {full} * {u}"), true),
        (format!("SRV*{none}*{u}"), false),
        (format!("SRV*{u}"), false),
        ("nonsense".to_string(), false),
        (String::new(), false),
    ];
    let gen = gen();
    let n = looks.len() * confs.len() * 32 * DEST.len();
    cx.run("by_id", n, |i| {
        let dest = DEST[i % DEST.len()];
        let i = i / DEST.len();
        let b = i % 32;
        let (k, opt, fid) = looks[i / 32 % looks.len()];
        let (conf, found) = &confs[i / 32 / looks.len()];
        let o = O { inlines: b & 1 > 0, cfi: b & 2 > 0, map: b & 4 > 0, info: b & 8 > 0, server: true, arm: false };
        let in_config = b & 16 > 0;
        let d = sc.0.join(format!("{:?}", std::thread::current().id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("cwd")).unwrap();
        std::fs::create_dir_all(d.join("home/.dump_syms")).unwrap();
        std::fs::write(d.join("out.sym"), "before").unwrap();
        // what lies around here is something else
        std::fs::write(d.join("cwd").join(NAMES[k]), file(F)).unwrap();
        let mut a: Vec<String> = vec![NAMES[k].into(), opt.into(), fid.into()];
        let mut add = |v: &[&str]| a.extend(v.iter().map(|s| s.to_string()));
        if in_config {
            std::fs::write(d.join("home/.dump_syms/config"), conf.replace(';', "\n")).unwrap();
        } else {
            // the option replaces the configuration file
            std::fs::write(d.join("home/.dump_syms/config"), format!("SRV*{}*{u}", if *found { &none } else { &full })).unwrap();
            add(&["--symbol-server", conf]);
        }
        if dest.starts_with("out") {
            add(&["-o", d.join("out.sym").to_str().unwrap()]);
        } else if dest.starts_with('-') {
            add(&["-o", "-"]);
        }
        if dest.ends_with('s') {
            add(&["--store", d.join("store").to_str().unwrap()]);
        }
        if o.inlines {
            add(&["--inlines"]);
        }
        if o.cfi {
            add(&["--check-cfi"]);
        }
        if o.map {
            add(&["--mapping-var", "v=src", "--mapping-src", "/src/([a-z])/(.*)", "--mapping-dest", "hg:{v}:{1}/{2}"]);
        }
        if o.info {
            add(&["--extra-info", "CHANNEL a b", "--extra-info", "X yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy", "--no-generator"]);
        }
        let r = cli::run(&a, &d.join("cwd"), &d.join("home"), None, &d);
        let bad = |e: String| Bad::new(format!("dump_syms {} ({conf}{}): {e}", a.join(" "), if in_config { " in the configuration file" } else { "" }));
        if r.timeout {
            return Err(bad("does not end".into()));
        }
        let want = text(k, o, &gen).filter(|_| *found);
        if (r.code == Some(0)) != want.is_some() {
            return Err(bad(format!("exit status {:?}: {}", r.code, r.stderr)));
        }
        let got = canon(&String::from_utf8_lossy(&r.stdout));
        let w = want.clone().filter(|_| dest.is_empty() || dest.starts_with('-')).unwrap_or_default();
        if got != w {
            return Err(bad(format!("standard output\n{got}expected\n{w}")));
        }
        let got = canon(&std::fs::read_to_string(d.join("out.sym")).unwrap());
        let w = want.clone().filter(|_| dest.starts_with("out")).unwrap_or(canon("before"));
        if got != w {
            return Err(bad(format!("output file\n{got}expected\n{w}")));
        }
        let got: Vec<(String, String)> = util::tree(&d.join("store"))
            .into_iter()
            .filter_map(|(p, c)| c.map(|c| (p, canon(&String::from_utf8_lossy(&c)))))
            .collect();
        let base = MODULES[k].strip_suffix(".pdb").unwrap_or(MODULES[k]);
        let w: Vec<(String, String)> =
            want.iter().filter(|_| dest.ends_with('s')).map(|t| (format!("{}/{}/{base}.sym", MODULES[k], id(k, o)), t.clone())).collect();
        if got != w {
            return Err(bad(format!("store\n{got:#?}\nexpected\n{w:#?}")));
        }
        Ok(Stats { states: 1, transitions: a.len() as u64, traces: 1, samples: vec![] })
    });
}
