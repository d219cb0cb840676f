//! C06: damaged and refused inputs.
use crate::cli::{self, Inject};
use crate::download::cabinet;
use crate::elf::*;
use crate::ev::*;
use crate::sym::parse;
use crate::util::tree;
use crate::{cfi, macho, mk, pdb, pe};
use dump_syms::dumper::{self, Config, FileOutput, Output};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn unit(base: u64) -> mk::Unit {
    let mut u = mk::Unit::default();
    u.origins = vec![(b"inl".to_vec(), None), (b"inm".to_vec(), Some(b"_Z3inmv".to_vec()))];
    u.lang = crate::dwarf::DW_LANG_CPP;
    let mut f = mk::fun("f", base, 0x40).rows(&[(0, 0, 1), (8, 1, 2), (16, 0, 3), (32, 0, 9)]);
    f.linkage = Some(b"_ZN1a1fEv".to_vec());
    f.inl = vec![mk::Inl {
        lo: 8,
        hi: 32,
        origin: 0,
        call_file: 0,
        call_line: 4,
        kids: vec![mk::Inl { lo: 16, hi: 24, origin: 1, call_file: 1, call_line: 5, kids: vec![] }],
    }];
    u.funs = vec![f, mk::fun("g", base + 0x40, 0x10).rows(&[(0, 1, 7)])];
    u
}

fn elf(mini: Option<Vec<u8>>, version: u16) -> Vec<u8> {
    let mut e = Elf::new().text(0x1000, 0x200);
    e.soname = Some(b"m.so".to_vec());
    let s = |n: &str, v: u64, z: u64| ElfSym { name: n.as_bytes().to_vec(), value: v, size: z, typ: 2, bind: 1, sec: Some(0) };
    e.symtab = vec![s("s0", 0x1100, 8), s("s1", 0x1110, 0)];
    e.dynsym = vec![s("d0", 0x1120, 8)];
    if version > 0 {
        let mut u = unit(0x1000);
        u.version = version;
        e = e.dwarf(mk::dwarf(&[u]));
    }
    let f = [cfi::Fde { addr: 0x1000, size: 0x40, steps: vec![16, 24] }];
    e.extra.push((b".eh_frame".to_vec(), cfi::frame(0x8000, &f, true), 0x8000));
    if let Some(m) = mini {
        e.extra.push((b".gnu_debugdata".to_vec(), m, 0));
    }
    e.build()
}

fn xz(data: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    lzma_rs::xz_compress(&mut std::io::Cursor::new(data), &mut v).unwrap();
    v
}

fn a_pdb(page: usize, machine: u16) -> Vec<u8> {
    let mut p = pdb::Pdb::default();
    p.page = page;
    p.machine = machine;
    p.guid = [7; 16];
    p.files = vec![b"d:\\x\\a.c".to_vec(), b"d:\\x\\b.c".to_vec()];
    p.inlinees = vec![(b"inl".to_vec(), 0, 10), (b"inm".to_vec(), 1, 20)];
    p.modules = vec![vec![
        pdb::Proc {
            name: b"p".to_vec(),
            seg: 1,
            off: 0x100,
            size: 0x20,
            lines: vec![(0, 0, 1), (8, 1, 2), (16, 0, 3)],
            lines_size: 0x20,
            sites: vec![pdb::Site {
                inlinee: 0,
                lines: vec![(8, 8, 1, 7)],
                kids: vec![pdb::Site { inlinee: 1, lines: vec![(8, 4, 0, 21)], kids: vec![] }],
            }],
            ..Default::default()
        },
        pdb::Proc { name: b"q".to_vec(), seg: 1, off: 0x120, size: 0x10, lines: vec![(0, 0, 5)], lines_size: 0x10, ..Default::default() },
    ]];
    p.publics = vec![(b"?pub@@YAXXZ".to_vec(), 1, 0x500, 2), (b"_p@8".to_vec(), 1, 0x100, 2)];
    if machine == 0x14c {
        p.frames = vec![pdb::Frame { start: 0x1100, size: 0x20, locals: 4, params: 8, prolog: 2, program: Some(b"$T0 .raSearch =".to_vec()) }];
    }
    p.build()
}

fn a_pe() -> Vec<u8> {
    let mut e = pe::Pe::default();
    e.codeview = Some(([7; 16], 1, b"m.pdb".to_vec()));
    e.exports = vec![(b"e1".to_vec(), 0x2000), (b"?e2@@YAXXZ".to_vec(), 0x2010)];
    e.pdata = vec![(0x1100, 0x1120), (0x1800, 0x1820)];
    e.build()
}

fn a_macho(cpu: u32) -> Vec<u8> {
    let mut m = macho::Mach::default();
    m.cputype = cpu;
    m.cpusub = if cpu == macho::ARM64 { 0 } else { 3 };
    m.dylib = Some(b"@rpath/m".to_vec());
    m.text_size = 0x1000;
    m.syms = vec![(b"_y".to_vec(), m.text_addr + 0x800), (b"__ZN1a1xEv".to_vec(), m.text_addr + 0x810)];
    m.dwarf = mk::dwarf(&[unit(m.text_addr + 0x100)]);
    m.build()
}

/// Bytes that matter: the rest (padding inside the file) is not varied.
#[derive(Clone)]
struct Seed {
    name: &'static str,
    /// the file that is damaged
    file: &'static str,
    /// the file that is dumped
    main: &'static str,
    others: Vec<(&'static str, Vec<u8>)>,
    data: Vec<u8>,
    mapping: bool,
}

fn seeds() -> Vec<Seed> {
    let s = |name, file, main, data: Vec<u8>| Seed { name, file, main, others: vec![], data, mapping: false };
    let mut v = vec![
        s("elf4", "m.so", "m.so", elf(None, 4)),
        s("elf5", "m.so", "m.so", elf(None, 5)),
        s("elf-mini", "m.so", "m.so", elf(Some(xz(&elf(None, 0))), 0)),
        s("pdb", "m.pdb", "m.pdb", a_pdb(0x200, 0x8664)),
        s("pdb32", "m.pdb", "m.pdb", a_pdb(0x200, 0x14c)),
        s("pe", "m.dll", "m.dll", a_pe()),
        s("macho", "m", "m", a_macho(macho::X86_64)),
        s(
            "fat",
            "m",
            "m",
            macho::fat(&[(macho::ARM64, 0, a_macho(macho::ARM64)), (macho::X86_64, 3, a_macho(macho::X86_64))]),
        ),
        s("cabinet", "m.dl_", "m.dl_", cabinet(&[("readme", b"text"), ("m.dll", &a_pe())], true)),
        s("cabinet-stored", "m.dl_", "m.dl_", cabinet(&[("m.dll", &a_pe())], false)),
        s("pe-with-pdb", "m.pdb", "m.dll", a_pdb(0x200, 0x8664)),
        s("pdb-with-pe", "m.dll", "m.pdb", a_pe()),
        s(
            "mapping",
            "mapping.json",
            "m.so",
            br#"{"variables":{"v":"V"},"mappings":[{"source":"/c/(.*)","destination":"{v}-{1}","files":["/c/a.c"]}]}"#.to_vec(),
        ),
    ];
    v[10].others = vec![("m.dll", a_pe())];
    v[11].others = vec![("m.pdb", a_pdb(0x200, 0x8664))];
    v[12].others = vec![("m.so", elf(None, 4))];
    v[12].mapping = true;
    v
}

/// The damages of a file.
fn mutations(d: &[u8], level: usize) -> Vec<(usize, u8, u64)> {
    // (position, width or 0 for a cut, value)
    let mut v: Vec<(usize, u8, u64)> = (0..d.len()).map(|n| (n, 0, 0)).collect();
    for (i, b) in d.iter().enumerate() {
        // runs of zeros are padding, or fields of which the ends stand for all
        let zero = *b == 0 && i > 0 && d[i - 1] == 0 && d.get(i + 1).map_or(true, |c| *c == 0);
        if zero && i % 16 != 0 && level < 2 {
            continue;
        }
        let mut vals = vec![0u8, 0xff, b ^ 1, b ^ 0x80];
        if level >= 1 {
            vals.extend([b.wrapping_add(1), b.wrapping_sub(1), 0x7f, b ^ 4, b ^ 0x20, b'\n']);
        }
        vals.sort();
        vals.dedup();
        v.extend(vals.into_iter().filter(|x| x != b).map(|x| (i, 1, x as u64)));
    }
    if level >= 1 {
        for i in (0..d.len().saturating_sub(3)).step_by(4) {
            if d[i..i + 4] == [0; 4] && i % 64 != 0 && level < 2 {
                continue;
            }
            for x in [0u32, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX, d.len() as u32] {
                v.push((i, 4, x as u64));
            }
        }
    }
    v
}

fn apply(d: &[u8], m: (usize, u8, u64)) -> Vec<u8> {
    let mut v = d.to_vec();
    match m.1 {
        0 => v.truncate(m.0),
        n => v[m.0..m.0 + n as usize].copy_from_slice(&m.2.to_le_bytes()[..n as usize]),
    }
    v
}

const BEFORE: &[u8] = b"this was here before\n";

fn prepare(d: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    let o = d.join("o");
    let _ = std::fs::remove_dir_all(&o);
    std::fs::create_dir_all(o.join("store/old/1")).unwrap();
    std::fs::write(o.join("store/old/1/old.sym"), BEFORE).unwrap();
    std::fs::write(o.join("out"), BEFORE).unwrap();
    tree(&o)
}

/// What is wrong with the outputs after a run that reported `ok`.
fn judge(d: &Path, before: &BTreeMap<String, Option<Vec<u8>>>, ok: bool) -> Result<(), String> {
    let after = tree(&d.join("o"));
    if !ok {
        if &after != before {
            let k: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0).collect();
            return Err(format!("the run failed, but it created or changed {k:?}"));
        }
        return Ok(());
    }
    let out = after["out"].clone().unwrap_or_default();
    parse(&out).map_err(|e| format!("the run succeeded, but its output is not well formed: {e}"))?;
    let new: Vec<_> = after.iter().filter(|(k, v)| !before.contains_key(*k) && v.is_some()).collect();
    if new.len() != 1 || new[0].1.as_ref() != Some(&out) || after.get("store/old/1/old.sym") != before.get("store/old/1/old.sym") {
        return Err(format!("the run succeeded, but the store has {:?}", new.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    Ok(())
}

/// mc __mut DIR SEED LEVEL FROM STEP: runs damages FROM, FROM+STEP, ... of a seed.
pub fn worker(a: &[String]) -> i32 {
    let d = PathBuf::from(&a[0]);
    let s = &seeds()[a[1].parse::<usize>().unwrap()];
    let level: usize = a[2].parse().unwrap();
    let (from, step): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        if libc::geteuid() == 0 {
            libc::setresgid(65534, 65534, 65534);
            libc::setresuid(65534, 65534, 65534);
        }
    }
    let progress = std::fs::File::create(d.join("progress")).unwrap();
    for (f, b) in &s.others {
        std::fs::write(d.join(f), b).unwrap();
    }
    let muts = mutations(&s.data, level);
    let mut before = prepare(&d);
    let mut counts = [0u64; 3];
    let mapping = d.join("mapping.json");
    let main = d.join(s.main);
    let mut k = from;
    while k < muts.len() {
        std::fs::write(d.join(s.file), apply(&s.data, muts[k])).unwrap();
        let mut buf = [0u8; 32];
        for (i, n) in [k as u64, counts[0], counts[1], counts[2]].iter().enumerate() {
            buf[8 * i..8 * i + 8].copy_from_slice(&n.to_le_bytes());
        }
        progress.write_at(&buf, 0).unwrap();
        unsafe { libc::alarm(20) };
        let mut c = Config::with_output(Output::FileAndStore {
            file: FileOutput::Path(d.join("o/out")),
            store_directory: d.join("o/store"),
        });
        c.check_cfi = false;
        c.arch = "x86_64";
        if s.mapping {
            c.mapping_file = mapping.to_str();
        }
        let r = guard(|| dumper::single_file(&c, main.to_str().unwrap()));
        let ok = matches!(r, Ok(Ok(())));
        counts[if ok { 0 } else if r.is_ok() { 1 } else { 2 }] += 1;
        if let Err(e) = judge(&d, &before, ok) {
            std::fs::write(d.join("verdict"), format!("{e}\n(result {r:?})")).unwrap();
            return 3;
        }
        if ok {
            before = prepare(&d);
        }
        k += step;
    }
    let mut buf = [0u8; 32];
    for (i, n) in [k as u64, counts[0], counts[1], counts[2]].iter().enumerate() {
        buf[8 * i..8 * i + 8].copy_from_slice(&n.to_le_bytes());
    }
    progress.write_at(&buf, 0).unwrap();
    0
}

fn describe(s: &Seed, m: (usize, u8, u64)) -> String {
    match m.1 {
        0 => format!("{} ({}) cut to {} of {} bytes", s.file, s.name, m.0, s.data.len()),
        n => format!("{} ({}) with the {n} byte(s) at {:#x} set to {:#x}", s.file, s.name, m.0, m.2),
    }
}

fn damages(cx: &mut Ctx) {
    let level = if cx.thorough { 2 } else { 0 };
    let all = seeds();
    let sc = Scratch::new("c06");
    let steps = 16;
    let totals = std::sync::Mutex::new(BTreeMap::<&str, [u64; 4]>::new());
    cx.run("damaged", all.len() * steps, |i| {
        let (si, from) = (i / steps, i % steps);
        let s = &all[si];
        let muts = mutations(&s.data, level);
        let mut from = from;
        let mut st = Stats::default();
        let mut tot = [0u64; 4];
        let mut round = 0;
        while from < muts.len() {
            round += 1;
            let d = sc.p(&format!("{i}-{round}"));
            std::fs::create_dir_all(&d).unwrap();
            let _ = std::os::unix::fs::chown(&d, Some(65534), Some(65534));
            let r = Command::new(std::env::current_exe().unwrap())
                .arg("__mut")
                .arg(&d)
                .args([si.to_string(), level.to_string(), from.to_string(), steps.to_string()])
                .env_clear()
                .env("HOME", d.join("home"))
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .map_err(|e| Bad::new(e.to_string()))?;
            let p = std::fs::read(d.join("progress")).unwrap_or_default();
            if p.len() < 32 {
                return Err(Bad::new(format!("{}: worker did not start: {r}", s.name)));
            }
            let n = |i: usize| u64::from_le_bytes(p[8 * i..8 * i + 8].try_into().unwrap());
            let k = n(0) as usize;
            for j in 0..3 {
                tot[j] += n(j + 1);
            }
            if r.success() {
                let _ = std::fs::remove_dir_all(&d);
                break;
            }
            let bytes = apply(&s.data, muts[k]);
            if r.code() == Some(3) {
                let v = std::fs::read_to_string(d.join("verdict")).unwrap_or_default();
                return Err(Bad::new(format!("{}: {v}", describe(s, muts[k]))).file(s.file, &bytes));
            }
            if r.signal() == Some(libc::SIGALRM) {
                return Err(Bad::new(format!("{}: the run does not end", describe(s, muts[k]))).file(s.file, &bytes));
            }
            // the process died: a failed run, it may not have touched anything
            tot[3] += 1;
            let mut before = BTreeMap::new();
            for (f, v) in [("out", Some(BEFORE)), ("store", None), ("store/old", None), ("store/old/1", None), ("store/old/1/old.sym", Some(BEFORE))] {
                before.insert(f.to_string(), v.map(|v| v.to_vec()));
            }
            judge(&d, &before, false).map_err(|e| Bad::new(format!("{}: {e} ({r})", describe(s, muts[k]))).file(s.file, &bytes))?;
            from = k + steps;
            let _ = std::fs::remove_dir_all(&d);
        }
        st.traces = tot.iter().sum();
        st.states = st.traces;
        st.transitions = st.traces;
        let mut g = totals.lock().unwrap();
        let e = g.entry(s.name).or_default();
        for j in 0..4 {
            e[j] += tot[j];
        }
        Ok(st)
    });
    for (n, t) in totals.into_inner().unwrap() {
        cx.note(&format!("seed_{n}"), json!({"succeeded": t[0], "failed": t[1], "panicked": t[2], "died": t[3]}));
    }
}

/// Every other reason to refuse, and every failing operation on the input, with the real executable.
fn refusals(cx: &mut Ctx) {
    let sc = Scratch::new("c06");
    let d = sc.p("in");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::create_dir_all(sc.p("home")).unwrap();
    let nocfi = {
        let mut e = Elf::new().text(0x1000, 0x100);
        e.build_id = Some(vec![3; 20]);
        e.build()
    };
    let w = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).unwrap();
    w("good.so", &elf(None, 4));
    w("nocfi.so", &nocfi);
    w("empty", b"");
    w("text", b"plain text");
    w("archive", b"!<arch>\nx");
    w("fat", &macho::fat(&[(macho::ARM64, 0, a_macho(macho::ARM64)), (macho::ARM64, 2, a_macho(macho::ARM64))]));
    w("m.pdb", &a_pdb(0x200, 0x8664));
    w("m.dll", &a_pe());
    w("bad.json", b"{");
    w("good.json", br#"{"variables":{},"mappings":[]}"#);
    w("badre.json", br#"{"variables":{},"mappings":[{"source":"(","destination":"x","files":[]}]}"#);
    w("noaccess", b"x");
    std::fs::create_dir_all(d.join("dir")).unwrap();
    std::fs::create_dir_all(d.join("b.dSYM/Contents/Resources/DWARF")).unwrap();
    // (files, options, fails)
    let files: Vec<(&str, bool)> = vec![
        ("good.so", false),
        ("nocfi.so", false),
        ("m.pdb", false),
        ("m.dll", false),
        ("empty", true),
        ("text", true),
        ("archive", true),
        ("fat", true),
        ("missing", true),
        ("dir", true),
        ("b.dSYM", true),
        ("good.so/x", true),
    ];
    let json = |n: &str| format!("--mapping-file={}", d.join(n).to_str().unwrap());
    let opts: Vec<(Vec<String>, bool)> = vec![
        (vec![], false),
        (vec!["--check-cfi".into()], false),
        (vec!["-a".into(), "no-such".into()], true),
        (vec!["-a".into(), "arm64".into()], false),
        (vec!["--mapping-var=x".into()], true),
        (vec!["--mapping-src=a".into()], true),
        (vec!["--mapping-dest=a".into()], true),
        (vec!["--mapping-src=(".into(), "--mapping-dest=a".into()], true),
        (vec!["--mapping-src=a".into(), "--mapping-dest=b".into()], false),
        (vec![json("bad.json")], true),
        (vec![json("badre.json")], true),
        (vec![json("missing.json")], true),
        (vec![json("good.json")], false),
        (vec!["--extra-info=bad".into()], true),
        (vec!["--debug-id=0123456789ABCDEF0123456789ABCDEF1".into()], true),
        (vec!["--code-id=0123456789ABCDEF".into()], true),
        (vec!["--no-such-option".into()], true),
    ];
    let kinds = 4; // -o, -s, both, default
    let n = files.len() * opts.len() * kinds * 2;
    cx.run("refused", n, |i| {
        let (f, bad_file) = files[i % files.len()];
        let r = i / files.len();
        let (o, bad_opt) = &opts[r % opts.len()];
        let r = r / opts.len();
        let (kind, two) = (r % kinds, r / kinds == 1);
        let t = sc.p(&format!("{:?}", std::thread::current().id()));
        let _ = std::fs::remove_dir_all(&t);
        std::fs::create_dir_all(&t).unwrap();
        let before = prepare(&t);
        let mut a = vec![d.join(f).to_str().unwrap().to_string()];
        // the same file twice is a run over several files, of one module
        if two {
            a.push(a[0].clone());
        }
        if kind == 0 || kind == 2 {
            a.extend(["-o".to_string(), t.join("o/out").to_str().unwrap().into()]);
        }
        if kind == 1 || kind == 2 {
            a.extend(["-s".to_string(), t.join("o/store").to_str().unwrap().into()]);
        }
        a.extend(o.iter().cloned());
        let r = cli::run(&a, &d, &sc.p("home"), None, &t);
        let no_stack = ["nocfi.so", "m.pdb"].contains(&f) && f == "nocfi.so";
        let arm = o.contains(&"arm64".to_string());
        let fails = (bad_file && !(f == "fat" && arm)) || (*bad_opt && !(two && o[0].contains("-id="))) || (o.contains(&"--check-cfi".to_string()) && no_stack);
        let ok = r.code == Some(0);
        let bad = |e: String| Bad::new(format!("{a:?}: {e} (exit status {:?}) {}", r.code, r.stderr));
        if ok == fails {
            return Err(bad(format!("expected to {}", if fails { "fail" } else { "succeed" })));
        }
        let after = tree(&t.join("o"));
        if fails {
            if after != before || !r.stdout.is_empty() {
                return Err(bad("failed, but wrote something".into()));
            }
        } else {
            let mut texts = vec![];
            if kind == 3 {
                texts.push(r.stdout.clone());
            }
            if kind == 0 || kind == 2 {
                texts.push(after["out"].clone().unwrap());
            }
            if kind == 1 || kind == 2 {
                texts.extend(after.iter().filter(|(k, v)| !before.contains_key(*k) && v.is_some()).map(|x| x.1.clone().unwrap()));
            }
            if texts.len() != [1, 1, 2, 1][kind] || texts.iter().any(|x| *x != texts[0]) {
                return Err(bad(format!("{} outputs, or different ones", texts.len())));
            }
            parse(&texts[0]).map_err(|e| bad(e))?;
        }
        let mut st = Stats::default();
        st.states = 1;
        st.traces = 1;
        st.transitions = 1;
        Ok(st)
    });
    if !cx.bads.is_empty() {
        return;
    }
    // failing reads
    let mut runs: Vec<(Vec<&str>, usize)> = vec![];
    for f in [vec!["good.so"], vec!["m.pdb"], vec!["m.dll"], vec!["good.so", "nocfi.so"]] {
        for kind in 0..4 {
            runs.push((f.clone(), kind));
        }
    }
    let go = |f: &[&str], kind: usize, plan: &str, t: &Path| {
        let mut a: Vec<String> = f.iter().map(|f| d.join(f).to_str().unwrap().to_string()).collect();
        if kind == 0 || kind == 2 {
            a.extend(["-o".to_string(), t.join("o/out").to_str().unwrap().into()]);
        }
        if kind == 1 || kind == 2 {
            a.extend(["-s".to_string(), t.join("o/store").to_str().unwrap().into()]);
        }
        let inj = Inject { root: t.join("o"), input: d.clone(), on_input: true, stdout: false, plan: plan.into(), ..Default::default() };
        cli::run(&a, &d, &sc.p("home"), Some(&inj), t)
    };
    cx.run("unreadable", runs.len(), |i| {
        let (f, kind) = &runs[i];
        let t = sc.p(&format!("{:?}", std::thread::current().id()));
        let _ = std::fs::remove_dir_all(&t);
        std::fs::create_dir_all(&t).unwrap();
        let before = prepare(&t);
        let r0 = go(f, *kind, "", &t);
        let good = tree(&t.join("o"));
        if r0.code != Some(0) || r0.ops.is_empty() {
            return Err(Bad::new(format!("{f:?}: {} {:?}", r0.stderr, r0.ops)));
        }
        let mut st = Stats::default();
        for (k, op) in r0.ops.iter().enumerate() {
            for what in ["err:5", "err:13", "err:4", "short:1", "short:-2"] {
                prepare(&t);
                let r = go(f, *kind, &format!("{k}={what}"), &t);
                let after = tree(&t.join("o"));
                st.states += 1;
                st.traces += 1;
                st.transitions += 1;
                let bad = |e: &str| Bad::new(format!("{f:?}, output kind {kind}, operation {k} ({op:?}) {what}: {e}; exit status {:?}: {}", r.code, r.stderr));
                let same = after == good && r.stdout == r0.stdout;
                if r.code == Some(0) {
                    // a neighbour that cannot be read counts as absent: the text may then be another one
                    let neighbour = f.len() == 1 && f[0].starts_with("m.");
                    if !same && !neighbour {
                        return Err(bad("succeeded with another output"));
                    }
                } else {
                    if what.starts_with("short") || what == "err:4" && op.name == "read" {
                        return Err(bad("an interrupted or short read was not continued"));
                    }
                    if f.len() == 1 && (after != before || !r.stdout.is_empty()) {
                        return Err(bad("failed, but wrote something"));
                    }
                }
            }
        }
        Ok(st)
    });
}

pub fn c06(cx: &mut Ctx) {
    cx.level = "fault_enumeration";
    cx.assume("a process that panics, aborts or is stopped by its memory limit is a failed run");
    for p in [refusals as fn(&mut Ctx), damages] {
        if cx.bads.is_empty() {
            p(cx);
        }
    }
}
