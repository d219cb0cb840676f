//! C20: the same inputs give the same bytes.
use crate::elf::*;
use crate::ev::*;
use crate::util::tree;
use crate::{cli, macho, mk, pdb, pe};
use dump_syms::dumper::{self, Config, FileOutput, Output};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Default)]
struct Job {
    what: &'static str,
    files: Vec<&'static str>,
    inlines: bool,
    mapping: u8,
    arch: &'static str,
    jobs: usize,
    /// does it fail?
    fails: bool,
}

fn jobs() -> Vec<Job> {
    let j = |what, files: &[&'static str], inlines, mapping, n| Job {
        what,
        files: files.to_vec(),
        inlines,
        mapping,
        arch: "x86_64",
        jobs: n,
        fails: false,
    };
    let mut v = vec![
        j("debug file", &["a.debug"], false, 0, 1),
        j("debug file, inlines", &["a.debug"], true, 0, 1),
        j("stripped and debug file", &["a.so", "a.debug"], true, 0, 2),
        j("debug and stripped file", &["a.debug", "a.so"], true, 0, 1),
        j("three files of a module", &["a.so", "a2.debug", "a.debug"], true, 0, 3),
        j("other module, same names", &["b.debug"], true, 0, 1),
        j("two modules", &["b.debug", "a.debug"], true, 0, 2),
        j("PDB", &["w.pdb"], true, 0, 1),
        j("PE file with PDB", &["w.dll"], false, 0, 1),
        j("universal binary", &["u"], true, 0, 1),
        j("mapping by digest", &["a.debug"], true, 1, 1),
        j("mapping file", &["b.debug"], true, 2, 1),
        j("garbage", &["garbage"], true, 0, 1),
        j("a module in a file rewritten since", &["@a.debug"], true, 0, 1),
        j("another one in that file", &["@b.debug"], true, 1, 1),
        j("all modules", &["u", "w.pdb", "b.debug", "a2.debug", "a.so", "a.debug"], true, 0, 4),
    ];
    v[9].arch = "arm64";
    v[12].fails = true;
    v
}

/// Many source files and inlined functions, so that a random order shows.
fn unit(d: &Path, names: std::ops::Range<usize>, base: u64, shift: usize) -> mk::Unit {
    let mut u = mk::Unit::default();
    u.comp_dir = Some(d.join("c").to_str().unwrap().into());
    u.files = names.clone().map(|k| (format!("src/f{k}.c").into_bytes(), 0)).collect();
    u.origins = names.clone().map(|k| (format!("inl{k}").into_bytes(), None)).collect();
    let n = names.len();
    for k in 0..n {
        let file = ((k + shift) % n) as u64;
        let mut f = mk::fun(&format!("fun{}", (k * 7 + shift) % n), base + 0x20 * k as u64, 0x20).rows(&[
            (0, file, 1 + k as u64),
            (8, (file + 1) % n as u64, 2 + k as u64),
            (16, file, 3 + k as u64),
        ]);
        f.inl = vec![mk::Inl { lo: 8, hi: 16, origin: (k * 5 + shift) % n, call_file: file, call_line: 40 + k as u64, kids: vec![] }];
        u.funs.push(f);
    }
    u
}

fn elf(id: u8, units: &[mk::Unit], syms: &[(&str, u64)]) -> Vec<u8> {
    let mut e = Elf::new().text(0x1000, 0x4000);
    e.build_id = Some(vec![id; 20]);
    e.symtab = syms
        .iter()
        .map(|(n, a)| ElfSym { name: n.as_bytes().to_vec(), value: *a, size: 0x10, typ: 2, bind: 1, sec: Some(0) })
        .collect();
    if !units.is_empty() {
        e = e.dwarf(mk::dwarf(units));
    }
    e.build()
}

fn inputs(d: &Path) {
    std::fs::create_dir_all(d.join("c/src")).unwrap();
    for k in (0..16).step_by(2) {
        std::fs::write(d.join(format!("c/src/f{k}.c")), format!("source {k}")).unwrap();
    }
    let w = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).unwrap();
    w("a.debug", &elf(1, &[unit(d, 0..8, 0x1000, 0), unit(d, 4..12, 0x2000, 3)], &[]));
    w("a2.debug", &elf(1, &[unit(d, 6..16, 0x3000, 1)], &[("s0", 0x4000)]));
    w("a.so", &elf(1, &[], &[("fun0", 0x1000), ("s1", 0x4800), ("s2", 0x4400), ("s2b", 0x4400)]));
    w("b.debug", &elf(2, &[unit(d, 0..10, 0x1000, 5)], &[("s1", 0x4800)]));
    let mut p = pdb::Pdb::default();
    p.page = 0x200;
    p.guid = [7; 16];
    p.files = (0..10).map(|k| format!("d:\\x\\f{k}.c").into_bytes()).collect();
    p.inlinees = (0..10).map(|k| (format!("inl{k}").into_bytes(), k, 10 + k as u32)).collect();
    p.modules = (0..2)
        .map(|m| {
            (0..5u32)
                .map(|k| {
                    let f = (m * 5 + k as usize * 3) % 10;
                    pdb::Proc {
                        name: format!("p{m}{k}").into_bytes(),
                        seg: 1,
                        off: 0x1000 * m as u32 + 0x20 * k,
                        size: 0x20,
                        lines: vec![(0, f, 1), (8, (f + 1) % 10, 2), (16, f, 3)],
                        lines_size: 0x20,
                        sites: vec![pdb::Site { inlinee: (f * 3) % 10, lines: vec![(8, 8, (f + 1) % 10, 7)], kids: vec![] }],
                        ..Default::default()
                    }
                })
                .collect()
        })
        .collect();
    p.publics = vec![(b"q1".to_vec(), 1, 0x5000, 2), (b"q0".to_vec(), 1, 0x5000, 2)];
    w("w.pdb", &p.build());
    let mut e = pe::Pe::default();
    e.codeview = Some(([7; 16], 1, b"w.pdb".to_vec()));
    e.exports = vec![(b"e1".to_vec(), 0x2000), (b"e0".to_vec(), 0x2000)];
    e.pdata = vec![(0x1000, 0x1010), (0x1800, 0x1820)];
    w("w.dll", &e.build());
    let obj = |cpu: u32, sub: u32, n: u8| {
        let mut m = macho::Mach::default();
        m.cputype = cpu;
        m.cpusub = sub;
        m.uuid = Some([n; 16]);
        m.syms = vec![(b"_y".to_vec(), m.text_addr + 0x8000), (b"_x".to_vec(), m.text_addr + 0x8000)];
        let mut u = unit(d, 0..8, m.text_addr + 0x1000, n as usize);
        u.version = 4;
        m.dwarf = mk::dwarf(&[u]);
        m.build()
    };
    w(
        "u",
        &macho::fat(&[(macho::X86_64, 3, obj(macho::X86_64, 3, 0x31)), (macho::ARM64, 0, obj(macho::ARM64, 0, 0x32))]),
    );
    w("garbage", b"no object at all");
    w(
        "mapping.json",
        br#"{"variables":{"v":"V","w":"W"},"mappings":[{"source":".*/c/src/f([0-4]).c","destination":"{v}-{1}","files":[]},{"source":".*/c/src/(.*)","destination":"{w}+{1}","files":[]}]}"#,
    );
}

/// Runs one job in this process; the files it wrote.
fn run_here(d: &Path, j: &Job, out: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    let _ = std::fs::remove_dir_all(out);
    std::fs::create_dir_all(out).unwrap();
    let several = j.files.len() > 1;
    let mut c = Config::with_output(if several {
        Output::Store(out.join("store"))
    } else {
        Output::FileAndStore { file: FileOutput::Path(out.join("file")), store_directory: out.join("store") }
    });
    c.check_cfi = false;
    c.emit_inlines = j.inlines;
    c.arch = j.arch;
    c.num_jobs = j.jobs;
    let mf = d.join("mapping.json");
    match j.mapping {
        1 => {
            c.mapping_var = Some(vec!["rev=1"]);
            c.mapping_src = Some(vec![".*/c/src/(.*)", ".*/c/(.*)"]);
            c.mapping_dest = Some(vec!["{rev}:{digest}:{1}", "{1}"]);
        }
        2 => {
            c.mapping_var = Some(vec!["v=x"]);
            c.mapping_file = mf.to_str();
        }
        _ => (),
    }
    let cur = out.with_extension("debug");
    let files: Vec<String> = j
        .files
        .iter()
        .map(|f| match f.strip_prefix('@') {
            Some(f) => {
                // of the same size as the one before
                let mut b = std::fs::read(d.join(f)).unwrap();
                b.resize(b.len().max(0x8000), 0);
                std::fs::write(&cur, b).unwrap();
                cur.to_str().unwrap().to_string()
            }
            None => d.join(f).to_str().unwrap().to_string(),
        })
        .collect();
    let files: Vec<&str> = files.iter().map(String::as_str).collect();
    let r = guard(|| if several { dumper::several_files(&c, &files) } else { dumper::single_file(&c, files[0]) });
    let ok = matches!(r, Ok(Ok(())));
    let _ = std::fs::remove_file(&cur);
    let mut t = tree(out);
    let name = out.file_name().unwrap().to_str().unwrap();
    if j.files[0].starts_with('@') {
        // the name of the file is that of the directory of this run
        t = t
            .into_iter()
            .map(|(k, v)| {
                let v = v.map(|v| String::from_utf8_lossy(&v).replace(name, "cur").into_bytes());
                (k.replace(name, "cur"), v)
            })
            .collect();
    }
    t.insert("=result".into(), Some(ok.to_string().into_bytes()));
    t
}

fn show(t: &BTreeMap<String, Option<Vec<u8>>>) -> Vec<u8> {
    let mut v = vec![];
    for (k, b) in t {
        if let Some(b) = b {
            v.extend(format!("==== {k} {}\n", b.len()).into_bytes());
            v.extend(b);
        }
    }
    v
}

/// mc __hist DIR OUT k,k,...: the jobs one after the other in one process.
pub fn worker(args: &[String]) {
    let (d, out) = (Path::new(&args[0]), PathBuf::from(&args[1]));
    let all = jobs();
    for (n, k) in args[2].split(',').enumerate() {
        let t = run_here(d, &all[k.parse::<usize>().unwrap()], &out);
        std::fs::write(out.with_extension(format!("{n}")), show(&t)).unwrap();
    }
    let _ = std::fs::remove_dir_all(&out);
}

fn history(d: &Path, out: &Path, h: &[usize]) -> Result<Vec<Vec<u8>>, String> {
    let l: Vec<String> = h.iter().map(|k| k.to_string()).collect();
    let st = Command::new(std::env::current_exe().unwrap())
        .arg("__hist")
        .arg(d)
        .arg(out)
        .arg(l.join(","))
        .env_clear()
        .env("HOME", d.join("home"))
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    if !st.success() {
        return Err(format!("{st}"));
    }
    Ok((0..h.len())
        .map(|n| {
            let f = out.with_extension(format!("{n}"));
            let b = std::fs::read(&f).unwrap_or_default();
            let _ = std::fs::remove_file(&f);
            b
        })
        .collect())
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    for (n, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {n}: {x:?}, expected {y:?}");
        }
    }
    format!("{} lines, expected {}", a.lines().count(), b.lines().count())
}

fn me(root: &Path) -> PathBuf {
    root.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], ""))
}

/// The real executable in an environment given by `seed`, `pad` and `place`.
fn process(d: &Path, j: &Job, out: &Path, seed: u64, pad: usize, place: usize) -> Result<Vec<u8>, String> {
    let _ = std::fs::remove_dir_all(out);
    std::fs::create_dir_all(out).unwrap();
    let mut c = Command::new(cli::exe());
    c.args(j.files.iter().map(|f| d.join(f)));
    c.arg("-a").arg(j.arch).arg("-s").arg(out.join("store"));
    if j.files.len() == 1 {
        c.arg("-o").arg(out.join("file"));
    }
    if j.inlines {
        c.arg("--inlines");
    }
    match j.mapping {
        1 => {
            c.args(["--mapping-var=rev=1", "--mapping-src=.*/c/src/(.*)", "--mapping-src=.*/c/(.*)"]);
            c.args(["--mapping-dest={rev}:{digest}:{1}", "--mapping-dest={1}"]);
        }
        2 => {
            c.arg("--mapping-var=v=x").arg("--mapping-file").arg(d.join("mapping.json"));
        }
        _ => (),
    }
    c.env_clear().env("LD_PRELOAD", verif_dir().join("target/seed.so")).env("SEED", seed.to_string());
    c.env("PAD", "x".repeat(pad * 64));
    match place {
        0 => c.current_dir(d).env("HOME", d.join("home")),
        1 => c.current_dir(out).env("HOME", out).env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo"),
        _ => c.current_dir("/").env("LC_ALL", "C").env("TMPDIR", out).env("COLUMNS", "20"),
    };
    c.arg("-j").arg((1 + place).to_string());
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            // fixed addresses: only `pad` moves them
            if seed % 2 == 0 {
                libc::personality(0x0040000);
            }
            Ok(())
        });
    }
    let st = c.status().map_err(|e| e.to_string())?;
    let mut t = tree(out);
    t.insert("=result".into(), Some(st.success().to_string().into_bytes()));
    Ok(show(&t))
}

pub fn c20(cx: &mut Ctx) {
    cx.assume("hash seeds and address layouts are enumerated over a finite set, not over all their values");
    let t = cx.thorough;
    let sc = Scratch::new("c20");
    std::fs::create_dir_all(sc.p("home")).unwrap();
    inputs(&sc.0);
    let js = jobs();
    // the reference: each job alone in a new process
    let mut refs = vec![];
    for k in 0..js.len() {
        match history(&sc.0, &sc.p("ref"), &[k]) {
            Ok(v) => {
                let ok = v[0].windows(12).any(|w| w == b"result 4\ntru");
                if ok == js[k].fails {
                    cx.bads.push(Bad::new(format!("{}: unexpected result\n{}", js[k].what, String::from_utf8_lossy(&v[0]))));
                    return;
                }
                refs.push(v[0].clone())
            }
            Err(e) => {
                cx.bads.push(Bad::new(format!("{}: {e}", js[k].what)));
                return;
            }
        }
    }
    let max = if t { 4 } else { 3 };
    let mut hs: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        last = last.iter().flat_map(|l| (0..js.len()).map(move |i| [l.clone(), vec![i]].concat())).collect();
    }
    hs.extend(last);
    for k in 0..js.len() {
        hs.push(vec![k; 40]);
    }
    cx.run("histories", hs.len(), |i| {
        let h = &hs[i];
        let what = || h.iter().map(|k| js[*k].what).collect::<Vec<_>>();
        let r = history(&sc.0, &me(&sc.0), h).map_err(|e| Bad::new(format!("{:?}: {e}", what())))?;
        let mut st = Stats::default();
        st.states = 1;
        for (n, k) in h.iter().enumerate() {
            if r[n] != refs[*k] {
                return Err(Bad::new(format!(
                    "dump {} of the history {:?} differs from the same dump in a new process: {}",
                    n + 1,
                    what(),
                    first_difference(&r[n], &refs[*k])
                ))
                .file("got", &r[n])
                .file("expected", &refs[*k]));
            }
            st.traces += 1;
            st.transitions += 1;
        }
        if i % 700 == 100 {
            st.samples.push(json!(what()));
        }
        Ok(st)
    });
    if !cx.bads.is_empty() {
        return;
    }
    let (seeds, pads) = if t { (32, 32) } else { (16, 8) };
    let n = js.len() * seeds * pads * 3;
    let mut firsts = vec![];
    for j in &js {
        if j.files[0].starts_with('@') {
            firsts.push(vec![]);
            continue;
        }
        firsts.push(process(&sc.0, j, &sc.p("ref"), 0, 0, 0).unwrap_or_default());
    }
    cx.run("processes", n, |i| {
        let k = i % js.len();
        if js[k].files[0].starts_with('@') {
            return Ok(Stats::default());
        }
        let r = i / js.len();
        let (place, r) = (r % 3, r / 3);
        let (seed, pad) = (r % seeds, r / seeds);
        let got = process(&sc.0, &js[k], &me(&sc.0), seed as u64, pad, place).map_err(Bad::new)?;
        if got != firsts[k] {
            return Err(Bad::new(format!(
                "{}: hash seed {seed}, layout {pad}, environment {place}: differs from another run on the same files: {}",
                js[k].what,
                first_difference(&got, &firsts[k])
            ))
            .file("got", &got)
            .file("expected", &firsts[k]));
        }
        let mut st = Stats::default();
        st.states = 1;
        st.traces = 1;
        st.transitions = 1;
        Ok(st)
    });
    if !cx.bads.is_empty() {
        return;
    }
    // a module's bytes do not depend on the other modules of the run
    let mods: [(&str, &[usize]); 5] =
        [("a.debug", &[0]), ("b.debug", &[1]), ("w.pdb", &[2]), ("u", &[3]), ("w2.debug", &[4])];
    std::fs::write(sc.p("w2.debug"), elf(5, &[unit(&sc.0, 3..11, 0x1000, 2)], &[("s1", 0x4800)])).unwrap();
    let mut orders: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..if t { 5 } else { 4 } {
        last = last
            .iter()
            .flat_map(|l| (0..mods.len()).filter(|i| !l.contains(i)).map(|i| [l.clone(), vec![i]].concat()).collect::<Vec<_>>())
            .collect();
        orders.extend(last.iter().cloned());
    }
    let alone: Vec<BTreeMap<String, Option<Vec<u8>>>> = (0..mods.len())
        .flat_map(|m| {
            (0..3).map(move |map| (m, map))
        })
        .map(|(m, map)| {
            let j = Job { files: vec![mods[m].0], inlines: true, mapping: map, arch: "x86_64", jobs: 1, ..Default::default() };
            let mut t = run_here(&sc.0, &j, &sc.p("ref"));
            t.retain(|k, v| k.starts_with("store/") && v.is_some());
            t
        })
        .collect();
    cx.run("together", orders.len() * 9, |i| {
        let o = &orders[i / 9];
        let map = (i / 3) % 3;
        let j = Job {
            files: o.iter().map(|m| mods[*m].0).collect(),
            inlines: true,
            mapping: map as u8,
            arch: "x86_64",
            jobs: 1 + i % 3,
            ..Default::default()
        };
        if j.files.len() < 2 {
            return Ok(Stats::default());
        }
        let mut got = run_here(&sc.0, &j, &me(&sc.0));
        got.retain(|k, v| k.starts_with("store/") && v.is_some());
        let mut want = BTreeMap::new();
        for m in o {
            want.extend(alone[m * 3 + map].clone());
        }
        if got != want {
            return Err(Bad::new(format!(
                "{:?} (mapping {map}, {} jobs): the modules differ from those dumped alone: {}",
                j.files,
                j.jobs,
                first_difference(&show(&got), &show(&want))
            ))
            .file("got", &show(&got))
            .file("expected", &show(&want)));
        }
        let mut st = Stats::default();
        st.states = 1;
        st.traces = 1;
        st.transitions = o.len() as u64;
        Ok(st)
    });
}
