//! C18: universal binaries, cabinets, dSYM bundles.
use crate::cli;
use crate::elf::Elf;
use crate::ev::*;
use crate::macho::{self, Mach};
use crate::sym::parse;
use crate::util::tree;
use serde_json::json;
use std::io::Write;
use std::path::Path;

/// (cpu type, sub type, name)
const ARCHS: [(u32, u32, &str); 6] = [
    (macho::X86_64, 3, "x86_64"),
    (macho::ARM64, 0, "arm64"),
    (macho::X86_64, 8, "x86_64h"),
    (macho::ARM64, 2, "arm64e"),
    (7, 3, "x86"),
    (0, 0, "!"), // not an object
];

fn object(arch: usize, pos: usize) -> Vec<u8> {
    let mut m = Mach::default();
    m.cputype = ARCHS[arch].0;
    m.cpusub = ARCHS[arch].1;
    m.uuid = Some([pos as u8 + 1; 16]);
    m.syms = vec![(format!("_at{pos}").into_bytes(), m.text_addr + 0x100)];
    let b = m.build();
    if ARCHS[arch].2 == "!" {
        return b"this is not an object file at all".repeat(4);
    }
    b
}

fn fresh(root: &Path) -> std::path::PathBuf {
    let d = root.join(format!("{:?}", std::thread::current().id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("home")).unwrap();
    std::fs::create_dir_all(d.join("in")).unwrap();
    d
}

fn seqs(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        last = last.iter().flat_map(|l| (0..n).map(move |i| [l.clone(), vec![i]].concat())).collect();
        all.extend(last.iter().cloned());
    }
    all
}

const KINDS: usize = 3;
/// Dumps `file`; `want` is the choice of allowed (id, symbol), empty if the run has to fail.
/// kind 0: to stdout, 1: to a file and a store, 2: the same in a run over two files.
fn expect(d: &Path, file: &str, args: &[String], want: &[(String, String)], kind: usize) -> Result<(), String> {
    let out = d.join("out.sym");
    let store = d.join("store");
    std::fs::write(&out, "before").unwrap();
    let _ = std::fs::remove_dir_all(&store);
    let mut a = vec![d.join("in").join(file).to_str().unwrap().to_string()];
    if kind == 2 {
        // a second file of a module of its own
        let mut e = Elf::new().text(0x1000, 0x10);
        e.build_id = Some(vec![0xee; 20]);
        std::fs::write(d.join("in/second.so"), e.build()).unwrap();
        a.push(d.join("in/second.so").to_str().unwrap().to_string());
        a.push("-j2".into());
    }
    if kind > 0 {
        a.extend(["-s".to_string(), store.to_str().unwrap().to_string()]);
    }
    if kind == 1 {
        a.extend(["-o".to_string(), out.to_str().unwrap().to_string()]);
    }
    a.extend_from_slice(args);
    let r = cli::run(&a, d, &d.join("home"), None, d);
    if r.timeout {
        return Err("the run does not end".into());
    }
    let mut stored: Vec<(String, Vec<u8>)> = tree(&store).into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).collect();
    let after = std::fs::read(&out).unwrap();
    if kind == 2 {
        let n = stored.len();
        stored.retain(|(k, _)| !k.starts_with("second.so"));
        if stored.len() + 1 != n {
            return Err(format!("the other file of the run was not stored: {} {:?}", r.stderr, r.code));
        }
    }
    if want.is_empty() {
        if r.code == Some(0) {
            return Err(format!("the run did not fail: {}", String::from_utf8_lossy(&r.stdout)));
        }
        if !r.stdout.is_empty() || !stored.is_empty() || after != b"before" {
            return Err("the run failed but wrote something".into());
        }
        return Ok(());
    }
    if r.code != Some(0) {
        return Err(format!("exit status {:?}: {}", r.code, r.stderr));
    }
    let texts = match kind {
        0 => vec![r.stdout],
        1 => vec![stored.first().map(|s| s.1.clone()).unwrap_or_default(), after],
        _ => vec![stored.first().map(|s| s.1.clone()).unwrap_or_default()],
    };
    for t in texts {
        let s = parse(&t)?;
        let names: Vec<&str> = s.recs.iter().filter(|r| !r.name.starts_with('<')).map(|r| r.name.as_str()).collect();
        if !want.iter().any(|(id, sym)| s.id == *id && names == [sym.as_str()]) {
            return Err(format!("module {} with {names:?}, expected {want:?}", s.id));
        }
    }
    Ok(())
}

fn fat(cx: &mut Ctx) {
    let max = if cx.thorough { 4 } else { 3 };
    let lists = seqs(ARCHS.len(), max);
    let sc = Scratch::new("c18");
    cx.run("universal", lists.len(), |i| {
        let l = &lists[i];
        let d = fresh(&sc.0);
        let objs: Vec<_> = l.iter().enumerate().map(|(p, a)| (ARCHS[*a].0, ARCHS[*a].1, object(*a, p))).collect();
        let b = macho::fat(&objs);
        std::fs::write(d.join("in/m"), &b).unwrap();
        let mut st = Stats::default();
        st.states = 1;
        let desc: Vec<&str> = l.iter().map(|a| ARCHS[*a].2).collect();
        let mut thin = vec![(false, b.clone())];
        if l.len() == 1 && desc[0] != "!" {
            thin.push((true, objs[0].2.clone()));
        }
        for (is_thin, b) in thin {
            std::fs::write(d.join("in/m"), &b).unwrap();
            for req in ["x86_64", "arm64", "x86_64h", "arm64e", "x86", "ppc", "arm", "no-such-arch", ""] {
                let want: Vec<(String, String)> = (0..l.len())
                    .filter(|p| desc[*p] != "!" && (l.len() == 1 || desc[*p] == req || (req.is_empty() && desc[*p] == "x86_64")))
                    .map(|p| (format!("{}0", format!("{:02X}", p + 1).repeat(16)), format!("at{p}")))
                    .collect();
                // which of several equal ones is open
                if req == "no-such-arch" && !want.is_empty() {
                    continue;
                }
                let args = match req {
                    "" => vec![],
                    r => vec!["-a".to_string(), r.to_string()],
                };
                for kind in 0..KINDS {
                    if req == "no-such-arch" && kind == 2 {
                        continue;
                    }
                    expect(&d, "m", &args, &want, kind).map_err(|e| {
                        Bad::new(format!("universal binary of {desc:?} (thin: {is_thin}), architecture {req:?} (output kind {kind}): {e}")).file("m", &b)
                    })?;
                    st.traces += 1;
                    st.transitions += 1;
                }
            }
            // the list
            if desc.contains(&"!") {
                // it may fail, but not leave out one of them
                let a = vec![d.join("in/m").to_str().unwrap().to_string(), "--list-arch".into()];
                let r = cli::run(&a, &d, &d.join("home"), None, &d);
                let got = String::from_utf8_lossy(&r.stdout).into_owned();
                let listed = got.lines().nth(1).map_or(0, |l| l.split(", ").count());
                if r.code == Some(0) && listed != desc.len() {
                    return Err(Bad::new(format!("--list-arch of {desc:?} succeeds with {got:?}")).file("m", &b));
                }
                st.traces += 1;
                st.transitions += 1;
            } else if !desc.is_empty() {
                std::fs::write(d.join("in/n n"), object(0, 0)).unwrap();
                for two in [false, true] {
                    let mut a = vec![d.join("in/m").to_str().unwrap().to_string()];
                    let mut want = format!(
                        "m contains the following architecture{}:\n{}\n",
                        if l.len() == 1 { "" } else { "s" },
                        desc.join(", ")
                    );
                    if two {
                        a.push(d.join("in/n n").to_str().unwrap().to_string());
                        want += "n n contains the following architecture:\nx86_64\n";
                    }
                    a.push("--list-arch".into());
                    let r = cli::run(&a, &d, &d.join("home"), None, &d);
                    let got = String::from_utf8_lossy(&r.stdout).into_owned();
                    if r.code != Some(0) || got != want {
                        return Err(Bad::new(format!("--list-arch of {desc:?}: {:?} {got:?}, expected {want:?}", r.code)).file("m", &b));
                    }
                    st.traces += 1;
                    st.transitions += 1;
                }
            }
        }
        if i % 60 == 7 {
            st.samples.push(json!(format!("universal binary {desc:?}: all requests")));
        }
        Ok(st)
    });
}

fn elf(k: usize) -> Vec<u8> {
    let mut e = Elf::new().text(0x1000, 0x100);
    e.build_id = Some(vec![k as u8 + 1; 16]);
    e.symtab = vec![crate::elf::ElfSym { name: format!("in{k}").into_bytes(), value: 0x1010, size: 8, typ: 2, bind: 1, sec: Some(0) }];
    e.build()
}
fn elf_want(k: usize) -> (String, String) {
    (format!("{}0", format!("{:02X}", k + 1).repeat(16)), format!("in{k}"))
}

fn folders(members: &[(String, Vec<u8>)], mszip: bool, split: bool) -> Vec<u8> {
    let mut b = cab::CabinetBuilder::new();
    let ct = if mszip { cab::CompressionType::MsZip } else { cab::CompressionType::None };
    if split {
        for (n, _) in members {
            b.add_folder(ct).add_file(n.clone());
        }
    } else {
        let f = b.add_folder(ct);
        for (n, _) in members {
            f.add_file(n.clone());
        }
    }
    let mut w = b.build(std::io::Cursor::new(vec![])).unwrap();
    let mut i = 0;
    while let Some(mut fw) = w.next_file().unwrap() {
        fw.write_all(&members[i].1).unwrap();
        i += 1;
    }
    w.finish().unwrap().into_inner()
}

fn cabinets(cx: &mut Ctx) {
    let archives = [
        ("x.pd_", "x.pdb"),
        ("x.dl_", "x.dll"),
        ("x.ex_", "x.exe"),
        ("x.pdb", "x.pdb"),
        ("x.dll", "x.dll"),
        ("x.exe", "x.exe"),
        ("x.db_", "x.dbg"),
        ("x.so", "x.so"),
        ("x", "x"),
        ("x.y.pd_", "x.y.pdb"),
        ("x.p_", "x.p_"),
        ("x.d_", "x.d_"),
        ("x.e", "x.e"),
        ("x.tar", "x.tar"),
    ];
    let names = ["x.pdb", "x.dll", "x.exe", "d/x.pdb", "x.pdbx", "ax.pdb", "x.pd_", "X.pdb", "x", "x.so", "x.dbg", "x.y.pdb", "y.pdb", "x.p_", "x.d_", "x.e", "x.tar"];
    let max = if cx.thorough { 3 } else { 2 };
    let lists: Vec<Vec<usize>> = seqs(names.len(), max);
    let sc = Scratch::new("c18");
    cx.run("cabinet", lists.len() * archives.len(), |i| {
        let l = &lists[i / archives.len()];
        let (arch, full) = archives[i % archives.len()];
        // the same name twice: the reader of the archive finds one of them
        if l.iter().any(|a| l.iter().filter(|b| *b == a).count() > 1) {
            return Ok(Stats::default());
        }
        let d = fresh(&sc.0);
        let members: Vec<(String, Vec<u8>)> = l.iter().enumerate().map(|(k, n)| (names[*n].to_string(), elf(k))).collect();
        let want: Vec<(String, String)> = (0..l.len())
            .filter(|k| names[l[*k]].rsplit('/').next() == Some(full))
            .map(elf_want)
            .collect();
        let mut st = Stats::default();
        st.states = 1;
        for form in 0..4 {
            if members.is_empty() {
                continue;
            }
            let b = folders(&members, form & 1 == 1, form & 2 == 2);
            std::fs::write(d.join("in").join(arch), &b).unwrap();
            for kind in 0..if form == 0 { KINDS } else { 1 } {
                expect(&d, arch, &[], &want, kind).map_err(|e| {
                    Bad::new(format!(
                        "cabinet {arch} (compressed: {}, several folders: {}) of {:?} (output kind {kind}): {e}",
                        form & 1 == 1,
                        form & 2 == 2,
                        members.iter().map(|m| &m.0).collect::<Vec<_>>()
                    ))
                    .file(arch, &b)
                })?;
                st.traces += 1;
                st.transitions += 1;
            }
        }
        if i % 500 == 17 {
            st.samples.push(json!(format!("{arch} of {members:?} -> {want:?}", members = members.iter().map(|m| &m.0).collect::<Vec<_>>())));
        }
        Ok(st)
    });
}

fn bundles(cx: &mut Ctx) {
    let max = if cx.thorough { 3 } else { 2 };
    // what can be in the directory
    let items = ["object", "universal", "garbage", "dir", "hidden", "link", "dangling", "empty"];
    let lists: Vec<Vec<usize>> = seqs(items.len(), max);
    let places = ["Contents/Resources/DWARF", "Contents/Resources", "Contents/Resources/DWARF/x", "Contents/MacOS", ""];
    let sc = Scratch::new("c18");
    cx.run("bundle", lists.len() * places.len(), |i| {
        let l = &lists[i / places.len()];
        let place = places[i % places.len()];
        let d = fresh(&sc.0);
        let dir = d.join("in/B.dSYM").join(place);
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(d.join("elsewhere"), object(0, 9)).unwrap();
        let mut want = vec![];
        for (k, it) in l.iter().enumerate() {
            let p = dir.join(format!("f{k}"));
            let id = |n: usize| (format!("{}0", format!("{:02X}", n + 1).repeat(16)), format!("at{n}"));
            match items[*it] {
                "object" => {
                    std::fs::write(&p, object(1, k)).unwrap();
                    want.push(id(k));
                }
                "universal" => {
                    let o = [(ARCHS[1].0, ARCHS[1].1, object(1, 5)), (ARCHS[0].0, ARCHS[0].1, object(0, k))];
                    std::fs::write(&p, macho::fat(&o)).unwrap();
                    want.push(id(k));
                }
                "garbage" => std::fs::write(&p, "this is not an object").unwrap(),
                "dir" => std::fs::create_dir(&p).unwrap(),
                "hidden" => {
                    std::fs::write(dir.join(format!(".f{k}")), object(1, k)).unwrap();
                    want.push(id(k));
                }
                "link" => {
                    std::os::unix::fs::symlink(d.join("elsewhere"), &p).unwrap();
                    want.push(id(9));
                }
                "dangling" => std::os::unix::fs::symlink(d.join("nowhere"), &p).unwrap(),
                _ => std::fs::write(&p, "").unwrap(),
            }
        }
        if l.len() != 1 || place != places[0] {
            want.clear();
        }
        let mut st = Stats::default();
        st.states = 1;
        for name in ["B.dSYM", "B.dSYM/"] {
            for kind in 0..KINDS {
                expect(&d, name, &[], &want, kind).map_err(|e| {
                    Bad::new(format!("{name} with {:?} in {place:?} (output kind {kind}): {e}", l.iter().map(|i| items[*i]).collect::<Vec<_>>()))
                })?;
                st.traces += 1;
                st.transitions += 1;
            }
        }
        if i % 100 == 20 {
            st.samples.push(json!(format!("bundle {:?} in {place:?} -> {want:?}", l.iter().map(|i| items[*i]).collect::<Vec<_>>())));
        }
        Ok(st)
    });
}

pub fn c18(cx: &mut Ctx) {
    cx.assume("which of several objects of the requested architecture is taken is left open");
    let parts: [fn(&mut Ctx); 3] = [fat, cabinets, bundles];
    for p in parts {
        if cx.bads.is_empty() {
            p(cx);
        }
    }
}
