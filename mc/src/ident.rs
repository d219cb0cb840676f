//! C17: which module the symbol file says it is about, and which files are taken together.
use crate::cli;
use crate::download::cabinet;
use crate::elf::*;
use crate::ev::*;
use crate::sym::{parse, Sym};
use crate::{macho, pdb, pe, util};
use serde_json::json;
use std::path::Path;

const GUID: [u8; 16] = [0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff, 0x01];
const AGE: u32 = 0x1a;

/// A GUID (in the order of the file) and an age as a Breakpad id.
fn breakpad(g: &[u8], age: u32) -> String {
    let o = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15];
    let hex: String = o.iter().map(|i| format!("{:02X}", g[*i])).collect();
    format!("{hex}{age:x}")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    None,
    Match,
    Guid,
    Age,
    Garbage,
    Dir,
    Cab,
    CabGuid,
    CabOther,
    CabCut,
}
use S::*;

fn ids(s: S) -> ([u8; 16], u32) {
    let mut g = GUID;
    let mut a = AGE;
    match s {
        Guid | CabGuid => g[15] ^= 1,
        Age => a += 1,
        _ => (),
    }
    (g, a)
}

fn a_pe(n: u32, s: S, cv: &[u8]) -> Vec<u8> {
    let (g, a) = ids(s);
    let mut p = pe::Pe::default();
    p.timestamp = 0x5abc_def0 + n;
    p.image_size = 0xab_c000 + 0x1000 * n;
    p.codeview = Some((g, a, cv.to_vec()));
    p.exports = vec![(format!("export{n}").into_bytes(), 0x1000 + n)];
    p.pdata = vec![(0x1000 + 0x100 * n, 0x1010 + 0x100 * n)];
    p.build()
}
fn pe_ids(n: u32) -> (String, String) {
    (
        format!("{:08X}{:X}", 0x5abc_def0 + n, 0xab_c000 + 0x1000 * n),
        format!("STACK CFI INIT {:x} 10 ", 0x1000 + 0x100 * n),
    )
}
fn a_pdb(n: u32, s: S) -> Vec<u8> {
    let (g, a) = ids(s);
    let mut p = pdb::Pdb::default();
    p.page = 0x200;
    p.guid = g;
    p.age = a;
    p.pdb_age = 3;
    p.publics = vec![(format!("pub{n}").into_bytes(), 1, 0x40, 2)];
    p.build()
}

/// Puts the file of state `s` at `path`; `member` is its name in a cabinet.
fn put(path: &Path, s: S, member: &str, make: impl Fn(S) -> Vec<u8>) {
    let b = match s {
        None => return,
        Dir => {
            std::fs::create_dir_all(path).unwrap();
            return;
        }
        Garbage => b"this is no object file, just some text".to_vec(),
        Cab | CabGuid => cabinet(&[("other.bin", b"zz"), (member, &make(s))], false),
        CabOther => cabinet(&[("other.bin", &make(Match))], false),
        CabCut => {
            let mut c = cabinet(&[(member, &make(Match))], false);
            let n = c.len();
            c.truncate(n - 40);
            c
        }
        _ => make(s),
    };
    std::fs::write(path, b).unwrap();
}
fn matches(s: S) -> bool {
    matches!(s, Match | Cab)
}

fn fresh(root: &Path) -> std::path::PathBuf {
    let d = root.join(format!("{:?}", std::thread::current().id()));
    let _ = std::fs::remove_dir_all(&d);
    for s in ["in", "cwd/sub", "home", "abs"] {
        std::fs::create_dir_all(d.join(s)).unwrap();
    }
    d
}

/// The ways to name the file: absolute, relative to the current directory, together with a file of another module.
const WAYS: usize = 3;
fn dump(d: &Path, file: &str, way: usize) -> Result<Sym, String> {
    let abs = d.join("in").join(file).to_str().unwrap().to_string();
    let a = match way {
        0 => vec![abs],
        1 => vec![format!("../in/{file}")],
        _ => {
            let mut e = Elf::new().text(0x1000, 0x100);
            e.build_id = Some(vec![9; 20]);
            std::fs::write(d.join("in/zz.so"), e.build()).unwrap();
            vec![d.join("in/zz.so").to_str().unwrap().to_string(), abs, "-j".into(), "2".into()]
        }
    };
    let r = cli::run(&a, &d.join("cwd"), &d.join("home"), Option::None, d);
    if r.code != Some(0) {
        return Err(format!("exit status {:?}: {}", r.code, r.stderr));
    }
    let t = if way == 2 {
        let t = String::from_utf8(r.stdout).map_err(|e| e.to_string())?;
        let at = t.find("MODULE windows").ok_or("no module")?;
        t[at..].as_bytes().to_vec()
    } else {
        r.stdout
    };
    parse(&t)
}

fn gen() -> String {
    let v = std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_default();
    let v = v.lines().find_map(|l| l.strip_prefix("version = ")).unwrap_or("").trim_matches('"').to_string();
    format!("GENERATOR mozilla/dump_syms {v}")
}

fn header(s: &Sym, os: &str, cpu: &str, id: &str, name: &str, infos: &[String]) -> Result<(), String> {
    let got = (s.os.as_str(), s.cpu.as_str(), s.id.as_str(), s.name.as_str());
    if got != (os, cpu, id, name) {
        return Err(format!("MODULE {got:?}, expected {:?}", (os, cpu, id, name)));
    }
    if s.infos != infos {
        return Err(format!("INFO {:?}, expected {infos:?}", s.infos));
    }
    Ok(())
}

fn product<T: Copy>(dims: &[&[T]]) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for d in dims {
        out = out.iter().flat_map(|v| d.iter().map(move |x| [v.clone(), vec![*x]].concat())).collect();
    }
    out
}

fn pdb_main(cx: &mut Ctx) {
    let t = cx.thorough;
    let plain: &[S] = if t { &[None, Match, Guid, Age, Garbage, Dir, Cab, CabGuid] } else { &[None, Match, Guid, Age, Garbage, Dir] };
    let comp: &[S] = if t {
        &[None, Cab, CabGuid, CabOther, Match, Guid, Garbage, CabCut, Dir]
    } else {
        &[None, Cab, CabGuid, CabOther, Match, Garbage, CabCut]
    };
    let states = product(&[plain, comp, plain, comp]);
    let mains = ["m.pdb", "m.pd_", "n.m.pdb", "m"];
    let sc = Scratch::new("c17");
    cx.run("pdb_with_neighbours", states.len() * mains.len() * WAYS, |i| {
        let way = i % WAYS;
        let i = i / WAYS;
        let st = &states[i / mains.len()];
        let main = mains[i % mains.len()];
        let base = main.rsplit_once('.').map_or(main, |b| b.0);
        let d = fresh(&sc.0);
        let exts = ["dll", "dl_", "exe", "ex_"];
        let full = ["dll", "dll", "exe", "exe"];
        for k in 0..4 {
            let member = format!("{base}.{}", full[k]);
            put(&d.join("in").join(format!("{base}.{}", exts[k])), st[k], &member, |s| a_pe(k as u32 + 1, s, b"m.pdb"));
        }
        put(
            &d.join("in").join(main),
            if main.ends_with('_') { Cab } else { Match },
            "m.pdb",
            |s| a_pdb(0, s),
        );
        // a PE with the name of another module, and one elsewhere, never count
        std::fs::write(d.join("in/o.dll"), a_pe(7, Match, b"m.pdb")).unwrap();
        std::fs::write(d.join("cwd").join(format!("{base}.dll")), a_pe(8, Match, b"m.pdb")).unwrap();
        let run = || -> Result<String, String> {
            let s = dump(&d, main, way)?;
            let cands: Vec<usize> = (0..4).filter(|k| matches(st[*k])).collect();
            let id = breakpad(&GUID, AGE);
            let mut errs = vec![];
            if cands.is_empty() {
                header(&s, "windows", "x86_64", &id, main, &[gen()])?;
                if !s.stack.is_empty() {
                    return Err(format!("STACK records of no matching file: {:?}", s.stack));
                }
                return Ok("none".into());
            }
            for k in &cands {
                let (code, stack) = pe_ids(*k as u32 + 1);
                let infos = [format!("CODE_ID {code} {base}.{}", full[*k]), gen()];
                let r = header(&s, "windows", "x86_64", &id, main, &infos);
                let ok = s.stack.len() == 1 && s.stack[0].starts_with(&stack);
                match r {
                    Ok(()) if ok => return Ok(exts[*k].into()),
                    Ok(()) => errs.push(format!("STACK {:?}, expected {stack}", s.stack)),
                    Err(e) => errs.push(e),
                }
            }
            Err(errs.join("\n"))
        };
        let used = run().map_err(|e| Bad::new(format!("{main} (named in way {way}) with dll, dl_, exe, ex_ = {st:?}: {e}")))?;
        let mut o = Stats::default();
        o.states = 1;
        o.traces = 1;
        o.transitions = 4;
        if i % 997 == 5 {
            o.samples.push(json!(format!("{main} {st:?} -> {used}")));
        }
        Ok(o)
    });
}

fn pe_main(cx: &mut Ctx) {
    let t = cx.thorough;
    let plain: &[S] = if t { &[None, Match, Guid, Age, Garbage, Dir] } else { &[None, Match, Guid, Age, Garbage] };
    let comp: &[S] = if t {
        &[None, Cab, CabGuid, CabOther, Match, Guid, Garbage, CabCut, Dir]
    } else {
        &[None, Cab, CabGuid, CabOther, Match, CabCut]
    };
    let cached: &[S] = if t { &[None, Match, Guid, Age, Garbage] } else { &[None, Match, Guid] };
    // as given (if that is a place of its own), next to the PE file, the same compressed, in the current directory,
    // in the cache of a symbol server
    let states = product(&[plain, plain, comp, plain, cached]);
    let cvs: &[&str] = &["m.pdb", "o.pdb", "C:\\b\\m.pdb", "sub\\m.pdb", "sub/m.pdb", "@abs/m.pdb", "@abs\\o.x.pdb", "m"];
    let sc = Scratch::new("c17");
    cx.run("pe_with_neighbours", states.len() * cvs.len() * WAYS, |i| {
        let way = i % WAYS;
        let i = i / WAYS;
        let st = &states[i / cvs.len()];
        let cv0 = cvs[i % cvs.len()];
        let d = fresh(&sc.0);
        let cv = cv0.replace('@', &format!("{}/", d.to_str().unwrap()));
        let name = cv0.rsplit(['/', '\\']).next().unwrap();
        let own_place = cv0.contains("sub") || cv0.contains('@');
        if !own_place && st[0] != None || st[4] != None && way != i % WAYS {
            return Ok(Stats::default());
        }
        let compressed = Path::new(name).with_extension("pd_").to_str().unwrap().to_string();
        let member = Path::new(name).with_extension("pdb").to_str().unwrap().to_string();
        let given = if cv0.contains("sub") { d.join("cwd/sub").join(name) } else { d.join("abs").join(name) };
        put(&given, st[0], &member, |s| a_pdb(1, s));
        put(&d.join("in").join(name), st[1], &member, |s| a_pdb(2, s));
        put(&d.join("in").join(&compressed), st[2], &member, |s| a_pdb(3, s));
        put(&d.join("cwd").join(name), st[3], &member, |s| a_pdb(4, s));
        if st[4] != None {
            let place = d.join("cache").join(name).join(breakpad(&GUID, AGE));
            std::fs::create_dir_all(&place).unwrap();
            put(&place.join(name), st[4], &member, |s| a_pdb(5, s));
            std::fs::create_dir_all(d.join("home/.dump_syms")).unwrap();
            std::fs::write(d.join("home/.dump_syms/config"), format!("srv*{}*http://127.0.0.1:9/", d.join("cache").to_str().unwrap())).unwrap();
        }
        // never looked at
        std::fs::write(d.join("in/z.pdb"), a_pdb(7, Match)).unwrap();
        let main = a_pe(1, Match, cv.as_bytes());
        std::fs::write(d.join("in/m.dll"), &main).unwrap();
        let mut cands: Vec<u32> = (0..4).filter(|k| matches(st[*k])).map(|k| k as u32 + 1).collect();
        if cands.is_empty() && matches(st[4]) {
            cands.push(5);
        }
        let run = || -> Result<String, String> {
            let s = dump(&d, "m.dll", way)?;
            let (code, stack) = pe_ids(1);
            let infos = [format!("CODE_ID {code} m.dll"), gen()];
            header(&s, "windows", "x86_64", &breakpad(&GUID, AGE), name, &infos)?;
            if s.stack.len() != 1 || !s.stack[0].starts_with(&stack) {
                return Err(format!("STACK {:?}, expected {stack}", s.stack));
            }
            let from: Vec<&str> =
                s.recs.iter().map(|r| r.name.as_str()).filter(|n| n.starts_with("pub") || n.starts_with("export")).collect();
            let ok = match &cands[..] {
                [] => from == ["export1"],
                c => c.iter().any(|k| from == [format!("pub{k}")]),
            };
            if !ok {
                return Err(format!("symbols {from:?}, expected those of {cands:?} (none: of the PE file)"));
            }
            Ok(format!("{from:?}"))
        };
        let used = run().map_err(|e| {
            Bad::new(format!("PE file (named in way {way}) naming {cv0}; given place, next to it, compressed, current directory, cache = {st:?}: {e}"))
                .file("m.dll", &main)
        })?;
        let mut o = Stats::default();
        o.states = 1;
        o.traces = 1;
        o.transitions = 4;
        if i % 997 == 5 {
            o.samples.push(json!(format!("{cv0} {st:?} -> {used}")));
        }
        Ok(o)
    });
}

fn headers(cx: &mut Ctx) {
    // ELF
    let machines = [(EM_X86_64, "x86_64"), (EM_386, "x86"), (EM_ARM, "arm"), (EM_AARCH64, "arm64"), (21, "ppc64")];
    let mut build_ids: Vec<Option<Vec<u8>>> = vec![Option::None];
    for l in 1..=21usize {
        build_ids.push(Some((0..l).map(|i| i as u8 * 11 + 3).collect()));
        build_ids.push(Some((0..l).map(|i| 0xff - i as u8).collect()));
    }
    for i in 0..20 {
        for v in [0u8, 1, 0x80, 0xff] {
            let mut b = vec![0x5a; 20];
            b[i] = v;
            build_ids.push(Some(b));
        }
    }
    build_ids.push(Some(vec![0; 20]));
    let sonames: &[Option<&str>] = &[Option::None, Some("libz.so.1"), Some("dir/libz.so"), Some("a b.so"), Some("ld"), Some("")];
    let files = ["m.so", "m", "m n.so.2"];
    let n = machines.len() * build_ids.len();
    cx.run("elf_header", n, |i| {
        let (mach, cpu) = machines[i % machines.len()];
        let bid = &build_ids[i / machines.len()];
        let mut o = Stats::default();
        for so in sonames {
            for f in files {
                for debug in [false, true] {
                    let mut e = Elf::new();
                    e.machine = mach;
                    e.build_id = bid.clone();
                    e.soname = so.map(|s| s.as_bytes().to_vec());
                    let mut e = e.text(0x1000, 0x100);
                    if debug {
                        let mut u = crate::mk::Unit::default();
                        u.funs = vec![crate::mk::fun("f", 0x1010, 0x10).rows(&[(0x1010, 1, 1)])];
                        e = e.dwarf(crate::mk::dwarf(&[u]));
                    }
                    let b = e.build();
                    let name = match so {
                        Some("") | Option::None => f,
                        Some(s) => s.rsplit('/').next().unwrap(),
                    };
                    let mut g = [0u8; 16];
                    if let Some(b) = bid {
                        let l = b.len().min(16);
                        g[..l].copy_from_slice(&b[..l]);
                    }
                    let infos: Vec<String> = bid
                        .iter()
                        .map(|b| format!("CODE_ID {}", b.iter().map(|x| format!("{x:02X}")).collect::<String>()))
                        .collect();
                    util::elf_sym(&b, f, false)
                        .and_then(|s| header(&s, "Linux", cpu, &breakpad(&g, 0), name, &infos))
                        .map_err(|e| {
                            Bad::new(format!("ELF {cpu} build id {bid:02x?} soname {so:?} file {f}: {e}")).file("input", &b)
                        })?;
                    o.states += 1;
                    o.traces += 1;
                    o.transitions += 1;
                }
            }
        }
        Ok(o)
    });
    if !cx.bads.is_empty() {
        return;
    }
    // Mach-O
    let cpus = [
        (macho::X86_64, 3, "x86_64"),
        (macho::X86_64, 8, "x86_64h"),
        (macho::ARM64, 0, "arm64"),
        (macho::ARM64, 1, "arm64v8"),
        (macho::ARM64, 2, "arm64e"),
    ];
    let mut uuids = vec![Option::None, Some([0u8; 16])];
    for i in 0..16 {
        for v in [0u8, 1, 0x80, 0xff] {
            let mut u = GUID;
            u[i] = v;
            uuids.push(Some(u));
        }
    }
    let dylibs: &[Option<&str>] = &[Option::None, Some("/usr/lib/libz.dylib"), Some("@rpath/A.framework/Versions/A/A"), Some("libq.dylib")];
    cx.run("macho_header", cpus.len() * uuids.len(), |i| {
        let (cpu, sub, arch) = cpus[i % cpus.len()];
        let uuid = uuids[i / cpus.len()];
        let mut o = Stats::default();
        for dy in dylibs {
            for f in ["m", "m.dylib"] {
                let mut m = macho::Mach::default();
                m.cputype = cpu;
                m.cpusub = sub;
                m.uuid = uuid;
                m.dylib = dy.map(|s| s.as_bytes().to_vec());
                m.syms = vec![(b"_f".to_vec(), m.text_addr + 0x100)];
                let b = m.build();
                let hex = |u: [u8; 16]| u.iter().map(|x| format!("{x:02X}")).collect::<String>();
                let id = uuid.map_or("0".repeat(32), hex) + "0";
                let infos: Vec<String> = uuid.iter().map(|u| format!("CODE_ID {}", hex(*u))).collect();
                let name = dy.map_or(f, |s| s.rsplit('/').next().unwrap());
                util::mach_sym(&b, f, "x86_64")
                    .and_then(|s| header(&s, "Mac", arch, &id, name, &infos))
                    .map_err(|e| Bad::new(format!("Mach-O {arch} uuid {uuid:02x?} dylib {dy:?} file {f}: {e}")).file("input", &b))?;
                o.states += 1;
                o.traces += 1;
                o.transitions += 1;
            }
        }
        Ok(o)
    });
    if !cx.bads.is_empty() {
        return;
    }
    // PE and PDB
    let nums = [0u32, 1, 9, 10, 0xf, 0x10, 0xabc, 0x1000_0000, 0xabcd_ef01, u32::MAX];
    let mut guids = vec![[0u8; 16]];
    for i in 0..16 {
        for v in [0u8, 1, 0x80, 0xff] {
            let mut u = GUID;
            u[i] = v;
            guids.push(u);
        }
    }
    let cpus = [(0x8664u16, "x86_64"), (0x14c, "x86")];
    cx.run("windows_header", guids.len(), |i| {
        let g = guids[i];
        let mut o = Stats::default();
        for (mach, cpu) in cpus {
            for age in nums {
                let id = breakpad(&g, age);
                for (ts, size) in nums.iter().flat_map(|a| [(*a, 0x20_0000), (0x5000_0000, *a | 0x1000)]) {
                    let mut p = pe::Pe::default();
                    p.machine = mach;
                    p.timestamp = ts;
                    p.image_size = size;
                    p.codeview = Some((g, age, b"d:\\x y\\m n.pdb".to_vec()));
                    let b = p.build();
                    let infos = [format!("CODE_ID {ts:08X}{size:X} m.exe")];
                    util::pe_sym(&b, "m.exe")
                        .and_then(|s| header(&s, "windows", cpu, &id, "m n.pdb", &infos))
                        .map_err(|e| Bad::new(format!("PE {g:02x?} {age:x} {ts:x} {size:x}: {e}")).file("input", &b))?;
                    o.states += 1;
                    o.traces += 1;
                    o.transitions += 1;
                }
                if age == 0 {
                    continue;
                }
                let mut p = pdb::Pdb::default();
                p.page = 0x200;
                p.machine = mach;
                p.guid = g;
                p.age = age;
                p.pdb_age = 7;
                let b = p.build();
                util::pdb_sym(&b, "m n.pdb", false)
                    .and_then(|s| header(&s, "windows", cpu, &id, "m n.pdb", &[]))
                    .map_err(|e| Bad::new(format!("PDB {g:02x?} {age:x}: {e}")).file("input", &b))?;
                o.states += 1;
                o.traces += 1;
                o.transitions += 1;
            }
        }
        Ok(o)
    });
}

fn infos(cx: &mut Ctx) {
    let t = cx.thorough;
    let long = format!("LONG {}", "0123456789 ".repeat(500));
    let key = format!("{} {}", "KEY_".repeat(80), "\u{e9}".repeat(150));
    // (line, valid)
    let lines: &[(&str, bool)] = &[
        (&long, true),
        (&key, true),
        ("A x", true),
        ("RELEASECHANNEL nightly", true),
        ("_ ", true),
        ("A_B  two  blanks ", true),
        ("GENERATOR me", true),
        ("A \u{e9}\u{20ac}", true),
        ("", false),
        ("A", false),
        ("a x", false),
        ("A1 x", false),
        (" A x", false),
        ("A\tx", false),
        ("A x\nFUNC 1 1 1 f", false),
        ("A x\n", false),
        ("Aa x", false),
    ];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let max = if t { 3 } else { 2 };
    let mut last = lists.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|l| (0..lines.len()).map(move |i| [l.clone(), vec![i]].concat())).collect();
        lists.extend(last.iter().cloned());
    }
    // many of them
    lists.extend([4, 8, 9, 16, 17, 33, 100].map(|n| (0..n).map(|i| i % 8).collect()));
    let elf = {
        let e = Elf::new().text(0x1000, 0x100);
        e.build()
    };
    let code: String = (1..=20).map(|x| format!("{x:02X}")).collect();
    let sc = Scratch::new("c17");
    cx.run("extra_info", lists.len() * 2, |i| {
        let l = &lists[i / 2];
        let no_gen = i % 2 == 1;
        let d = fresh(&sc.0);
        std::fs::write(d.join("in/m.so"), &elf).unwrap();
        std::fs::write(d.join("in/n.so"), &elf).unwrap();
        let mut o = Stats::default();
        o.states = 1;
        for outkind in 0..3 {
            std::fs::write(d.join("out"), "before").unwrap();
            let _ = std::fs::remove_dir_all(d.join("store"));
            let mut a: Vec<String> = vec![d.join("in/m.so").to_str().unwrap().into()];
            if outkind == 2 {
                a.push(d.join("in/n.so").to_str().unwrap().into());
            }
            for k in l {
                a.push(format!("--extra-info={}", lines[*k].0));
            }
            if no_gen {
                a.push("--no-generator".into());
            }
            if outkind > 0 {
                a.extend(["-o", d.join("out").to_str().unwrap(), "-s", d.join("store").to_str().unwrap()].map(String::from));
            }
            let r = cli::run(&a, &d.join("cwd"), &d.join("home"), Option::None, &d);
            o.traces += 1;
            o.transitions += l.len() as u64;
            let bad = |e: String| Bad::new(format!("{a:?}: {e}"));
            let stored: Vec<Vec<u8>> = util::tree(&d.join("store")).into_values().flatten().collect();
            let out = std::fs::read(d.join("out")).unwrap();
            if l.iter().any(|k| !lines[*k].1) {
                if r.code == Some(0) {
                    return Err(bad("an invalid INFO line was accepted".into()));
                }
                if !r.stdout.is_empty() || !stored.is_empty() || out != b"before" {
                    return Err(bad("refused, but something was written".into()));
                }
                continue;
            }
            if r.code != Some(0) {
                return Err(bad(format!("exit status {:?}: {}", r.code, r.stderr)));
            }
            let mut want = format!("MODULE Linux x86_64 {} m.so\nINFO CODE_ID {code}\n", breakpad(&(1..=16).collect::<Vec<u8>>(), 0));
            for k in l {
                want += &format!("INFO {}\n", lines[*k].0);
            }
            if !no_gen {
                want += &format!("INFO {}\n", gen());
            }
            let texts = if outkind > 0 { vec![stored.first().cloned().unwrap_or_default(), out] } else { vec![r.stdout] };
            for tx in texts {
                let tx = String::from_utf8_lossy(&tx).into_owned();
                let head: String = tx.lines().take_while(|l| !l.starts_with("PUBLIC") && !l.starts_with("FUNC")).map(|l| format!("{l}\n")).collect();
                let head = if outkind == 2 { head.replacen(" n.so\n", " m.so\n", 1) } else { head };
                if head != want {
                    return Err(bad(format!("header\n{head}expected\n{want}")));
                }
            }
        }
        Ok(o)
    });
}

pub fn c17(cx: &mut Ctx) {
    cx.assume("which one is taken when several matching neighbours exist is left open");
    let parts: [fn(&mut Ctx); 4] = [headers, pdb_main, pe_main, infos];
    for p in parts {
        if cx.bads.is_empty() {
            p(cx);
        }
    }
}
