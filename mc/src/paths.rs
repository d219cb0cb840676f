//! C12: every line is attributed to the path the debug information means.
use crate::elf::*;
use crate::ev::*;
use crate::macho::Mach;
use crate::mk;
use crate::pdb::{Pdb, Proc};
use crate::pe::Pe;
use crate::sym::Sym;
use crate::util::*;
use serde_json::json;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Os {
    Linux,
    Mac,
    Win,
}

fn absolute(os: Os, p: &str) -> bool {
    if p.starts_with('/') {
        return true;
    }
    if os != Os::Win {
        return false;
    }
    // \x, \\server\x, C:\x, C:/x
    p.starts_with('\\') || p.split(['/', '\\']).next().unwrap().ends_with(':')
}

fn join(os: Os, l: &str, r: &str) -> String {
    match os {
        Os::Win => {
            let sep = if l.starts_with('/') { "/" } else { "\\" };
            let l = l.trim_end_matches(['/', '\\']);
            let r = r.trim_start_matches(['/', '\\']);
            [l, sep, r].concat()
        }
        _ => [l.trim_end_matches('/'), "/", r.trim_start_matches('/')].concat(),
    }
}

/// An absolute path without . .. and empty components.
fn lexical(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn latin1(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => b.iter().map(|c| *c as char).collect(),
    }
}

/// `dir`: None is the compilation directory itself.
fn expected(os: Os, comp: &[u8], dir: Option<&[u8]>, name: &[u8]) -> String {
    // the reader decodes the directories of the table, dump_syms the compilation directory
    let c = if dir.is_none() { text(comp) } else { latin1(comp) };
    let n = text(name);
    let d = match dir {
        None => c,
        Some(d) => {
            let d = text(d);
            if absolute(os, &d) {
                d
            } else {
                join(os, &c, &d)
            }
        }
    };
    let p = if absolute(os, &n) { n } else { join(os, &d, &n) };
    if os == Os::Linux {
        match std::fs::canonicalize(&p) {
            Ok(c) => c.to_str().unwrap().to_string(),
            Err(_) => lexical(&p),
        }
    } else {
        p
    }
}

#[derive(Clone, Debug)]
struct Case {
    comp: Vec<u8>,
    dir: Option<Vec<u8>>,
    name: Vec<u8>,
}

#[derive(Clone, Copy, Debug)]
struct How {
    os: Os,
    version: u16,
    pooled: bool,
}

/// One unit per compilation directory and group of files; each file has a function with a line.
fn run(how: How, cases: &[Case]) -> (Vec<u8>, Result<(), (usize, String)>) {
    let base = match how.os {
        Os::Mac => 0x1_0000_0000,
        Os::Win => Pe::BASE,
        _ => 0,
    };
    let at = |i: usize| 0x1000 + 0x10 * i as u64;
    let mut units: Vec<mk::Unit> = vec![];
    for (i, c) in cases.iter().enumerate() {
        let fresh = units.last().map_or(true, |u| u.comp_dir.clone().unwrap_or_default() != c.comp || u.files.len() > 200);
        if fresh {
            let mut u = mk::Unit::default();
            u.version = how.version;
            u.comp_dir = Some(c.comp.clone()).filter(|c| !c.is_empty());
            u.files.clear();
            if how.version >= 5 {
                // without compilation directory, the first one is just a directory
                u.dirs = vec![if c.comp.is_empty() { b"/0".to_vec() } else { c.comp.clone() }];
            }
            units.push(u);
        }
        let u = units.last_mut().unwrap();
        let first = if how.version >= 5 { 0 } else { 1 };
        let d = match &c.dir {
            None => 0,
            Some(d) => match u.dirs.iter().skip(1 - first).position(|x| x == d) {
                Some(p) => (p + 1) as u64,
                None => {
                    u.dirs.push(d.clone());
                    (u.dirs.len() - 1 + first) as u64
                }
            },
        };
        let f = u.files.len() as u64;
        u.files.push((c.name.clone(), d));
        u.funs.push(mk::fun("f", base + at(i), 0x10).rows(&[(0, f, 5)]));
    }
    let dw = if how.pooled { mk::dwarf_pooled(&units) } else { mk::dwarf(&units) };
    let total = 0x10 * cases.len() as u64 + 0x10;
    let (buf, s) = match how.os {
        Os::Linux => {
            let b = Elf::new().text(0x1000, total).dwarf(dw).build();
            let s = elf_sym(&b, "m.so", false);
            (b, s)
        }
        Os::Mac => {
            let mut m = Mach::default();
            m.text_size = total + 0x2000;
            m.dwarf = dw;
            let b = m.build();
            let s = mach_sym(&b, "m", "x86_64");
            (b, s)
        }
        Os::Win => {
            let b = Pe::default().dwarf(dw).build();
            let s = pe_sym(&b, "m.dll");
            (b, s)
        }
    };
    let s = match s {
        Ok(s) => s,
        Err(e) => return (buf, Err((0, e))),
    };
    (buf, judge(how, cases, &s, at))
}

fn judge(how: How, cases: &[Case], s: &Sym, at: impl Fn(usize) -> u64) -> Result<(), (usize, String)> {
    let mut used = vec![false; s.files.len()];
    for (i, c) in cases.iter().enumerate() {
        let want = expected(how.os, &c.comp, c.dir.as_deref(), &c.name);
        let r = s.func_at(at(i)).ok_or((i, "no record".to_string()))?;
        match r.lines.first() {
            Some(l) => {
                used[l.file] = true;
                let got = &s.files[l.file];
                // not UTF-8: either decoding will do
                let other = std::str::from_utf8(&c.comp).is_err() && *got == expected(how.os, latin1(&c.comp).as_bytes(), c.dir.as_deref(), &c.name);
                if *got != want && !other {
                    return Err((i, format!("file {:?}, expected {want:?}", s.files[l.file])));
                }
            }
            None => return Err((i, "no line record".into())),
        }
    }
    let set: HashSet<&String> = s.files.iter().collect();
    if set.len() != s.files.len() {
        return Err((0, "a path has two FILE records".into()));
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return Err((0, format!("FILE {i} {:?} is not used", s.files[i])));
    }
    Ok(())
}

fn part(cx: &mut Ctx, name: &str, how: How, cases: Vec<Case>) {
    if !cx.bads.is_empty() {
        return;
    }
    let tasks: Vec<&[Case]> = cases.chunks(3000).collect();
    cx.run(name, tasks.len(), |t| {
        let cs = tasks[t];
        let (buf, r) = run(how, cs);
        if let Err((i, e)) = r {
            let (one, r1) = run(how, &cs[i..=i]);
            let c = &cs[i];
            return Err(Bad::new(format!(
                "{how:?}: comp_dir {:?} dir {:?} name {:?}: {e}\nalone: {r1:?}",
                latin1(&c.comp),
                c.dir.as_ref().map(|d| text(d)),
                text(&c.name)
            ))
            .file("input", &buf)
            .file("input-one", &one));
        }
        let mut st = Stats::default();
        st.states = cs.len() as u64;
        st.traces = cs.len() as u64;
        st.transitions = 3 * cs.len() as u64;
        if t % 7 == 0 {
            let c = &cs[cs.len() - 1];
            st.samples.push(json!(format!(
                "{how:?} {:?} {:?} {:?} -> {:?}",
                latin1(&c.comp),
                c.dir.as_ref().map(|d| text(d)),
                text(&c.name),
                expected(how.os, &c.comp, c.dir.as_deref(), &c.name)
            )));
        }
        Ok(st)
    });
}

fn pdb_part(cx: &mut Ctx, mut all: Vec<Vec<u8>>) {
    if !cx.bads.is_empty() {
        return;
    }
    all.sort();
    all.dedup();
    // many times each, in several modules
    let files: Vec<Vec<u8>> = all.iter().chain(all.iter().rev()).cloned().collect();
    let tasks: Vec<&[Vec<u8>]> = files.chunks(2000).collect();
    cx.run("pdb", tasks.len(), |t| {
        let names = tasks[t];
        let mut p = Pdb::default();
        p.files = names.to_vec();
        p.modules = vec![vec![], vec![]];
        for i in 0..names.len() {
            p.modules[i % 2].push(Proc {
                name: b"f".to_vec(),
                seg: 1,
                off: 0x10 * i as u32,
                size: 0x10,
                lines: vec![(0, i, 5), (8, names.len() - 1 - i, 6)],
                lines_size: 0x10,
                ..Default::default()
            });
        }
        let b = p.build();
        let s = pdb_sym(&b, "m.pdb", false).map_err(|e| Bad::new(e).file("input", &b))?;
        let mut st = Stats::default();
        for (i, n) in names.iter().enumerate() {
            let a = 0x1000 + 0x10 * i as u64;
            let r = s.func_at(a).ok_or_else(|| Bad::new("no record").file("input", &b))?;
            for (at, n) in [(a, n), (a + 8, &names[names.len() - 1 - i])] {
                let want = text(n);
                // the separator before the file name is only known for absolute paths of one style
                let mixed = want.contains('/') && (want.contains('\\') || !want.starts_with('/'));
                let got = s.line_at(r, at).map(|l| l.0.to_string()).unwrap_or_default();
                let same = got == want || (mixed && got.replace('\\', "/") == want.replace('\\', "/"));
                if !same {
                    return Err(Bad::new(format!("path {want:?} of a PDB became {got:?}")).file("input", &b));
                }
                st.transitions += 1;
            }
            st.states += 1;
            st.traces += 1;
        }
        let set: HashSet<&String> = s.files.iter().collect();
        if set.len() != s.files.len() {
            return Err(Bad::new("a path has two FILE records").file("input", &b));
        }
        st.samples.push(json!(format!("pdb {:?}", text(&names[0]))));
        Ok(st)
    });
}

fn combos(comps: &[Vec<u8>], dirs: &[Option<Vec<u8>>], names: &[Vec<u8>]) -> Vec<Case> {
    let mut v = vec![];
    for c in comps {
        for d in dirs {
            for n in names {
                v.push(Case {
                    comp: c.clone(),
                    dir: d.clone(),
                    name: n.clone(),
                });
            }
        }
    }
    v
}

/// All paths of up to `max` components.
fn paths(comps: &[&str], seps: &[&str], prefixes: &[&str], max: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<String> = vec![];
    let mut last: Vec<String> = comps.iter().map(|c| c.to_string()).collect();
    out.extend(last.iter().cloned());
    for _ in 1..max {
        let mut next = vec![];
        for l in &last {
            for s in seps {
                for c in comps {
                    next.push(format!("{l}{s}{c}"));
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    prefixes.iter().flat_map(|p| out.iter().map(move |o| format!("{p}{o}").into_bytes())).collect()
}

fn v(l: &[&[u8]]) -> Vec<Vec<u8>> {
    l.iter().map(|s| s.to_vec()).collect()
}

pub fn c12(cx: &mut Ctx) {
    cx.assume("absolute compilation directories; names in UTF-8 or decoded by the reader");
    let t = cx.thorough;
    let none = |mut d: Vec<Option<Vec<u8>>>| {
        d.insert(0, None);
        d
    };
    let some = |l: Vec<Vec<u8>>| l.into_iter().map(Some).collect::<Vec<_>>();
    let comps = v(&[b"/c", b"/c/", b"/", b"/c/d", b"/c/../e", b"/c/./d/", b"/c//d", b"/\xc3\xa9", b"/\xff\xe9/x"]);
    let n = if t { 5 } else { 4 };
    let rel = paths(&["a", "..", ".", "b.c"], &["/"], &[""], n);
    let names: Vec<Vec<u8>> = [rel.clone(), paths(&["a", "..", "b.c"], &["/"], &["/"], 2), paths(&["a"], &["//"], &["", "//"], 2)].concat();
    let dirs: Vec<Vec<u8>> = [rel, paths(&["a", "..", "b"], &["/"], &["/"], 2), v(&[b"a/", b"/a/", b"//a", b"."])].concat();
    for (p, version, pooled) in [("elf4", 4u16, false), ("elf5", 5, false), ("elf5_shared", 5, true)] {
        part(
            cx,
            p,
            How {
                os: Os::Linux,
                version,
                pooled,
            },
            combos(&comps, &none(some(dirs.clone())), &names),
        );
    }
    // no compilation directory: what is absolute is complete all the same
    let abs = |l: Vec<Vec<u8>>| l.into_iter().filter(|p| p.starts_with(b"/")).collect::<Vec<_>>();
    for (p, os) in [("alone_elf", Os::Linux), ("alone_macho", Os::Mac), ("alone_pe", Os::Win)] {
        for version in [4, 5] {
            let mut cases = combos(&v(&[b""]), &some(abs(dirs.clone())), &names);
            cases.extend(combos(&v(&[b""]), &some(dirs[..40].to_vec()), &abs(names.clone())));
            part(cx, &format!("{p}{version}"), How { os, version, pooled: false }, cases);
        }
    }
    // an empty directory is the compilation directory
    for (p, os) in [("empty_elf", Os::Linux), ("empty_macho", Os::Mac)] {
        for pooled in [false, true] {
            part(cx, &format!("{p}{}", pooled as u8), How { os, version: 5, pooled }, combos(&comps, &some(v(&[b"", b"a", b"/b"])), &names));
        }
    }
    // the same strings in every unit
    let mut mixed = vec![];
    for d in none(some(v(&[b"a", b"/a", b"b", b".."]))) {
        for n in v(&[b"x.c", b"y.c", b"/x.c", b"../x.c", b"a", b"b"]) {
            for c in v(&[b"/c", b"/d", b"/c/a", b"/"]) {
                mixed.push(Case {
                    comp: c,
                    dir: d.clone(),
                    name: n.clone(),
                });
            }
        }
    }
    for (p, os) in [("units_elf", Os::Linux), ("units_macho", Os::Mac), ("units_pe", Os::Win)] {
        for pooled in [false, true] {
            part(cx, &format!("{p}{}", pooled as u8), How { os, version: 5, pooled }, mixed.clone());
        }
    }
    // encodings
    let enc = v(&[
        b"a\xc3\xa9.c",
        b"a\xe9.c",
        b"b\xe9.c",
        b"\xff",
        b"\xff\xff",
        b"\xe2\x82\xac/\xff.c",
        b"plain.c",
        b"sp ace.c",
        b"../\xfe.c",
        b"/\xfe/x.c",
    ]);
    for pooled in [false, true] {
        for os in [Os::Linux, Os::Mac] {
            part(
                cx,
                &format!("encodings_{os:?}{}", pooled as u8),
                How { os, version: 5, pooled },
                combos(&v(&[b"/c", b"/\xe9", b"/\xc3\xa9", b"/\xff/\xfe", b"/\x80", b"/\x81", b"/\x9f/\xa0", b"/\xbf"]), &none(some(enc.clone())), &enc),
            );
        }
    }
    // names that only look like the special ones
    let odd = paths(&["...", "..", "..a", "a..", ".a", "a.", " ", "~"], &["/"], &["", "/"], if t { 3 } else { 2 });
    for (p, os) in [("odd_elf", Os::Linux), ("odd_macho", Os::Mac)] {
        for version in [4, 5] {
            part(cx, &format!("{p}{version}"), How { os, version, pooled: false }, combos(&v(&[b"/c", b"/...", b"/c/...", b"/..a/a.", b"/~", b"/ /a"]), &none(some(odd.clone())), &odd));
        }
    }
    // foreign objects: nothing is resolved
    part(
        cx,
        "macho",
        How {
            os: Os::Mac,
            version: 4,
            pooled: false,
        },
        combos(&comps, &none(some(dirs)), &names),
    );
    let wc = v(&[br"C:\c", br"C:\c\", b"/c", b"C:/c", br"\\s\c", b"/c/d/"]);
    let wrel = paths(&["a", "..", "b.c"], &["/", "\\"], &["", "/", "\\", "D:\\", "d:/"], if t { 4 } else { 3 });
    for version in [4, 5] {
        part(
            cx,
            &format!("pe{version}"),
            How {
                os: Os::Win,
                version,
                pooled: false,
            },
            combos(&wc, &none(some(wrel.clone())), &wrel),
        );
    }
    crate::large::explore(cx, &[crate::large::Dim::Files, crate::large::Dim::Units], false);
    // PDB files hold complete paths
    let wp = [
        paths(&["a", "..", "b.c", "\u{e9}"], &["\\"], &["", ".\\", "D:\\", "\\\\s\\x\\", "c:\\x y\\"], n),
        paths(&["a", "..", "b.c", "\u{e9}"], &["/"], &["/", "/h/"], n),
        paths(&["a", ".", "b.c"], &["/", "\\"], &["", "D:\\", "d:/", "/"], n),
    ]
    .concat();
    pdb_part(cx, wp);
    // paths that exist
    if !cx.bads.is_empty() {
        return;
    }
    let s = Scratch::new("c12");
    let d = s.0.canonicalize().unwrap();
    std::fs::create_dir_all(d.join("real/sub")).unwrap();
    std::fs::create_dir_all(d.join("other")).unwrap();
    for f in ["real/a.c", "real/sub/a.c", "other/b.c", "b.c"] {
        std::fs::write(d.join(f), "").unwrap();
    }
    let ln = |to: &str, at: &str| std::os::unix::fs::symlink(to, d.join(at)).unwrap();
    ln("real/sub", "link");
    ln("../other/b.c", "real/l.c");
    ln("nowhere", "dangling");
    ln("a.c", "real/sub/rel.c");
    let root = d.to_str().unwrap().as_bytes().to_vec();
    let mut comps = vec![root.clone()];
    for x in ["/real", "/link", "/link/..", "/missing/..", "/real/sub"] {
        comps.push([&root[..], x.as_bytes()].concat());
    }
    let mut dirs = v(&[b"real", b"link", b"sub", b"..", b".", b"link/..", b"missing", b"dangling", b"../link"]);
    dirs.push([&root[..], b"/link"].concat());
    let mut names = v(&[b"a.c", b"l.c", b"b.c", b"rel.c", b"../a.c", b"../b.c", b"sub/../a.c", b"dangling", b"link/a.c", b"no.c", b"./a.c"]);
    names.push([&root[..], b"/real/l.c"].concat());
    for (p, version, pooled) in [("existing4", 4u16, false), ("existing5", 5, true)] {
        part(
            cx,
            p,
            How {
                os: Os::Linux,
                version,
                pooled,
            },
            combos(&comps, &none(some(dirs.clone())), &names),
        );
    }
}
