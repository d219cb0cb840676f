//! C10: well-formedness whatever the names; C19: names are cleaned up the same way everywhere.
use crate::dwarf::*;
use crate::elf::*;
use crate::ev::*;
use crate::macho::Mach;
use crate::mk;
use crate::pdb::{Pdb, Proc, Site};
use crate::pe::Pe;
use crate::sym::Sym;
use crate::util::*;
use serde_json::json;
use symbolic::common::{Language, Name, NameMangling};
use symbolic::demangle::{Demangle, DemangleOptions};

const ODD: &[&[u8]] = &[
    b"a",
    b" ",
    b"\n",
    b"\r",
    b"\t",
    b"\x01",
    b"\x0b",
    b"\x7f",
    b"\xff",
    b"\xc3\xa9",
    b"FUNC 1 1 0 x",
];

fn words(alpha: &[&[u8]], max: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for v in &last {
            for a in alpha {
                let mut w = v.clone();
                w.extend_from_slice(a);
                next.push(w);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// What has to be left of a name: its printable characters, in order.
fn printable(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_control() && *c != ' ' && *c != '\u{fffd}').collect()
}
fn kept(name: &[u8], got: &str) -> bool {
    match std::str::from_utf8(name) {
        Ok(n) => {
            let p = printable(n);
            p.is_empty() || p == printable(got)
        }
        Err(_) => true,
    }
}

type R = Result<(), String>;

fn expect(s: &Sym, want: &[(u64, bool, &[u8])], exact: bool) -> R {
    if s.recs.is_empty() && want.iter().all(|w| w.1 && std::str::from_utf8(w.2).is_err()) {
        // the reader gave up on the table
        return Ok(());
    }
    if s.recs.len() != want.len() {
        return Err(format!("{} records instead of {}", s.recs.len(), want.len()));
    }
    for (r, (a, public, n)) in s.recs.iter().zip(want) {
        if r.addr != *a || r.public != *public {
            return Err(format!("unexpected record {r:?} instead of one at {a:x} named {n:?}"));
        }
        if exact && !kept(n, &r.name) {
            return Err(format!("name {n:?} became {:?}", r.name));
        }
    }
    Ok(())
}

const POS: &[&str] = &[
    "fun_c", "fun_cpp", "fun_rust", "linkage", "origin", "origin_linkage", "file", "dir", "comp_dir", "file5", "symtab", "dynsym",
    "mini", "section", "macho_sym", "macho_fun", "pe_export", "pe_export32", "pdb_fun", "pdb_public", "pdb_file", "pdb_origin",
];

fn esym(n: &[u8], a: u64) -> ElfSym {
    ElfSym {
        name: n.to_vec(),
        value: a,
        size: 8,
        typ: 2,
        bind: 1,
        sec: Some(0),
    }
}

fn position(pos: &str, names: &[Vec<u8>]) -> (Vec<u8>, R) {
    let at = |i: usize| 0x1000 + 0x10 * i as u64;
    let total = 0x10 * names.len() as u64 + 0x10;
    let exact: Vec<(u64, bool, &[u8])> = names.iter().enumerate().map(|(i, n)| (at(i), false, &n[..])).collect();
    let publics: Vec<(u64, bool, &[u8])> = exact.iter().map(|(a, _, n)| (*a, true, *n)).collect();
    let elf = |e: Elf| {
        let buf = e.build();
        let s = elf_sym(&buf, "m.so", true);
        (buf, s)
    };
    match pos {
        "fun_c" | "fun_cpp" | "fun_rust" | "linkage" => {
            let mut u = mk::Unit::default();
            u.lang = match pos {
                "fun_c" => DW_LANG_C,
                "fun_rust" => DW_LANG_RUST,
                _ => DW_LANG_CPP,
            };
            for (i, n) in names.iter().enumerate() {
                let mut f = mk::fun("", at(i), 0x10);
                f.name = n.clone();
                if pos == "linkage" {
                    f.name = b"plain".to_vec();
                    f.linkage = Some(n.clone());
                }
                f.rows = vec![(0, 0, 5)];
                u.funs.push(f);
            }
            let (b, s) = elf(Elf::new().text(0x1000, total).dwarf(mk::dwarf(&[u])));
            (b, s.and_then(|s| expect(&s, &exact, pos == "fun_c")))
        }
        "origin" | "origin_linkage" => {
            let mut u = mk::Unit::default();
            u.lang = if pos == "origin" { DW_LANG_C } else { DW_LANG_CPP };
            for (i, n) in names.iter().enumerate() {
                u.origins.push(if pos == "origin" { (n.clone(), None) } else { (b"o".to_vec(), Some(n.clone())) });
                let mut f = mk::fun("f", at(i), 0x10);
                f.rows = vec![(0, 0, 5), (4, 1, 7)];
                f.inl = vec![mk::Inl {
                    lo: 4,
                    hi: 8,
                    origin: i,
                    call_file: 0,
                    call_line: 3,
                    kids: vec![],
                }];
                u.funs.push(f);
            }
            let (b, s) = elf(Elf::new().text(0x1000, total).dwarf(mk::dwarf(&[u])));
            let r = s.and_then(|s| {
                let want: Vec<(u64, bool, &[u8])> = exact.iter().map(|(a, p, _)| (*a, *p, &b"f"[..])).collect();
                expect(&s, &want, true)?;
                for (i, r) in s.recs.iter().enumerate() {
                    let got = s.inlines_at(r, r.addr + 5);
                    if got.len() != 1 || (pos == "origin" && !kept(&names[i], got[0].1)) {
                        return Err(format!("inlined function {:?} became {got:?}", names[i]));
                    }
                }
                Ok(())
            });
            (b, r)
        }
        "file" | "dir" | "comp_dir" | "file5" => {
            let mut us = vec![];
            let mut u = mk::Unit::default();
            u.files.clear();
            if pos == "file5" {
                u.version = 5;
                u.dirs = vec![b"/c".to_vec()];
            }
            for (i, n) in names.iter().enumerate() {
                let f = mk::fun("f", at(i), 0x10);
                match pos {
                    "file" | "file5" => {
                        u.files.push((n.clone(), 0));
                        u.funs.push(f.rows(&[(0, i as u64, 5)]));
                    }
                    "dir" => {
                        u.dirs.push(n.clone());
                        u.files.push((b"x.c".to_vec(), i as u64 + 1));
                        u.funs.push(f.rows(&[(0, i as u64, 5)]));
                    }
                    _ => {
                        let mut v = mk::Unit::default();
                        v.comp_dir = Some(n.clone());
                        v.funs.push(f.rows(&[(0, 0, 5)]));
                        us.push(v);
                    }
                }
            }
            if us.is_empty() {
                us.push(u);
            }
            let (b, s) = elf(Elf::new().text(0x1000, total).dwarf(mk::dwarf(&us)));
            let r = s.and_then(|s| {
                let want: Vec<(u64, bool, &[u8])> = exact.iter().map(|(a, p, _)| (*a, *p, &b"f"[..])).collect();
                expect(&s, &want, true)?;
                for (i, r) in s.recs.iter().enumerate() {
                    match s.line_at(r, r.addr) {
                        Some((f, 5)) => {
                            if let Ok(n) = std::str::from_utf8(&names[i]) {
                                if !printable(f).contains(&printable(n)) {
                                    return Err(format!("file {n:?} became {f:?}"));
                                }
                            }
                        }
                        o => return Err(format!("line is {o:?}")),
                    }
                }
                Ok(())
            });
            (b, r)
        }
        "symtab" | "dynsym" | "mini" => {
            let mut e = Elf::new().text(0x1000, total);
            let mut m = Elf::new().text(0x1000, total);
            for (i, n) in names.iter().enumerate() {
                let s = esym(n, at(i));
                match pos {
                    "symtab" => e.symtab.push(s),
                    "dynsym" => e.dynsym.push(s),
                    _ => m.symtab.push(s),
                }
            }
            if pos == "mini" {
                let mut z = Vec::new();
                lzma_rs::xz_compress(&mut &m.build()[..], &mut z).unwrap();
                e.extra.push((b".gnu_debugdata".to_vec(), z, 0));
            }
            let (b, s) = elf(e);
            (b, s.and_then(|s| expect(&s, &publics, true)))
        }
        "section" => {
            let mut e = Elf::new();
            for (i, n) in names.iter().enumerate() {
                e.text.push(TextSec {
                    name: n.clone(),
                    addr: at(i),
                    size: 0x10,
                    exec: true,
                });
            }
            let (b, s) = elf(e);
            (b, s.and_then(|s| expect(&s, &publics, false)))
        }
        "macho_sym" | "macho_fun" => {
            let mut m = Mach::default();
            m.text_size = total + 0x2000;
            let mut u = mk::Unit::default();
            for (i, n) in names.iter().enumerate() {
                let a = m.text_addr + at(i);
                if pos == "macho_sym" {
                    m.syms.push(([b"_", &n[..]].concat(), a));
                } else {
                    let mut f = mk::fun("", a, 0x10);
                    f.name = n.clone();
                    u.funs.push(f);
                }
            }
            if !u.funs.is_empty() {
                m.dwarf = mk::dwarf(&[u]);
            }
            let b = m.build();
            let r = mach_sym(&b, "m", "x86_64")
                .and_then(|s| expect(&s, if pos == "macho_sym" { &publics } else { &exact }, true));
            (b, r)
        }
        "pe_export" | "pe_export32" => {
            let mut p = Pe::default();
            if pos == "pe_export32" {
                p.machine = 0x14c;
            }
            let mut want: Vec<(u64, bool, &[u8])> = vec![];
            for (i, n) in names.iter().enumerate() {
                // the PE reader doesn't give names which aren't UTF-8
                p.exports.push((n.clone(), at(i) as u32));
                want.push((at(i), true, n));
            }
            let b = p.build();
            let r = pe_sym(&b, "m.dll").and_then(|mut s| {
                if s.recs.len() == want.len() + 1 {
                    s.recs.pop();
                }
                expect(&s, &want, true)
            });
            (b, r)
        }
        "pdb_fun" | "pdb_public" | "pdb_file" | "pdb_origin" => {
            let b = pdb_names(pos, names).build();
            let r = pdb_sym(&b, "m.pdb", true).and_then(|mut s| {
                if s.recs.last().map_or(false, |r| r.name.starts_with("<unknown in")) {
                    s.recs.pop();
                }
                match pos {
                    "pdb_fun" => return expect(&s, &exact, true),
                    "pdb_public" => return expect(&s, &publics, true),
                    _ => (),
                }
                let want: Vec<(u64, bool, &[u8])> = exact.iter().map(|(a, p, _)| (*a, *p, &b"f"[..])).collect();
                expect(&s, &want, true)?;
                for (i, r) in s.recs.iter().enumerate() {
                    let n = match std::str::from_utf8(&names[i]) {
                        Ok(n) => n,
                        Err(_) => continue,
                    };
                    if pos == "pdb_origin" {
                        let got = s.inlines_at(r, r.addr + 5);
                        if got.len() != 1 || (printable(got[0].1) != format!("{}()", printable(n))) {
                            return Err(format!("inlined function {n:?} became {got:?}"));
                        }
                    } else {
                        match s.line_at(r, r.addr) {
                            Some((f, 5)) if printable(f).ends_with(&printable(n)) => (),
                            o => return Err(format!("file {n:?}: line is {o:?}")),
                        }
                    }
                }
                Ok(())
            });
            (b, r)
        }
        _ => unreachable!(),
    }
}

/// names in a PDB, one per function or symbol; functions of 0x10 bytes from 0x1000
fn pdb_names(pos: &str, names: &[Vec<u8>]) -> Pdb {
    let mut p = Pdb::default();
    if pos != "pdb_file" {
        p.files.push(b"d:\\x\\a.c".to_vec());
    }
    let mut funs = vec![];
    for (i, n) in names.iter().enumerate() {
        let mut f = Proc {
            name: b"f".to_vec(),
            seg: 1,
            off: 0x10 * i as u32,
            size: 0x10,
            lines: vec![(0, 0, 5)],
            lines_size: 0x10,
            ..Default::default()
        };
        match pos {
            "pdb_fun" => f.name = n.clone(),
            "pdb_file" => {
                p.files.push(n.clone());
                f.lines[0].1 = i;
            }
            "pdb_origin" => {
                p.inlinees.push((n.clone(), 0, 7));
                f.sites = vec![Site {
                    inlinee: i,
                    lines: vec![(4, 4, 0, 7)],
                    kids: vec![],
                }];
            }
            _ => {
                p.publics.push((n.clone(), 1, 0x10 * i as u32, 2));
                continue;
            }
        }
        funs.push(f);
    }
    p.modules = vec![funs];
    p
}

pub fn c10(cx: &mut Ctx) {
    let max = if cx.thorough { 6 } else { 5 };
    let all = words(ODD, max);
    cx.note("alphabet", json!(ODD.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>()));
    cx.note("positions", json!(POS));
    let mut tasks: Vec<(&str, Vec<Vec<u8>>)> = vec![];
    for p in POS {
        let ok: Vec<Vec<u8>> = all
            .iter()
            .filter(|n| match *p {
                // one empty v4 directory or file ends the table
                "pe_export" | "pe_export32" => std::str::from_utf8(n).is_ok(),
                _ => true,
            })
            .cloned()
            .collect();
        // one name which isn't UTF-8 can make the reader lose all those of its table
        let (good, bad): (Vec<_>, Vec<_>) = ok.into_iter().partition(|n| std::str::from_utf8(n).is_ok());
        for c in good.chunks(250) {
            tasks.push((p, c.to_vec()));
        }
        let table = ["symtab", "dynsym", "mini", "section"].contains(p);
        for c in bad.chunks(if table { 1 } else { 250 }) {
            tasks.push((p, c.to_vec()));
        }
    }
    // names of all lengths
    for p in POS {
        for c in ["n", "\u{e9}"] {
            let max = if p.starts_with("pdb") { 8193 } else { 65537 };
            let long = crate::large::sizes(max, 30).into_iter().map(|n| c.repeat(n as usize).into_bytes()).collect();
            tasks.push((p, long));
        }
    }
    cx.run("names", tasks.len(), |t| {
        let (p, names) = &tasks[t];
        let (buf, r) = position(p, names);
        if let Err(e) = r {
            for n in names {
                let (b1, r1) = position(p, &[n.clone()]);
                if let Err(e1) = r1 {
                    return Err(Bad::new(format!("position {p}, name {n:?} ({:?}): {e1}", String::from_utf8_lossy(n))).file("input", &b1));
                }
            }
            return Err(Bad::new(format!("position {p}, together: {e}")).file("input", &buf));
        }
        let mut st = Stats::default();
        st.states = names.len() as u64;
        st.traces = names.len() as u64;
        st.transitions = names.iter().map(|n| n.len() as u64).sum();
        if t % 20 == 0 {
            st.samples.push(json!(format!("{p}: {:?}", String::from_utf8_lossy(names.last().unwrap()))));
        }
        Ok(st)
    });
    if !cx.bads.is_empty() {
        return;
    }
    // names there is one of per module
    let mods = ["soname", "file", "file_pe", "dylib", "file_mach", "pdbname", "empty_id", "file_pdb"];
    cx.run("modules", all.len(), |i| {
        let n = &all[i];
        let mut st = Stats::default();
        let lossy = String::from_utf8_lossy(n).to_string();
        for m in mods {
            let (buf, r) = match m {
                "soname" => {
                    let mut e = Elf::new().text(0x1000, 0x10);
                    e.soname = Some(n.clone());
                    let b = e.build();
                    let r = elf_sym(&b, "m.so", false);
                    (b, r)
                }
                "empty_id" => {
                    let mut e = Elf::new().text(0x1000, 0x10);
                    e.build_id = None;
                    e.soname = Some(n.clone());
                    let b = e.build();
                    let r = elf_sym(&b, &lossy, false);
                    (b, r)
                }
                "file" => {
                    let b = Elf::new().text(0x1000, 0x10).build();
                    let r = elf_sym(&b, &lossy, false);
                    (b, r)
                }
                "file_pdb" => {
                    let b = pdb_names("pdb_public", &[b"x".to_vec()]).build();
                    let r = pdb_sym(&b, &lossy, false);
                    (b, r)
                }
                "file_pe" | "pdbname" => {
                    let mut p = Pe::default();
                    p.exports = vec![(b"x".to_vec(), 0x1000)];
                    p.pdata = vec![(0x1100, 0x1200)];
                    p.codeview = Some(([7; 16], 1, if m == "pdbname" { n.clone() } else { b"m.pdb".to_vec() }));
                    let b = p.build();
                    let r = pe_sym(&b, if m == "file_pe" { &lossy } else { "m.dll" });
                    (b, r)
                }
                _ => {
                    let mut a = Mach::default();
                    if m == "dylib" {
                        a.dylib = Some(n.clone());
                    }
                    let b = a.build();
                    let r = mach_sym(&b, if m == "dylib" { "m" } else { &lossy }, "x86_64");
                    (b, r)
                }
            };
            match r {
                Ok(_) => (),
                // the reader itself refuses the object
                Err(e) if (e.starts_with("error: ") || e.starts_with("panic: ")) && std::str::from_utf8(n).is_err() => (),
                Err(e) => return Err(Bad::new(format!("{m}, name {n:?}: {e}")).file("input", &buf)),
            }
            st.states += 1;
            st.traces += 1;
            st.transitions += n.len() as u64;
        }
        if i == 100 {
            st.samples.push(json!(format!("module name {lossy:?}")));
        }
        Ok(st)
    });
}

// ---------------------------------------------------------------------------------------------

const KW: &[&str] = &["cold", "constprop", "llvm", "localalias", "lto_priv", "isra", "part", "str"];

/// The pieces that may start at `i`: their ends.
fn pieces(s: &[u8], i: usize) -> Vec<usize> {
    let mut v = vec![];
    if s[i] == b'.' {
        for k in KW {
            if s[i + 1..].starts_with(k.as_bytes()) {
                let j = i + 1 + k.len();
                v.push(j);
                if s.get(j) == Some(&b'.') {
                    let mut d = j + 1;
                    while d < s.len() && s[d].is_ascii_digit() {
                        d += 1;
                        v.push(d);
                    }
                }
            }
        }
    }
    let b = if s[i] == b' ' { i + 1 } else { i };
    if s[b.min(s.len())..].starts_with(b"[clone") {
        if let Some(e) = s[b..].iter().position(|c| *c == b']') {
            let e = b + e + 1;
            v.push(e);
            if s.get(e) == Some(&b' ') {
                v.push(e + 1);
            }
        }
    }
    v
}

/// Removes compiler-made suffixes, as many as there are, at the end only.
pub fn strip(s: &str) -> String {
    let b = s.as_bytes();
    let mut ok = vec![false; b.len() + 1];
    ok[b.len()] = true;
    let mut best = b.len();
    for i in (0..b.len()).rev() {
        if pieces(b, i).iter().any(|j| ok[*j]) {
            ok[i] = true;
            best = i;
        }
    }
    s[..best].replace("`anonymous namespace'", "(anonymous namespace)")
}

fn demangled(s: &str, lang: Language) -> Option<String> {
    Name::new(s, NameMangling::Mangled, lang).demangle(DemangleOptions::complete().return_type(false))
}

/// name of a public symbol
fn public_name(n: &str) -> String {
    let lang = Name::new(n, NameMangling::Mangled, Language::Unknown).detect_language();
    if lang == Language::Unknown {
        return n.to_string();
    }
    let s = strip(n);
    demangled(&s, lang).unwrap_or(s)
}

/// (base, what it has to become): written down by hand
const BASES: &[(&str, &str)] = &[
    ("f", "f"),
    ("_Z1fv", "f()"),
    ("_ZN1a1bEi", "a::b(int)"),
    ("_Z1gIiEvT_", "g<int>(int)"),
    ("_ZN12_GLOBAL__N_11hEv", "(anonymous namespace)::h()"),
    ("_ZNK1s1mERKi", "s::m(int const&) const"),
];

const SUFF: &[&str] = &[
    ".cold",
    ".part",
    ".constprop",
    ".isra",
    ".llvm",
    ".localalias",
    ".lto_priv",
    ".str",
    ".0",
    ".12",
    ".",
    "[clone]",
    " [clone .cold]",
    "[clone x] ",
    " ",
    ".colder",
    ".x",
    "[cold]",
];

/// Rarer ones.
const SUFF2: &[&str] = &[
    ".cold",
    ".llvm",
    ".str",
    ".isra.1",
    ".0123456789012345678901234567890123456789",
    ".18446744073709551616",
    ".-1",
    ".1a",
    ".\u{0663}",
    "[clone [x]",
    "[clone",
    "]",
    " [clone .a] [clone .b.2] ",
    "  ",
    "[Clone .cold]",
    ".COLD",
    "\u{e9}",
    ".cold.0.0",
    "@12",
    "()",
];

/// Names of other languages, also written down by hand.
const LANGS: &[(&str, &str)] = &[
    ("_ZN4core3fmt5write17h0123456789abcdefE", "core::fmt::write"),
    ("_RNvC6_123foo3bar", "123foo::bar"),
    ("_RNvNtC3foo3bar3baz", "foo::bar::baz"),
    ("?f@ns@@YAXH@Z", "ns::f(int)"),
    ("??0c@@QAE@XZ", "c::c(void)"),
    ("?g@c@@SAHXZ", "c::g(void)"),
];

const WIN_ALPHA: &[&str] = &["_", "@", "a", "8", "12", ":", "(", ".", "\u{e9}"];
const WIN_TOK: &[&str] = &[
    "_", "__", "@", "@@", "a", "real", "xmm", "ymm", "zmm", "??_C", "?", "4294967295", "4294967296", "08", "x.cold", "$", " ", "\u{e9}", "_Z1fv",
];

fn win_model(n: &str) -> Option<(String, u64)> {
    if n.starts_with("??_C") || ["__real@", "__xmm@", "__ymm@"].iter().any(|p| n.starts_with(p)) {
        return None;
    }
    if n.contains(':') || n.contains('(') {
        return Some((public_name(n), 0));
    }
    // trailing number after the last @
    let num = |s: &str| -> Option<u64> {
        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        s.parse::<u64>().ok().filter(|v| *v <= u32::MAX as u64)
    };
    if let Some(i) = n.rfind("@@") {
        if let Some(v) = num(&n[i + 2..]) {
            return Some((public_name(&n[..i]), v));
        }
    }
    let c = n.chars().next();
    if c == Some('_') || c == Some('@') {
        let r = &n[1..];
        if let Some(i) = r.rfind('@') {
            if let Some(v) = num(&r[i + 1..]) {
                return Some((public_name(&r[..i]), v));
            }
        }
        if c == Some('_') {
            return Some((public_name(r), 0));
        }
    }
    Some((public_name(n), 0))
}

fn toks(alpha: &[&str], max: usize) -> Vec<String> {
    let a: Vec<&[u8]> = alpha.iter().map(|s| s.as_bytes()).collect();
    words(&a, max).into_iter().map(|v| String::from_utf8(v).unwrap()).collect()
}

fn clean_pos(pos: &str, names: &[String]) -> Vec<String> {
    let at = |i: usize| 0x1000 + 0x10 * i as u64;
    let total = 0x10 * names.len() as u64 + 0x10;
    if pos.starts_with("pdb") {
        let n: Vec<Vec<u8>> = names.iter().map(|n| n.as_bytes().to_vec()).collect();
        return match pdb_sym(&pdb_names(pos, &n).build(), "m.pdb", true) {
            Err(e) => vec![format!("!{e}"); names.len()],
            Ok(s) => (0..names.len())
                .map(|i| match s.func_at(at(i)) {
                    None => "!no record".into(),
                    Some(r) if pos == "pdb_origin" => s
                        .inlines_at(r, at(i) + 5)
                        .first()
                        .map_or("!none".into(), |x| x.1.to_string()),
                    Some(r) => r.name.clone(),
                })
                .collect(),
        };
    }
    let mut u = mk::Unit::default();
    u.lang = if pos.ends_with("_c") { DW_LANG_C } else { DW_LANG_CPP };
    let mut e = Elf::new().text(0x1000, total);
    for (i, n) in names.iter().enumerate() {
        let b = n.as_bytes().to_vec();
        if pos == "public" {
            e.symtab.push(esym(&b, at(i)));
            continue;
        }
        let linkage = pos == "linkage" || pos == "origin";
        if pos.starts_with("origin") {
            u.origins.push((if linkage { b"o".to_vec() } else { b.clone() }, if linkage { Some(b) } else { None }));
            let mut f = mk::fun("f", at(i), 0x10);
            f.rows = vec![(0, 0, 5), (4, 1, 7)];
            f.inl = vec![mk::Inl {
                lo: 4,
                hi: 8,
                origin: i,
                call_file: 0,
                call_line: 3,
                kids: vec![],
            }];
            u.funs.push(f);
        } else {
            let mut f = mk::fun("o", at(i), 0x10);
            if linkage {
                f.linkage = Some(b);
            } else {
                f.name = b;
            }
            u.funs.push(f);
        }
    }
    let e = if pos == "public" { e } else { e.dwarf(mk::dwarf(&[u])) };
    let s = match elf_sym(&e.build(), "m.so", true) {
        Ok(s) => s,
        Err(e) => return vec![format!("!{e}"); names.len()],
    };
    (0..names.len())
        .map(|i| match s.func_at(at(i)) {
            None => "!no record".into(),
            Some(r) if pos.starts_with("origin") => s.inlines_at(r, at(i) + 5).first().map_or("!none".into(), |x| x.1.to_string()),
            Some(r) => r.name.clone(),
        })
        .collect()
}

pub fn c19(cx: &mut Ctx) {
    cx.assume("symbolic's demangler is right for the names it accepts (bases are also written down by hand)");
    let sfx = {
        let mut v = toks(SUFF, if cx.thorough { 5 } else { 4 });
        v.push(String::new());
        v.extend(toks(SUFF2, if cx.thorough { 4 } else { 3 }));
        v
    };
    let poss = ["fun_c", "fun_cpp", "linkage", "origin", "origin_c", "public", "pdb_fun", "pdb_origin"];
    let bases: Vec<(String, String)> = BASES
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .chain([
            ("`anonymous namespace'::k".to_string(), "(anonymous namespace)::k".to_string()),
            ("h.cold.9 x".to_string(), "h.cold.9 x".to_string()),
        ])
        .collect();
    let mut tasks = vec![];
    for p in poss {
        for (b, d) in &bases {
            for c in sfx.chunks(1500) {
                tasks.push((p, b, d, c));
            }
        }
    }
    cx.run("suffixes", tasks.len(), |t| {
        let (p, base, dem, suf) = &tasks[t];
        let names: Vec<String> = suf.iter().map(|s| format!("{base}{s}")).collect();
        let got = clean_pos(p, &names);
        let mut st = Stats::default();
        for (n, g) in names.iter().zip(&got) {
            let want = match *p {
                "public" => public_name(n),
                "fun_c" | "fun_cpp" | "origin_c" | "pdb_fun" => strip(n),
                "pdb_origin" => strip(&format!("{n}()")),
                _ => {
                    let s = strip(n);
                    if s == **base {
                        dem.to_string()
                    } else {
                        demangled(&s, Language::Cpp).unwrap_or(s)
                    }
                }
            };
            if *p == "public" && n == *base && base.starts_with("_Z") && want != **dem {
                return Err(Bad::new(format!("oracle: {n:?} -> {want:?}")));
            }
            if *g != want && !(want.trim().is_empty() && !g.starts_with('!')) {
                return Err(Bad::new(format!("{p} named {n:?} became {g:?}, expected {want:?}")));
            }
            st.states += 1;
            st.traces += 1;
            st.transitions += 1;
        }
        if t % 10 == 0 {
            st.samples.push(json!(format!("{p}: {:?} -> {:?}", names.last(), got.last())));
        }
        Ok(st)
    });
    if !cx.bads.is_empty() {
        return;
    }
    // languages that are told by the name alone
    let s2: Vec<String> = toks(SUFF, 2).into_iter().chain(toks(SUFF2, 2)).chain([String::new()]).collect();
    cx.run("languages", LANGS.len(), |t| {
        let (base, dem) = LANGS[t];
        let names: Vec<String> = s2.iter().map(|s| format!("{base}{s}")).collect();
        let mut st = Stats::default();
        for p in ["public", "pdb public"] {
            let got = if p == "public" {
                clean_pos(p, &names)
            } else {
                let n: Vec<Vec<u8>> = names.iter().map(|n| n.as_bytes().to_vec()).collect();
                match pdb_sym(&pdb_names("pdb_public", &n).build(), "m.pdb", false) {
                    Ok(s) => (0..names.len())
                        .map(|i| s.func_at(0x1000 + 0x10 * i as u64).map_or("!none".into(), |r| r.name.clone()))
                        .collect(),
                    Err(e) => vec![format!("!{e}"); names.len()],
                }
            };
            for (n, g) in names.iter().zip(&got) {
                let mut want = if p == "public" { public_name(n) } else { win_model(n).map_or("!none".into(), |w| w.0) };
                // the decoration of a C name has an underscore, too
                if n == base && !(p != "public" && base.starts_with('_')) {
                    want = dem.to_string();
                }
                if *g != want {
                    return Err(Bad::new(format!("{p} named {n:?} became {g:?}, expected {want:?}")));
                }
                st.states += 1;
                st.traces += 1;
                st.transitions += 1;
            }
        }
        Ok(st)
    });
    if !cx.bads.is_empty() {
        return;
    }
    mixed_units(cx);
    if !cx.bads.is_empty() {
        return;
    }
    let mut win = toks(WIN_ALPHA, if cx.thorough { 7 } else { 6 });
    win.extend(toks(WIN_TOK, if cx.thorough { 5 } else { 4 }));
    win.sort();
    win.dedup();
    const WHERE: &[(&str, u16)] = &[
        ("export", 0x8664),
        ("export", 0x14c),
        ("pdb public", 0x8664),
        ("pdb public", 0x14c),
        ("public of pdb function f", 0x14c),
        ("public of pdb function f(int)", 0x8664),
    ];
    let tasks: Vec<(&[String], &str, u16)> =
        win.chunks(3000).flat_map(|c| WHERE.iter().map(move |w| (c, w.0, w.1))).collect();
    cx.run("decorations", tasks.len(), |t| {
        let (names, place, machine) = &tasks[t];
        let own = place.strip_prefix("public of pdb function ");
        let b = if *place == "export" {
            let mut p = Pe {
                machine: *machine,
                ..Default::default()
            };
            for (i, n) in names.iter().enumerate() {
                p.exports.push((n.as_bytes().to_vec(), 0x1000 + 0x10 * i as u32));
            }
            p.build()
        } else {
            let n: Vec<Vec<u8>> = names.iter().map(|n| n.as_bytes().to_vec()).collect();
            let mut p = pdb_names("pdb_public", &n);
            p.machine = *machine;
            if let Some(f) = own {
                let own = vec![f.as_bytes().to_vec(); names.len()];
                p.modules = pdb_names("pdb_fun", &own).modules;
                p.files = vec![b"a.c".to_vec()];
            }
            p.build()
        };
        let s = if *place == "export" { pe_sym(&b, "m.dll") } else { pdb_sym(&b, "m.pdb", false) };
        let s = s.map_err(|e| Bad::new(e).file("input", &b))?;
        let mut st = Stats::default();
        for (i, n) in names.iter().enumerate() {
            let a = 0x1000 + 0x10 * i as u64;
            let got = s.func_at(a).map(|r| (r.name.clone(), r.param));
            let mut want = win_model(n);
            if let Some(f) = own {
                want = match want {
                    None => Some((f.to_string(), 0)),
                    Some((_, v)) if f.contains('(') => Some((f.to_string(), v)),
                    w => w,
                };
            }
            let same = match (&got, &want) {
                (Some(g), Some(w)) => g.1 == w.1 && (g.0 == w.0 || w.0.trim().is_empty()),
                (None, None) => true,
                _ => false,
            };
            if !same {
                return Err(Bad::new(format!("{place} {n:?} became {got:?}, expected {want:?}")).file("input", &b));
            }
            st.states += 1;
            st.traces += 1;
            st.transitions += n.chars().count() as u64;
        }
        if t % 10 == 0 {
            st.samples.push(json!(format!("{place} {:?} -> {:?}", names[7], win_model(&names[7]))));
        }
        Ok(st)
    });
}

/// (is it a linkage name, the name)
const UNIT_NAMES: &[(bool, &str)] = &[
    (false, "f"),
    (true, "f"),
    (false, "_Z1fv"),
    (true, "_Z1fv"),
    (true, "_Z1fv.cold.1"),
    (true, "_ZN4core3fmt5write17h0123456789abcdefE"),
];
const UNIT_LANGS: &[(u64, Language)] =
    &[(DW_LANG_C, Language::C), (DW_LANG_CPP, Language::Cpp), (DW_LANG_RUST, Language::Rust)];

/// Units of several languages in one file: every function and every inlined call is named
/// by the rules of the unit it is in, whatever other units call by the same name.
fn mixed_units(cx: &mut Ctx) {
    type U = (usize, Vec<usize>);
    let mut one: Vec<U> = vec![];
    let mut few: Vec<U> = vec![];
    for l in 0..UNIT_LANGS.len() {
        for a in 0..UNIT_NAMES.len() {
            one.push((l, vec![a]));
            few.push((l, vec![a]));
            for b in 0..UNIT_NAMES.len() {
                few.push((l, vec![a, b]));
            }
        }
    }
    let mut cfgs: Vec<Vec<U>> = vec![];
    for a in &few {
        for b in &few {
            cfgs.push(vec![a.clone(), b.clone()]);
        }
    }
    for a in &one {
        for b in &one {
            for c in &one {
                cfgs.push(vec![a.clone(), b.clone(), c.clone()]);
            }
        }
    }
    let tasks: Vec<&[Vec<U>]> = cfgs.chunks(200).collect();
    cx.run("mixed_units", tasks.len(), |t| {
        let mut st = Stats::default();
        for c in tasks[t] {
            let mut units = vec![];
            let mut want: Vec<(u64, String)> = vec![];
            let mut at = 0x1000u64;
            for (l, names) in c {
                let mut u = mk::Unit::default();
                let (dl, lang) = UNIT_LANGS[*l];
                u.lang = dl;
                for (i, n) in names.iter().enumerate() {
                    let (link, n) = UNIT_NAMES[*n];
                    let b = n.as_bytes().to_vec();
                    let (name, linkage) = if link { (b"o".to_vec(), Some(b)) } else { (b, None) };
                    u.origins.push((name.clone(), linkage.clone()));
                    let mut f = mk::fun("", at, 0x10).rows(&[(0, 0, 5), (4, 1, 7)]);
                    f.name = name;
                    f.linkage = linkage;
                    f.inl = vec![mk::Inl {
                        lo: 4,
                        hi: 8,
                        origin: i,
                        call_file: 0,
                        call_line: 3,
                        kids: vec![],
                    }];
                    u.funs.push(f);
                    let s = strip(n);
                    let w = if !link || lang == Language::C { s } else { demangled(&s, lang).unwrap_or(s) };
                    want.push((at, w));
                    at += 0x10;
                }
                units.push(u);
            }
            let buf = Elf::new().text(0x1000, at - 0x1000).dwarf(mk::dwarf(&units)).build();
            let bad = |e: String| Bad::new(format!("{e}\nunits: {c:?}")).file("input", &buf);
            let s = elf_sym(&buf, "m.so", true).map_err(bad)?;
            for (a, w) in &want {
                let Some(r) = s.func_at(*a) else { return Err(bad(format!("no function at {a:#x}"))) };
                let i = s.inlines_at(r, *a + 5);
                let o = i.first().map_or("!none", |x| x.1);
                if r.name != *w || o != w {
                    return Err(bad(format!("function and inlined call at {a:#x} named {:?} and {o:?}, expected {w:?}", r.name)));
                }
            }
            st.states += 1;
            st.traces += 1;
            st.transitions += want.len() as u64;
        }
        Ok(st)
    });
}
