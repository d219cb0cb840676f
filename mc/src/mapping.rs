//! C13: path mapping.
use crate::elf::*;
use crate::ev::*;
use crate::macho::Mach;
use crate::mk;
use crate::pdb::{Pdb, Proc};
use crate::sym::parse;
use dump_syms::dumper::{self, Config, FileOutput, Output};
use serde_json::json;
use sha2::{Digest, Sha512};
use std::collections::HashMap;
use std::path::Path;

#[derive(Clone, Debug, Default)]
struct Rule {
    src: String,
    dst: String,
    /// None: on the command line; Some: in the mapping file, with the files it lists
    listed: Option<Vec<String>>,
}

#[derive(Clone, Debug, Default)]
struct Opt {
    rules: Vec<Rule>,
    cmd_vars: Vec<(String, String)>,
    file_vars: Vec<(String, String)>,
}

#[derive(Debug, PartialEq)]
enum Piece {
    Lit(String),
    Group(usize),
    Val(String),
    Digest(bool),
}

/// None: refused
fn template(t: &str, vars: &HashMap<String, String>) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut rest = t;
    // the innermost {...} are the actions, everything else is kept
    while let Some(close) = rest.find('}') {
        let (head, tail) = (&rest[..close], &rest[close + 1..]);
        match head.rfind('{') {
            None => out.push(Piece::Lit(format!("{head}}}"))),
            Some(open) => {
                out.push(Piece::Lit(head[..open].to_string()));
                let a = &head[open + 1..];
                out.push(match a {
                    "digest" => Piece::Digest(false),
                    "DIGEST" => Piece::Digest(true),
                    _ => match (vars.get(a), a.parse::<usize>()) {
                        (Some(v), _) => Piece::Val(v.clone()),
                        (None, Ok(n)) => Piece::Group(n),
                        _ => return None,
                    },
                });
            }
        }
        rest = tail;
    }
    out.push(Piece::Lit(rest.to_string()));
    Some(out)
}

type Compiled = (regex::Regex, Vec<Piece>, Vec<String>);

/// None: the options have to be refused
fn compile(o: &Opt) -> Option<Vec<Compiled>> {
    let cmd: HashMap<String, String> = o.cmd_vars.iter().cloned().collect();
    let mut file: HashMap<String, String> = o.file_vars.iter().cloned().collect();
    file.extend(cmd.clone());
    let mut order: Vec<(&Rule, &HashMap<String, String>)> = vec![];
    order.extend(o.rules.iter().filter(|r| r.listed.as_ref().map_or(false, |l| !l.is_empty())).map(|r| (r, &file)));
    order.extend(o.rules.iter().filter(|r| r.listed.as_ref().map_or(false, |l| l.is_empty())).map(|r| (r, &file)));
    order.extend(o.rules.iter().filter(|r| r.listed.is_none()).map(|r| (r, &cmd)));
    order
        .into_iter()
        .map(|(r, v)| Some((regex::Regex::new(&r.src).ok()?, template(&r.dst, v)?, r.listed.clone().unwrap_or_default())))
        .collect()
}

fn map(rules: &[Compiled], path: &str) -> String {
    'rule: for (re, pieces, listed) in rules {
        if !listed.is_empty() && !listed.iter().any(|l| l == path) {
            continue;
        }
        let caps = match re.captures(path) {
            Some(c) => c,
            None => continue,
        };
        let mut s = String::new();
        for p in pieces {
            match p {
                Piece::Lit(l) => s += l,
                Piece::Val(v) => s += v,
                Piece::Group(n) => match caps.get(*n) {
                    Some(g) => s += g.as_str(),
                    // not applicable
                    None => continue 'rule,
                },
                Piece::Digest(up) => match std::fs::read(path) {
                    Ok(d) => {
                        for b in Sha512::digest(&d) {
                            s += &if *up { format!("{b:02X}") } else { format!("{b:02x}") };
                        }
                    }
                    Err(_) => return path.to_string(),
                },
            }
        }
        return s;
    }
    path.to_string()
}

fn unit(paths: &[String], backwards: bool) -> mk::Unit {
    let mut u = mk::Unit::default();
    u.comp_dir = Some(b"/".to_vec());
    u.files = paths.iter().map(|p| (p.as_bytes().to_vec(), 0)).collect();
    for i in 0..paths.len() {
        // each file is used twice, in a later function again
        for k in 0..2 {
            let a = 0x1000 + 0x20 * (i + k * paths.len()) as u64;
            u.funs.push(mk::fun("f", a, 0x20).rows(&[(0, i as u64, 5), (0x10, i as u64, 6)]));
        }
    }
    if backwards {
        u.funs.reverse();
    }
    u
}

fn input(paths: &[String], backwards: bool) -> Vec<u8> {
    Elf::new().text(0x1000, 0x10000).dwarf(mk::dwarf(&[unit(paths, backwards)])).build()
}

struct Env {
    dir: Scratch,
    paths: Vec<String>,
    elf: String,
    /// (file, its paths): the one above, with its functions in the opposite order, a PDB, a Mach-O file
    forms: Vec<(String, Vec<String>)>,
}

fn pdb(paths: &[String]) -> Vec<u8> {
    let mut p = Pdb::default();
    p.files = paths.iter().map(|p| p.as_bytes().to_vec()).collect();
    p.modules = vec![vec![], vec![]];
    for k in 0..2 {
        for i in 0..paths.len() {
            p.modules[k].push(Proc {
                name: b"f".to_vec(),
                seg: 1,
                off: 0x20 * (i + k * paths.len()) as u32,
                size: 0x20,
                lines: vec![(0, i, 5), (0x10, i, 6)],
                lines_size: 0x20,
                ..Default::default()
            });
        }
    }
    p.build()
}

fn env() -> Env {
    let dir = Scratch::new("c13");
    let root = dir.0.canonicalize().unwrap();
    std::fs::create_dir(root.join("d")).unwrap();
    std::fs::write(root.join("d/one.c"), b"int one;\n").unwrap();
    std::fs::write(root.join("d/two.c"), b"").unwrap();
    let r = |s: &str| root.join(s).to_str().unwrap().to_string();
    let paths = vec![
        "/r/a.c".to_string(),
        "/r/s/b.c".into(),
        "/q/a.c".into(),
        "/q/\u{e9}.c".into(),
        "/n/{1}.c".into(),
        "/r/a.c ".into(),
        "/R/A.C".into(),
        r("d/one.c"),
        r("d/two.c"),
        r("d/gone.c"),
        "/r/A.c".into(),
        "/q/A.C".into(),
        "/r/s/a.c".into(),
        "/r/a.cc".into(),
        "/r/b\\s.c".into(),
    ];
    let elf = r("m.so");
    std::fs::write(&elf, input(&paths, false)).unwrap();
    let back = r("back.so");
    std::fs::write(&back, input(&paths, true)).unwrap();
    let mut win: Vec<String> = paths.iter().filter(|p| !p.contains('\\')).cloned().collect();
    for p in [r"C:\r\a.c", r"c:\r\a.c", r"C:\r\A.c", r"C:\r\s\b.c", r"C:\q\a.c", r"\\h\r\a.c", r"C:\r\.\a.c"] {
        win.push(p.into());
    }
    let file = r("m.pdb");
    std::fs::write(&file, pdb(&win)).unwrap();
    let mach = r("m.dylib");
    let mut m = Mach::default();
    m.text_addr = 0;
    m.dwarf = mk::dwarf(&[unit(&paths, false)]);
    std::fs::write(&mach, m.build()).unwrap();
    let forms = vec![(back, paths.clone()), (file, win), (mach, paths.clone())];
    Env { dir, paths, elf, forms }
}

fn check(e: &Env, o: &Opt, form: usize, several: bool, inl: bool, n: usize) -> Result<(), String> {
    let out = e.dir.s(&format!("o{n}"));
    let sentinel = "previous contents\n";
    std::fs::write(&out, sentinel).unwrap();
    let vars: Vec<String> = o.cmd_vars.iter().map(|(k, v)| format!("{k}={v}")).collect();
    let cmd: Vec<&Rule> = o.rules.iter().filter(|r| r.listed.is_none()).collect();
    let mf = e.dir.s(&format!("m{n}.json"));
    let filed: Vec<&Rule> = o.rules.iter().filter(|r| r.listed.is_some()).collect();
    let has_file = !filed.is_empty() || !o.file_vars.is_empty();
    if has_file {
        let v = json!({"variables": o.file_vars.iter().cloned().collect::<HashMap<_,_>>(),
            "mappings": filed.iter().map(|r| json!({"source": r.src, "destination": r.dst, "files": r.listed})).collect::<Vec<_>>()});
        std::fs::write(&mf, v.to_string()).unwrap();
    }
    let mut c = Config::with_output(Output::File(FileOutput::Path(out.clone().into())));
    c.check_cfi = false;
    c.emit_inlines = inl;
    if !vars.is_empty() {
        c.mapping_var = Some(vars.iter().map(|s| &s[..]).collect());
    }
    if !cmd.is_empty() {
        c.mapping_src = Some(cmd.iter().map(|r| &r.src[..]).collect());
        c.mapping_dest = Some(cmd.iter().map(|r| &r.dst[..]).collect());
    }
    if has_file {
        c.mapping_file = Some(&mf);
    }
    let (elf, paths) = if form == 0 { (&e.elf, &e.paths) } else { (&e.forms[form - 1].0, &e.forms[form - 1].1) };
    let res = guard(|| {
        if several {
            dumper::several_files(&c, &[elf])
        } else {
            dumper::single_file(&c, elf)
        }
    })?;
    let got = std::fs::read(&out).unwrap();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&mf);
    let rules = match compile(o) {
        Some(r) => r,
        None => {
            if res.is_ok() {
                return Err("invalid options were accepted".into());
            }
            if got != sentinel.as_bytes() {
                return Err("invalid options, but the output was touched".into());
            }
            return Ok(());
        }
    };
    res.map_err(|e| format!("valid options refused: {e}"))?;
    let s = parse(&got)?;
    for (i, p) in paths.iter().enumerate() {
        let want = map(&rules, p);
        for k in 0..2 {
            let a = 0x1000 + 0x20 * (i + k * paths.len()) as u64;
            let r = s.func_at(a).ok_or("no function")?;
            let f = s.line_at(r, a).ok_or("no line")?.0;
            if f != want && !want.trim().is_empty() {
                return Err(format!("path {p:?} became {f:?}, expected {want:?}"));
            }
        }
    }
    Ok(())
}

fn part(cx: &mut Ctx, e: &Env, name: &str, opts: Vec<Opt>) {
    if !cx.bads.is_empty() {
        return;
    }
    const CHUNK: usize = 64;
    let n = (opts.len() + CHUNK - 1) / CHUNK;
    cx.run(name, n, |t| {
        let mut st = Stats::default();
        for (k, o) in opts.iter().enumerate().skip(t * CHUNK).take(CHUNK) {
            // one in 16 also through the multi-file entry
            for i in 0..8 {
                let (form, several) = (i / 2, i % 2 == 1);
                if several && k % 16 != 0 || (form < 2 && form != k / 2 % 2) || (name == "templates" && form > 1 && k % 8 != form) {
                    continue;
                }
                if let Err(err) = check(e, o, form, several, k % 2 == 0, 8 * k + i) {
                    let f = if form == 0 { &e.elf } else { &e.forms[form - 1].0 };
                    return Err(Bad::new(format!("{err}\noptions: {o:?} several_files: {several}")).file("input", &std::fs::read(f).unwrap()));
                }
                st.traces += 1;
            }
            st.states += e.paths.len() as u64;
            st.transitions += o.rules.len() as u64 * e.paths.len() as u64;
        }
        if t % 40 == 0 {
            st.samples.push(json!(format!("{:?}", opts[t * CHUNK])));
        }
        Ok(st)
    });
}

fn strings(alpha: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for a in alpha {
                next.push(format!("{l}{a}"));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn p(k: &str, v: &str) -> (String, String) {
    (k.to_string(), v.to_string())
}

/// Options that have to be refused, and that can't be told as rules.
fn refusals(cx: &mut Ctx) {
    let e = env();
    let dir = &e.dir;
    let w = |n: &str, s: &str| {
        std::fs::write(dir.p(n), s).unwrap();
        dir.s(n)
    };
    let good = w("good.json", r#"{"variables":{"a":"b"},"mappings":[{"source":"x(.*)","destination":"{a}{1}","files":[]}]}"#);
    let mut cases: Vec<(bool, Option<Vec<&str>>, Option<Vec<&str>>, Option<Vec<&str>>, Option<String>)> = vec![];
    for f in [
        w("bad.json", "{"),
        w("empty.json", ""),
        w("nokeys.json", "{}"),
        w("novars.json", r#"{"mappings":[]}"#),
        w("badre.json", r#"{"variables":{},"mappings":[{"source":"(","destination":"x","files":[]}]}"#),
        w("badact.json", r#"{"variables":{},"mappings":[{"source":"x","destination":"{nope}","files":[]}]}"#),
        w("badact2.json", r#"{"variables":{},"mappings":[{"source":"x","destination":"{nope}","files":["y"]}]}"#),
        dir.s("missing.json"),
        dir.s(""),
    ] {
        cases.push((false, None, None, None, Some(f)));
    }
    let (a, b) = (Some(vec!["x(.*)"]), Some(vec!["{1}"]));
    cases.push((true, None, a.clone(), b.clone(), None));
    cases.push((true, None, None, None, Some(good.clone())));
    cases.push((false, Some(vec!["novalue"]), a.clone(), b.clone(), None));
    cases.push((false, Some(vec!["a=1", "novalue"]), a.clone(), b.clone(), None));
    cases.push((false, Some(vec!["novalue"]), None, None, None));
    cases.push((false, Some(vec!["novalue"]), None, None, Some(good.clone())));
    cases.push((false, None, a.clone(), None, None));
    cases.push((false, None, None, b.clone(), None));
    cases.push((false, None, a.clone(), None, Some(good.clone())));
    cases.push((false, None, Some(vec!["x", "y"]), b.clone(), None));
    cases.push((false, None, a.clone(), Some(vec!["x", "y"]), None));
    cases.push((false, None, Some(vec!["x", "("]), Some(vec!["x", "y"]), None));
    cases.push((false, None, Some(vec!["x", "y"]), Some(vec!["x", "{nope}"]), None));
    cases.push((false, None, Some(vec!["x", "("]), Some(vec!["x", "y"]), Some(good.clone())));
    cx.run("refusals", cases.len() * 2, |i| {
        let (ok, v, s, d, f) = &cases[i / 2];
        let several = i % 2 == 1;
        let out = e.dir.s(&format!("r{i}"));
        std::fs::write(&out, "before").unwrap();
        let mut c = Config::with_output(Output::File(FileOutput::Path(out.clone().into())));
        c.check_cfi = false;
        c.mapping_var = v.clone();
        c.mapping_src = s.clone();
        c.mapping_dest = d.clone();
        c.mapping_file = f.as_deref();
        let r = guard(|| {
            if several {
                dumper::several_files(&c, &[&e.elf])
            } else {
                dumper::single_file(&c, &e.elf)
            }
        });
        let succeeded = matches!(r, Ok(Ok(())));
        let touched = std::fs::read(&out).unwrap() != b"before";
        if succeeded != *ok || touched != *ok {
            return Err(Bad::new(format!(
                "vars {v:?} sources {s:?} destinations {d:?} file {f:?} several_files {several}: accepted {succeeded}, output written {touched}, expected {ok}"
            )));
        }
        let mut st = Stats::default();
        st.states = 1;
        st.traces = 1;
        st.transitions = 1;
        Ok(st)
    });
}

pub fn c13(cx: &mut Ctx) {
    cx.assume("symbolic names such as DIGEST or numbers aren't used as variable names");
    cx.assume("the regex crate is trusted");
    assert!(Path::new("/").exists());
    let t = cx.thorough;
    let e = env();
    // every template
    let mut opts = vec![];
    for tpl in strings(&["{", "}", "1", "v", "x"], if t { 8 } else { 7 }) {
        opts.push(Opt {
            rules: vec![Rule {
                src: "^/r/(.*)".into(),
                dst: tpl,
                listed: None,
            }],
            cmd_vars: vec![p("v", "VAL")],
            file_vars: vec![],
        });
    }
    part(cx, &e, "templates", opts);
    let mut opts = vec![];
    for (k, tpl) in strings(&["{", "}", "{1}", "{v}", "{w}", "{digest}", "{DIGEST}", "{2}", "{0}", "\u{e9}", "{Digest}", "{ 1}"], if t { 4 } else { 3 })
        .into_iter()
        .enumerate()
    {
        opts.push(Opt {
            rules: vec![Rule {
                src: "/(q|d)/([^/]*)[.]c$".into(),
                dst: tpl,
                listed: if k % 2 == 0 { None } else { Some(vec![]) },
            }],
            cmd_vars: vec![p("v", "a=b{1}")],
            file_vars: vec![p("v", "hidden"), p("w", "W")],
        });
    }
    part(cx, &e, "actions", opts);
    // rule lists
    let files = [e.paths[0].clone(), e.paths[2].clone(), e.paths[7].clone()];
    // nearly the names of the files, but none of them
    let near: Vec<String> = e
        .paths
        .iter()
        .flat_map(|p| {
            let base = p.rsplit('/').next().unwrap();
            [base.to_string(), p[1..].to_string(), format!("{p}x"), p[..p.len() - 1].to_string(), p.to_uppercase(), p.replace('.', "?"), format!("/{p}"), format!("^{p}$"), ".*".to_string()]
        })
        .filter(|n| !e.paths.contains(n))
        .collect();
    let mut rules = vec![];
    for src in ["^/r/(.*)", "^/(q|r)/(x)?(a[.]c)?", "a[.]c", "/d/(.*)$", r"^C:\\r[\\](.*)"] {
        for dst in ["A:{1}", "B:{2}:{v}", "C", "D:{digest}"] {
            for listed in [None, Some(vec![]), Some(vec![files[0].clone()]), Some(vec![files[1].clone(), files[2].clone()]), Some(vec![e.paths[5].clone(), e.paths[6].clone(), r"C:\r\a.c".into(), r"C:\r\A.c".into()]), Some(near.clone())] {
                rules.push(Rule {
                    src: src.into(),
                    dst: dst.into(),
                    listed,
                });
            }
        }
    }
    let vars = [
        (vec![p("v", "c")], vec![p("v", "f")]),
        (vec![], vec![p("v", "f")]),
        (vec![p("v", "c"), p("w", "")], vec![]),
    ];
    let mut opts = vec![];
    let mut lists: Vec<Vec<Rule>> = rules.iter().map(|r| vec![r.clone()]).collect();
    let mut last = lists.clone();
    for depth in 1..if t { 3 } else { 2 } {
        let mut next = vec![];
        for l in &last {
            for (i, r) in rules.iter().enumerate() {
                // three rules: every second one as the third
                if depth == 2 && i % 2 == 1 {
                    continue;
                }
                let mut n = l.clone();
                n.push(r.clone());
                next.push(n);
            }
        }
        lists.extend(next.iter().cloned());
        last = next;
    }
    for (i, l) in lists.into_iter().enumerate() {
        for (k, (c, f)) in vars.iter().enumerate() {
            if l.len() > 2 && i % 3 != k {
                continue;
            }
            opts.push(Opt {
                rules: l.clone(),
                cmd_vars: c.clone(),
                file_vars: f.clone(),
            });
        }
    }
    part(cx, &e, "rules", opts);
    refusals(cx);
}
