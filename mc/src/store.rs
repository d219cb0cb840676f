//! C14: where symbols are stored.
use crate::elf::Elf;
use crate::ev::*;
use crate::macho::Mach;
use crate::pe::Pe;
use crate::sym::parse;
use crate::util::*;
use dump_syms::dumper::{self, Config, FileOutput, Output};
use serde_json::json;

const TOK: &[&str] = &[
    "a", ".", "..", "/", "\\", ".pdb", ".PdB", ".pd_", ".dl_", ".EX_", ".dll", " ", "b.sym", "\u{e9}",
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    ElfFile,
    Soname,
    PeFile,
    Codeview,
    MachFile,
    Dylib,
    PdbFile,
}
use Src::*;

fn usable(n: &str) -> bool {
    !n.trim().is_empty() && n != "." && n != ".."
}

/// (name of the file to dump, its contents, module name)
type Id = Option<([u8; 16], u32)>;

fn subject(from: Src, n: &str, id: Id) -> Option<(String, Vec<u8>, String)> {
    let disk = matches!(from, ElfFile | PeFile | MachFile | PdbFile);
    if disk && (n.contains('/') || n == "." || n == "..") {
        return None;
    }
    let last = |s: &str| s.rsplit('/').next().unwrap().to_string();
    let or = |s: String, d: &str| if usable(&s) { s } else { d.to_string() };
    Some(match from {
        ElfFile => (n.into(), Elf::new().text(0x1000, 0x100).build(), or(n.into(), "<name omitted>")),
        Soname => {
            let mut e = Elf::new().text(0x1000, 0x100);
            e.soname = Some(n.as_bytes().to_vec());
            if let Some((g, a)) = id {
                e.build_id = Some([&g[..], &a.to_le_bytes()].concat());
            }
            ("in.so".into(), e.build(), or(last(n), "in.so"))
        }
        PeFile => {
            let mut p = Pe::default();
            p.exports = vec![(b"x".to_vec(), 0x1000)];
            (n.into(), p.build(), or(last(n.rsplit('\\').next().unwrap()), if usable(n) { n } else { "<name omitted>" }))
        }
        Codeview => {
            let mut p = Pe::default();
            p.exports = vec![(b"x".to_vec(), 0x1000)];
            let (g, a) = id.unwrap_or(([3; 16], 1));
            p.codeview = Some((g, a, n.as_bytes().to_vec()));
            ("in.dll".into(), p.build(), or(last(n.rsplit('\\').next().unwrap()), "in.dll"))
        }
        PdbFile => {
            let mut p = crate::pdb::Pdb::default();
            p.page = 0x200;
            p.publics = vec![(b"x".to_vec(), 1, 0, 2)];
            if let Some((g, a)) = id {
                (p.guid, p.age, p.pdb_age) = (g, a, a);
            }
            (n.into(), p.build(), or(n.into(), "<name omitted>"))
        }
        MachFile => (n.into(), Mach::default().build(), or(n.into(), "<name omitted>")),
        Dylib => {
            let mut m = Mach::default();
            m.dylib = Some(n.as_bytes().to_vec());
            if let Some((g, _)) = id {
                m.uuid = Some(g);
            }
            ("in".into(), m.build(), or(last(n), "in"))
        }
    })
}

/// NAME/ID/BASE.sym
fn layout(name: &str, id: &str) -> String {
    let lower = name.to_lowercase();
    let ends = |e: &str| lower.ends_with(e) && name.len() > e.len();
    let cut = |e: &str| &name[..name.len() - e.len()];
    let dir = if ends(".pd_") {
        format!("{}.pdb", cut(".pd_"))
    } else if ends(".ex_") {
        format!("{}.exe", cut(".ex_"))
    } else if ends(".dl_") {
        format!("{}.dll", cut(".dl_"))
    } else {
        name.to_string()
    };
    let base = if lower.ends_with(".pdb") { cut(".pdb") } else { name };
    format!("{dir}/{id}/{base}.sym")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Store,
    Both,
    Several,
    SeveralBoth,
    Empty,
    EmptyBoth,
    Relative,
}
use Way::*;

fn check(root: &std::path::Path, from: Src, n: &str, way: Way, id: Id) -> Result<bool, String> {
    let (file, data, module) = match subject(from, n, id) {
        Some(s) => s,
        None => return Ok(false),
    };
    // deep enough for names which lead upwards
    let box_ = root.join(format!("{:?}", std::thread::current().id()));
    let _ = std::fs::remove_dir_all(&box_);
    let store = box_.join("x/y/z/store");
    std::fs::create_dir_all(box_.join("x/y/z")).unwrap();
    std::fs::create_dir_all(box_.join("in")).unwrap();
    let input = box_.join("in").join(&file);
    if std::fs::write(&input, &data).is_err() {
        return Err(format!("cannot write {input:?}"));
    }
    let before = tree(&box_);
    let out = box_.join("out.sym");
    let fo = FileOutput::Path(out.clone());
    let output = match way {
        Store | Several => Output::Store(store.clone()),
        Both | SeveralBoth => Output::FileAndStore {
            file: fo,
            store_directory: store.clone(),
        },
        Empty => Output::Store("".into()),
        EmptyBoth => Output::FileAndStore {
            file: fo,
            store_directory: "".into(),
        },
        Relative => Output::Store(box_.join("in/../x/./y/z/store/")),
    };
    let mut c = Config::with_output(output);
    c.check_cfi = false;
    let inp = input.to_str().unwrap();
    let r = guard(|| match way {
        Several | SeveralBoth => dumper::several_files(&c, &[inp]),
        _ => dumper::single_file(&c, inp),
    })?;
    if let Err(e) = r {
        return Err(format!("error: {e}"));
    }
    let after = tree(&box_);
    let mut new: Vec<(String, Option<Vec<u8>>)> = vec![];
    for (k, v) in &after {
        match before.get(k) {
            None => new.push((k.clone(), v.clone())),
            Some(o) if o != v => return Err(format!("{k} was changed")),
            _ => (),
        }
    }
    if before.keys().any(|k| !after.contains_key(k)) {
        return Err("a file was removed".into());
    }
    let mut files: Vec<(String, Vec<u8>)> = new.iter().filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v))).collect();
    if matches!(way, Both | SeveralBoth | EmptyBoth) {
        let i = files.iter().position(|f| f.0 == "out.sym").ok_or("output file not written")?;
        let f = files.remove(i);
        let s = parse(&f.1)?;
        if s.name != module {
            return Err(format!("MODULE name {:?}, expected {module:?}", s.name));
        }
        if let Some(g) = files.first() {
            if g.1 != f.1 {
                return Err("output file and stored file differ".into());
            }
        }
    }
    if matches!(way, Empty | EmptyBoth) {
        if !files.is_empty() || new.iter().any(|n| n.1.is_none()) {
            return Err(format!("something was stored: {new:?}"));
        }
        return Ok(true);
    }
    if files.len() != 1 {
        return Err(format!("{} files were stored: {:?}", files.len(), files.iter().map(|f| &f.0).collect::<Vec<_>>()));
    }
    let s = parse(&files[0].1)?;
    if s.name != module {
        return Err(format!("MODULE name {:?}, expected {module:?}", s.name));
    }
    let want = format!("x/y/z/store/{}", layout(&module, &s.id));
    if files[0].0 != want {
        return Err(format!("stored as {:?}, expected {want:?}", files[0].0));
    }
    for (k, v) in &new {
        if v.is_none() && !want.starts_with(&format!("{k}/")) {
            return Err(format!("directory {k:?} was created"));
        }
    }
    Ok(true)
}

pub fn c14(cx: &mut Ctx) {
    cx.assume("names without control characters (see C10) and of up to 255 bytes");
    let max = 4;
    let mut names: Vec<String> = vec![];
    let thorough = cx.thorough;
    let mut short: std::collections::HashSet<String> = Default::default();
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for t in TOK {
                next.push(format!("{l}{t}"));
            }
        }
        names.extend(next.iter().cloned());
        last = next;
        if short.len() < 100 || thorough && short.len() < 1000 {
            short = names.iter().cloned().collect();
        }
    }
    names.extend(["../../../../../../../../etc/x", "x/../../../y", "..\\..\\y.pdb", "/x/../..", "C:\\a\\b.pdb", "C:b.pdb"].map(String::from));
    names.sort();
    names.dedup();
    let sc = Scratch::new("c14");
    let root = sc.0.clone();
    unprivileged(&sc.0, || {
        cx.run("names", names.len(), |i| {
            let n = &names[i];
            let mut st = Stats::default();
            for from in [ElfFile, Soname, PeFile, Codeview, MachFile, Dylib, PdbFile] {
                for way in [Store, Both, Several, SeveralBoth, Empty, EmptyBoth, Relative] {
                    // the other ways of storing: for all names of up to two tokens (thorough: up to three)
                    if way != Store && !short.contains(n) {
                        continue;
                    }
                    match check(&root, from, n, way, None) {
                        Ok(true) => {
                            st.states += 1;
                            st.traces += 1;
                            st.transitions += 1;
                        }
                        Ok(false) => (),
                        Err(e) => {
                            return Err(Bad::new(format!("{from:?} {n:?} {way:?}: {e}"))
                                .file("input", &subject(from, n, None).map_or(vec![], |s| s.1)))
                        }
                    }
                }
            }
            if i % 500 == 0 {
                st.samples.push(json!(format!("{n:?}")));
            }
            Ok(st)
        });
        // identifiers: every digit at the ends and in the middle, every small age
        let mut guids: Vec<[u8; 16]> = (0..16).map(|d| [d * 0x11; 16]).collect();
        for at in [0, 3, 4, 7, 8, 15] {
            for d in 0..16 {
                for hi in [false, true] {
                    let mut g = [0x5a; 16];
                    g[at] = if hi { d << 4 | 5 } else { 0x50 | d };
                    guids.push(g);
                }
            }
        }
        let mut ages: Vec<u32> = (0..0x24).collect();
        ages.extend([0xef, 0xf0, 0xff, 0x100, 0xfff, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, u32::MAX]);
        let all: Vec<([u8; 16], u32)> = guids.iter().flat_map(|g| ages.iter().map(move |a| (*g, *a))).collect();
        cx.run("identifiers", all.len(), |i| {
            let mut st = Stats::default();
            for from in [Soname, Codeview, Dylib, PdbFile] {
                if matches!(from, Soname | Dylib) && all[i].1 > 0 && !thorough {
                    continue;
                }
                for way in if thorough { vec![Store, Both, Several] } else { vec![Store] } {
                    check(&root, from, "m.pdb", way, Some(all[i])).map_err(|e| Bad::new(format!("{from:?} identifier {:x?} {way:?}: {e}", all[i])))?;
                    st.states += 1;
                    st.traces += 1;
                    st.transitions += 1;
                }
            }
            Ok(st)
        });
    });
}
