//! C21: unwind information.
use crate::cfi::{self, Fde};
use crate::ev::*;
use crate::pdb::Frame;
use crate::sym::parse;
use crate::util::tree;
use dump_syms::dumper::{self, Config, FileOutput, Output};
use serde_json::json;
use std::path::Path;

/// All lists of up to `max` different elements, in every order.
fn lists<T: Clone>(items: &[T], max: usize) -> Vec<Vec<T>> {
    fn go<T: Clone>(items: &[T], used: &mut Vec<usize>, max: usize, out: &mut Vec<Vec<T>>) {
        out.push(used.iter().map(|i| items[*i].clone()).collect());
        if used.len() == max {
            return;
        }
        for i in 0..items.len() {
            if !used.contains(&i) {
                used.push(i);
                go(items, used, max, out);
                used.pop();
            }
        }
    }
    let mut out = vec![];
    go(items, &mut vec![], max, &mut out);
    out
}

#[derive(Clone, Debug)]
enum Obj {
    /// number of the module, load address, .debug_frame, .eh_frame (None: no such section)
    Elf(u8, u64, Option<Vec<Fde>>, Option<Vec<Fde>>),
    Mach(u8, Option<Vec<Fde>>, Option<Vec<Fde>>),
    /// module, machine, unwind table
    Pe(u8, u16, Vec<(u32, u32)>),
    Pdb(u8, u16, Vec<(u32, u32, u32, Option<&'static str>)>),
}
use Obj::*;

const AT: u64 = 0x8000;

impl Obj {
    fn build(&self) -> Vec<u8> {
        match self {
            Elf(m, load, df, eh) => {
                let mut e = crate::elf::Elf::new();
                e.build_id = Some(vec![*m; 20]);
                e.load_vaddr = *load;
                let mut e = e.text(load + 0x1000, 0x1000);
                if let Some(f) = df {
                    e.extra.push((b".debug_frame".to_vec(), cfi::frame(0, f, false), 0));
                }
                if let Some(f) = eh {
                    e.extra.push((b".eh_frame".to_vec(), cfi::frame(load + AT, f, true), load + AT));
                }
                e.build()
            }
            Mach(m, df, eh) => {
                let mut o = crate::macho::Mach::default();
                o.uuid = Some([*m; 16]);
                if let Some(f) = df {
                    o.dwarf.push(("debug_frame", cfi::frame(0, f, false)));
                }
                if let Some(f) = eh {
                    let before: usize = o.dwarf.iter().map(|d| d.1.len()).sum();
                    let at = o.text_addr + o.text_size + before as u64;
                    o.dwarf.push(("eh_frame", cfi::frame(at, f, true)));
                }
                o.build()
            }
            Pe(m, machine, pdata) => {
                let mut p = crate::pe::Pe::default();
                p.machine = *machine;
                p.codeview = Some(([*m; 16], 1, b"m.pdb".to_vec()));
                p.exports = vec![(b"x".to_vec(), 0x1000)];
                p.pdata = pdata.clone();
                p.build()
            }
            Pdb(m, machine, frames) => {
                let mut p = crate::pdb::Pdb::default();
                p.machine = *machine;
                p.guid = [*m; 16];
                p.page = 0x200;
                p.publics = vec![(b"y".to_vec(), 1, 0, 2)];
                p.frames = frames
                    .iter()
                    .map(|(a, z, pro, prog)| Frame {
                        start: *a,
                        size: *z,
                        locals: 0x14,
                        params: 8,
                        prolog: *pro as u16,
                        program: prog.map(|p| p.as_bytes().to_vec()),
                    })
                    .collect();
                p.build()
            }
        }
    }
    /// The records of its own unwind information.
    fn own(&self) -> Vec<String> {
        let dwarf = |df: &Option<Vec<Fde>>, eh: &Option<Vec<Fde>>, load: u64| {
            [df, eh].iter().flat_map(|f| f.iter().flat_map(|f| cfi::records(f, load))).collect()
        };
        match self {
            Elf(_, load, df, eh) => dwarf(df, eh, *load),
            Mach(_, df, eh) => dwarf(df, eh, 0x1_0000_0000),
            Pe(_, 0x8664, pdata) => pdata
                .iter()
                .take_while(|(b, e)| e - b != crate::pe::Pe::BROKEN)
                .map(|(b, e)| format!("STACK CFI INIT {b:x} {:x} .cfa: $rsp 16 + $rbp: .cfa 16 - ^ .ra: .cfa 8 - ^", e - b))
                .collect(),
            Pdb(_, 0x14c, frames) => frames
                .iter()
                .map(|(a, z, pro, prog)| {
                    format!("STACK WIN 4 {a:x} {z:x} {pro:x} 0 8 0 14 0 {}", prog.map_or("1 ".to_string(), |p| format!("1 {p}")))
                })
                .collect(),
            _ => vec![],
        }
    }
    fn module(&self) -> u8 {
        match self {
            Elf(m, ..) | Mach(m, ..) | Pe(m, ..) | Pdb(m, ..) => *m,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Elf(..) => "m.so",
            Mach(..) => "m",
            Pe(..) => "m.dll",
            Pdb(..) => "m.pdb",
        }
    }
}

fn fresh(root: &Path) -> std::path::PathBuf {
    let d = root.join(format!("{:?}", std::thread::current().id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// Dumps one file, with and without the check, and compares.
fn single(d: &Path, file: &str, want: &[String]) -> Result<(), String> {
    let out = d.join("out.sym");
    let store = d.join("store");
    for check in [false, true] {
        for how in 0..3 {
            let _ = std::fs::remove_dir_all(&store);
            std::fs::write(&out, "before").unwrap();
            let output = match how {
                0 => Output::File(FileOutput::Path(out.clone())),
                1 => Output::Store(store.clone()),
                _ => Output::FileAndStore {
                    file: FileOutput::Path(out.clone()),
                    store_directory: store.clone(),
                },
            };
            let mut c = Config::with_output(output);
            c.check_cfi = check;
            let r = guard(|| dumper::single_file(&c, d.join(file).to_str().unwrap()))?;
            let stored: Vec<Vec<u8>> = tree(&store).into_values().flatten().collect();
            let text = std::fs::read(&out).unwrap();
            let refused = check && want.is_empty();
            match (&r, refused) {
                (Ok(()), true) => return Err("accepted by the CFI check without any STACK record".into()),
                (Err(e), false) => return Err(format!("failed (check {check}): {e}")),
                _ => (),
            }
            if refused {
                if !stored.is_empty() || text != b"before" {
                    return Err("refused by the CFI check, but something was written".into());
                }
                continue;
            }
            let mut texts = stored;
            if how != 1 {
                texts.push(text);
            }
            if texts.len() != [1, 1, 2][how] {
                return Err(format!("{} outputs", texts.len()));
            }
            for t in texts {
                let s = parse(&t)?;
                if s.stack != want {
                    return Err(format!("STACK records {:#?}\nexpected {want:#?}", s.stack));
                }
            }
        }
    }
    Ok(())
}

fn alone(cx: &mut Ctx, part: &str, objs: Vec<Obj>) {
    if !cx.bads.is_empty() {
        return;
    }
    let sc = Scratch::new("c21");
    cx.run(part, objs.len(), |i| {
        let o = &objs[i];
        let d = fresh(&sc.0);
        let b = o.build();
        std::fs::write(d.join(o.name()), &b).unwrap();
        let want = o.own();
        single(&d, o.name(), &want).map_err(|e| Bad::new(format!("{o:?}: {e}")).file("input", &b))?;
        let mut st = Stats::default();
        st.states = 1;
        st.traces = 6;
        st.transitions = 1 + want.len() as u64;
        if i % (objs.len() / 3 + 1) == 0 {
            st.samples.push(json!(format!("{o:?} -> {want:?}")));
        }
        Ok(st)
    });
}

fn concat_of(all: &[String], blocks: &[Vec<String>]) -> bool {
    if blocks.is_empty() {
        return all.is_empty();
    }
    (0..blocks.len()).any(|k| {
        let mut b = blocks.to_vec();
        let x = b.remove(k);
        all.starts_with(&x) && concat_of(&all[x.len()..], &b)
    })
}

pub fn c21(cx: &mut Ctx) {
    cx.assume("symbolic's conversion of one unwind entry is trusted; what is checked is which entries reach the output");
    let t = cx.thorough;
    let fde = |load: u64, k: u64| Fde {
        addr: load + 0x1100 + 0x20 * k,
        size: 0x20 - 8 * (k % 2),
        steps: (0..k).map(|s| 16 + 8 * s).collect(),
    };
    let opt = |load: u64, n: usize| {
        let mut all: Vec<Fde> = (0..3).map(|k| fde(load, k)).collect();
        all.push(fde(load, 3));
        all[3].steps[1] = cfi::BROKEN;
        let mut v: Vec<Option<Vec<Fde>>> = lists(&all, n).into_iter().map(Some).collect();
        v.push(None);
        v
    };
    let n = if t { 3 } else { 2 };
    let mut objs = vec![];
    for load in [0u64, 0x40_0000] {
        for df in opt(load, n) {
            for eh in opt(load, 3) {
                objs.push(Elf(1, load, df.clone(), eh));
            }
        }
    }
    alone(cx, "elf", objs);
    let mut objs = vec![];
    for df in opt(0x1_0000_0000, 3) {
        objs.push(Mach(1, df, None));
    }
    for eh in opt(0x1_0000_0000, 3) {
        objs.push(Mach(1, None, eh));
    }
    alone(cx, "macho", objs);
    let entries = [(0x1000, 0x1010), (0x1010, 0x1040), (0x1100, 0x1101), (0x2000, 0x2000 + 0x1000), (0x3000, 0x3000 + crate::pe::Pe::BROKEN)];
    let pdatas = lists(&entries, if t { 5 } else { 3 });
    let frames = [
        (0x1100, 0x20, 2, Some("$T0 .raSearch =")),
        (0x1200, 0x10, 1, None),
        (0x1300, 0x1000, 0x30, Some("$eip $esp ^ =")),
        (0x1100, 0x40, 2, Some("x")),
    ];
    let framess = lists(&frames, if t { 4 } else { 3 });
    let mut objs = vec![];
    for m in [0x8664u16, 0x14c] {
        objs.extend(pdatas.iter().map(|p| Pe(1, m, p.clone())));
        objs.extend(framess.iter().map(|p| Pdb(1, m, p.clone())));
    }
    alone(cx, "windows", objs);
    if !cx.bads.is_empty() {
        return;
    }
    // executable and PDB next to each other, either of them being dumped
    let mut pairs = vec![];
    let p2 = lists(&[entries[0], entries[1], entries[2], entries[4]], 2);
    let f2 = lists(&frames[..3], 2);
    for main in [0, 1] {
        for pm in [0x8664u16, 0x14c] {
            for dm in [0x8664u16, 0x14c] {
                for p in &p2 {
                    // which file counts if the whole table is unreadable is left open
                    if p.first().map_or(false, |p| *p == entries[4]) {
                        continue;
                    }
                    for f in &f2 {
                        for other in [1u8, 2] {
                            pairs.push((main, Pe(1, pm, p.clone()), Pdb(other, dm, f.clone())));
                        }
                    }
                }
            }
        }
    }
    let sc = Scratch::new("c21");
    cx.run("neighbours", pairs.len(), |i| {
        let (main, pe, pdb) = &pairs[i];
        let d = fresh(&sc.0);
        let (eb, db) = (pe.build(), pdb.build());
        std::fs::write(d.join("m.dll"), &eb).unwrap();
        std::fs::write(d.join("m.pdb"), &db).unwrap();
        let together = pe.module() == pdb.module();
        let want = match (main, together) {
            (0, false) => pe.own(),
            (_, false) => pdb.own(),
            (_, true) if !pe.own().is_empty() => pe.own(),
            _ => pdb.own(),
        };
        let f = ["m.dll", "m.pdb"][*main];
        single(&d, f, &want)
            .map_err(|e| Bad::new(format!("{f} of {pe:?} {pdb:?}: {e}")).file("m.dll", &eb).file("m.pdb", &db))?;
        let mut st = Stats::default();
        st.states = 1;
        st.traces = 6;
        st.transitions = 2;
        if i % 200 == 0 {
            st.samples.push(json!(format!("{f} of {pe:?} {pdb:?} -> {want:?}")));
        }
        Ok(st)
    });
    if !cx.bads.is_empty() {
        return;
    }
    // several files
    let e = |m: u8, k: &[u64]| Elf(m, 0, None, if k.is_empty() { None } else { Some(k.iter().map(|k| fde(0, *k)).collect()) });
    let mut pool = vec![
        e(1, &[]),
        e(1, &[0]),
        e(1, &[1, 2]),
        e(2, &[]),
        e(2, &[2]),
        Elf(2, 0, Some(vec![fde(0, 1)]), Some(vec![])),
        Pe(3, 0x8664, vec![]),
        Pe(3, 0x8664, vec![entries[1]]),
        Pe(3, 0x8664, vec![entries[0], entries[4], entries[2]]),
        Pdb(4, 0x14c, vec![frames[0]]),
        Pdb(4, 0x14c, vec![]),
        Mach(5, None, None),
    ];
    pool.push(e(1, &[]));
    let runs = lists(&pool, if t { 4 } else { 3 });
    cx.run("several", runs.len(), |i| {
        let objs = &runs[i];
        let mut st = Stats::default();
        if objs.is_empty() {
            return Ok(st);
        }
        let d = fresh(&sc.0);
        let mut files = vec![];
        let mut bad = Bad::new("");
        for (k, o) in objs.iter().enumerate() {
            // apart from each other: not neighbours
            let dir = d.join(format!("in{k}"));
            std::fs::create_dir_all(&dir).unwrap();
            let b = o.build();
            std::fs::write(dir.join(o.name()), &b).unwrap();
            bad = bad.file(&format!("input{k}"), &b);
            files.push(dir.join(o.name()).to_str().unwrap().to_string());
        }
        let mut want: std::collections::BTreeMap<u8, Vec<Vec<String>>> = Default::default();
        for o in objs {
            let l = want.entry(o.module()).or_default();
            let r = o.own();
            if !r.is_empty() {
                l.push(r);
            }
        }
        for check in [false, true] {
            let store = d.join("store");
            let _ = std::fs::remove_dir_all(&store);
            let mut c = Config::with_output(Output::Store(store.clone()));
            c.check_cfi = check;
            c.num_jobs = 1 + i % 3;
            let refs: Vec<&str> = files.iter().map(|s| &s[..]).collect();
            let fail = |e: String| {
                let mut b = Bad::new(format!("check {check} on {objs:?}: {e}"));
                b.files = bad.files.clone();
                b
            };
            let r = guard(|| dumper::several_files(&c, &refs)).map_err(&fail)?;
            let refused = check && want.values().any(|l| l.is_empty());
            if r.is_ok() == refused {
                return Err(fail(format!("result {r:?}")));
            }
            let mut seen = vec![];
            for t in tree(&store).into_values().flatten() {
                let s = parse(&t).map_err(&fail)?;
                let m = u8::from_str_radix(&s.id[..2], 16).unwrap();
                seen.push(m);
                if !concat_of(&s.stack, &want[&m]) {
                    return Err(fail(format!("STACK records of module {m}: {:#?}\nexpected {:#?}", s.stack, want[&m])));
                }
            }
            let mut must: Vec<u8> = want.iter().filter(|(_, l)| !check || !l.is_empty()).map(|(m, _)| *m).collect();
            seen.sort();
            must.sort();
            if seen != must {
                return Err(fail(format!("modules {seen:?} were stored, expected {must:?}")));
            }
            st.traces += 1;
            st.transitions += objs.len() as u64;
        }
        st.states = 1;
        if i % 400 == 0 {
            st.samples.push(json!(format!("several: {objs:?}")));
        }
        Ok(st)
    });
}
