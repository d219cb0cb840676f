//! C09: which records there are.
use crate::elf::*;
use crate::ev::*;
use crate::macho::Mach;
use crate::mk;
use crate::pdb::{Pdb, Proc};
use crate::pe::Pe;
use crate::sym::Sym;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeMap;

/// A function of the debug information or a symbol: (slot, size)
type El = (u64, u64);

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub funs: Vec<El>,
    /// (table, slot, size): table 0 symtab, 1 dynsym, 2 mini debug info
    pub syms: Vec<(u8, u64, u64)>,
    /// slots at which an executable section of its own starts
    pub secs: Vec<u64>,
}

const UNIT: u64 = 0x10;
const STRIDE: u64 = 0x80;

#[derive(Clone, Debug, Default, PartialEq)]
struct Exp {
    func: Option<u64>,
    size: u64,
    count: usize,
    names: Vec<String>,
    placeholder: bool,
    param: u64,
}

/// The boring model: take everything one by one.
fn inside(m: &BTreeMap<u64, Exp>, a: u64) -> bool {
    m.range(..a).next_back().map_or(false, |(b, e)| a - b < e.size)
}

fn model(c: &Cfg, base: u64, i: usize, secname: &dyn Fn(u64) -> String) -> BTreeMap<u64, Exp> {
    let mut m: BTreeMap<u64, Exp> = BTreeMap::new();
    for (k, (s, len)) in c.funs.iter().enumerate() {
        let a = base + s * UNIT;
        if a == 0 {
            continue;
        }
        let e = m.entry(a).or_insert(Exp {
            func: Some(*len),
            size: *len,
            names: vec![format!("f{i}_{k}")],
            ..Default::default()
        });
        e.count += 1;
    }
    for t in 0..3 {
        for (k, (tab, s, len)) in c.syms.iter().enumerate() {
            if *tab != t {
                continue;
            }
            let a = base + s * UNIT;
            let n = format!("s{i}_{k}");
            // the reader takes the name of a function from the symbol table if it is there
            if let Some(e) = m.get_mut(&a).filter(|e| t < 2 && e.func.is_some()) {
                e.names.push(n.clone());
            }
            if inside(&m, a) {
                continue;
            }
            match m.get_mut(&a) {
                Some(e) if e.func.is_some() => (),
                Some(e) => e.count += 1,
                None => {
                    m.insert(
                        a,
                        Exp {
                            size: *len,
                            count: 1,
                            names: vec![n],
                            ..Default::default()
                        },
                    );
                }
            }
        }
    }
    for s in &c.secs {
        m.entry(base + s * UNIT).or_insert(Exp {
            count: 1,
            names: vec![secname(*s)],
            placeholder: true,
            ..Default::default()
        });
    }
    m
}

fn compare(s: &Sym, want: &BTreeMap<u64, Exp>, tail: Option<&str>) -> Result<(), (u64, String)> {
    if let Some(w) = s.recs.windows(2).find(|w| w[0].addr >= w[1].addr) {
        return Err((w[1].addr, format!("records out of order: {:?} {:?}", w[0], w[1])));
    }
    for (a, e) in want {
        let r = match s.func_at(*a) {
            Some(r) => r,
            None => return Err((*a, format!("no record at {a:x}, expected {e:?}"))),
        };
        if r.public != e.func.is_none()
            || e.func.map_or(false, |z| z != r.size)
            || r.multiple != (e.count > 1)
            || !e.names.contains(&r.name)
            || r.param != e.param
        {
            return Err((*a, format!("record {r:?}, expected {e:?}")));
        }
    }
    for r in &s.recs {
        if !want.contains_key(&r.addr) {
            let last = want.keys().next_back().map_or(true, |k| *k < r.addr);
            if tail.map_or(false, |t| last && r.public && r.name == t) {
                continue;
            }
            return Err((r.addr, format!("unexpected record {r:?}")));
        }
    }
    if let (Some(_), Some((a, e))) = (tail, want.iter().next_back()) {
        // where a module ends has to be visible: nothing after the last record belongs to it
        let end = a + e.func.unwrap_or(0).max(1);
        let next = s.recs.iter().find(|r| r.addr > *a).map(|r| r.addr);
        let ok = match next {
            Some(n) => e.func.is_none() || n == end,
            None => end > u32::MAX as u64,
        };
        if !ok {
            return Err((*a, format!("the end of the last record is marked at {next:x?}, expected {end:x}")));
        }
    }
    Ok(())
}

fn build(cfgs: &[Cfg], base0: u64, load: u64) -> Vec<u8> {
    let mut e = Elf::new();
    e.load_vaddr = load;
    let total = STRIDE * cfgs.len() as u64 + 0x100;
    // the section everything lies in starts before the first case
    e.text.push(TextSec {
        name: b".text".to_vec(),
        addr: load + base0,
        size: total,
        exec: true,
    });
    e.text.push(TextSec {
        name: b".data".to_vec(),
        addr: load + base0 + 2 * UNIT,
        size: total,
        exec: false,
    });
    let mut mini = Elf::new();
    mini.load_vaddr = load;
    mini.text = e.text.clone();
    let mut u = mk::Unit::default();
    for (i, c) in cfgs.iter().enumerate() {
        let base = load + base0 + STRIDE * i as u64;
        for (k, (s, len)) in c.funs.iter().enumerate() {
            u.funs.push(mk::fun(&format!("f{i}_{k}"), base + s * UNIT, *len));
        }
        for (k, (t, s, len)) in c.syms.iter().enumerate() {
            let sy = ElfSym {
                name: format!("s{i}_{k}").into_bytes(),
                value: base + s * UNIT,
                size: *len,
                typ: 2,
                bind: 1,
                sec: Some(0),
            };
            match t {
                0 => e.symtab.push(sy),
                1 => e.dynsym.push(sy),
                _ => mini.symtab.push(sy),
            }
        }
        for s in &c.secs {
            e.text.push(TextSec {
                name: format!(".t{s}").into_bytes(),
                addr: base + s * UNIT,
                size: 4,
                exec: true,
            });
        }
    }
    // symbols that are no functions, or not in code, leave no trace
    for (typ, sec) in [(1u8, Some(0)), (0, Some(0)), (2, Some(1)), (2, None)] {
        e.symtab.push(ElfSym {
            name: b"no_function".to_vec(),
            value: load + base0 + 0x78,
            size: 8,
            typ,
            bind: 1,
            sec,
        });
    }
    if !u.funs.is_empty() {
        e = e.dwarf(mk::dwarf(&[u]));
    }
    if !mini.symtab.is_empty() {
        let mut z = Vec::new();
        lzma_rs::xz_compress(&mut &mini.build()[..], &mut z).unwrap();
        e.extra.push((b".gnu_debugdata".to_vec(), z, 0));
    }
    e.build()
}

fn elf_part(cx: &mut Ctx, part: &str, cfgs: Vec<Cfg>, base0: u64, load: u64, chunk: usize) {
    if !cx.bads.is_empty() {
        return;
    }
    let tasks: Vec<&[Cfg]> = cfgs.chunks(chunk).collect();
    let run = |cs: &[Cfg]| -> (Vec<u8>, Result<(), (u64, String)>) {
        let buf = build(cs, base0, load);
        let s = match elf_sym(&buf, "m.so", false) {
            Ok(s) => s,
            Err(e) => return (buf, Err((0, e))),
        };
        let mut want = BTreeMap::new();
        for (i, c) in cs.iter().enumerate() {
            let base = base0 + STRIDE * i as u64;
            want.extend(model(c, base, i, &|k| format!("<.t{k} ELF section in m.so>")));
        }
        want.entry(base0).or_insert(Exp {
            count: 1,
            names: vec!["<.text ELF section in m.so>".into()],
            ..Default::default()
        });
        let r = compare(&s, &want, None);
        (buf, r)
    };
    cx.run(part, tasks.len(), |t| {
        let cs = tasks[t];
        let (buf, r) = run(cs);
        if let Err((a, e)) = r {
            let i = (a.saturating_sub(base0) / STRIDE) as usize;
            let mut b = Bad::new(format!("{e}\ncase: {:?}", cs.get(i)));
            if let Some(c) = cs.get(i) {
                let (one, r1) = run(&[c.clone()]);
                b.what += &format!("\nalone: {r1:?}");
                b = b.file("input-one", &one);
            }
            return Err(b.file("input", &buf));
        }
        let mut st = Stats::default();
        for c in cs {
            st.states += 1;
            st.traces += 1;
            st.transitions += (c.funs.len() + c.syms.len() + c.secs.len()) as u64;
        }
        if t < 2 {
            st.samples.push(json!(format!("{:?}", cs.last().unwrap())));
        }
        Ok(st)
    });
}

fn seqs<T: Clone>(alpha: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = Vec::new();
        for v in &last {
            for a in alpha {
                let mut w: Vec<T> = v.clone();
                w.push(a.clone());
                next.push(w);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn fun_sets(slots: u64, sizes: &[u64], max: usize) -> Vec<Vec<El>> {
    let alpha: Vec<El> = (0..slots).flat_map(|s| sizes.iter().map(move |z| (s, *z))).collect();
    // the reader drops a function with the address and size of another one
    seqs(&alpha, max)
        .into_iter()
        .filter(|v| (0..v.len()).all(|i| !v[..i].contains(&v[i])))
        .collect()
}

fn product(f: &[Vec<El>], s: &[Vec<(u8, u64, u64)>], secs: &[Vec<u64>]) -> Vec<Cfg> {
    let mut out = Vec::new();
    for a in f {
        for b in s {
            for c in secs {
                out.push(Cfg {
                    funs: a.clone(),
                    syms: b.clone(),
                    secs: c.clone(),
                });
            }
        }
    }
    out
}

fn alpha_syms(tabs: &[u8], slots: u64, sizes: &[u64]) -> Vec<(u8, u64, u64)> {
    let mut v = vec![];
    for t in tabs {
        for s in 0..slots {
            for z in sizes {
                v.push((*t, s, *z));
            }
        }
    }
    v
}

/// PE: exports and unwind table
#[derive(Clone, Debug, Default)]
struct PeCfg {
    /// in DWARF
    funs: Vec<El>,
    pdata: Vec<El>,
    exports: Vec<u64>,
    /// export at this slot with a decorated name
    deco: bool,
}

/// size of an unwind entry that ends before it begins
const BACK: u64 = u64::MAX - 3;

fn pe_build(cs: &[PeCfg], base0: u64, machine: u16) -> Vec<u8> {
    let mut p = Pe {
        machine,
        ..Default::default()
    };
    let mut u = mk::Unit::default();
    for (i, c) in cs.iter().enumerate() {
        let base = (base0 + STRIDE * i as u64) as u32;
        for (k, (s, z)) in c.funs.iter().enumerate() {
            u.funs.push(mk::fun(&format!("f{i}_{k}"), Pe::BASE + base as u64 + s * UNIT, *z));
        }
        for (s, z) in &c.pdata {
            let b = base + (s * UNIT) as u32;
            p.pdata.push((b, b.wrapping_add(*z as u32)));
        }
        for (k, s) in c.exports.iter().enumerate() {
            let n = if c.deco { format!("_e{i}_{k}@8") } else { format!("e{i}_{k}") };
            p.exports.push((n.into_bytes(), base + (s * UNIT) as u32));
        }
    }
    if !u.funs.is_empty() {
        p = p.dwarf(mk::dwarf(&[u]));
    }
    p.build()
}

fn pe_model(c: &PeCfg, base: u64, i: usize) -> BTreeMap<u64, Exp> {
    let mut m: BTreeMap<u64, Exp> = BTreeMap::new();
    for (k, (s, z)) in c.funs.iter().enumerate() {
        let e = m.entry(base + s * UNIT).or_insert(Exp {
            func: Some(*z),
            size: *z,
            names: vec![format!("f{i}_{k}")],
            ..Default::default()
        });
        e.count += 1;
    }
    for (s, z) in &c.pdata {
        let a = base + s * UNIT;
        // an entry that ends before it begins says nothing
        if inside(&m, a) || m.contains_key(&a) || *z == BACK {
            continue;
        }
        m.insert(
            a,
            Exp {
                func: Some(*z),
                size: *z,
                count: 1,
                names: vec!["<unknown in m.dll>".into()],
                placeholder: true,
                param: 0,
            },
        );
    }
    for (k, s) in c.exports.iter().enumerate() {
        let a = base + s * UNIT;
        let n = format!("e{i}_{k}");
        // the reader takes the name of a function from the exports if it is there
        if let Some(e) = m.get_mut(&a).filter(|e| e.func.is_some() && !e.placeholder && !c.funs.is_empty()) {
            e.names.push(n.clone());
        }
        if inside(&m, a) {
            continue;
        }
        let param = if c.deco { 8 } else { 0 };
        match m.get_mut(&a) {
            Some(e) if e.func.is_some() => {
                if e.placeholder {
                    e.names.clear();
                    e.placeholder = false;
                }
                // several exports at one place: any of their names will do
                e.names.push(n);
                e.param = param;
            }
            Some(e) => e.count += 1,
            None => {
                m.insert(
                    a,
                    Exp {
                        count: 1,
                        names: vec![n],
                        param,
                        ..Default::default()
                    },
                );
            }
        }
    }
    m
}

fn pe_part(cx: &mut Ctx, part: &str, cfgs: Vec<PeCfg>, base0: u64, machine: u16) {
    if !cx.bads.is_empty() {
        return;
    }
    let run = |cs: &[PeCfg]| -> (Vec<u8>, Result<(), (u64, String)>) {
        let buf = pe_build(cs, base0, machine);
        let s = match pe_sym(&buf, "m.dll") {
            Ok(s) => s,
            Err(e) => return (buf, Err((0, e))),
        };
        let mut want = BTreeMap::new();
        for (i, c) in cs.iter().enumerate() {
            want.extend(pe_model(c, base0 + STRIDE * i as u64, i));
        }
        (buf, compare(&s, &want, Some("<unknown in m.dll>")))
    };
    let tasks: Vec<&[PeCfg]> = cfgs.chunks(500).collect();
    cx.run(part, tasks.len(), |t| {
        let cs = tasks[t];
        let (buf, r) = run(cs);
        if let Err((a, e)) = r {
            let i = (a.saturating_sub(base0) / STRIDE) as usize;
            let mut b = Bad::new(format!("{e}\ncase: {:?}", cs.get(i)));
            if let Some(c) = cs.get(i) {
                b = b.file("input-one", &run(&[c.clone()]).0);
            }
            return Err(b.file("input", &buf));
        }
        let mut st = Stats::default();
        for c in cs {
            st.states += 1;
            st.traces += 1;
            st.transitions += (c.pdata.len() + c.exports.len()) as u64;
        }
        if t == 0 {
            st.samples.push(json!(format!("{:?}", cs.last().unwrap())));
        }
        Ok(st)
    });
}

fn mach_part(cx: &mut Ctx) {
    if !cx.bads.is_empty() {
        return;
    }
    // Mach-O symbols have no size
    let syms = seqs(&alpha_syms(&[0], 3, &[0]), 3);
    let funs = fun_sets(3, &[8, 0x18], 2);
    let cfgs = product(&funs, &syms, &[vec![]]);
    let tasks: Vec<&[Cfg]> = cfgs.chunks(400).collect();
    cx.run("macho", tasks.len(), |t| {
        let cs = tasks[t];
        let mut m = Mach::default();
        m.text_size = 0x100000;
        let mut u = mk::Unit::default();
        let mut want = BTreeMap::new();
        for (i, c) in cs.iter().enumerate() {
            let base = 0x1000 + STRIDE * i as u64;
            for (k, (s, len)) in c.funs.iter().enumerate() {
                u.funs.push(mk::fun(&format!("f{i}_{k}"), m.text_addr + base + s * UNIT, *len));
            }
            for (k, (_, s, _)) in c.syms.iter().enumerate() {
                m.syms.push((format!("_s{i}_{k}").into_bytes(), m.text_addr + base + s * UNIT));
            }
            want.extend(model(c, base, i, &|_| String::new()));
        }
        if !u.funs.is_empty() {
            m.dwarf = mk::dwarf(&[u]);
        }
        let buf = m.build();
        let s = mach_sym(&buf, "m", "x86_64").map_err(|e| Bad::new(e).file("input", &buf))?;
        compare(&s, &want, None).map_err(|(a, e)| {
            let i = (a.saturating_sub(0x1000) / STRIDE) as usize;
            Bad::new(format!("{e}\ncase: {:?}", cs.get(i))).file("input", &buf)
        })?;
        let mut st = Stats::default();
        st.states = cs.len() as u64;
        st.traces = cs.len() as u64;
        st.transitions = cs.iter().map(|c| (c.funs.len() + c.syms.len()) as u64).sum();
        Ok(st)
    });
}

/// PDB: functions of one or two modules, public symbols
#[derive(Clone, Debug, Default)]
struct PdbCfg {
    /// (module, slot, size)
    funs: Vec<(u8, u64, u64)>,
    publics: Vec<u64>,
    /// functions with a parameter list, publics with decorated names
    args: bool,
    deco: bool,
}

fn pdb_build(cs: &[PdbCfg], base0: u64) -> Vec<u8> {
    let mut p = Pdb {
        modules: vec![vec![], vec![]],
        ..Default::default()
    };
    for (i, c) in cs.iter().enumerate() {
        let base = (base0 - 0x1000 + STRIDE * i as u64) as u32;
        for (k, (m, s, z)) in c.funs.iter().enumerate() {
            p.modules[*m as usize].push(Proc {
                name: format!("f{i}_{k}{}", if c.args { "(int)" } else { "" }).into_bytes(),
                seg: 1,
                off: base + (s * UNIT) as u32,
                size: *z as u32,
                local: k == 1,
                ..Default::default()
            });
        }
        for (k, s) in c.publics.iter().enumerate() {
            let n = if c.deco { format!("_e{i}_{k}@8") } else { format!("e{i}_{k}") };
            p.publics.push((n.into_bytes(), 1, base + (s * UNIT) as u32, if k == 1 { 0 } else { 2 }));
        }
    }
    // public data leaves no trace
    p.publics.push((b"data".to_vec(), 2, 0, 0));
    p.build()
}

fn pdb_model(c: &PdbCfg, base: u64, i: usize) -> BTreeMap<u64, Exp> {
    let mut m: BTreeMap<u64, Exp> = BTreeMap::new();
    for t in 0..2 {
        for (k, (md, s, z)) in c.funs.iter().enumerate() {
            if *md == t {
                let e = m.entry(base + s * UNIT).or_insert(Exp {
                    func: Some(*z),
                    size: *z,
                    names: vec![format!("f{i}_{k}{}", if c.args { "(int)" } else { "" })],
                    ..Default::default()
                });
                e.count += 1;
            }
        }
    }
    let mut named = std::collections::BTreeSet::new();
    for (k, s) in c.publics.iter().enumerate() {
        let a = base + s * UNIT;
        if inside(&m, a) {
            continue;
        }
        let n = format!("e{i}_{k}");
        let param = if c.deco { 8 } else { 0 };
        match m.get_mut(&a) {
            Some(e) if e.func.is_some() => {
                if !c.args {
                    // the symbol's name replaces a name without parameters
                    if named.insert(a) {
                        e.names.clear();
                    }
                    e.names.push(n);
                }
                e.param = param;
            }
            Some(e) => e.count += 1,
            None => {
                m.insert(
                    a,
                    Exp {
                        count: 1,
                        names: vec![n],
                        param,
                        ..Default::default()
                    },
                );
            }
        }
    }
    m
}

fn pdb_part(cx: &mut Ctx, part: &str, cfgs: Vec<PdbCfg>, base0: u64) {
    if !cx.bads.is_empty() {
        return;
    }
    let run = |cs: &[PdbCfg]| -> (Vec<u8>, Result<(), (u64, String)>) {
        let buf = pdb_build(cs, base0);
        let s = match pdb_sym(&buf, "m.pdb", false) {
            Ok(s) => s,
            Err(e) => return (buf, Err((0, e))),
        };
        let mut want = BTreeMap::new();
        for (i, c) in cs.iter().enumerate() {
            want.extend(pdb_model(c, base0 + STRIDE * i as u64, i));
        }
        (buf, compare(&s, &want, Some("<unknown in m.pdb>")))
    };
    let tasks: Vec<&[PdbCfg]> = cfgs.chunks(500).collect();
    cx.run(part, tasks.len(), |t| {
        let cs = tasks[t];
        let (buf, r) = run(cs);
        if let Err((a, e)) = r {
            let i = (a.saturating_sub(base0) / STRIDE) as usize;
            let mut b = Bad::new(format!("{e}\ncase: {:?}", cs.get(i)));
            if let Some(c) = cs.get(i) {
                b = b.file("input-one.pdb", &run(&[c.clone()]).0);
            }
            return Err(b.file("input.pdb", &buf));
        }
        let mut st = Stats::default();
        for c in cs {
            st.states += 1;
            st.traces += 1;
            st.transitions += (c.funs.len() + c.publics.len()) as u64;
        }
        if t == 0 {
            st.samples.push(json!(format!("{:?}", cs.last().unwrap())));
        }
        Ok(st)
    });
}

pub fn c09(cx: &mut Ctx) {
    cx.assume("addresses below 4 GiB; symbols in the order symbol table, dynamic symbols, mini debug info");
    cx.assume("names of functions that also have a symbol may come from either");
    let t = true;
    let secs: Vec<Vec<u64>> = vec![vec![], vec![1], vec![2], vec![3]];
    // functions and symbols of one table
    elf_part(
        cx,
        "funs_syms",
        product(
            &fun_sets(4, &[0x8, 0x10, 0x18], if t { 3 } else { 2 }),
            &seqs(&alpha_syms(&[0], 4, &[0, 0x10, 0x18]), 3),
            &[vec![], vec![2]],
        ),
        0x1000,
        0,
        1000,
    );
    // symbols of all tables, no functions
    elf_part(
        cx,
        "tables",
        product(
            &[vec![], vec![(1, 0x18)]],
            &seqs(&alpha_syms(&[0, 1, 2], 3, &[0, 0x11, 0x20]), 3),
            &secs,
        ),
        0x7fff_0000,
        0x40_0000,
        1000,
    );
    if t {
        elf_part(
            cx,
            "tables4",
            product(&[vec![]], &seqs(&alpha_syms(&[0, 1, 2], 3, &[0, 0x20]), 4), &[vec![]]),
            0x1000,
            0x1000,
            1000,
        );
    }
    if cx.thorough {
        elf_part(
            cx,
            "funs_syms4",
            product(
                &fun_sets(4, &[0x8, 0x18], 2),
                &seqs(&alpha_syms(&[0], 4, &[0, 0x18]), 4),
                &[vec![], vec![2]],
            ),
            0x1000,
            0,
            1000,
        );
        elf_part(
            cx,
            "tables4b",
            product(&[vec![], vec![(0, 0x18)], vec![(1, 0x18), (2, 8)]], &seqs(&alpha_syms(&[0, 1, 2], 3, &[0, 0x11, 0x20]), 3), &[vec![], vec![1, 2], vec![2, 3]]),
            0x1000,
            0x1000,
            1000,
        );
    }
    // at address zero, and at the top of the 32-bit address space
    for (part, base, load) in [("zero", 0u64, 0x1000u64), ("top", 0xffff_ffc8, 0), ("top2", 0xffff_ffb1, 0x10000)] {
        let slots = if base == 0 { 3 } else { 4 };
        elf_part(
            cx,
            part,
            product(
                &fun_sets(slots, &[0x8, 0x18], 2),
                &seqs(&alpha_syms(&[0, 2], slots, &[0, 0x18]), 2),
                &[vec![], vec![2]],
            ),
            base,
            load,
            1,
        );
    }
    for (part, machine, base) in [("pe64", 0x8664u16, 0x2000u64), ("pe32", 0x14c, 0x2000)] {
        let mut v = Vec::new();
        let pd: Vec<Vec<El>> = if machine == 0x8664 {
            seqs(
                &(0..4u64).flat_map(|s| [0x8u64, 0x10, 0x18, BACK].map(|z| (s, z))).collect::<Vec<_>>(),
                3,
            )
        } else {
            vec![vec![]]
        };
        for pdata in pd {
            for exports in seqs(&[0u64, 1, 2, 3], 3) {
                for deco in [false, true] {
                    v.push(PeCfg {
                        funs: vec![],
                        pdata: pdata.clone(),
                        exports: exports.clone(),
                        deco,
                    });
                }
            }
        }
        pe_part(cx, part, v, base, machine);
    }
    // tiny and odd sizes in the unwind table
    let mut v = Vec::new();
    for pdata in seqs(&(0..4u64).flat_map(|s| [0u64, 1, 0x11, 0x20].map(|z| (s, z))).collect::<Vec<_>>(), 3) {
        for exports in seqs(&[0u64, 1, 2, 3], 1) {
            v.push(PeCfg {
                funs: vec![],
                pdata: pdata.clone(),
                exports,
                deco: false,
            });
        }
    }
    pe_part(cx, "pe64_sizes", v, 0x2000, 0x8664);
    // and DWARF
    let mut v = Vec::new();
    for funs in fun_sets(4, &[0x8, 0x18], 2) {
        for pdata in seqs(&(0..4u64).flat_map(|s| [1u64, 0x8, 0x18].map(|z| (s, z))).collect::<Vec<_>>(), 2) {
            for exports in seqs(&[0u64, 1, 2, 3], 2) {
                v.push(PeCfg {
                    funs: funs.clone(),
                    pdata: pdata.clone(),
                    exports,
                    deco: false,
                });
            }
        }
    }
    pe_part(cx, "pe64_dwarf", v, 0x2000, 0x8664);
    mach_part(cx);
    crate::large::symbol_lengths(cx);
    crate::large::explore(cx, &[crate::large::Dim::Funs, crate::large::Dim::FunsDown, crate::large::Dim::Length, crate::large::Dim::LastLength, crate::large::Dim::Address], false);
    let mut v = Vec::new();
    let fs: Vec<(u8, u64, u64)> =
        (0..4u64).flat_map(|s| [(0u8, s, 0x8u64), (0, s, 0x18), (1, s, 0x10), (1, s, 0x18)]).collect();
    for funs in seqs(&fs, if t { 3 } else { 2 }) {
        for publics in seqs(&[0u64, 1, 2, 3], 3) {
            for (args, deco) in [(false, false), (true, true), (false, true)] {
                v.push(PdbCfg {
                    funs: funs.clone(),
                    publics: publics.clone(),
                    args,
                    deco,
                });
            }
        }
    }
    pdb_part(cx, "pdb", v, 0x2000);
}
