//! C07 and C08: every small function, line table and tree of inlined calls.
use crate::dwarf::*;
use crate::elf::Elf;
use crate::macho::Mach;
use crate::pe::Pe;
use crate::pdb::{Pdb, Proc, Site};
use crate::ev::*;
use crate::sym::Sym;
use crate::util::*;
use serde_json::json;

#[derive(Clone, Debug)]
pub struct Iv {
    pub lo: u64,
    pub hi: u64,
    pub origin: u8,
    pub call: u8,
    pub kids: Vec<Iv>,
}

/// All forests of properly nested intervals inside [lo,hi), at most `k` intervals,
/// at most `d` levels, `norig` inlined functions and `ncall` call sites.
pub fn forests(lo: u64, hi: u64, k: usize, d: usize, norig: u8, ncall: u8) -> Vec<Vec<Iv>> {
    let mut out = vec![vec![]];
    if k == 0 || d == 0 {
        return out;
    }
    for a in lo..hi {
        for b in a + 1..=hi {
            let kids_all = forests(a, b, k - 1, d - 1, norig, ncall);
            for kids in &kids_all {
                let used = 1 + count(kids);
                for rest in forests(b, hi, k - used, d, norig, ncall) {
                    for origin in 0..norig {
                        for call in 0..ncall {
                            let mut f = vec![Iv {
                                lo: a,
                                hi: b,
                                origin,
                                call,
                                kids: kids.clone(),
                            }];
                            f.extend(rest.iter().cloned());
                            out.push(f);
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn count(f: &[Iv]) -> usize {
    f.iter().map(|i| 1 + count(&i.kids)).sum()
}

/// One function to be dumped: cells 0..n.
#[derive(Clone, Debug)]
pub struct Case {
    pub n: u64,
    /// (cell, label); the first may start at cell -1, i.e. before the function
    pub rows: Vec<(i64, u8)>,
    /// end of the line sequence
    pub end: u64,
    pub forest: Vec<Iv>,
}

/// Line labels: (file index, line)
pub const LABELS: [(u64, u64); 4] = [(0, 10), (0, 11), (1, 10), (0, 0)];
pub const CALLS: [(u64, u64); 3] = [(0, 20), (1, 21), (0, 10)];
const ORIG: [&str; 2] = ["ia", "ib"];
const ORIG_PDB: [&str; 2] = ["ia()", "ib()"];

/// How a case is turned into numbers.
#[derive(Clone, Copy, Debug)]
pub struct Scale {
    pub base: u64,
    pub unit: u64,
    pub line_add: u64,
    pub version: u16,
    /// equal siblings become one DIE with several ranges
    pub ranged: bool,
    pub load: u64,
    /// 1, 2: a PDB (1: ranges of inline sites end where the next one starts, 2: each has its length);
    /// DWARF in 0: ELF, 3: Mach-O, 4: PE
    pub kind: u8,
}
impl Scale {
    fn pdb(&self) -> bool {
        self.kind == 1 || self.kind == 2
    }
}
pub const PLAIN: Scale = Scale {
    base: 0x1000,
    unit: 1,
    line_add: 0,
    version: 4,
    ranged: false,
    load: 0,
    kind: 0,
};

fn line_no(sc: &Scale, l: u64) -> u64 {
    if l == 0 {
        0
    } else {
        l + sc.line_add
    }
}

fn inl_dies(dw: &mut Dwarf, sc: &Scale, f0: u64, forest: &[Iv], fb: u64) -> Vec<Die> {
    let mut out = Vec::new();
    let mut i = 0;
    let mut done = vec![false; forest.len()];
    while i < forest.len() {
        if done[i] {
            i += 1;
            continue;
        }
        let iv = &forest[i];
        let mut group = vec![i];
        if sc.ranged {
            for j in i + 1..forest.len() {
                if !done[j] && forest[j].origin == iv.origin && forest[j].call == iv.call {
                    group.push(j);
                }
            }
        }
        let mut d = Die::new(DW_TAG_INLINED).a(DW_AT_ABSTRACT_ORIGIN, V::Ref(iv.origin as usize));
        if group.len() == 1 {
            d = d
                .a(DW_AT_LOW_PC, V::Addr(f0 + iv.lo * sc.unit))
                .a(DW_AT_HIGH_PC, V::D4(((iv.hi - iv.lo) * sc.unit) as u32));
        } else {
            let rs: Vec<_> = group
                .iter()
                .map(|j| (f0 + forest[*j].lo * sc.unit, f0 + forest[*j].hi * sc.unit))
                .collect();
            let off = dw.add_ranges(sc.version, &rs);
            d = d.a(DW_AT_RANGES, V::SecOff(off));
        }
        let (cf, cl) = CALLS[iv.call as usize];
        d = d
            .a(DW_AT_CALL_FILE, V::U(cf + fb))
            .a(DW_AT_CALL_LINE, V::U(line_no(sc, cl)));
        for j in &group {
            done[*j] = true;
            d.children.extend(inl_dies(dw, sc, f0, &forest[*j].kids, fb));
        }
        out.push(d);
        i += 1;
    }
    out
}

pub fn stride(sc: &Scale, n: u64) -> u64 {
    ((n + 4) * sc.unit + 15) / 16 * 16
}

/// Inline sites of a PDB: each has lines for all of its code, the code of calls in it included.
fn sites(c: &Case, sc: &Scale, forest: &[Iv], depth: usize) -> Vec<Site> {
    let u = sc.unit;
    let mut out: Vec<(Site, u8, u8)> = vec![];
    for iv in forest {
        let mut lines: Vec<(u32, u32, usize, u32)> = vec![];
        for p in iv.lo..iv.hi {
            let row = match c.row_at(p) {
                Some(r) => r,
                None => continue,
            };
            let st = c.stack_at(p);
            let (f, l) = match st.get(depth + 1) {
                Some(k) => CALLS[k.call as usize],
                None => LABELS[row as usize],
            };
            let l = line_no(sc, l);
            let new = (((p) * u) as u32, u as u32, f as usize, l as u32);
            let starts = c.rows.iter().any(|r| r.0 == p as i64);
            match lines.last_mut() {
                Some(x) if !starts && x.0 + x.1 == new.0 && (x.2, x.3) == (new.2, new.3) => x.1 += new.1,
                _ => lines.push(new),
            }
        }
        let kids = sites(c, sc, &iv.kids, depth + 1);
        if sc.ranged {
            if let Some((s, _, _)) = out.iter_mut().find(|x| (x.1, x.2) == (iv.origin, iv.call)) {
                s.lines.extend(lines);
                s.kids.extend(kids);
                continue;
            }
        }
        let s = Site {
            inlinee: iv.origin as usize,
            lines,
            kids,
        };
        out.push((s, iv.origin, iv.call));
    }
    out.into_iter().map(|x| x.0).collect()
}

fn build_pdb(cases: &[Case], sc: &Scale) -> Vec<u8> {
    let nmax = cases.iter().map(|c| c.n).max().unwrap_or(1);
    let st = stride(sc, nmax);
    let mut procs = vec![];
    for (i, c) in cases.iter().enumerate() {
        let f0 = sc.base + st * i as u64;
        let mut lines: Vec<(u32, usize, u32)> = vec![];
        for p in 0..c.n {
            let row = match c.row_at(p) {
                Some(r) => r,
                None => continue,
            };
            let (f, l) = match c.stack_at(p).first() {
                Some(k) => CALLS[k.call as usize],
                None => LABELS[row as usize],
            };
            let new = ((p * sc.unit) as u32, f as usize, line_no(sc, l) as u32);
            let starts = c.rows.iter().any(|r| r.0 == p as i64);
            match lines.last() {
                Some(x) if !starts && (x.1, x.2) == (new.1, new.2) => {}
                _ => lines.push(new),
            }
        }
        procs.push(Proc {
            name: format!("f{i}").into_bytes(),
            seg: 1,
            off: (f0 - 0x1000) as u32,
            size: (c.n * sc.unit) as u32,
            local: i % 2 == 1,
            lines,
            lines_size: (c.end * sc.unit) as u32,
            sites: sites(c, sc, &c.forest, 0),
        });
    }
    Pdb {
        sections: vec![(b".text", 0x1000, (sc.base + st * (cases.len() as u64 + 1)) as u32, crate::pdb::TEXT_RX)],
        files: vec![b"/c/a.c".to_vec(), b"/c/b.c".to_vec()],
        inlinees: ORIG.iter().map(|n| (n.as_bytes().to_vec(), 0, 1)).collect(),
        modules: vec![procs],
        explicit_len: sc.kind == 2,
        ..Default::default()
    }
    .build()
}

pub fn build(cases: &[Case], sc: &Scale) -> Vec<u8> {
    if sc.pdb() {
        return build_pdb(cases, sc);
    }
    let nmax = cases.iter().map(|c| c.n).max().unwrap_or(1);
    let st = stride(sc, nmax);
    let fb = if sc.version >= 5 { 0 } else { 1 };
    let mut dw = Dwarf::default();
    let mut lp = LineProg {
        dirs: if sc.version >= 5 { vec![b"/c".to_vec()] } else { vec![] },
        files: vec![(b"a.c".to_vec(), 0), (b"b.c".to_vec(), 0)],
        seqs: vec![],
    };
    let mut root = Die::new(DW_TAG_COMPILE_UNIT)
        .a(DW_AT_LANGUAGE, V::U(DW_LANG_C))
        .a(DW_AT_NAME, V::Str(b"a.c".to_vec()))
        .a(DW_AT_COMP_DIR, V::Str(b"/c".to_vec()))
        .a(DW_AT_LOW_PC, V::Addr(sc.load + sc.base))
        .a(DW_AT_HIGH_PC, V::U(st * cases.len() as u64 + st))
        .a(DW_AT_STMT_LIST, V::SecOff(0));
    for (i, n) in ORIG.iter().enumerate() {
        root.children.push(
            Die::new(DW_TAG_SUBPROGRAM)
                .l(i)
                .a(DW_AT_NAME, V::Str(n.as_bytes().to_vec()))
                .a(DW_AT_INLINE, V::U(1)),
        );
    }
    for (i, c) in cases.iter().enumerate() {
        let f0 = sc.load + sc.base + st * i as u64;
        let mut d = Die::new(DW_TAG_SUBPROGRAM)
            .a(DW_AT_NAME, V::Str(format!("f{i}").into_bytes()))
            .a(DW_AT_LOW_PC, V::Addr(f0))
            .a(DW_AT_HIGH_PC, V::U(c.n * sc.unit));
        d.children = inl_dies(&mut dw, sc, f0, &c.forest, fb);
        root.children.push(d);
        if !c.rows.is_empty() {
            lp.seqs.push(Seq {
                rows: c
                    .rows
                    .iter()
                    .map(|(p, l)| {
                        let (f, l) = LABELS[*l as usize];
                        ((f0 as i64 + p * sc.unit as i64) as u64, f + fb, line_no(sc, l))
                    })
                    .collect(),
                end: f0 + c.end * sc.unit,
            });
        }
    }
    dw.add_line(sc.version, &lp);
    dw.add_unit(sc.version, &root);
    if sc.kind == 3 {
        let mut m = Mach::default();
        m.text_addr = sc.load;
        m.text_size = sc.base + st * cases.len() as u64 + st;
        m.dwarf = dw.sections();
        return m.build();
    }
    if sc.kind == 4 {
        return Pe::default().dwarf(dw.sections()).build();
    }
    let mut e = Elf::new().text(sc.load + sc.base, st * cases.len() as u64 + st);
    e.load_vaddr = sc.load;
    e.dwarf(dw.sections()).build()
}

fn file_name(f: u64) -> &'static str {
    ["/c/a.c", "/c/b.c"][f as usize]
}

impl Case {
    /// The label of the line row that covers the cell and starts in the function.
    fn row_at(&self, p: u64) -> Option<u8> {
        if p >= self.end {
            return None;
        }
        self.rows
            .iter()
            .filter(|(q, _)| *q <= p as i64)
            .last()
            .filter(|(q, _)| *q >= 0)
            .map(|r| r.1)
    }
    /// The inlined calls active at a cell, outermost first.
    fn stack_at(&self, p: u64) -> Vec<&Iv> {
        let mut v = Vec::new();
        let mut f = &self.forest;
        'o: loop {
            for i in f {
                if i.lo <= p && p < i.hi {
                    v.push(i);
                    f = &i.kids;
                    continue 'o;
                }
            }
            return v;
        }
    }
}

/// Compares one function of the output with the case it was made from.
fn judge(s: &Sym, c: &Case, sc: &Scale, i: usize, st: u64, inlines: bool) -> Result<(), String> {
    let f0 = sc.base + st * i as u64;
    let r = s.func_at(f0).ok_or(format!("no record at {f0:x}"))?;
    if r.public || r.multiple || r.name != format!("f{i}") || r.size != c.n * sc.unit || r.param != 0 {
        return Err(format!("FUNC record differs: {r:?}"));
    }
    for w in r.lines.windows(2) {
        if w[0].addr >= w[1].addr || w[0].addr + w[0].size > w[1].addr {
            return Err(format!("line records out of order or overlapping: {w:?}"));
        }
    }
    if !inlines {
        if !r.inlines.is_empty() {
            return Err("INLINE record although inlines are off".into());
        }
        if let Some(l) = r.lines.iter().find(|l| l.line == 0) {
            return Err(format!("line record with line 0: {l:?}"));
        }
    }
    for l in &r.lines {
        if l.addr < f0 || l.addr + l.size > f0 + c.n * sc.unit {
            return Err(format!("line record outside the function: {l:?}"));
        }
    }
    for p in 0..c.n {
        let stack = c.stack_at(p);
        let row = c.row_at(p);
        // first and last byte of the cell
        for a in [f0 + p * sc.unit, f0 + p * sc.unit + sc.unit - 1] {
            let got = s.inlines_at(r, a);
            let full: Vec<_> = stack
                .iter()
                .enumerate()
                .map(|(d, iv)| {
                    let (cf, cl) = CALLS[iv.call as usize];
                    (d as u32, if sc.pdb() { ORIG_PDB } else { ORIG }[iv.origin as usize], file_name(cf), line_no(sc, cl))
                })
                .collect();
            if let Some(g) = got.iter().find(|g| !full.contains(g)) {
                return Err(format!("address {a:x}: INLINE record {g:?} of a call that is not active there (active: {full:?})"));
            }
            let (file, line) = match row {
                Some(l) => LABELS[l as usize],
                None => continue,
            };
            let line = line_no(sc, line);
            if inlines {
                if got != full {
                    return Err(format!("address {a:x}: inline stack {got:?}, expected {full:?}"));
                }
                if line != 0 && s.line_at(r, a) != Some((file_name(file), line)) {
                    return Err(format!(
                        "address {a:x}: line record {:?}, expected {:?}",
                        s.line_at(r, a),
                        (file_name(file), line)
                    ));
                }
            } else {
                let want = match stack.first() {
                    Some(iv) => {
                        let (cf, cl) = CALLS[iv.call as usize];
                        (file_name(cf), line_no(sc, cl))
                    }
                    None => (file_name(file), line),
                };
                if want.1 != 0 && s.line_at(r, a) != Some(want) {
                    return Err(format!("address {a:x}: line record {:?}, expected {want:?}", s.line_at(r, a)));
                }
            }
        }
    }
    Ok(())
}

/// All row layouts over n cells; labels 0..nl; `before`: also rows starting before the function.
fn layouts(n: u64, nl: u8, ends: &[i64]) -> Vec<(Vec<(i64, u8)>, u64)> {
    let mut out = Vec::new();
    let k = nl as u64 + 1;
    for code in 0..k.pow(n as u32) {
        let mut c = code;
        let mut rows = Vec::new();
        for p in 0..n {
            let x = c % k;
            c /= k;
            if x > 0 {
                rows.push((p as i64, (x - 1) as u8));
            } else if p == 0 {
                rows.push((-1, 0));
            }
        }
        for e in ends {
            let e = (n as i64 + e) as u64;
            if rows.last().map_or(true, |r| r.0 < e as i64) {
                out.push((rows.clone(), e));
            }
        }
    }
    out
}

fn explore(cx: &mut Ctx, part: &str, inlines: bool, n: u64, nl: u8, ends: &[i64], fs: Vec<Vec<Iv>>, sc: Scale) {
    if !cx.bads.is_empty() {
        return;
    }
    let rows = layouts(n, nl, ends);
    // batches of about 3000 functions
    let per = (3000 / rows.len()).max(1);
    let tasks: Vec<&[Vec<Iv>]> = fs.chunks(per).collect();
    let chunk = 6000;
    cx.run(part, tasks.len(), |t| {
        let mut st = Stats::default();
        let mut cases = Vec::new();
        let fl = tasks[t];
        let total = fl.len() * rows.len();
        let mut done = 0;
        while done < total {
            cases.clear();
            for k in done..(done + chunk).min(total) {
                let (r, end) = &rows[k % rows.len()];
                cases.push(Case {
                    n,
                    rows: r.clone(),
                    end: *end,
                    forest: fl[k / rows.len()].clone(),
                });
            }
            done += cases.len();
            let buf = build(&cases, &sc);
            let s = match sc.kind {
                0 => elf_sym(&buf, "m", inlines),
                3 => mach_sym_inl(&buf, "m", "x86_64", inlines),
                4 => pe_sym_inl(&buf, "m.dll", inlines),
                _ => pdb_sym(&buf, "m.pdb", inlines),
            };
            let s = match s {
                Ok(s) => s,
                Err(e) => return Err(Bad::new(e).file("input", &buf)),
            };
            let sd = stride(&sc, n);
            for (i, c) in cases.iter().enumerate() {
                if let Err(e) = judge(&s, c, &sc, i, sd, inlines) {
                    // shrink to a file with this one function
                    let one = build(&[c.clone()], &sc);
                    return Err(Bad::new(format!("{e}\ncase: {c:?}\nscale: {sc:?}\nreplay: dump_syms {} input-one", if inlines {"--inlines"} else {""}))
                        .file("input-one", &one)
                        .file("input", &buf));
                }
                st.states += 1;
                st.transitions += (c.rows.len() + count(&c.forest)) as u64;
                st.traces += 1;
            }
        }
        if t < 2 {
            if let Some(c) = cases.last() {
                st.samples.push(json!(format!("{c:?}")));
            }
        }
        Ok(st)
    });
}

const HIGH: Scale = Scale {
    base: 0x7fff_0000,
    unit: 3,
    line_add: 70000,
    version: 5,
    ranged: false,
    load: 0x10000,
    kind: 0,
};
const RANGED5: Scale = Scale {
    version: 5,
    ranged: true,
    ..PLAIN
};
const RANGED4: Scale = Scale {
    version: 4,
    ranged: true,
    load: 0x400000,
    unit: 0x101,
    ..PLAIN
};

const MACH: Scale = Scale { kind: 3, load: 0x1_0000_0000, unit: 5, ..PLAIN };
const MACHR: Scale = Scale { kind: 3, load: 0x1_0000_0000, version: 5, ranged: true, base: 0x7fff_0000, line_add: 70000, ..PLAIN };
const PEDW: Scale = Scale { kind: 4, load: Pe::BASE, ..PLAIN };
const PEDWR: Scale = Scale { kind: 4, load: Pe::BASE, version: 5, ranged: true, line_add: 70000, ..PLAIN };

const PDB1: Scale = Scale { kind: 1, ..PLAIN };
const PDB2: Scale = Scale {
    kind: 2,
    base: 0x7ff0_0000,
    unit: 0x81,
    line_add: 70000,
    ..PLAIN
};
const PDB1R: Scale = Scale { kind: 1, ranged: true, unit: 3, ..PLAIN };

pub fn c07(cx: &mut Ctx) {
    cx.assume("line tables whose sequence covers the start of the function (the DWARF reader ignores others)");
    cx.assume("DWARF 4/5 in 64-bit little-endian ELF, Mach-O and PE files, and PDB with C13 lines; bounds: see the parts");
    let t = cx.thorough;
    use crate::large::Dim::*;
    crate::large::explore(cx, &[Depth, Calls, CallsDown, Files, Rows, Funs, FunsDown, Units, Length, Address, Line, CallLine], false);
    explore(cx, "rows5", false, if t { 7 } else { 6 }, 4, &[0, -1, 2], vec![vec![]], PLAIN);
    explore(cx, "rows4_high", false, if t { 6 } else { 5 }, 4, &[0, -1, 2], vec![vec![]], HIGH);
    explore(cx, "rows4_inl1", false, 4, 4, &[0, -1, 1], forests(0, 4, 1, 1, 1, 3), HIGH);
    explore(cx, "rows3_inl2", false, 3, 4, &[0, -1], forests(0, 3, 2, 2, 1, 3), PLAIN);
    explore(cx, "rows3_inl2r", false, 3, 3, &[0], forests(0, 3, 3, 2, 1, 2), RANGED5);
    explore(cx, "rows4_inl2", false, 4, 4, &[0, -1], forests(0, 4, 2, 2, 1, 2), PLAIN);
    explore(cx, "pdb_rows5", false, if t { 7 } else { 6 }, 4, &[0, -1, 2], vec![vec![]], PDB1);
    explore(cx, "pdb_rows4_inl1", false, 4, 4, &[0, -1, 1], forests(0, 4, 1, 1, 1, 3), PDB2);
    explore(cx, "pdb_rows3_inl3", false, 3, 3, &[0], forests(0, 3, 3, 2, 1, 2), PDB1R);
    explore(cx, "pdb_rows4_inl2", false, 4, 3, &[0, -1], forests(0, 4, 2, 2, 1, 2), PDB1);
    explore(cx, "mach_rows4", false, 4, 4, &[0, -1, 2], forests(0, 4, 1, 1, 1, 2), MACH);
    explore(cx, "mach_rows3_inl2", false, 3, 3, &[0], forests(0, 3, 2, 2, 1, 2), MACHR);
    explore(cx, "pe_rows4", false, 4, 4, &[0, -1, 2], forests(0, 4, 1, 1, 1, 2), PEDWR);
    explore(cx, "pe_rows3_inl2", false, 3, 3, &[0], forests(0, 3, 2, 2, 1, 2), PEDW);
    {
        explore(cx, "rows5_inl1", false, 5, 4, &[0, -1, 1], forests(0, 5, 1, 1, 2, 3), PLAIN);
        explore(cx, "rows5_inl2", false, 5, 3, &[0], forests(0, 5, 2, 2, 1, 2), RANGED4);
        explore(cx, "rows4_inl3", false, 4, 4, &[0], forests(0, 4, 3, 3, 1, 2), PLAIN);
    }
    if t {
        explore(cx, "rows5_inl3", false, 5, 4, &[0, -1], forests(0, 5, 3, 3, 1, 2), PLAIN);
        explore(cx, "rows6_inl2", false, 6, 3, &[0], forests(0, 6, 2, 2, 1, 3), RANGED5);
        explore(cx, "pdb_rows5_inl3", false, 5, 3, &[0], forests(0, 5, 3, 3, 1, 2), PDB2);
    }
}

pub fn c08(cx: &mut Ctx) {
    cx.assume("line tables whose sequence covers the start of the function (the DWARF reader ignores others)");
    cx.assume("DWARF 4/5 in 64-bit little-endian ELF, Mach-O and PE files, and PDB with C13 lines; bounds: see the parts");
    let t = cx.thorough;
    use crate::large::Dim::*;
    crate::large::explore(cx, &[Depth, Calls, CallsDown, Ranges, RangesDown, Files, Rows, Funs, FunsDown, Units, Length, InlineLength, Address, Line, CallLine], true);
    explore(cx, "rows4_inl0", true, 5, 4, &[0, -1, 2], vec![vec![]], PLAIN);
    explore(cx, "rows3_inl2", true, 3, 4, &[0, -1, 1], forests(0, 3, 2, 2, 2, 3), PLAIN);
    explore(cx, "rows4_inl2", true, 4, 3, &[0], forests(0, 4, 2, 2, 2, 2), HIGH);
    explore(cx, "rows2_inl3", true, 2, 4, &[0], forests(0, 2, 3, 3, 2, 2), RANGED4);
    explore(cx, "rows3_inl3", true, 3, 2, &[0], forests(0, 3, 3, 3, 2, 2), PLAIN);
    explore(cx, "rows3_inl3r", true, 3, 2, &[0], forests(0, 3, 3, 3, 2, 2), RANGED5);
    explore(cx, "rows5_inl1", true, 5, 3, &[0, 1], forests(0, 5, 1, 1, 1, 3), RANGED5);
    explore(cx, "pdb_rows5_inl1", true, 5, 3, &[0, 1], forests(0, 5, 1, 1, 1, 3), PDB1);
    explore(cx, "pdb_rows3_inl2", true, 3, 4, &[0, -1, 1], forests(0, 3, 2, 2, 2, 3), PDB2);
    explore(cx, "pdb_rows3_inl3", true, 3, 2, &[0], forests(0, 3, 3, 3, 2, 2), PDB1);
    explore(cx, "pdb_rows3_inl3r", true, 3, 2, &[0], forests(0, 3, 3, 3, 2, 2), PDB1R);
    explore(cx, "pdb_rows4_inl2", true, 4, 3, &[0], forests(0, 4, 2, 2, 2, 2), PDB1R);
    explore(cx, "mach_rows4", true, 4, 3, &[0, -1, 1], forests(0, 4, 1, 1, 2, 2), MACH);
    explore(cx, "mach_rows3_inl3", true, 3, 2, &[0], forests(0, 3, 3, 3, 2, 1), MACHR);
    explore(cx, "pe_rows4", true, 4, 3, &[0, -1, 1], forests(0, 4, 1, 1, 2, 2), PEDWR);
    explore(cx, "pe_rows3_inl3", true, 3, 2, &[0], forests(0, 3, 3, 3, 2, 1), PEDW);
    {
        explore(cx, "pdb_rows4_inl3", true, 4, 3, &[0], forests(0, 4, 3, 3, 2, 2), PDB1);
        explore(cx, "rows4_inl3", true, 4, 3, &[0, -1], forests(0, 4, 3, 3, 2, 2), PLAIN);
        explore(cx, "rows4_inl3r", true, 4, 2, &[0], forests(0, 4, 3, 3, 2, 2), RANGED4);
        explore(cx, "rows5_inl2", true, 5, 3, &[0], forests(0, 5, 2, 2, 2, 2), PLAIN);
        explore(cx, "rows3_inl4", true, 3, 2, &[0], forests(0, 3, 4, 4, 2, 1), RANGED5);
    }
    if t {
        explore(cx, "rows5_inl3", true, 5, 3, &[0], forests(0, 5, 3, 3, 2, 2), PLAIN);
        explore(cx, "rows6_inl2", true, 6, 3, &[0], forests(0, 6, 2, 2, 2, 2), RANGED4);
        explore(cx, "rows4_inl4", true, 4, 2, &[0], forests(0, 4, 4, 4, 2, 2), PLAIN);
        explore(cx, "pdb_rows5_inl3", true, 5, 2, &[0], forests(0, 5, 3, 3, 2, 2), PDB1);
        explore(cx, "pdb_rows4_inl4", true, 4, 2, &[0], forests(0, 4, 4, 4, 2, 1), PDB2);
    }
}
