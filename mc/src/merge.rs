//! C11: merging the files of one module.
use crate::cfi;
use crate::elf::*;
use crate::ev::*;
use crate::mk;
use crate::pdb::{Pdb, Proc, Site};
use crate::pe::Pe;
use crate::sym::*;
use crate::util::*;
use dump_syms::dumper::{self, Config, FileOutput, Output};
use dump_syms::object_info::ObjectInfo;
use serde_json::json;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub enum It {
    /// slot, size, variant
    Fun(u64, u64, u8),
    /// slot, size
    Pub(u64, u64),
    /// PE unwind entry: slot, size
    Pd(u64, u64),
}

#[derive(Clone, Debug, Default)]
pub struct Mo {
    pub items: Vec<It>,
    /// which set of source files and names it uses
    pub flavour: u8,
    /// unwind information: 0 none, 1 one procedure, 2 two of them
    pub cfi: u8,
    /// slot at which its executable section starts, if it has one
    pub text: Option<u64>,
    pub file: &'static str,
    pub pe: bool,
    pub pdb: bool,
    pub mach: bool,
    /// has debug information even without functions
    pub debug: bool,
    /// has no build id, its code identifies it
    pub noid: bool,
}

const BASE: u64 = 0x1000;
const UNIT: u64 = 0x10;

fn addr(slot: u64) -> u64 {
    BASE + slot * UNIT
}

impl Mo {
    fn stripped(&self) -> bool {
        !self.debug && !self.pdb && !self.items.iter().any(|i| matches!(i, It::Fun(..)))
    }
    fn unit(&self, base: u64) -> Option<mk::Unit> {
        if self.stripped() {
            return None;
        }
        let fl = self.flavour;
        let mut u = mk::Unit::default();
        u.files = match fl {
            0 => vec![(b"a.c".to_vec(), 0), (b"b.c".to_vec(), 0)],
            1 => vec![(b"b.c".to_vec(), 0), (b"c.c".to_vec(), 0)],
            _ => vec![(b"d.c".to_vec(), 0), (b"a.c".to_vec(), 0)],
        };
        u.origins = match fl {
            0 => vec![(b"o1".to_vec(), None), (b"o2".to_vec(), None)],
            1 => vec![(b"o2".to_vec(), None), (b"o3".to_vec(), None)],
            _ => vec![(b"o4".to_vec(), None), (b"o1".to_vec(), None)],
        };
        let inl = |lo, hi, origin, kids| mk::Inl {
            lo,
            hi,
            origin,
            call_file: (origin as u64) % 2,
            call_line: 30 + lo,
            kids,
        };
        for it in &self.items {
            if let It::Fun(s, z, v) = it {
                let f = mk::fun(&format!("f{fl}_{s}"), base + addr(*s), *z);
                u.funs.push(match v {
                    0 => f.rows(&[(0, 0, 5)]),
                    1 => f.rows(&[(0, 1, 7), (8, 0, 9 + *s)]),
                    2 => f.rows(&[(0, 0, 5), (4, 1, 6), (8, 0, 7)]).inl(vec![inl(4, 8, 0, vec![])]),
                    3 => f
                        .rows(&[(0, 1, 5), (2, 1, 6), (4, 0, 7), (8, 1, 8)])
                        .inl(vec![inl(2, 8, 1, vec![inl(4, 8, 0, vec![])])]),
                    // calls of one function from the same line of different files, and back
                    5 => f.rows(&[(0, 0, 5), (2, 1, 6), (4, 0, 5), (6, 1, 6), (8, 0, 7)]).inl(
                        [(2, 4, 0), (4, 6, 1), (8, 10, 0), (12, 14, 1)]
                            .iter()
                            .map(|(lo, hi, file)| mk::Inl {
                                lo: *lo,
                                hi: *hi,
                                origin: 0,
                                call_file: *file,
                                call_line: 30,
                                kids: vec![],
                            })
                            .collect(),
                    ),
                    _ => f,
                });
            }
        }
        Some(u)
    }
    fn fdes(&self) -> Vec<cfi::Fde> {
        let f = |k: u64| cfi::Fde {
            addr: addr(k) + self.flavour as u64,
            size: UNIT,
            steps: vec![16 + k],
        };
        match self.cfi {
            0 => vec![],
            1 => vec![f(0)],
            _ => vec![f(1), f(2)],
        }
    }
    fn pdb(&self) -> Pdb {
        let fl = self.flavour;
        let mut p = Pdb {
            guid: [9; 16],
            ..Default::default()
        };
        let name = |s: &str| format!("d:\\x\\{s}.c").into_bytes();
        p.files = match fl {
            0 => vec![name("a"), name("b")],
            1 => vec![name("b"), name("c")],
            _ => vec![name("d"), name("a")],
        };
        p.inlinees = match fl {
            0 => vec![(b"o1".to_vec(), 0, 3), (b"o2".to_vec(), 1, 3)],
            1 => vec![(b"o2".to_vec(), 0, 3), (b"o3".to_vec(), 1, 3)],
            _ => vec![(b"o4".to_vec(), 0, 3), (b"o1".to_vec(), 1, 3)],
        };
        let mut funs = vec![];
        for it in &self.items {
            match it {
                It::Fun(s, z, v) => {
                    let off = (addr(*s) - 0x1000) as u32;
                    let site = |lo, hi, inlinee: usize, kids: Vec<Site>| Site {
                        inlinee,
                        lines: match kids.len() {
                            0 => vec![(lo, hi - lo, inlinee % 2, 40 + lo)],
                            _ => vec![(lo, 2, inlinee % 2, 40 + lo), (lo + 2, hi - lo - 2, inlinee % 2, 50 + lo)],
                        },
                        kids,
                    };
                    let (lines, sites) = match v {
                        0 => (vec![(0, 0, 5)], vec![]),
                        1 => (vec![(0, 1, 7), (8, 0, 9 + *s as u32)], vec![]),
                        2 => (vec![(0, 0, 5), (4, 1, 6), (8, 0, 7)], vec![site(4, 8, 0, vec![])]),
                        3 => (
                            vec![(0, 1, 5), (2, 1, 6), (4, 0, 7), (8, 1, 8)],
                            vec![site(2, 8, 1, vec![site(4, 8, 0, vec![])])],
                        ),
                        _ => (vec![], vec![]),
                    };
                    funs.push(Proc {
                        name: format!("f{fl}_{s}").into_bytes(),
                        seg: 1,
                        off,
                        size: *z as u32,
                        lines,
                        lines_size: *z as u32,
                        sites,
                        ..Default::default()
                    });
                }
                It::Pub(s, _) => p.publics.push((format!("p{fl}_{s}").into_bytes(), 1, (addr(*s) - 0x1000) as u32, 2)),
                It::Pd(..) => (),
            }
        }
        p.modules = vec![funs];
        p
    }
    pub fn build(&self) -> Vec<u8> {
        if self.pdb {
            return self.pdb().build();
        }
        if self.pe {
            let mut p = Pe::default();
            p.timestamp = 0x6000_0000 + self.flavour as u32;
            p.codeview = Some(([9; 16], 1, format!("m{}.pdb", self.flavour).into_bytes()));
            for it in &self.items {
                match it {
                    It::Pub(s, _) => p.exports.push((format!("s{}_{s}", self.flavour).into_bytes(), addr(*s) as u32)),
                    It::Pd(s, z) => p.pdata.push((addr(*s) as u32, (addr(*s) + z) as u32)),
                    _ => (),
                }
            }
            if let Some(u) = self.unit(Pe::BASE) {
                p = p.dwarf(mk::dwarf(&[u]));
            }
            return p.build();
        }
        if self.mach {
            let mut m = crate::macho::Mach::default();
            m.text_addr = 0;
            for it in &self.items {
                if let It::Pub(s, _) = it {
                    m.syms.push((format!("_s{}_{s}", self.flavour).into_bytes(), addr(*s)));
                }
            }
            if let Some(u) = self.unit(0) {
                m.dwarf = mk::dwarf(&[u]);
            }
            if self.cfi > 0 {
                m.dwarf.push(("debug_frame", cfi::frame(0, &self.fdes(), false)));
            }
            return m.build();
        }
        let mut e = Elf::new();
        if self.noid {
            e.build_id = None;
        }
        // symbols need an executable section
        e.text.push(TextSec {
            name: b".text".to_vec(),
            addr: addr(self.text.unwrap_or(7)),
            size: 0x1000,
            exec: true,
        });
        for it in &self.items {
            if let It::Pub(s, z) = it {
                e.symtab.push(ElfSym {
                    name: format!("s{}_{s}", self.flavour).into_bytes(),
                    value: addr(*s),
                    size: *z,
                    typ: 2,
                    bind: 1,
                    sec: Some(0),
                });
            }
        }
        if let Some(u) = self.unit(0) {
            e = e.dwarf(mk::dwarf(&[u]));
        }
        if self.cfi > 0 {
            e.extra.push((b".eh_frame".to_vec(), cfi::frame(0x8000, &self.fdes(), true), 0x8000));
        }
        e.build()
    }
    pub fn info(&self, buf: &[u8]) -> Result<ObjectInfo, String> {
        if self.pdb {
            let p = symbolic::debuginfo::pdb::PdbObject::parse(buf).map_err(|e| e.to_string())?;
            guard(|| ObjectInfo::from_pdb(p, self.file, None, None, None, true))?.map_err(|e| e.to_string())
        } else if self.pe {
            let pe = symbolic::debuginfo::pe::PeObject::parse(buf).map_err(|e| e.to_string())?;
            guard(|| ObjectInfo::from_pe(self.file, pe))?.map_err(|e| e.to_string())
        } else if self.mach {
            guard(|| ObjectInfo::from_macho(buf, self.file, symbolic::common::Arch::Amd64, None, true))?.map_err(|e| e.to_string())
        } else {
            elf_info(buf, self.file, true)
        }
    }
}

fn placeholder(n: &str) -> bool {
    n.starts_with('<')
}

/// What a record says about each address it covers.
fn meaning(s: &Sym, r: &Rec) -> Vec<(u64, Option<(String, u64)>, Vec<(u32, String, String, u64)>)> {
    (r.addr..r.addr + r.size)
        .map(|a| {
            (
                a,
                s.line_at(r, a).map(|(f, l)| (f.to_string(), l)),
                s.inlines_at(r, a).into_iter().map(|(d, o, f, l)| (d, o.to_string(), f.to_string(), l)).collect(),
            )
        })
        .collect()
}

fn same_func(s1: &Sym, a: &Rec, s2: &Sym, b: &Rec) -> bool {
    a.name == b.name && a.size == b.size && a.param == b.param && meaning(s1, a) == meaning(s2, b)
}

/// `sized`: per file, (address, size) of the symbols; records of the outputs don't show the sizes of publics.
pub fn judge(parts: &[Sym], sized: &[Vec<(u64, u64)>], stripped: &[bool], got: &Sym) -> Result<(), String> {
    if !got.sorted() {
        return Err("records out of order".into());
    }
    let mut files = got.files.clone();
    files.sort();
    files.dedup();
    // a mapping may give two of them the same path
    let unique = parts.iter().all(|p| (1..p.files.len()).all(|i| !p.files[..i].contains(&p.files[i])));
    if unique && files.len() != got.files.len() {
        return Err(format!("a source file twice: {:?}", got.files));
    }
    for f in &got.files {
        if !parts.iter().any(|p| p.files.contains(f)) {
            return Err(format!("unknown source file {f}"));
        }
    }
    let mut addrs: Vec<u64> = parts.iter().flat_map(|p| p.recs.iter().map(|r| r.addr)).collect();
    addrs.sort();
    addrs.dedup();
    for r in &got.recs {
        if !addrs.contains(&r.addr) {
            return Err(format!("unexpected record {r:?}"));
        }
    }
    for a in addrs {
        let here: Vec<(usize, &Rec)> = parts.iter().enumerate().filter_map(|(i, p)| p.func_at(a).map(|r| (i, r))).collect();
        let g = got.func_at(a);
        let funs: Vec<_> = here.iter().filter(|(_, r)| !r.public).collect();
        if !funs.is_empty() {
            // an unwind entry may bear the name of an export (s...), but it stays a placeholder
            let real: Vec<_> = funs.iter().filter(|(_, r)| !placeholder(&r.name) && !(got.os == "windows" && r.name.starts_with('s') && r.lines.is_empty())).collect();
            if real.is_empty() {
                // nothing but unwind entries: an export of another file is as good
                let ok = g.map_or(false, |g| {
                    here.iter().any(|(i, r)| r.public == g.public && same_func(&parts[*i], r, got, g))
                });
                if !ok {
                    return Err(format!("{here:?} became {g:?}"));
                }
                continue;
            }
            let g = match g {
                Some(g) if !g.public => g,
                _ => return Err(format!("function at {a:x} became {g:?}")),
            };
            let ok = {
                real.iter().any(|(i, r)| same_func(&parts[*i], r, got, g))
            };
            if !ok {
                return Err(format!(
                    "function at {a:x} became {g:?} {:?}\nwas {:?}",
                    meaning(got, g),
                    funs.iter().map(|(i, r)| (r, meaning(&parts[*i], r))).collect::<Vec<_>>()
                ));
            }
            continue;
        }
        // publics only
        let mut must = false;
        for (_, r) in &here {
            let covered = sized.iter().any(|l| l.iter().any(|(b, z)| *b < a && a - b < *z));
            if !covered && !(placeholder(&r.name) && here.len() > 1) {
                must = true;
            }
        }
        match g {
            None if must => return Err(format!("public symbols {here:?} are lost")),
            None => (),
            Some(g) => {
                let real: Vec<_> = here.iter().filter(|(_, r)| !placeholder(&r.name)).collect();
                let pool = if real.is_empty() { here.iter().collect() } else { real };
                // one of a covered pair may have been dropped
                let any_cov = here.len() > 1 && pool.len() < here.len() && !must;
                if !g.public || !(pool.iter().any(|(_, r)| r.name == g.name && r.param == g.param) || any_cov) {
                    return Err(format!("public symbols {here:?} became {g:?}"));
                }
            }
        }
    }
    // unwind records: all of them, those of one file together and in order
    let blocks: Vec<&[String]> = parts.iter().map(|p| &p.stack[..]).filter(|s| !s.is_empty()).collect();
    if !concat_of(&got.stack, &blocks) {
        return Err(format!("unwind records {:?} instead of those of all files", got.stack));
    }
    // identity
    let names: Vec<&String> = {
        let s: Vec<_> = parts.iter().zip(stripped).filter(|(_, s)| **s).map(|(p, _)| &p.name).collect();
        if s.is_empty() {
            parts.iter().map(|p| &p.name).collect()
        } else {
            s
        }
    };
    if !names.contains(&&got.name) {
        return Err(format!("module is named {:?}, expected one of {names:?}", got.name));
    }
    if parts.iter().any(|p| p.id != got.id || p.os != got.os || p.cpu != got.cpu) {
        return Err("module identity changed".into());
    }
    let infos: Vec<&Vec<String>> = parts.iter().map(|p| &p.infos).filter(|i| !i.is_empty()).collect();
    if !(infos.is_empty() && got.infos.is_empty() || infos.contains(&&got.infos)) {
        return Err(format!("INFO records {:?}, expected one of {infos:?}", got.infos));
    }
    Ok(())
}

/// Is `all` a concatenation of `blocks` in some order?
fn concat_of(all: &[String], blocks: &[&[String]]) -> bool {
    if blocks.is_empty() {
        return all.is_empty();
    }
    (0..blocks.len()).any(|k| {
        let mut b = blocks.to_vec();
        let x = b.remove(k);
        all.starts_with(x) && concat_of(&all[x.len()..], &b)
    })
}

fn sized(m: &Mo) -> Vec<(u64, u64)> {
    m.items
        .iter()
        .map(|i| match i {
            It::Fun(s, z, _) | It::Pd(s, z) => (addr(*s), *z),
            It::Pub(s, z) => (addr(*s), if m.pe || m.pdb { 0 } else { *z }),
        })
        .collect()
}

/// Merges the way a run over several files does: one after the other.
fn check(mos: &[&Mo], bufs: &[&[u8]], alone: &[&Sym]) -> Result<(), String> {
    let mut acc: Option<ObjectInfo> = None;
    for (m, b) in mos.iter().zip(bufs) {
        let i = m.info(b)?;
        acc = Some(match acc {
            None => i,
            Some(p) => guard(|| ObjectInfo::merge(i, p))?.map_err(|e| format!("merge failed: {e}"))?,
        });
    }
    let got = parse(&guard(|| dump(&acc.unwrap()))?)?;
    let parts: Vec<Sym> = alone.iter().map(|s| (*s).clone()).collect();
    let sz: Vec<_> = mos.iter().map(|m| sized(m)).collect();
    let st: Vec<_> = mos.iter().map(|m| m.stripped()).collect();
    judge(&parts, &sz, &st, &got)
}

/// The same with the real runs over several files, with path mappings.
fn check_run(dir: &Path, mos: &[&Mo], bufs: &[&[u8]], map: &(&str, &str)) -> Result<(), String> {
    let mut names = vec![];
    for (m, b) in mos.iter().zip(bufs) {
        let p = dir.join(m.file);
        std::fs::write(&p, b).unwrap();
        names.push(p.to_str().unwrap().to_string());
    }
    let dump = |names: &[&str]| -> Result<Sym, String> {
        let out = dir.join("out.sym");
        let _ = std::fs::remove_file(&out);
        let mut c = Config::with_output(Output::File(FileOutput::Path(out.clone())));
        c.check_cfi = false;
        c.mapping_src = Some(vec![map.0]);
        c.mapping_dest = Some(vec![map.1]);
        guard(|| {
            if names.len() == 1 {
                dumper::single_file(&c, names[0])
            } else {
                dumper::several_files(&c, names)
            }
        })?
        .map_err(|e| format!("the run failed: {e}"))?;
        parse(&std::fs::read(&out).map_err(|e| e.to_string())?)
    };
    let parts = names.iter().map(|n| dump(&[n])).collect::<Result<Vec<_>, _>>()?;
    let refs: Vec<&str> = names.iter().map(|n| &n[..]).collect();
    let got = dump(&refs)?;
    let sz: Vec<_> = mos.iter().map(|m| sized(m)).collect();
    let st: Vec<_> = mos.iter().map(|m| m.stripped()).collect();
    judge(&parts, &sz, &st, &got)
}

fn mapped_runs(cx: &mut Ctx, lists: [Vec<Mo>; 2]) {
    if !cx.bads.is_empty() {
        return;
    }
    let scratch = Scratch::new("c11");
    let bufs: Vec<Vec<Vec<u8>>> = lists.iter().map(|l| l.iter().map(|m| m.build()).collect()).collect();
    // all files apart, two of them the same, all the same; none
    let maps = [("^/c/(.*)$", "m:{1}"), ("^/c/[ab](.*)$", "m:{1}"), ("^/c/.*$", "m"), ("^/c/([bcd].*)$", "m:b"), ("/x", "y")];
    let n = lists[0].len();
    cx.run("mapped_runs", n, |i| {
        let mut st = Stats::default();
        let dir = scratch.0.join(format!("{i}"));
        std::fs::create_dir(&dir).unwrap();
        for j in 0..lists[1].len() {
            for m in &maps {
                for swap in [false, true] {
                    let mut mos = [&lists[0][i], &lists[1][j]];
                    let mut b = [&bufs[0][i][..], &bufs[1][j][..]];
                    if swap {
                        mos.reverse();
                        b.reverse();
                    }
                    if let Err(e) = check_run(&dir, &mos, &b, m) {
                        return Err(Bad::new(format!("{e}\nmapping {m:?}, files: {mos:?}")).file("input0", b[0]).file("input1", b[1]));
                    }
                    st.states += 1;
                    st.traces += 3;
                    st.transitions += 1;
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(st)
    });
}

fn sets(items: &[It], max: usize) -> Vec<Vec<It>> {
    let mut out = vec![vec![]];
    for (i, a) in items.iter().enumerate() {
        out.push(vec![a.clone()]);
        if max > 1 {
            for (j, b) in items.iter().enumerate().skip(i + 1) {
                let same_place = match (a, b) {
                    (It::Fun(s, ..), It::Fun(t, ..)) => s == t,
                    (It::Pub(s, _), It::Pub(t, _)) => s == t,
                    (It::Pd(s, _), It::Pd(t, _)) => s == t,
                    _ => false,
                };
                if same_place {
                    continue;
                }
                out.push(vec![a.clone(), b.clone()]);
                if max > 2 {
                    for c in items.iter().skip(j + 1) {
                        out.push(vec![a.clone(), b.clone(), c.clone()]);
                    }
                }
            }
        }
    }
    out
}

struct Built {
    m: Mo,
    buf: Vec<u8>,
    alone: Sym,
}

fn prepare(ms: Vec<Mo>) -> Result<Vec<Built>, Bad> {
    ms.into_iter()
        .map(|m| {
            let buf = m.build();
            let r = m.info(&buf).and_then(|i| guard(|| dump(&i))).and_then(|t| parse(&t));
            match r {
                Ok(alone) => {
                    if m.cfi > 0 && !m.pe && !m.pdb && alone.stack.is_empty() {
                        return Err(Bad::new(format!("{m:?}: no unwind records")).file("input", &buf));
                    }
                    Ok(Built { m, buf, alone })
                }
                Err(e) => Err(Bad::new(format!("{m:?}: {e}")).file("input", &buf)),
            }
        })
        .collect()
}

fn tuples(cx: &mut Ctx, part: &str, lists: Vec<Vec<Mo>>) {
    if !cx.bads.is_empty() {
        return;
    }
    let mut built = vec![];
    for l in lists {
        match prepare(l) {
            Ok(b) => built.push(b),
            Err(b) => {
                cx.check(part, Err(b));
                return;
            }
        }
    }
    let first = &built[0];
    cx.run(part, first.len(), |t| {
        let mut st = Stats::default();
        let mut idx = vec![0usize; built.len()];
        idx[0] = t;
        loop {
            let sel: Vec<&Built> = idx.iter().zip(&built).map(|(i, b)| &b[*i]).collect();
            let mos: Vec<&Mo> = sel.iter().map(|b| &b.m).collect();
            let bufs: Vec<&[u8]> = sel.iter().map(|b| &b.buf[..]).collect();
            let alone: Vec<&Sym> = sel.iter().map(|b| &b.alone).collect();
            if let Err(e) = check(&mos, &bufs, &alone) {
                let mut b = Bad::new(format!("{e}\nfiles: {mos:?}"));
                for (i, f) in bufs.iter().enumerate() {
                    b = b.file(&format!("input{i}"), f);
                }
                return Err(b);
            }
            st.states += 1;
            st.traces += 1;
            st.transitions += sel.len() as u64 - 1;
            if t == first.len() / 2 && st.states % 100 == 1 {
                st.samples.push(json!(format!("{mos:?}")));
            }
            let mut k = 1;
            while k < idx.len() {
                idx[k] += 1;
                if idx[k] < built[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == idx.len() {
                break;
            }
        }
        Ok(st)
    });
}

fn mos(items: &[It], max: usize, f: impl Fn(usize, Vec<It>) -> Vec<Mo>) -> Vec<Mo> {
    sets(items, max).into_iter().enumerate().flat_map(|(i, s)| f(i, s)).collect()
}

pub fn c11(cx: &mut Ctx) {
    cx.assume("which of two real functions at one address is kept, and the 'multiple' mark, are left open");
    let t = cx.thorough;
    let mut items = vec![];
    for s in 0..3 {
        for (z, v) in [(0x10, 0), (0x20, 1), (0x10, 2), (0x20, 3), (0x10, 4), (0x10, 5)] {
            items.push(It::Fun(s, z, v));
        }
        items.push(It::Pub(s, 0));
        items.push(It::Pub(s, 0x20));
    }
    let elf = |flavour: u8, file: &'static str| {
        move |i: usize, items: Vec<It>| {
            vec![Mo {
                items,
                flavour,
                cfi: (i % 3) as u8,
                text: [None, Some(0), Some(1)][(i / 3) % 3],
                file,
                pe: false,
                pdb: false,
                mach: false,
                debug: i % 5 == 0,
                noid: false,
            }]
        }
    };
    for (a, b) in [(0u8, 1u8), (1, 0), (0, 0), (2, 1)] {
        tuples(
            cx,
            &format!("pairs_{a}{b}"),
            vec![mos(&items, if t { 3 } else { 2 }, elf(a, "left")), mos(&items, 3, elf(b, "right.debug"))],
        );
    }
    // unwind information, sections and names independently of each other
    let few = [It::Fun(0, 0x10, 2), It::Fun(1, 0x20, 3), It::Pub(0, 0x20), It::Pub(1, 0)];
    let all = |flavour: u8, file: &'static str, noid: bool| {
        move |_: usize, items: Vec<It>| {
            let mut v = vec![];
            for cfi in 0..3 {
                for text in [None, Some(0), Some(1)] {
                    for debug in [false, true] {
                        v.push(Mo {
                            items: items.clone(),
                            flavour,
                            cfi,
                            text,
                            file,
                            pe: false,
                            pdb: false,
                            mach: false,
                            debug,
                            noid,
                        });
                    }
                }
            }
            v
        }
    };
    tuples(cx, "sections", vec![mos(&few, 2, all(0, "left", false)), mos(&few, 2, all(1, "right.debug", false))]);
    tuples(cx, "no_build_id", vec![mos(&few, 2, all(0, "left", true)), mos(&few, 2, all(1, "right.debug", true))]);
    // path mappings that make different paths the same
    let fm: Vec<It> = (0..3).flat_map(|s| [It::Fun(s, 0x10, 5), It::Fun(s, 0x10, 2), It::Fun(s, 0x20, 3), It::Pub(s, 0)]).collect();
    let (n1, n2) = if t { (3, 2) } else { (1, 2) };
    for (a, b) in [(0, 1), (2, 0), (0, 0)] {
        mapped_runs(cx, [mos(&fm, n1, elf(a, "left")), mos(&fm, n2, elf(b, "right.debug"))]);
    }
    crate::large::merges(cx);
    // three files
    let n = 2;
    let few3: Vec<It> = [
        It::Fun(0, 0x10, 2),
        It::Fun(1, 0x20, 3),
        It::Fun(1, 0x10, 1),
        It::Fun(2, 0x10, 4),
        It::Pub(0, 0x20),
        It::Pub(1, 0),
        It::Pub(2, 0),
    ]
    .to_vec();
    for (a, b, c) in [(0, 1, 2), (2, 0, 1), (1, 2, 0), (0, 0, 1)] {
        tuples(
            cx,
            &format!("triples_{a}{b}{c}"),
            vec![
                mos(&few3, n, elf(a, "one")),
                mos(&few3, 2, elf(b, "two")),
                mos(&few3, n, elf(c, "three")),
            ],
        );
    }
    // PE files: placeholders of the unwind table, exports, DWARF
    let mut pe = vec![];
    for s in 0..3 {
        for z in [0x10, 0x20] {
            pe.push(It::Pd(s, z));
        }
        pe.push(It::Pub(s, 0));
        pe.push(It::Fun(s, 0x10, 1));
    }
    let mkpe = |flavour: u8, file: &'static str| {
        move |_: usize, items: Vec<It>| {
            vec![Mo {
                items,
                flavour,
                file,
                pe: true,
                ..Default::default()
            }]
        }
    };
    for (a, b) in [(0, 1), (1, 0)] {
        tuples(cx, &format!("pe_{a}{b}"), vec![mos(&pe, 2, mkpe(a, "l.dll")), mos(&pe, 3, mkpe(b, "r.dll"))]);
    }
    // a Mach-O file and its dSYM
    let mut mach = vec![];
    for s in 0..3 {
        for (z, v) in [(0x10, 0), (0x20, 1), (0x10, 2), (0x20, 3), (0x10, 4), (0x10, 5)] {
            mach.push(It::Fun(s, z, v));
        }
        mach.push(It::Pub(s, 0));
    }
    let mkmach = |flavour: u8, file: &'static str| {
        move |i: usize, items: Vec<It>| {
            vec![Mo {
                items,
                flavour,
                file,
                mach: true,
                cfi: (i % 3) as u8,
                ..Default::default()
            }]
        }
    };
    for (a, b) in [(0, 1), (1, 0), (2, 0)] {
        tuples(cx, &format!("macho_{a}{b}"), vec![mos(&mach, 2, mkmach(a, "left")), mos(&mach, if t { 3 } else { 2 }, mkmach(b, "right"))]);
    }
    // a PDB and the executable, or another PDB of the module
    let mut pdb = vec![];
    for s in 0..3 {
        for (z, v) in [(0x10, 0), (0x20, 1), (0x10, 2), (0x20, 3), (0x10, 4)] {
            pdb.push(It::Fun(s, z, v));
        }
        pdb.push(It::Pub(s, 0));
    }
    let mkpdb = |flavour: u8, file: &'static str| {
        move |_: usize, items: Vec<It>| {
            vec![Mo {
                items,
                flavour,
                file,
                pdb: true,
                ..Default::default()
            }]
        }
    };
    let n = if t { 3 } else { 2 };
    for (a, b) in [(0, 1), (1, 0), (2, 0)] {
        tuples(cx, &format!("pdb_pe_{a}{b}"), vec![mos(&pdb, n, mkpdb(a, "l.pdb")), mos(&pe, 2, mkpe(b, "r.dll"))]);
        tuples(cx, &format!("pe_pdb_{a}{b}"), vec![mos(&pe, 2, mkpe(a, "l.dll")), mos(&pdb, n, mkpdb(b, "r.pdb"))]);
        tuples(cx, &format!("pdb_pdb_{a}{b}"), vec![mos(&pdb, 2, mkpdb(a, "l.pdb")), mos(&pdb, n, mkpdb(b, "r.pdb"))]);
    }
}
