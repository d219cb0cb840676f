//! Large instances: every size of a list in every dimension a symbol file has (depth of inlining,
//! calls, files, rows, functions, units, lengths, addresses, line numbers, names).
use crate::elf::{Elf, ElfSym};
use crate::ev::*;
use crate::mk::{self, Fun, Inl, Unit};
use crate::pdb::{Pdb, Proc, Site};
use crate::sym::Sym;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeSet;

pub fn sizes(max: u64, dense: u64) -> Vec<u64> {
    let mut v: BTreeSet<u64> = (1..=dense.min(max)).collect();
    for k in 0..40 {
        for d in [-1i64, 0, 1] {
            let n = (1i64 << k) + d;
            if n >= 1 && n as u64 <= max {
                v.insert(n as u64);
            }
        }
    }
    v.into_iter().collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dim {
    Depth,
    Calls,
    /// all of one function from one place: one record with many ranges
    Ranges,
    /// the last one first
    CallsDown,
    RangesDown,
    Files,
    Rows,
    Funs,
    FunsDown,
    Units,
    Length,
    /// of the last function
    LastLength,
    InlineLength,
    Address,
    Line,
    CallLine,
}

fn name(f: u64) -> String {
    format!("f{f}.c")
}

/// (units, start of the code, end of the code)
fn units(dim: Dim, n: u64, version: u16, base: u64, shift: u64) -> (Vec<Unit>, u64, u64) {
    let name = |f: u64| name(f + shift);
    let mut u = Unit {
        version,
        files: vec![(name(0).into_bytes(), 0), (name(1).into_bytes(), 0)],
        origins: vec![(b"o0".to_vec(), None), (b"o1".to_vec(), None)],
        ..Default::default()
    };
    let leaf = |lo, hi, origin, line| Inl { lo, hi, origin, call_file: 1, call_line: line, kids: vec![] };
    let mut end = base + 0x1000;
    match dim {
        Dim::Depth => {
            let size = 2 * n + 2;
            let mut kids = vec![];
            for d in (0..n).rev() {
                kids = vec![Inl { kids, ..leaf(d + 1, size - d - 1, (d % 2) as usize, 100 + d) }];
            }
            let rows: Vec<_> = (0..size).map(|o| (o, o % 2, 10 + o)).collect();
            u.funs = vec![mk::fun("g", base, size).rows(&rows).inl(kids)];
        }
        Dim::CallsDown | Dim::RangesDown => {
            u = units(if dim == Dim::CallsDown { Dim::Calls } else { Dim::Ranges }, n, version, base, shift).0.remove(0);
            u.funs[0].inl.reverse();
        }
        Dim::FunsDown => {
            u = units(Dim::Funs, n, version, base, shift).0.remove(0);
            u.funs.reverse();
        }
        Dim::Calls => {
            u.origins = (0..n).map(|i| (format!("o{i}").into_bytes(), None)).collect();
            let calls = (0..n).map(|i| leaf(3 * i + 1, 3 * i + 2 + i % 2, i as usize, 100 + i % 3)).collect();
            u.funs = vec![mk::fun("g", base, 3 * n + 1).rows(&[(0, 0, 10)]).inl(calls)];
        }
        Dim::Ranges => {
            let calls = (0..n).map(|i| leaf(3 * i + 1, 3 * i + 2, 0, 100)).collect();
            let rows: Vec<_> = (0..n).map(|i| (3 * i, 0, 10 + i % 2)).collect();
            u.funs = vec![mk::fun("g", base, 3 * n + 1).rows(&rows).inl(calls)];
        }
        Dim::Files => {
            u.files = (0..n).map(|i| (name(i).into_bytes(), 0)).collect();
            let rows: Vec<_> = (0..n).map(|i| (i, i, 10)).collect();
            u.funs = vec![mk::fun("g", base, n).rows(&rows), mk::fun("h", base + n + 1, 3).rows(&[(0, n - 1, 1), (1, 0, 1), (2, n / 2, 1)])];
        }
        Dim::Rows => {
            let rows: Vec<_> = (0..n).map(|i| (i, i / 3 % 2, 10 + i / 2 % 3)).collect();
            u.funs = vec![mk::fun("g", base, n).rows(&rows)];
        }
        Dim::Funs => {
            u.funs = (0..n).map(|i| mk::fun(&format!("g{i}"), base + 4 * i, 3 + i % 2).rows(&[(0, i % 2, 10 + i)]).inl(vec![leaf(1, 2, (i % 2) as usize, 9)])).collect();
        }
        Dim::Units => {
            let us: Vec<_> = (0..n)
                .map(|i| Unit {
                    funs: vec![mk::fun(&format!("g{i}"), base + 4 * i, 3).rows(&[(0, i % 2, 10 + i)]).inl(vec![leaf(1, 2, (i % 2) as usize, 9)])],
                    ..u.clone()
                })
                .collect();
            return (us, base, base + 4 * n + 0x1000);
        }
        Dim::Length => {
            u.funs = vec![mk::fun("g", base, n).rows(&[(0, 0, 10)])];
            if n > 1 {
                u.funs[0].rows.push((n - 1, 1, 11));
            }
            u.funs.push(mk::fun("h", base + n, 3).rows(&[(0, 0, 12)]));
        }
        Dim::LastLength => u.funs = vec![mk::fun("g", base, n).rows(&[(0, 0, 10)])],
        Dim::InlineLength => {
            u.funs = vec![mk::fun("g", base, n + 2).rows(&[(0, 0, 10)]).inl(vec![leaf(1, n + 1, 0, 100)])];
        }
        Dim::Address => {
            u.funs = vec![mk::fun("g", n, 8).rows(&[(0, 0, 10), (4, 1, 11)]).inl(vec![leaf(2, 6, 0, 100)])];
        }
        Dim::Line => u.funs = vec![mk::fun("g", base, 4).rows(&[(0, 0, n), (1, 0, n + 1), (2, 1, n)])],
        Dim::CallLine => u.funs = vec![mk::fun("g", base, 4).rows(&[(0, 0, 10)]).inl(vec![leaf(1, 2, 0, n), leaf(2, 3, 0, n + 1)])],
    }
    let lo = u.funs.iter().map(|f| f.addr).min().unwrap().min(base);
    end = end.max(u.funs.iter().map(|f| f.addr + f.size).max().unwrap());
    (vec![u], lo, end)
}

fn cuts(f: &Fun) -> Vec<u64> {
    fn add(v: &mut BTreeSet<u64>, l: &[Inl]) {
        for i in l {
            v.insert(i.lo);
            v.insert(i.hi);
            add(v, &i.kids);
        }
    }
    let mut v: BTreeSet<u64> = f.rows.iter().map(|r| r.0).collect();
    add(&mut v, &f.inl);
    v.into_iter().filter(|o| *o < f.size).collect()
}
fn row(f: &Fun, o: u64) -> (u64, u64) {
    let i = f.rows.partition_point(|r| r.0 <= o) - 1;
    (f.rows[i].1, f.rows[i].2)
}
fn stack(f: &Fun, o: u64) -> Vec<&Inl> {
    let mut v = vec![];
    let mut l = &f.inl;
    loop {
        let down = l.len() > 1 && l[0].lo > l[1].lo;
        let x = if down { l[l.partition_point(|i| i.lo > o)..].first() } else { l[..l.partition_point(|i| i.lo <= o)].last() };
        match x {
            Some(x) if o < x.hi => {
                v.push(x);
                l = &x.kids;
            }
            _ => return v,
        }
    }
}

fn sites(f: &Fun, l: &[Inl], depth: usize, cut: &[u64]) -> Vec<Site> {
    l.iter()
        .map(|i| {
            let a = cut.partition_point(|c| *c < i.lo);
            let b = cut.partition_point(|c| *c < i.hi);
            let lines = (a..b)
                .map(|k| {
                    let o = cut[k];
                    let hi = cut.get(k + 1).map_or(f.size, |x| *x).min(i.hi);
                    let (file, line) = match stack(f, o).get(depth + 1) {
                        Some(c) => (c.call_file, c.call_line),
                        None => row(f, o),
                    };
                    (o as u32, (hi - o) as u32, file as usize, line as u32)
                })
                .collect();
            Site { inlinee: i.origin, lines, kids: sites(f, &i.kids, depth + 1, cut) }
        })
        .collect()
}

fn pdb(us: &[Unit], end: u64) -> Vec<u8> {
    let u = &us[0];
    let procs = |u: &Unit| {
        u.funs
            .iter()
            .map(|f| {
                let cut = cuts(f);
                Proc {
                    name: f.name.clone(),
                    seg: 1,
                    off: (f.addr - 0x1000) as u32,
                    size: f.size as u32,
                    local: false,
                    lines: cut
                        .iter()
                        .map(|o| {
                            let (file, line) = match stack(f, *o).first() {
                                Some(c) => (c.call_file, c.call_line),
                                None => row(f, *o),
                            };
                            (*o as u32, file as usize, line as u32)
                        })
                        .collect(),
                    lines_size: f.size as u32,
                    sites: sites(f, &f.inl, 0, &cut),
                }
            })
            .collect()
    };
    Pdb {
        sections: vec![(b".text", 0x1000, (end + 0x1000) as u32, crate::pdb::TEXT_RX)],
        files: u.files.iter().map(|f| [b"/c/", &f.0[..]].concat()).collect(),
        inlinees: u.origins.iter().map(|n| (n.0.clone(), 0, 1)).collect(),
        modules: us.iter().map(procs).collect(),
        explicit_len: true,
        ..Default::default()
    }
    .build()
}

/// Every function of the units is in the output, with its lines and inlined calls.
pub fn judge(us: &[Unit], s: &Sym, inlines: bool, is_pdb: bool) -> Result<u64, String> {
    let mut n = 0;
    if !s.sorted() {
        return Err("records out of order".into());
    }
    for u in us {
        let file = |f: u64| format!("/c/{}", String::from_utf8_lossy(&u.files[f as usize].0));
        for f in &u.funs {
            let r = s.func_at(f.addr).ok_or(format!("no record at {:x}", f.addr))?;
            let nm = String::from_utf8_lossy(&f.name);
            if r.public || r.multiple || r.size != f.size || r.name != nm {
                return Err(format!("FUNC {} {:x} {:x} {}, expected {nm} {:x} {:x}", r.multiple, r.addr, r.size, r.name, f.addr, f.size));
            }
            if r.lines.windows(2).any(|w| w[0].addr + w[0].size > w[1].addr) {
                return Err(format!("line records of {nm} out of order or overlapping"));
            }
            // INLINE records by address
            let mut ranges: Vec<(u64, u64, u32, usize)> = vec![];
            for (k, i) in r.inlines.iter().enumerate() {
                ranges.extend(i.ranges.iter().map(|(a, l)| (*a, *l, i.depth, k)));
            }
            ranges.sort();
            let cut = cuts(f);
            for (k, o) in cut.iter().enumerate() {
                let last = cut.get(k + 1).map_or(f.size, |x| *x) - 1;
                for o in [*o, last] {
                    n += 1;
                    let a = f.addr + o;
                    let st = stack(f, o);
                    let (wf, wl) = match st.first() {
                        Some(c) if !inlines => (c.call_file, c.call_line),
                        _ => row(f, o),
                    };
                    let i = r.lines.partition_point(|l| l.addr <= a);
                    let got = r.lines[..i].last().filter(|l| a - l.addr < l.size).map(|l| (s.files[l.file].as_str(), l.line));
                    if got != Some((file(wf).as_str(), wl)) {
                        return Err(format!("address {a:x} of {nm}: line {got:?}, expected {:?}", (file(wf), wl)));
                    }
                    let mut got: Vec<(u32, &str, &str, u64)> = if st.len() < 100 && ranges.len() > 2000 {
                        // not nested
                        let i = ranges.partition_point(|x| x.0 <= a);
                        ranges[i.saturating_sub(2)..i].iter().filter(|x| a - x.0 < x.1).map(|x| x.3).collect::<Vec<_>>()
                    } else {
                        ranges.iter().filter(|x| x.0 <= a && a - x.0 < x.1).map(|x| x.3).collect()
                    }
                    .into_iter()
                    .map(|k| &r.inlines[k])
                    .map(|i| (i.depth, s.origins[i.origin].as_str(), s.files[i.file].as_str(), i.line))
                    .collect();
                    got.sort();
                    let tail = if is_pdb { "()" } else { "" };
                    let want: Vec<(u32, String, String, u64)> = if inlines {
                        st.iter()
                            .enumerate()
                            .map(|(d, i)| (d as u32, String::from_utf8_lossy(&u.origins[i.origin].0).into_owned() + tail, file(i.call_file), i.call_line))
                            .collect()
                    } else {
                        vec![]
                    };
                    if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| (g.0, g.1, g.2, g.3) != (w.0, w.1.as_str(), w.2.as_str(), w.3)) {
                        return Err(format!("address {a:x} of {nm}: {} calls {:?}.., expected {}: {:?}..", got.len(), got.last(), want.len(), want.last()));
                    }
                }
            }
        }
    }
    if is_pdb {
        let last = us.iter().flat_map(|u| &u.funs).max_by_key(|f| f.addr).unwrap();
        let end = last.addr + last.size;
        match &s.recs[..] {
            [.., r] if r.addr == end && r.name.starts_with("<unknown") => (),
            _ => return Err(format!("no placeholder at the end of the last function ({end:x})")),
        }
    }
    Ok(n)
}

/// Each path once.
fn once(s: &Sym) -> Result<(), String> {
    let set: BTreeSet<&String> = s.files.iter().collect();
    if set.len() != s.files.len() {
        return Err("a path has two FILE records".into());
    }
    Ok(())
}

pub fn explore(cx: &mut Ctx, dims: &[Dim], inlines: bool) {
    if !cx.bads.is_empty() {
        return;
    }
    let t = cx.thorough;
    let mut all = vec![];
    for d in dims {
        let (max, dense) = match d {
            Dim::Depth => (if t { 513 } else { 129 }, if t { 140 } else { 40 }),
            Dim::Calls | Dim::Ranges | Dim::CallsDown | Dim::RangesDown | Dim::Units => (if t { 8193 } else { 4097 }, 70),
            Dim::Files | Dim::Rows | Dim::Funs | Dim::FunsDown => (65537, if t { 300 } else { 70 }),
            Dim::Length | Dim::LastLength | Dim::InlineLength => (1 << 31, if *d == Dim::LastLength { 5000 } else { 70 }),
            Dim::Address => (0xffff_f000, 1),
            Dim::Line | Dim::CallLine => (1 << 31, 70),
        };
        for n in sizes(max, dense) {
            for how in 0..3 {
                if how == 2 && (matches!(d, Dim::Line | Dim::CallLine) && n > 0xff_fffd || *d == Dim::Address && n <= 0x1000 || *d == Dim::InlineLength && n > 1 << 28) {
                    continue;
                }
                if how == 0 && *d == Dim::Units && n > 4097 {
                    continue;
                }
                all.push((*d, n, how));
            }
        }
    }
    // the big ones first
    all.sort_by_key(|x| std::cmp::Reverse(match x.0 {
        Dim::Length | Dim::LastLength | Dim::InlineLength | Dim::Address | Dim::Line | Dim::CallLine => 0,
        Dim::Depth => x.1 * x.1,
        _ => x.1,
    }));
    cx.run("large", all.len(), |k| {
        let (d, n, how) = all[k];
        let (us, lo, end) = units(d, n, if how == 1 { 5 } else { 4 }, 0x1000, 0);
        let (buf, s) = if how == 2 {
            let b = pdb(&us, end);
            let s = pdb_sym(&b, "m.pdb", inlines);
            (b, s)
        } else {
            let b = Elf::new().text(lo, end - lo).dwarf(mk::dwarf(&us)).build();
            let s = elf_sym(&b, "m", inlines);
            (b, s)
        };
        let r = s.and_then(|s| once(&s).and_then(|_| judge(&us, &s, inlines, how == 2)));
        match r {
            Ok(p) => Ok(Stats {
                states: 1,
                transitions: p,
                traces: 1,
                samples: if k % 97 == 3 { vec![json!(format!("{d:?} = {n} ({})", ["DWARF 4", "DWARF 5", "PDB"][how]))] } else { vec![] },
            }),
            Err(e) => Err(Bad::new(format!("{d:?} = {n} ({}): {e}", ["DWARF 4", "DWARF 5", "PDB"][how])).file("input", &buf)),
        }
    });
}

/// Large files of one module, merged.
pub fn merges(cx: &mut Ctx) {
    if !cx.bads.is_empty() {
        return;
    }
    let t = cx.thorough;
    let mut all = vec![];
    for d in [Dim::Depth, Dim::Calls, Dim::Ranges, Dim::Files, Dim::Funs, Dim::Units] {
        let (max, dense) = match d {
            Dim::Depth => (65, 10),
            Dim::Files | Dim::Funs => (if t { 65537 } else { 8193 }, 10),
            _ => (if t { 4097 } else { 1025 }, 10),
        };
        for n in sizes(max, dense) {
            for m in [1, 3, n] {
                // which of the files they have in common
                for shift in [0, 1, n / 2, n] {
                    for inlines in [true, false] {
                        all.push((d, n, m, shift, inlines));
                    }
                }
            }
        }
    }
    all.sort_by_key(|x| std::cmp::Reverse(x.1 + x.2));
    cx.run("large", all.len(), |k| {
        let (d, n, m, shift, inlines) = all[k];
        let mk = |n, base, shift| {
            let (us, lo, end) = units(d, n, 4, base, shift);
            let b = Elf::new().text(lo, end - lo).dwarf(mk::dwarf(&us)).build();
            (us, b)
        };
        let (u1, b1) = mk(n, 0x1000, 0);
        let (u2, b2) = mk(m, 0x100_0000, shift);
        for rev in [false, true] {
            let r = (|| {
                let (x, y) = (elf_info(&b1, "m", inlines)?, elf_info(&b2, "m", inlines)?);
                let (x, y) = if rev { (y, x) } else { (x, y) };
                let o = guard(|| dump_syms::object_info::ObjectInfo::merge(x, y))?.map_err(|e| e.to_string())?;
                let s = crate::sym::parse(&guard(|| dump(&o))?)?;
                once(&s)?;
                Ok(judge(&u1, &s, inlines, false)? + judge(&u2, &s, inlines, false)?)
            })();
            if let Err(e) = r {
                let e: String = e;
                return Err(Bad::new(format!("{d:?} = {n} merged with {d:?} = {m}, files from {shift} (inlines: {inlines}, reversed: {rev}): {e}")).file("left", &b1).file("right", &b2));
            }
        }
        Ok(Stats { states: 2, transitions: 2, traces: 2, samples: if k % 397 == 3 { vec![json!(format!("{d:?}: {n}, {m}, {shift}"))] } else { vec![] } })
    });
}

/// Symbols next to the end of records of every length.
pub fn symbol_lengths(cx: &mut Ctx) {
    if !cx.bads.is_empty() {
        return;
    }
    let ns = sizes(1 << 31, 70);
    cx.run("symbol_lengths", ns.len() * 2, |k| {
        let (n, debug) = (ns[k / 2], k % 2 == 1);
        let base = 0x1000;
        let mut e = Elf::new().text(base, n + 0x10);
        let sym = |name: &str, value, size| ElfSym { name: name.as_bytes().to_vec(), value, size, typ: 2, bind: 1, sec: Some(0) };
        if debug {
            let u = Unit { funs: vec![mk::fun("g", base, n).rows(&[(0, 0, 10)])], ..Default::default() };
            e = e.dwarf(mk::dwarf(&[u]));
        } else {
            e.symtab.push(sym("g", base, n));
        }
        if n > 1 {
            e.symtab.push(sym("in", base + n - 1, 4));
        }
        e.symtab.push(sym("after", base + n, 4));
        let b = e.build();
        let bad = |m: String| Bad::new(format!("symbols around a record of {n:#x} bytes (debug information: {debug}): {m}")).file("input", &b);
        let s = elf_sym(&b, "m", false).map_err(bad)?;
        let got: Vec<_> = s.recs.iter().map(|r| (r.addr, r.public, r.name.as_str())).collect();
        let want = vec![(base, !debug, "g"), (base + n, true, "after")];
        if got != want {
            return Err(bad(format!("{got:?}, expected {want:?}")));
        }
        Ok(Stats { states: 1, transitions: 1, traces: 1, samples: vec![] })
    });
}
