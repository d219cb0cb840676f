//! The runs that are explored: inputs, outputs, job counts, and what has to come out.
use crate::cfi;
use crate::elf::*;
use crate::ev::Scratch;
use crate::{macho, mk, pe};
use crate::util::*;
use dump_syms::dumper::{Config, FileOutput, Output};
use dump_syms::object_info::ObjectInfo;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    /// the stripped half of a module
    A,
    /// its debug file
    Ad,
    /// a third file of it
    Ax,
    /// as large as Ax, and with a function in common: the first one wins
    Ay,
    B,
    C,
    /// like B and C, with a lot of text
    Big,
    Big2,
    /// another module with the file name of A
    Same,
    /// for two architectures
    Fat,
    Pe,
    Db,
    /// another age of Pe
    Pe2,
    /// the identifiers of these differ from that of B in the first, in the last byte
    First,
    Last,
    /// any number of small modules
    N(u8),
    Missing,
    Garbage,
    Cut,
    Dir,
    Empty,
}
use In::*;

/// files with many modules
const MANY: u8 = 140;

fn names() -> &'static [String] {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| (0..MANY).map(|k| format!("n/m{k}.so")).collect())
}

impl In {
    fn name(&self) -> &'static str {
        match self {
            A => "a.so",
            Ad => "a.debug",
            Ax => "a.extra",
            Ay => "a.other",
            B => "b.so",
            C => "c.so",
            Big => "big.so",
            Big2 => "big2.so",
            Same => "o/a.so",
            Fat => "fat.dylib",
            Pe => "p.dll",
            Pe2 => "n/p.dll",
            Db => "d.pdb",
            First => "n/b.so",
            Last => "n/b2.so",
            N(k) => &names()[*k as usize],
            Missing => "missing.so",
            Garbage => "garbage.so",
            Cut => "cut.so",
            Dir => "dir.so",
            Empty => "empty.so",
        }
    }
    fn base(&self) -> &'static str {
        self.name().rsplit('/').next().unwrap()
    }
    fn info(&self, c: Conf) -> ObjectInfo {
        let b = self.bytes();
        match self {
            Fat => {
                let arch = if c == Conf::Arm { "arm64" } else { "x86_64" };
                ObjectInfo::from_macho(&b, self.base(), arch.parse().ok().unwrap(), None, c != Conf::NoInlines).unwrap()
            }
            Db => ObjectInfo::from_pdb(symbolic::debuginfo::pdb::PdbObject::parse(&b).unwrap(), self.base(), None, None, None, c != Conf::NoInlines).unwrap(),
            Pe | Pe2 => ObjectInfo::from_pe(self.base(), symbolic::debuginfo::pe::PeObject::parse(&b).unwrap()).unwrap(),
            _ => elf_info(&b, self.base(), c != Conf::NoInlines).unwrap(),
        }
    }
    fn good(&self) -> bool {
        !matches!(self, Missing | Garbage | Cut | Dir | Empty)
    }
    fn cfi(&self) -> bool {
        matches!(self, A | C | Big)
    }
    fn module(&self) -> u8 {
        match self {
            A | Ad | Ax | Ay => 1,
            B => 2,
            C => 3,
            Big => 4,
            Same => 6,
            Fat => 7,
            Pe => 8,
            Pe2 => 9,
            First => 10,
            Last => 11,
            Db => 12,
            N(k) => 20 + k,
            _ => 5,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        if *self == Fat {
            let one = |cpu: u32, n: u8| {
                let m = macho::Mach {
                    cputype: cpu,
                    cpusub: if cpu == macho::ARM64 { 0 } else { 3 },
                    uuid: Some([n; 16]),
                    syms: vec![(format!("_mac_{n}").into_bytes(), 0x1_0000_1000)],
                    ..Default::default()
                };
                (m.cputype, m.cpusub, m.build())
            };
            return macho::fat(&[one(macho::X86_64, 0x71), one(macho::ARM64, 0x72)]);
        }
        if *self == Db {
            let p = crate::pdb::Pdb {
                guid: [0xd; 16],
                publics: vec![(b"pub_d".to_vec(), 1, 0x40, 2)],
                modules: vec![vec![crate::pdb::Proc {
                    name: b"f_d".to_vec(),
                    seg: 1,
                    off: 0x100,
                    size: 0x20,
                    lines: vec![(0, 0, 5), (8, 1, 6)],
                    lines_size: 0x20,
                    ..Default::default()
                }]],
                files: vec![b"/c/d.c".to_vec(), b"/c/e.c".to_vec()],
                page: 0x200,
                ..Default::default()
            };
            return p.build();
        }
        if matches!(self, Pe | Pe2) {
            let p = pe::Pe {
                codeview: Some(([8; 16], if *self == Pe { 1 } else { 2 }, b"p.pdb".to_vec())),
                exports: vec![(b"exported".to_vec(), 0x1100)],
                pdata: vec![(0x1100, 0x1120)],
                ..Default::default()
            };
            return p.build();
        }
        let mut e = Elf::new();
        let id = self.module();
        let mut bid: Vec<u8> = (0..20u8).map(|i| i.wrapping_mul(id).wrapping_add(id)).collect();
        if matches!(self, First | Last) {
            bid = (0..20).map(|i| i * B.module() + B.module()).collect();
            bid[if *self == First { 0 } else { 15 }] ^= 1;
        }
        e.build_id = Some(bid);
        e = e.text(0x1000, 0x4000);
        let sym = |n: String, v: u64| ElfSym {
            name: n.into_bytes(),
            value: v,
            size: 0x10,
            typ: 2,
            bind: 1,
            sec: Some(0),
        };
        let mut u = mk::Unit::default();
        match self {
            Ad => u.files = vec![(b"ad.c".to_vec(), 0), (b"b.c".to_vec(), 0)],
            Ax => u.files = vec![(b"ax.c".to_vec(), 0), (b"ad.c".to_vec(), 0)],
            Ay => u.files = vec![(b"ay.c".to_vec(), 0), (b"ad.c".to_vec(), 0)],
            _ => (),
        }
        match self {
            A => e.symtab.push(sym("pub_a".into(), 0x1100)),
            Ax => {
                e.symtab.push(sym("pub_x".into(), 0x1110));
                u.funs.push(mk::fun("fx", 0x1200, 0x20).rows(&[(0, 0, 3), (8, 1, 4)]));
            }
            Ay => {
                e.symtab.push(sym("pub_y".into(), 0x1110));
                u.funs.push(mk::fun("fy", 0x1200, 0x20).rows(&[(0, 1, 5), (8, 0, 6)]));
            }
            Big | Big2 => {
                for i in 0..300 {
                    e.symtab.push(sym(format!("a_rather_long_name_of_a_function_of_{}_{i}", self.name()), 0x1000 + i * 16));
                }
            }
            _ => {
                u.origins = vec![(format!("inl_{}", self.base()).into_bytes(), None)];
                let i = mk::Inl {
                    lo: 8,
                    hi: 16,
                    origin: 0,
                    call_file: 0,
                    call_line: 7,
                    kids: vec![],
                };
                u.funs
                    .push(mk::fun(&format!("f_{}", self.name().replace('/', "_")), 0x1300, 0x20).rows(&[(0, 0, 1), (8, 1, 2), (16, 0, 3)]).inl(vec![i]))
            }
        }
        if !u.funs.is_empty() {
            e = e.dwarf(mk::dwarf(&[u]));
        }
        if self.cfi() {
            let f = cfi::Fde {
                addr: 0x1100,
                size: 0x10,
                steps: vec![16],
            };
            e.extra.push((b".eh_frame".to_vec(), cfi::frame(0x8000, &[f], true), 0x8000));
        }
        e.build()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Store,
    File,
    Stdout,
    FileAndStore,
    StdoutAndStore,
    /// the place of this module in the store is taken: by a file in place of its outer
    /// directory, of its inner one, by a directory in place of the file
    Blocked(In),
    Blocked2(In),
    Blocked3(In),
    /// directory of the output file doesn't exist
    NoDir,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Conf {
    Plain,
    NoInlines,
    /// source paths are mapped
    Mapped,
    /// arm64 asked for
    Arm,
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub ins: Vec<In>,
    pub jobs: usize,
    pub out: Out,
    pub cfi: bool,
    pub conf: Conf,
    /// bound on preemptions
    pub bound: u32,
    /// every deviation from the round-robin schedule counts, not only preemptions
    pub delay: bool,
    pub want: Want,
}

#[derive(Clone, Debug, Default)]
pub struct Want {
    pub ok: bool,
    pub store: BTreeMap<String, Vec<u8>>,
    /// texts one of which the output file holds
    pub file: Option<Vec<Vec<u8>>>,
    pub stdout: Vec<u8>,
}

impl Scen {
    pub fn config<'a>(&self, dir: &Path) -> Config<'a> {
        let store = dir.join("store");
        let file = FileOutput::Path(dir.join("out.sym"));
        let output = match self.out {
            Out::Store | Out::Blocked(_) | Out::Blocked2(_) | Out::Blocked3(_) => Output::Store(store),
            Out::File => Output::File(file),
            Out::NoDir => Output::File(FileOutput::Path(dir.join("no/such/dir"))),
            Out::Stdout => Output::File(FileOutput::Stdout),
            Out::FileAndStore => Output::FileAndStore {
                file,
                store_directory: store,
            },
            Out::StdoutAndStore => Output::FileAndStore {
                file: FileOutput::Stdout,
                store_directory: store,
            },
        };
        let mut c = Config::with_output(output);
        c.num_jobs = self.jobs;
        c.check_cfi = self.cfi;
        c.arch = if self.conf == Conf::Arm { "arm64" } else { "x86_64" };
        c.emit_inlines = self.conf != Conf::NoInlines;
        if self.conf == Conf::Mapped {
            c.mapping_src = Some(vec!["/c/(.*)"]);
            c.mapping_dest = Some(vec!["vcs:{1}"]);
        }
        c
    }

    pub fn prepare(&self, dir: &Path) {
        if let Some(p) = self.blocker() {
            let p = dir.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            if matches!(self.out, Out::Blocked3(_)) {
                std::fs::create_dir(p).unwrap();
            } else {
                std::fs::write(p, b"taken").unwrap();
            }
        }
    }

    fn blocker(&self) -> Option<String> {
        let id = |m: In| m.info(Conf::Plain).get_debug_id().to_string();
        match self.out {
            Out::Blocked(m) => Some(format!("store/{}", m.base())),
            Out::Blocked2(m) => Some(format!("store/{}/{}", m.base(), id(m))),
            Out::Blocked3(m) => Some(format!("store/{}/{}/{}.sym", m.base(), id(m), m.base())),
            _ => None,
        }
    }

    pub fn files(&self, dir: &Path) -> Vec<String> {
        self.ins.iter().map(|i| dir.join("in").join(i.name()).to_str().unwrap().to_string()).collect()
    }

    fn expect(&mut self) {
        let mut mods: Vec<(u8, ObjectInfo)> = vec![];
        let mut w = Want {
            ok: true,
            ..Default::default()
        };
        for i in &self.ins {
            if !i.good() {
                w.ok = false;
                continue;
            }
            let info = i.info(self.conf);
            match mods.iter().position(|(m, _)| *m == i.module()) {
                Some(k) => {
                    let (m, prev) = mods.remove(k);
                    mods.insert(k, (m, ObjectInfo::merge(info, prev).unwrap()));
                }
                None => mods.push((i.module(), info)),
            }
        }
        let mut texts = vec![];
        for (_, info) in &mods {
            let mut text = dump(info);
            if self.conf == Conf::Mapped {
                text = String::from_utf8(text).unwrap().replace(" /c/", " vcs:").into_bytes();
            }
            let has = text.windows(6).any(|w| w == b"STACK ");
            let blocked = matches!(self.out, Out::Blocked(b) | Out::Blocked2(b) | Out::Blocked3(b) if b.base() == info.get_name()) || self.out == Out::NoDir;
            if (self.cfi && !has) || blocked {
                w.ok = false;
                continue;
            }
            let name = info.get_name();
            if matches!(self.out, Out::Store | Out::Blocked(_) | Out::Blocked2(_) | Out::Blocked3(_) | Out::FileAndStore | Out::StdoutAndStore) {
                w.store.insert(format!("store/{name}/{}/{}.sym", info.get_debug_id(), name.trim_end_matches(".pdb")), text.clone());
            }
            if matches!(self.out, Out::Stdout | Out::StdoutAndStore) {
                w.stdout.extend_from_slice(&text);
            }
            texts.push(text);
        }
        if let (Some(p), false) = (self.blocker(), matches!(self.out, Out::Blocked3(_))) {
            w.store.insert(p, b"taken".to_vec());
        }
        if matches!(self.out, Out::File | Out::FileAndStore) {
            w.file = Some(texts);
        }
        self.want = w;
    }
}

const DELAY: u32 = 1 << 31;

fn lists(of: &[In], n: usize) -> Vec<Vec<In>> {
    let mut out: Vec<Vec<In>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|l| {
                of.iter().map(move |i| {
                    let mut l = l.clone();
                    l.push(*i);
                    l
                })
            })
            .collect();
    }
    out
}

pub fn scenarios(id: &str, t: bool, dir: &Scratch) -> Vec<Scen> {
    std::fs::create_dir_all(dir.p("in/dir.so")).unwrap();
    std::fs::create_dir_all(dir.p("in/o")).unwrap();
    std::fs::create_dir_all(dir.p("in/n")).unwrap();
    for i in [A, Ad, Ax, Ay, B, C, Big, Big2, Same, Fat, Pe, Pe2, Db, First, Last].into_iter().chain((0..MANY).map(N)) {
        std::fs::write(dir.p("in").join(i.name()), i.bytes()).unwrap();
    }
    std::fs::write(dir.p("in/garbage.so"), b"this is no object file").unwrap();
    std::fs::write(dir.p("in/empty.so"), b"").unwrap();
    std::fs::write(dir.p("in/cut.so"), &B.bytes()[..70]).unwrap();

    let mut v: Vec<Scen> = vec![];
    let conf = std::cell::Cell::new(Conf::Plain);
    let mut add = |ins: Vec<In>, jobs: usize, out: Out, cfi: bool, bound: u32| {
        let mut s = Scen {
            conf: conf.get(),
            ins,
            jobs,
            out,
            cfi,
            bound: bound & !DELAY,
            delay: bound & DELAY != 0,
            want: Default::default(),
        };
        s.expect();
        v.push(s);
    };
    // (files, threads) -> preemptions
    let b = |n: usize, jobs: usize| -> u32 {
        match (n, jobs, t) {
            (_, 0..=1, _) => 2,
            (2, _, _) => 2,
            (3, 2, true) => 2,
            _ => 1,
        }
    };
    // without the lists that only differ in the names of the modules
    let canonical = |l: &[In]| -> bool {
        let first = |i: In| l.iter().position(|x| *x == i).unwrap_or(99);
        let a = first(A).min(first(Ad));
        (first(B) == 99 || a < first(B)) && (first(C) == 99 || first(B) < first(C))
    };
    match id {
        "C01" => {
            for n in 1..=3 {
                for l in lists(&[A, Ad, B, Garbage], n) {
                    if !canonical(&l) {
                        continue;
                    }
                    for jobs in 1..=n {
                        add(l.clone(), jobs, Out::Store, false, b(n, jobs));
                    }
                }
            }
            add(vec![A], 0, Out::Store, false, 2);
            add(vec![A, B], 0, Out::Store, false, 2);
            add(vec![A, Garbage], 0, Out::Store, false, 2);
            add(vec![A, B], 5, Out::Store, false, 1);
            for l in [vec![A, B, C, Big], vec![A, Ad, Ax, Missing], vec![Missing, Cut, Dir, Garbage], vec![A, B, C, Cut]] {
                for jobs in [1, 2, 4] {
                    if t || jobs < 4 || l == [A, B, C, Cut] {
                        add(l.clone(), jobs, Out::Store, false, 1);
                    }
                }
            }
            for out in [Out::Stdout, Out::FileAndStore, Out::Blocked(B), Out::NoDir] {
                add(vec![A, B], 2, out, false, 1);
                add(vec![A, B, Cut], 2, out, true, 1);
            }
            if t {
                add(vec![A, B], 2, Out::Store, false, 3);
                add(vec![A, Garbage], 2, Out::Store, false, 3);
                for l in lists(&[A, Ad, B, Garbage], 4) {
                    if canonical(&l) {
                        for jobs in 2..=3 {
                            add(l.clone(), jobs, Out::Store, false, 1);
                        }
                    }
                }
            }
        }
        "C02" => {
            for n in 1..=3 {
                for l in lists(&[A, Ad, B, C], n) {
                    if !canonical(&l) {
                        continue;
                    }
                    for jobs in 1..=n {
                        add(l.clone(), jobs, Out::Store, false, b(n, jobs));
                    }
                }
            }
            for l in [vec![A, Ad, Ax], vec![Ax, Ad, A], vec![Ad, Ax, A], vec![Ax, A, Ad], vec![Ax, Ay], vec![Ay, Ax], vec![Ay, Ad, Ax]] {
                for jobs in 2..=3 {
                    add(l.clone(), jobs, Out::Store, false, b(3, jobs));
                }
            }
            for l in [vec![A, B, Ad, C], vec![Ad, Ax, A, B], vec![A, B, C, Big]] {
                for jobs in [1, 2, 3] {
                    add(l.clone(), jobs, Out::Store, false, 1);
                }
            }
            for c in [Conf::Plain, Conf::NoInlines, Conf::Mapped, Conf::Arm] {
                conf.set(c);
                for jobs in 1..=2 {
                    for l in [vec![A, Same], vec![Same, Ad], vec![Fat, Pe], vec![B, A, Ad], vec![Pe, B, Fat], vec![Fat, Fat], vec![Db, A], vec![B, Db]] {
                        for out in [Out::Store, Out::Stdout, Out::FileAndStore] {
                            add(l.clone(), jobs, out, false, 1);
                        }
                    }
                    for l in [vec![A], vec![Fat], vec![Pe], vec![Same], vec![B]] {
                        add(l.clone(), jobs, Out::Store, false, 1);
                    }
                }
            }
            conf.set(Conf::Plain);
            for l in [vec![Pe, Pe2], vec![Pe2, Pe], vec![B, First], vec![Last, B], vec![First, Last], vec![Pe2, B, Pe], vec![First, B, Last]] {
                for jobs in 1..=2 {
                    for out in [Out::Store, Out::Stdout] {
                        add(l.clone(), jobs, out, false, 1);
                    }
                }
            }
            if t {
                add(vec![A, B], 2, Out::Store, false, 3);
                add(vec![A, Ad], 2, Out::Store, false, 4);
                for l in lists(&[A, Ad, B, C], 4) {
                    if canonical(&l) {
                        for jobs in 2..=4 {
                            add(l.clone(), jobs, Out::Store, false, 1);
                        }
                    }
                }
            }
        }
        "C03" => {
            for n in 1..=3 {
                for l in lists(&[A, Ad, B, Garbage], n) {
                    if l.iter().all(|i| i.good()) || !canonical(&l) {
                        continue;
                    }
                    for jobs in 1..=n.min(2) {
                        add(l.clone(), jobs, Out::Store, false, b(n, jobs));
                    }
                }
            }
            let full = if t { 2 } else { 1 };
            for bad in [Missing, Garbage, Cut, Dir, Empty] {
                for l in [vec![bad, A], vec![A, bad], vec![A, bad, B], vec![bad, bad]] {
                    for out in [Out::Store, Out::Stdout, Out::FileAndStore] {
                        for jobs in [1, 2] {
                            add(l.clone(), jobs, out, false, full);
                        }
                    }
                }
            }
            // refused by the CFI check, or not storable
            for l in [vec![A, B], vec![B, A], vec![A, Ad], vec![B, Ad], vec![A, B, C], vec![B, C, Ad], vec![A, C]] {
                for out in [Out::Store, Out::Stdout, Out::StdoutAndStore, Out::FileAndStore, Out::Blocked(A), Out::Blocked(B), Out::Blocked2(A), Out::Blocked2(B), Out::Blocked3(A), Out::Blocked3(B), Out::NoDir] {
                    for cfi in [false, true] {
                        for jobs in [1, 2] {
                            add(l.clone(), jobs, out, cfi, 1);
                        }
                    }
                }
            }
            for l in [vec![Db, A], vec![A, Db], vec![Fat, A], vec![Pe, Fat], vec![Pe, Db], vec![Db]] {
                for out in [Out::Store, Out::Stdout, Out::FileAndStore] {
                    for jobs in [1, 2] {
                        add(l.clone(), jobs, out, true, 1);
                    }
                }
            }
        }
        _ => {
            for out in [Out::Stdout, Out::StdoutAndStore, Out::File, Out::FileAndStore] {
                for l in [
                    vec![A, B],
                    vec![Big, Big2],
                    vec![Big2, A],
                    vec![A, Ad],
                    vec![A, B, C],
                    vec![Big, Big2, A],
                    vec![A, Big, Ad],
                    vec![Big, Garbage, B],
                    vec![Db, Big],
                ] {
                    for jobs in 1..=l.len() {
                        let bound = if matches!(out, Out::Stdout | Out::File) { b(l.len(), jobs) } else { 1 };
                        add(l.clone(), jobs, out, false, bound);
                    }
                }
            }
        }
    }
    // runs with many files: around the powers of two, with few deviations from one schedule
    let many = |n: u8| -> Vec<In> { (0..n).map(N).collect() };
    for n in [5, 8, 9, 12, 16, 17, 32, 33, 64, 65, 128, 129] {
        for jobs in [1, 2, 3, 4, 8, 16, 32, 60] {
            if jobs > n as usize || !t && n > 17 && ![1, 2, 32].contains(&jobs) {
                continue;
            }
            let d = match (n, jobs, t) {
                (..=17, 1, _) | (_, 1, true) => 1,
                (..=8, ..=2, _) | (..=17, ..=4, true) => 1,
                _ => 0,
            } | DELAY;
            match id {
                "C01" => add(many(n), jobs, Out::Store, false, d),
                "C02" => {
                    add(many(n), jobs, Out::Store, false, d);
                    if n > 10 {
                        for (x, y) in [(Ay, Ax), (Ax, Ay)] {
                            let mut l = many(n);
                            l[2] = x;
                            l[10] = y;
                            l[n as usize - 1] = Ad;
                            add(l, jobs, Out::Store, false, d);
                        }
                    }
                }
                "C03" => {
                    let mut l = many(n);
                    l[n as usize / 2] = Garbage;
                    add(l.clone(), jobs, Out::Store, false, d);
                    l[n as usize / 2] = B;
                    l[n as usize - 1] = Missing;
                    add(l, jobs, Out::Store, false, d);
                }
                _ => {
                    add(many(n), jobs, Out::Stdout, false, d);
                    add(many(n), jobs, Out::File, false, d);
                }
            }
        }
    }
    v
}
