//! Compilation units in terms of functions, lines and inlined calls.
#![allow(dead_code)]
use crate::dwarf::*;

#[derive(Clone, Debug, Default)]
pub struct Inl {
    pub lo: u64,
    pub hi: u64,
    /// index into Unit::origins
    pub origin: usize,
    pub call_file: u64,
    pub call_line: u64,
    pub kids: Vec<Inl>,
}

#[derive(Clone, Debug, Default)]
pub struct Fun {
    pub name: Vec<u8>,
    pub linkage: Option<Vec<u8>>,
    pub addr: u64,
    pub size: u64,
    /// (offset, file index from 0, line)
    pub rows: Vec<(u64, u64, u64)>,
    pub inl: Vec<Inl>,
}

#[derive(Clone, Debug)]
pub struct Unit {
    pub version: u16,
    pub lang: u64,
    pub comp_dir: Option<Vec<u8>>,
    /// include directories; version 5: entry 0 is the compilation directory
    pub dirs: Vec<Vec<u8>>,
    pub files: Vec<(Vec<u8>, u64)>,
    /// (name, linkage name)
    pub origins: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    pub funs: Vec<Fun>,
}

impl Default for Unit {
    fn default() -> Self {
        Unit {
            version: 4,
            lang: DW_LANG_C,
            comp_dir: Some(b"/c".to_vec()),
            dirs: vec![],
            files: vec![(b"a.c".to_vec(), 0), (b"b.c".to_vec(), 0)],
            origins: vec![],
            funs: vec![],
        }
    }
}

fn inl(list: &[Inl], f0: u64, fb: u64) -> Vec<Die> {
    list.iter()
        .map(|i| {
            let mut d = Die::new(DW_TAG_INLINED)
                .a(DW_AT_ABSTRACT_ORIGIN, V::Ref(i.origin))
                .a(DW_AT_LOW_PC, V::Addr(f0 + i.lo))
                .a(DW_AT_HIGH_PC, V::U(i.hi - i.lo))
                .a(DW_AT_CALL_FILE, V::U(i.call_file + fb))
                .a(DW_AT_CALL_LINE, V::U(i.call_line));
            d.children = inl(&i.kids, f0, fb);
            d
        })
        .collect()
}

pub fn fun(name: &str, addr: u64, size: u64) -> Fun {
    Fun {
        name: name.as_bytes().to_vec(),
        addr,
        size,
        ..Default::default()
    }
}

impl Fun {
    pub fn rows(mut self, r: &[(u64, u64, u64)]) -> Self {
        self.rows = r.to_vec();
        self
    }
    pub fn inl(mut self, r: Vec<Inl>) -> Self {
        self.inl = r;
        self
    }
}

impl Unit {
    pub fn add(&self, dw: &mut Dwarf) {
        let fb = if self.version >= 5 { 0 } else { 1 };
        let mut dirs = self.dirs.clone();
        if self.version >= 5 && dirs.is_empty() {
            dirs.push(self.comp_dir.clone().unwrap_or_default());
        }
        let mut lp = LineProg {
            dirs,
            files: self.files.clone(),
            seqs: vec![],
        };
        let lo = self.funs.iter().map(|f| f.addr).min().unwrap_or(0x1000);
        let hi = self.funs.iter().map(|f| f.addr + f.size).max().unwrap_or(0x1001);
        let mut root = Die::new(DW_TAG_COMPILE_UNIT)
            .a(DW_AT_LANGUAGE, V::U(self.lang))
            .a(DW_AT_NAME, V::Str(b"cu".to_vec()));
        if let Some(c) = &self.comp_dir {
            let v = if self.version >= 5 && dw.pool.is_some() { V::LineStr(c.clone()) } else { V::Str(c.clone()) };
            root = root.a(DW_AT_COMP_DIR, v);
        }
        root = root.a(DW_AT_LOW_PC, V::Addr(lo)).a(DW_AT_HIGH_PC, V::U(hi - lo));
        let named = |mut d: Die, n: &[u8], l: &Option<Vec<u8>>| {
            d = d.a(DW_AT_NAME, V::Str(n.to_vec()));
            if let Some(l) = l {
                d = d.a(DW_AT_LINKAGE_NAME, V::Str(l.clone()));
            }
            d
        };
        for (i, (n, l)) in self.origins.iter().enumerate() {
            let d = named(Die::new(DW_TAG_SUBPROGRAM).l(i), n, l).a(DW_AT_INLINE, V::U(1));
            root.children.push(d);
        }
        for f in &self.funs {
            let mut d = named(Die::new(DW_TAG_SUBPROGRAM), &f.name, &f.linkage)
                .a(DW_AT_LOW_PC, V::Addr(f.addr))
                .a(DW_AT_HIGH_PC, V::U(f.size));
            d.children = inl(&f.inl, f.addr, fb);
            root.children.push(d);
            if !f.rows.is_empty() {
                lp.seqs.push(Seq {
                    rows: f.rows.iter().map(|(o, fi, l)| (f.addr + o, fi + fb, *l)).collect(),
                    end: f.addr + f.size,
                });
            }
        }
        let off = dw.add_line(self.version, &lp);
        root = root.a(DW_AT_STMT_LIST, V::SecOff(off));
        dw.add_unit(self.version, &root);
    }
}

pub fn dwarf(units: &[Unit]) -> Vec<(&'static str, Vec<u8>)> {
    let mut dw = Dwarf::default();
    for u in units {
        u.add(&mut dw);
    }
    dw.sections()
}

/// The strings of version 5 line tables are shared between the units.
pub fn dwarf_pooled(units: &[Unit]) -> Vec<(&'static str, Vec<u8>)> {
    let mut dw = Dwarf::default();
    dw.pool = Some(Default::default());
    for u in units {
        u.add(&mut dw);
    }
    dw.sections()
}
