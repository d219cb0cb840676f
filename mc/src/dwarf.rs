//! A small DWARF writer (versions 4 and 5, 64-bit little endian addresses).
//! It has no opinion about what is sensible: everything is given explicitly.
#![allow(dead_code)]
use std::collections::HashMap;

#[derive(Default, Clone)]
pub struct Buf(pub Vec<u8>);
impl Buf {
    pub fn u8(&mut self, v: u8) {
        self.0.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u64(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn cstr(&mut self, s: &[u8]) {
        self.0.extend_from_slice(s);
        self.0.push(0)
    }
    pub fn bytes(&mut self, s: &[u8]) {
        self.0.extend_from_slice(s)
    }
    pub fn uleb(&mut self, mut v: u64) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
    pub fn sleb(&mut self, mut v: i64) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn patch32(&mut self, at: usize, v: u32) {
        self.0[at..at + 4].copy_from_slice(&v.to_le_bytes())
    }
    pub fn align(&mut self, n: usize) {
        while self.0.len() % n != 0 {
            self.0.push(0)
        }
    }
}

pub const DW_TAG_COMPILE_UNIT: u64 = 0x11;
pub const DW_TAG_SUBPROGRAM: u64 = 0x2e;
pub const DW_TAG_INLINED: u64 = 0x1d;
pub const DW_TAG_LEXICAL_BLOCK: u64 = 0x0b;
pub const DW_TAG_NAMESPACE: u64 = 0x39;

pub const DW_AT_NAME: u64 = 0x03;
pub const DW_AT_STMT_LIST: u64 = 0x10;
pub const DW_AT_LOW_PC: u64 = 0x11;
pub const DW_AT_HIGH_PC: u64 = 0x12;
pub const DW_AT_LANGUAGE: u64 = 0x13;
pub const DW_AT_COMP_DIR: u64 = 0x1b;
pub const DW_AT_INLINE: u64 = 0x20;
pub const DW_AT_ABSTRACT_ORIGIN: u64 = 0x31;
pub const DW_AT_EXTERNAL: u64 = 0x3f;
pub const DW_AT_SPECIFICATION: u64 = 0x47;
pub const DW_AT_RANGES: u64 = 0x55;
pub const DW_AT_CALL_FILE: u64 = 0x58;
pub const DW_AT_CALL_LINE: u64 = 0x59;
pub const DW_AT_LINKAGE_NAME: u64 = 0x6e;

pub const DW_LANG_C: u64 = 0x02;
pub const DW_LANG_CPP: u64 = 0x04;
pub const DW_LANG_RUST: u64 = 0x1c;

#[derive(Clone, Debug)]
pub enum V {
    Str(Vec<u8>),
    /// DW_FORM_line_strp, shared
    LineStr(Vec<u8>),
    Addr(u64),
    /// DW_FORM_udata
    U(u64),
    /// DW_FORM_data4
    D4(u32),
    SecOff(u64),
    /// reference to the DIE with this label
    Ref(usize),
    Flag,
}

#[derive(Clone, Debug, Default)]
pub struct Die {
    pub tag: u64,
    pub label: Option<usize>,
    pub attrs: Vec<(u64, V)>,
    pub children: Vec<Die>,
}

impl Die {
    pub fn new(tag: u64) -> Self {
        Die {
            tag,
            ..Default::default()
        }
    }
    pub fn a(mut self, at: u64, v: V) -> Self {
        self.attrs.push((at, v));
        self
    }
    pub fn l(mut self, label: usize) -> Self {
        self.label = Some(label);
        self
    }
    pub fn c(mut self, d: Die) -> Self {
        self.children.push(d);
        self
    }
}

#[derive(Clone, Debug, Default)]
pub struct Seq {
    /// (address, file index as in the header, line)
    pub rows: Vec<(u64, u64, u64)>,
    pub end: u64,
}

#[derive(Clone, Debug, Default)]
pub struct LineProg {
    /// version 4: include directories from index 1; version 5: from index 0
    pub dirs: Vec<Vec<u8>>,
    /// (name, directory index); version 4: from index 1; version 5: from index 0
    pub files: Vec<(Vec<u8>, u64)>,
    pub seqs: Vec<Seq>,
}

#[derive(Default)]
pub struct Dwarf {
    pub info: Buf,
    pub abbrev: Buf,
    pub line: Buf,
    pub ranges: Buf,
    pub rnglists: Buf,
    /// strings of version 5 line tables are shared if there is a pool
    pub pool: Option<HashMap<Vec<u8>, u32>>,
    pub line_str: Buf,
}

type AbbrevKey = (u64, bool, Vec<(u64, u64)>);

fn form(v: &V) -> u64 {
    match v {
        V::Str(_) => 0x08,
        V::LineStr(_) => 0x1f,
        V::Addr(_) => 0x01,
        V::U(_) => 0x0f,
        V::D4(_) => 0x06,
        V::SecOff(_) => 0x17,
        V::Ref(_) => 0x13,
        V::Flag => 0x19,
    }
}

impl Dwarf {
    fn pooled(&mut self, s: &[u8]) -> u32 {
        let at = self.line_str.len() as u32;
        match self.pool.get_or_insert_with(HashMap::new).entry(s.to_vec()) {
            std::collections::hash_map::Entry::Occupied(e) => *e.get(),
            std::collections::hash_map::Entry::Vacant(e) => {
                e.insert(at);
                self.line_str.cstr(s);
                at
            }
        }
    }

    /// Adds a range list, returns its section offset.
    pub fn add_ranges(&mut self, version: u16, ranges: &[(u64, u64)]) -> u64 {
        if version < 5 {
            let off = self.ranges.len() as u64;
            // base address selection with base 0, so the pairs are absolute
            self.ranges.u64(u64::MAX);
            self.ranges.u64(0);
            for (b, e) in ranges {
                self.ranges.u64(*b);
                self.ranges.u64(*e);
            }
            self.ranges.u64(0);
            self.ranges.u64(0);
            off
        } else {
            if self.rnglists.len() == 0 {
                // header; unit_length patched in finish()
                self.rnglists.u32(0);
                self.rnglists.u16(5);
                self.rnglists.u8(8);
                self.rnglists.u8(0);
                self.rnglists.u32(0);
            }
            let off = self.rnglists.len() as u64;
            for (b, e) in ranges {
                self.rnglists.u8(0x06); // DW_RLE_start_end
                self.rnglists.u64(*b);
                self.rnglists.u64(*e);
            }
            self.rnglists.u8(0);
            off
        }
    }

    /// Adds a line program, returns its section offset.
    pub fn add_line(&mut self, version: u16, lp: &LineProg) -> u64 {
        let off = self.line.len() as u64;
        let refs: Option<(Vec<u32>, Vec<u32>)> = if version >= 5 && self.pool.is_some() {
            let d = lp.dirs.iter().map(|d| self.pooled(d)).collect();
            let f = lp.files.iter().map(|(n, _)| self.pooled(n)).collect();
            Some((d, f))
        } else {
            None
        };
        let b = &mut self.line;
        let len_at = b.len();
        b.u32(0);
        b.u16(version);
        if version >= 5 {
            b.u8(8);
            b.u8(0);
        }
        let hl_at = b.len();
        b.u32(0);
        b.u8(1); // min inst len
        b.u8(1); // max ops
        b.u8(1); // default_is_stmt
        b.u8(0xfb); // line base -5
        b.u8(14); // line range
        b.u8(13); // opcode base
        b.bytes(&[0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1]);
        if version < 5 {
            for d in &lp.dirs {
                b.cstr(d);
            }
            b.u8(0);
            for (n, d) in &lp.files {
                b.cstr(n);
                b.uleb(*d);
                b.uleb(0);
                b.uleb(0);
            }
            b.u8(0);
        } else {
            b.u8(1);
            b.uleb(1); // DW_LNCT_path
            let form = if refs.is_some() { 0x1f } else { 0x08 };
            b.uleb(form);
            b.uleb(lp.dirs.len() as u64);
            for (i, d) in lp.dirs.iter().enumerate() {
                match &refs {
                    Some(r) => b.u32(r.0[i]),
                    None => b.cstr(d),
                }
            }
            b.u8(2);
            b.uleb(1);
            b.uleb(form);
            b.uleb(2); // DW_LNCT_directory_index
            b.uleb(0x0f);
            b.uleb(lp.files.len() as u64);
            for (i, (n, d)) in lp.files.iter().enumerate() {
                match &refs {
                    Some(r) => b.u32(r.1[i]),
                    None => b.cstr(n),
                }
                b.uleb(*d);
            }
        }
        let hl = (b.len() - hl_at - 4) as u32;
        b.patch32(hl_at, hl);
        for s in &lp.seqs {
            let (mut addr, mut file, mut line) = (0u64, 1u64, 1i64);
            let mut first = true;
            for (a, f, l) in &s.rows {
                if first || *a < addr {
                    b.u8(0);
                    b.uleb(9);
                    b.u8(2);
                    b.u64(*a);
                    first = false;
                } else if *a > addr {
                    b.u8(2);
                    b.uleb(*a - addr);
                }
                addr = *a;
                if *f != file {
                    b.u8(4);
                    b.uleb(*f);
                    file = *f;
                }
                if *l as i64 != line {
                    b.u8(3);
                    b.sleb(*l as i64 - line);
                    line = *l as i64;
                }
                b.u8(1); // copy
            }
            if s.end > addr {
                b.u8(2);
                b.uleb(s.end - addr);
            }
            b.bytes(&[0, 1, 1]);
        }
        let l = (b.len() - len_at - 4) as u32;
        b.patch32(len_at, l);
        off
    }

    pub fn add_unit(&mut self, version: u16, root: &Die) {
        let abbrev_off = self.abbrev.len() as u32;
        let start = self.info.len();
        self.info.u32(0);
        self.info.u16(version);
        if version >= 5 {
            self.info.u8(1);
            self.info.u8(8);
            self.info.u32(abbrev_off);
        } else {
            self.info.u32(abbrev_off);
            self.info.u8(8);
        }
        let mut abbrevs: HashMap<AbbrevKey, u64> = HashMap::new();
        let mut labels: HashMap<usize, u32> = HashMap::new();
        let mut fix: Vec<(usize, usize)> = Vec::new();
        self.emit_die(root, start, &mut abbrevs, &mut labels, &mut fix);
        for (at, l) in fix {
            self.info.patch32(at, labels[&l]);
        }
        let len = (self.info.len() - start - 4) as u32;
        self.info.patch32(start, len);
        self.abbrev.u8(0);
    }

    fn emit_die(
        &mut self,
        d: &Die,
        start: usize,
        abbrevs: &mut HashMap<AbbrevKey, u64>,
        labels: &mut HashMap<usize, u32>,
        fix: &mut Vec<(usize, usize)>,
    ) {
        if let Some(l) = d.label {
            labels.insert(l, (self.info.len() - start) as u32);
        }
        let key: AbbrevKey = (
            d.tag,
            !d.children.is_empty(),
            d.attrs.iter().map(|(a, v)| (*a, form(v))).collect(),
        );
        let n = abbrevs.len() as u64 + 1;
        let code = match abbrevs.get(&key) {
            Some(c) => *c,
            None => {
                self.abbrev.uleb(n);
                self.abbrev.uleb(key.0);
                self.abbrev.u8(key.1 as u8);
                for (a, f) in &key.2 {
                    self.abbrev.uleb(*a);
                    self.abbrev.uleb(*f);
                }
                self.abbrev.u8(0);
                self.abbrev.u8(0);
                abbrevs.insert(key, n);
                n
            }
        };
        self.info.uleb(code);
        for (_, v) in &d.attrs {
            match v {
                V::Str(s) => self.info.cstr(s),
                V::LineStr(s) => {
                    let o = self.pooled(s);
                    self.info.u32(o);
                }
                V::Addr(a) => self.info.u64(*a),
                V::U(u) => self.info.uleb(*u),
                V::D4(u) => self.info.u32(*u),
                V::SecOff(o) => self.info.u32(*o as u32),
                V::Ref(l) => {
                    fix.push((self.info.len(), *l));
                    self.info.u32(0);
                }
                V::Flag => {}
            }
        }
        if !d.children.is_empty() {
            for c in &d.children {
                self.emit_die(c, start, abbrevs, labels, fix);
            }
            self.info.u8(0);
        }
    }

    /// Section name (without leading dot) and contents.
    pub fn sections(mut self) -> Vec<(&'static str, Vec<u8>)> {
        if self.rnglists.len() > 0 {
            let l = (self.rnglists.len() - 4) as u32;
            self.rnglists.patch32(0, l);
        }
        let mut v = vec![
            ("debug_info", self.info.0),
            ("debug_abbrev", self.abbrev.0),
            ("debug_line", self.line.0),
        ];
        if !self.line_str.0.is_empty() {
            v.push(("debug_line_str", self.line_str.0));
        }
        if !self.ranges.0.is_empty() {
            v.push(("debug_ranges", self.ranges.0));
        }
        if !self.rnglists.0.is_empty() {
            v.push(("debug_rnglists", self.rnglists.0));
        }
        v
    }
}
