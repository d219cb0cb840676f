//! A small PDB (MSF 7.00) writer: procedures with line tables and inline sites, public symbols,
//! frame data.
#![allow(dead_code)]
use crate::dwarf::Buf;

#[derive(Clone, Debug, Default)]
pub struct Site {
    /// index into Pdb::inlinees
    pub inlinee: usize,
    /// (offset from the start of the procedure, length, file, line)
    pub lines: Vec<(u32, u32, usize, u32)>,
    pub kids: Vec<Site>,
}

#[derive(Clone, Debug, Default)]
pub struct Proc {
    pub name: Vec<u8>,
    /// section, from 1
    pub seg: u16,
    pub off: u32,
    pub size: u32,
    pub local: bool,
    /// (offset from the start of the procedure, file, line), by offset
    pub lines: Vec<(u32, usize, u32)>,
    /// code size of the line subsection
    pub lines_size: u32,
    pub sites: Vec<Site>,
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub start: u32,
    pub size: u32,
    pub locals: u32,
    pub params: u32,
    pub prolog: u16,
    pub program: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Pdb {
    pub machine: u16,
    pub guid: [u8; 16],
    /// in the DBI stream: the one that has to match the executable's
    pub age: u32,
    /// in the PDB stream: bumped by tools that modify the file
    pub pdb_age: u32,
    /// (name, address, size, characteristics)
    pub sections: Vec<(&'static [u8], u32, u32, u32)>,
    /// (name, section from 1, offset, flags (2: function))
    pub publics: Vec<(Vec<u8>, u16, u32, u32)>,
    pub modules: Vec<Vec<Proc>>,
    pub files: Vec<Vec<u8>>,
    /// (name, file, line)
    pub inlinees: Vec<(Vec<u8>, usize, u32)>,
    pub frames: Vec<Frame>,
    pub page: usize,
    /// every range of an inline site has its length; otherwise it ends where the next one starts
    pub explicit_len: bool,
}

pub const TEXT_RX: u32 = 0x6000_0020;
pub const DATA_R: u32 = 0x4000_0040;

impl Default for Pdb {
    fn default() -> Self {
        Pdb {
            machine: 0x8664,
            guid: [0; 16],
            age: 1,
            pdb_age: 1,
            sections: vec![(b".text", 0x1000, 0xf_f000, TEXT_RX), (b".rdata", 0x10_0000, 0x1000, DATA_R)],
            publics: vec![],
            modules: vec![],
            files: vec![],
            inlinees: vec![],
            frames: vec![],
            page: 0x1000,
            explicit_len: false,
        }
    }
}

fn cu(b: &mut Buf, v: u32) {
    if v < 0x80 {
        b.u8(v as u8);
    } else if v < 0x4000 {
        b.u8(0x80 | (v >> 8) as u8);
        b.u8(v as u8);
    } else {
        b.u8(0xc0 | (v >> 24) as u8);
        b.u8((v >> 16) as u8);
        b.u8((v >> 8) as u8);
        b.u8(v as u8);
    }
}

fn cs(b: &mut Buf, v: i64) {
    cu(b, if v >= 0 { (v as u32) << 1 } else { ((-v) as u32) << 1 | 1 });
}

impl Pdb {
    fn record(b: &mut Buf, kind: u16, body: &[u8]) -> usize {
        let at = b.len();
        let len = (2 + body.len() + 2 + 3) / 4 * 4 - 2;
        b.u16(len as u16);
        b.u16(kind);
        b.bytes(body);
        while b.len() < at + 2 + len {
            b.u8(0);
        }
        at
    }

    fn site(&self, b: &mut Buf, s: &Site, parent: usize) {
        let mut r = Buf::default();
        r.u32(parent as u32);
        r.u32(0);
        r.u32(0x1000 + s.inlinee as u32);
        let (_, f0, l0) = self.inlinees[s.inlinee];
        let (mut f, mut l, mut at) = (f0, l0 as i64, 0u32);
        for (i, (off, len, file, line)) in s.lines.iter().enumerate() {
            if *file != f {
                r.u8(5);
                cu(&mut r, 8 * *file as u32);
                f = *file;
            }
            if *line as i64 != l {
                r.u8(6);
                cs(&mut r, *line as i64 - l);
                l = *line as i64;
            }
            r.u8(3);
            cu(&mut r, off - at);
            at = *off;
            if self.explicit_len || s.lines.get(i + 1).map_or(true, |n| n.0 != off + len) {
                r.u8(4);
                cu(&mut r, *len);
                at += len;
            }
        }
        let start = Self::record(b, 0x114d, &r.0);
        for k in &s.kids {
            self.site(b, k, start);
        }
        let end = Self::record(b, 0x114e, &[]);
        b.patch32(start + 8, end as u32);
    }

    /// (symbols, C13 lines)
    fn module(&self, procs: &[Proc], names: &[u32]) -> (Vec<u8>, Vec<u8>) {
        let mut b = Buf::default();
        b.u32(4);
        for p in procs {
            let mut r = Buf::default();
            r.u32(0);
            r.u32(0);
            r.u32(0);
            r.u32(p.size);
            r.u32(0);
            r.u32(p.size);
            r.u32(0);
            r.u32(p.off);
            r.u16(p.seg);
            r.u8(0);
            r.cstr(&p.name);
            let start = Self::record(&mut b, if p.local { 0x110f } else { 0x1110 }, &r.0);
            for s in &p.sites {
                self.site(&mut b, s, start);
            }
            let end = Self::record(&mut b, 6, &[]);
            b.patch32(start + 8, end as u32);
        }
        let mut c = Buf::default();
        let sub = |c: &mut Buf, kind: u32, d: &[u8]| {
            c.u32(kind);
            c.u32(d.len() as u32);
            c.bytes(d);
            assert!(d.len() % 4 == 0);
        };
        let mut d = Buf::default();
        for n in names {
            d.u32(*n);
            d.u8(0);
            d.u8(0);
            d.u16(0);
        }
        sub(&mut c, 0xf4, &d.0);
        if !self.inlinees.is_empty() {
            let mut d = Buf::default();
            d.u32(0);
            for (i, (_, f, l)) in self.inlinees.iter().enumerate() {
                d.u32(0x1000 + i as u32);
                d.u32(8 * *f as u32);
                d.u32(*l);
            }
            sub(&mut c, 0xf6, &d.0);
        }
        for p in procs.iter().filter(|p| !p.lines.is_empty()) {
            let mut d = Buf::default();
            d.u32(p.off);
            d.u16(p.seg);
            d.u16(0);
            d.u32(p.lines_size);
            let mut i = 0;
            while i < p.lines.len() {
                let f = p.lines[i].1;
                let n = p.lines[i..].iter().take_while(|x| x.1 == f).count();
                d.u32(8 * f as u32);
                d.u32(n as u32);
                d.u32(12 + 8 * n as u32);
                for x in &p.lines[i..i + n] {
                    d.u32(x.0);
                    d.u32(x.2 | 0x8000_0000);
                }
                i += n;
            }
            sub(&mut c, 0xf2, &d.0);
        }
        (b.0, c.0)
    }

    pub fn build(&self) -> Vec<u8> {
        let mut strs: Vec<u8> = vec![0];
        let mut names = vec![];
        for f in &self.files {
            names.push(strs.len() as u32);
            strs.extend_from_slice(f);
            strs.push(0);
        }
        let mut progs = vec![];
        for f in &self.frames {
            progs.push(f.program.as_ref().map(|p| {
                let o = strs.len() as u32;
                strs.extend_from_slice(p);
                strs.push(0);
                o
            }));
        }
        while strs.len() % 4 != 0 {
            strs.push(0);
        }
        let mut nm = Buf::default();
        nm.u32(0xeffe_effe);
        nm.u32(1);
        nm.u32(strs.len() as u32);
        nm.bytes(&strs);
        nm.u32(1);
        nm.u32(0);
        nm.u32(self.files.len() as u32);

        let mut info = Buf::default();
        info.u32(20000404);
        info.u32(0x1234_5678);
        info.u32(self.pdb_age);
        info.bytes(&self.guid);
        info.u32(8);
        info.bytes(b"/names\0\0");
        info.u32(1);
        info.u32(2);
        info.u32(1);
        info.u32(1);
        info.u32(0);
        info.u32(0);
        info.u32(5);
        info.u32(0);

        let types = |recs: &[u8], n: u32| {
            let mut b = Buf::default();
            b.u32(20040203);
            b.u32(56);
            b.u32(0x1000);
            b.u32(0x1000 + n);
            b.u32(recs.len() as u32);
            b.u16(0xffff);
            b.u16(0xffff);
            b.u32(4);
            b.u32(0x3ffff);
            for _ in 0..6 {
                b.u32(0);
            }
            b.bytes(recs);
            b.0
        };
        // 0x1000: no arguments, 0x1001: void ()
        let mut tys = Buf::default();
        Self::record(&mut tys, 0x1201, &[0; 4]);
        Self::record(&mut tys, 0x1008, &[3, 0, 0, 0, 0, 0, 0, 0, 0, 0x10, 0, 0]);
        let tpi = types(&tys.0, 2);
        let mut ids = Buf::default();
        for (n, _, _) in &self.inlinees {
            let mut r = Buf::default();
            r.u32(0);
            r.u32(0x1001);
            r.cstr(n);
            Self::record(&mut ids, 0x1601, &r.0);
        }
        let ipi = types(&ids.0, self.inlinees.len() as u32);

        let mut recs = Buf::default();
        for (n, seg, off, fl) in &self.publics {
            let mut r = Buf::default();
            r.u32(*fl);
            r.u32(*off);
            r.u16(*seg);
            r.cstr(n);
            Self::record(&mut recs, 0x110e, &r.0);
        }
        let mut sec = Buf::default();
        for (n, va, size, fl) in &self.sections {
            let mut x = [0u8; 8];
            x[..n.len()].copy_from_slice(n);
            sec.bytes(&x);
            sec.u32(*size);
            sec.u32(*va);
            sec.u32(*size);
            sec.u32(0);
            sec.u32(0);
            sec.u32(0);
            sec.u32(0);
            sec.u32(*fl);
        }
        let mut streams: Vec<Vec<u8>> = vec![vec![], info.0, tpi, vec![], ipi, nm.0, recs.0, sec.0];
        let mut mods = Buf::default();
        for (i, m) in self.modules.iter().enumerate() {
            let (s, c) = self.module(m, &names);
            mods.u32(0);
            // section contribution
            mods.u16(1);
            mods.u16(0);
            mods.u32(0);
            mods.u32(0x1000);
            mods.u32(TEXT_RX);
            mods.u16(i as u16);
            mods.u16(0);
            mods.u32(0);
            mods.u32(0);
            mods.u16(0);
            mods.u16(streams.len() as u16);
            mods.u32(s.len() as u32);
            mods.u32(0);
            mods.u32(c.len() as u32);
            mods.u16(0);
            mods.u16(0);
            mods.u32(0);
            mods.u32(0);
            mods.u32(0);
            mods.cstr(format!("m{i}.obj").as_bytes());
            mods.cstr(format!("m{i}.obj").as_bytes());
            mods.align(4);
            let mut st = s;
            st.extend_from_slice(&c);
            st.extend_from_slice(&[0; 4]); // global refs
            streams.push(st);
        }
        let mut frame_stream = 0xffff;
        if !self.frames.is_empty() {
            let mut b = Buf::default();
            for (f, p) in self.frames.iter().zip(&progs) {
                b.u32(f.start);
                b.u32(f.size);
                b.u32(f.locals);
                b.u32(f.params);
                b.u32(0);
                b.u32(p.unwrap_or(0));
                b.u16(f.prolog);
                b.u16(0);
                b.u32(4);
            }
            frame_stream = streams.len() as u16;
            streams.push(b.0);
        }
        // section contributions: none, but the version is expected
        let mut contrib = Buf::default();
        contrib.u32(0xeffe_0000 + 19970605);
        let mut dbi = Buf::default();
        dbi.u32(0xffff_ffff);
        dbi.u32(19990903);
        dbi.u32(self.age);
        dbi.u16(0xffff);
        dbi.u16(0x8e00);
        dbi.u16(0xffff);
        dbi.u16(0);
        dbi.u16(6);
        dbi.u16(0);
        dbi.u32(mods.len() as u32);
        dbi.u32(contrib.len() as u32);
        dbi.u32(0);
        dbi.u32(0);
        dbi.u32(0);
        dbi.u32(0);
        dbi.u32(22);
        dbi.u32(0);
        dbi.u16(0);
        dbi.u16(self.machine);
        dbi.u32(0);
        dbi.bytes(&mods.0);
        dbi.bytes(&contrib.0);
        for i in 0..11u16 {
            dbi.u16(match i {
                5 => 7,
                9 => frame_stream,
                _ => 0xffff,
            });
        }
        streams[3] = dbi.0;

        // MSF
        let page = self.page;
        let need = |n: usize| (n + page - 1) / page;
        let mut dir = Buf::default();
        dir.u32(streams.len() as u32);
        for s in &streams {
            dir.u32(s.len() as u32);
        }
        let mut next = 3u32; // superblock, two free maps
        let mut data = vec![];
        for s in &streams {
            for k in 0..need(s.len()) {
                dir.u32(next);
                next += 1;
                let mut pg = s[k * page..((k + 1) * page).min(s.len())].to_vec();
                pg.resize(page, 0);
                data.extend_from_slice(&pg);
            }
        }
        let ndir = need(dir.len());
        let mut list = Buf::default();
        for _ in 0..ndir {
            list.u32(next);
            next += 1;
        }
        let mut d = dir.0.clone();
        d.resize(ndir * page, 0);
        data.extend_from_slice(&d);
        assert!(list.len() <= page);
        let mut l = list.0;
        l.resize(page, 0);
        data.extend_from_slice(&l);
        let mut b = Buf::default();
        b.bytes(b"Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0");
        b.u32(page as u32);
        b.u32(1);
        b.u32(next + 1);
        b.u32(dir.len() as u32);
        b.u32(0);
        b.u32(next);
        b.0.resize(3 * page, 0);
        b.bytes(&data);
        b.0
    }
}
