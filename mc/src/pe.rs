//! A small PE32/PE32+ writer: exports, unwind table, CodeView record, extra sections.
#![allow(dead_code)]
use crate::dwarf::Buf;

#[derive(Clone, Debug)]
pub struct Pe {
    /// 0x8664 or 0x14c
    pub machine: u16,
    pub timestamp: u32,
    pub image_size: u32,
    /// (guid as stored, age, pdb file name)
    pub codeview: Option<([u8; 16], u32, Vec<u8>)>,
    /// (name, rva), in table order
    pub exports: Vec<(Vec<u8>, u32)>,
    /// (begin, end), in table order
    /// entries of this length have no readable unwind information
    pub pdata: Vec<(u32, u32)>,
    pub extra: Vec<(Vec<u8>, Vec<u8>)>,
}

impl Default for Pe {
    fn default() -> Self {
        Pe {
            machine: 0x8664,
            timestamp: 0x5000_0001,
            image_size: 0x20_0000,
            codeview: None,
            exports: vec![],
            pdata: vec![],
            extra: vec![],
        }
    }
}

const RDATA: u32 = 0x10_0000;

impl Pe {
    /// Length of an entry of the unwind table whose unwind information is out of the file.
    pub const BROKEN: u32 = 0xbad;
    pub const BASE: u64 = 0x1_8000_0000;
    pub fn dwarf(mut self, secs: Vec<(&'static str, Vec<u8>)>) -> Self {
        for (n, d) in secs {
            self.extra.push((format!(".{n}").into_bytes(), d));
        }
        self
    }
    pub fn build(&self) -> Vec<u8> {
        let plus = self.machine == 0x8664;
        let mut d = Buf::default();
        let rva = |b: &Buf| RDATA + b.len() as u32;
        // unwind info: version 1, prolog of 1 byte, 1 code: push rbp
        let unwind = rva(&d);
        d.bytes(&[1, 1, 1, 0, 1, 0x50, 0, 0]);
        let mut dirs = [(0u32, 0u32); 16];
        if !self.pdata.is_empty() {
            let p = rva(&d);
            for (b, e) in &self.pdata {
                d.u32(*b);
                d.u32(*e);
                d.u32(if e.wrapping_sub(*b) == Pe::BROKEN { 0x7fff_0000 } else { unwind });
            }
            dirs[3] = (p, 12 * self.pdata.len() as u32);
        }
        let mut cv = None;
        if let Some((guid, age, name)) = &self.codeview {
            let at = d.len();
            d.bytes(b"RSDS");
            d.bytes(guid);
            d.u32(*age);
            d.bytes(name);
            d.u8(0);
            let size = (d.len() - at) as u32;
            d.align(4);
            let p = rva(&d);
            cv = Some((at, d.len()));
            d.u32(0);
            d.u32(self.timestamp);
            d.u16(0);
            d.u16(0);
            d.u32(2);
            d.u32(size);
            d.u32(RDATA + at as u32);
            d.u32(0); // file offset, patched
            dirs[6] = (p, 28);
        }
        if !self.exports.is_empty() {
            let p = rva(&d);
            let n = self.exports.len() as u32;
            let addr = p + 40;
            let names = addr + 4 * n;
            let ords = names + 4 * n;
            let mut strs = ords + 2 * n;
            let mut sb = Buf::default();
            let dllname = strs;
            sb.cstr(b"x.dll");
            strs += 6;
            let mut offs = vec![];
            for (nm, _) in &self.exports {
                offs.push(strs);
                sb.cstr(nm);
                strs += nm.len() as u32 + 1;
            }
            d.u32(0);
            d.u32(self.timestamp);
            d.u32(0);
            d.u32(dllname);
            d.u32(1);
            d.u32(n);
            d.u32(n);
            d.u32(addr);
            d.u32(names);
            d.u32(ords);
            for (_, r) in &self.exports {
                d.u32(*r);
            }
            for o in &offs {
                d.u32(*o);
            }
            for i in 0..n {
                d.u16(i as u16);
            }
            d.bytes(&sb.0);
            dirs[0] = (p, strs - p);
        }
        d.align(0x200);
        let nsec = 2 + self.extra.len();
        let opt_size = if plus { 240 } else { 224 };
        let hdr_size = (64 + 4 + 20 + opt_size + 40 * nsec + 0x1ff) / 0x200 * 0x200;
        let raw = hdr_size as u32;
        if let Some((at, dir)) = cv {
            let off = raw + at as u32;
            d.0[dir + 24..dir + 28].copy_from_slice(&off.to_le_bytes());
        }
        // section names longer than 8 bytes are in the string table behind the (empty) symbol table
        let mut strtab: Vec<u8> = vec![0; 4];
        let mut names: Vec<Vec<u8>> = vec![];
        for (n, _) in &self.extra {
            if n.len() <= 8 {
                names.push(n.to_vec());
            } else {
                names.push(format!("/{}", strtab.len()).into_bytes());
                strtab.extend_from_slice(n);
                strtab.push(0);
            }
        }
        let l = strtab.len() as u32;
        strtab[..4].copy_from_slice(&l.to_le_bytes());
        let data_end: u32 = raw
            + d.len() as u32
            + self.extra.iter().map(|(_, x)| (x.len() as u32 + 0x1ff) / 0x200 * 0x200).sum::<u32>();
        let mut b = Buf::default();
        b.bytes(b"MZ");
        while b.len() < 60 {
            b.u8(0);
        }
        b.u32(64);
        b.bytes(b"PE\0\0");
        b.u16(self.machine);
        b.u16(nsec as u16);
        b.u32(self.timestamp);
        b.u32(if l > 4 { data_end } else { 0 });
        b.u32(0);
        b.u16(opt_size as u16);
        b.u16(0x2022);
        let start = b.len();
        b.u16(if plus { 0x20b } else { 0x10b });
        b.u16(14);
        b.u32(0x1000);
        b.u32(d.len() as u32);
        b.u32(0);
        b.u32(0x1000);
        b.u32(0x1000);
        if plus {
            b.u64(0x1_8000_0000);
        } else {
            b.u32(RDATA);
            b.u32(0x1000_0000);
        }
        b.u32(0x1000);
        b.u32(0x200);
        for v in [6u16, 0, 0, 0, 6, 0] {
            b.u16(v);
        }
        b.u32(0);
        b.u32(self.image_size);
        b.u32(hdr_size as u32);
        b.u32(0);
        b.u16(2);
        b.u16(0);
        for _ in 0..4 {
            if plus {
                b.u64(0x1000);
            } else {
                b.u32(0x1000);
            }
        }
        b.u32(0);
        b.u32(16);
        for (r, s) in dirs {
            b.u32(r);
            b.u32(s);
        }
        assert_eq!(b.len() - start, opt_size);
        let sec = |b: &mut Buf, name: &[u8], vs: u32, va: u32, rs: u32, rp: u32, fl: u32| {
            let mut n = [0u8; 8];
            n[..name.len()].copy_from_slice(name);
            b.bytes(&n);
            b.u32(vs);
            b.u32(va);
            b.u32(rs);
            b.u32(rp);
            b.u32(0);
            b.u32(0);
            b.u32(0);
            b.u32(fl);
        };
        sec(&mut b, b".text", RDATA - 0x1000, 0x1000, 0, 0, 0x6000_0020);
        sec(&mut b, b".rdata", d.len() as u32, RDATA, d.len() as u32, raw, 0x4000_0040);
        let mut off = raw + d.len() as u32;
        let mut va = RDATA + 0x10_0000;
        for (n, (_, data)) in names.iter().zip(&self.extra) {
            let rs = (data.len() as u32 + 0x1ff) / 0x200 * 0x200;
            sec(&mut b, n, data.len() as u32, va, rs, off, 0x4200_0040);
            off += rs;
            va += rs.max(0x10_0000);
        }
        while b.len() < hdr_size {
            b.u8(0);
        }
        b.bytes(&d.0);
        for (_, data) in &self.extra {
            b.bytes(data);
            b.align(0x200);
        }
        if l > 4 {
            assert_eq!(b.len(), data_end as usize);
            b.bytes(&strtab);
        }
        b.0
    }
}
