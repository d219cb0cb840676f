//! A small ELF64 writer.
#![allow(dead_code)]
use crate::dwarf::Buf;

#[derive(Clone, Debug)]
pub struct ElfSym {
    pub name: Vec<u8>,
    pub value: u64,
    pub size: u64,
    /// STT_*: 2 = FUNC, 1 = OBJECT, 0 = NOTYPE
    pub typ: u8,
    /// STB_*: 0 local, 1 global, 2 weak
    pub bind: u8,
    /// index into `Elf::text`, or None for an undefined symbol
    pub sec: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct TextSec {
    pub name: Vec<u8>,
    pub addr: u64,
    pub size: u64,
    pub exec: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Elf {
    pub machine: u16,
    /// ET_*: 2 exec, 3 dyn
    pub etype: u16,
    pub build_id: Option<Vec<u8>>,
    pub soname: Option<Vec<u8>>,
    pub load_vaddr: u64,
    pub text: Vec<TextSec>,
    pub symtab: Vec<ElfSym>,
    pub dynsym: Vec<ElfSym>,
    /// (name, contents, address)
    pub extra: Vec<(Vec<u8>, Vec<u8>, u64)>,
}

pub const EM_X86_64: u16 = 62;
pub const EM_386: u16 = 3;
pub const EM_ARM: u16 = 40;
pub const EM_AARCH64: u16 = 183;

struct Sec {
    name: Vec<u8>,
    typ: u32,
    flags: u64,
    addr: u64,
    data: Vec<u8>,
    size: u64,
    link: u32,
    info: u32,
    entsize: u64,
    align: u64,
}

impl Elf {
    pub fn new() -> Self {
        Elf {
            machine: EM_X86_64,
            etype: 3,
            build_id: Some((1..=20).collect()),
            ..Default::default()
        }
    }

    pub fn text(mut self, addr: u64, size: u64) -> Self {
        self.text.push(TextSec {
            name: b".text".to_vec(),
            addr,
            size,
            exec: true,
        });
        self
    }

    pub fn dwarf(mut self, secs: Vec<(&'static str, Vec<u8>)>) -> Self {
        for (n, d) in secs {
            self.extra.push((format!(".{n}").into_bytes(), d, 0));
        }
        self
    }

    pub fn build(&self) -> Vec<u8> {
        let mut secs: Vec<Sec> = Vec::new();
        let mk = |name: &[u8], typ, flags, addr, data: Vec<u8>| Sec {
            name: name.to_vec(),
            typ,
            flags,
            addr,
            size: data.len() as u64,
            data,
            link: 0,
            info: 0,
            entsize: 0,
            align: 1,
        };
        secs.push(mk(b"", 0, 0, 0, vec![]));
        let text_base = secs.len();
        for t in &self.text {
            let mut s = mk(&t.name, 8, if t.exec { 6 } else { 2 }, t.addr, vec![]);
            s.size = t.size;
            secs.push(s);
        }
        if let Some(id) = &self.build_id {
            let mut b = Buf::default();
            b.u32(4);
            b.u32(id.len() as u32);
            b.u32(3);
            b.bytes(b"GNU\0");
            b.bytes(id);
            b.align(4);
            let mut s = mk(b".note.gnu.build-id", 7, 0, 0, b.0);
            s.align = 4;
            secs.push(s);
        }
        let symsec = |syms: &[ElfSym]| -> (Vec<u8>, Vec<u8>, u32) {
            let mut st = Buf::default();
            st.u8(0);
            let mut b = Buf::default();
            b.bytes(&[0; 24]);
            // locals first, as the format requires; order within a group is kept
            let mut ordered: Vec<&ElfSym> = syms.iter().filter(|s| s.bind == 0).collect();
            let nlocal = ordered.len() as u32 + 1;
            ordered.extend(syms.iter().filter(|s| s.bind != 0));
            for s in ordered {
                let n = if s.name.is_empty() {
                    0
                } else {
                    let n = st.len() as u32;
                    st.cstr(&s.name);
                    n
                };
                b.u32(n);
                b.u8((s.bind << 4) | s.typ);
                b.u8(0);
                b.u16(s.sec.map_or(0, |i| (text_base + i) as u16));
                b.u64(s.value);
                b.u64(s.size);
            }
            (b.0, st.0, nlocal)
        };
        let mut dyn_idx = None;
        if !self.dynsym.is_empty() || self.soname.is_some() {
            let (b, mut st, nlocal) = symsec(&self.dynsym);
            let soname_off = st.len() as u64;
            if let Some(n) = &self.soname {
                st.extend_from_slice(n);
                st.push(0);
            }
            let i = secs.len() as u32;
            let mut s = mk(b".dynsym", 11, 2, 0, b);
            s.link = i + 1;
            s.info = nlocal;
            s.entsize = 24;
            s.align = 8;
            secs.push(s);
            secs.push(mk(b".dynstr", 3, 2, 0, st));
            let mut d = Buf::default();
            if self.soname.is_some() {
                d.u64(14);
                d.u64(soname_off);
            }
            d.u64(5); // DT_STRTAB, patched below
            d.u64(0);
            d.u64(10); // DT_STRSZ
            d.u64(0);
            d.u64(6); // DT_SYMTAB
            d.u64(0);
            d.u64(0);
            d.u64(0);
            let mut s = mk(b".dynamic", 6, 3, 0, d.0);
            s.link = i + 1;
            s.entsize = 16;
            s.align = 8;
            dyn_idx = Some(secs.len());
            secs.push(s);
        }
        if !self.symtab.is_empty() {
            let (b, st, nlocal) = symsec(&self.symtab);
            let i = secs.len() as u32;
            let mut s = mk(b".symtab", 2, 0, 0, b);
            s.link = i + 1;
            s.info = nlocal;
            s.entsize = 24;
            s.align = 8;
            secs.push(s);
            secs.push(mk(b".strtab", 3, 0, 0, st));
        }
        for (n, d, addr) in &self.extra {
            secs.push(mk(n, 1, if *addr != 0 { 2 } else { 0 }, *addr, d.clone()));
        }
        let mut shstr = Buf::default();
        shstr.u8(0);
        let shstr_idx = secs.len();
        secs.push(mk(b".shstrtab", 3, 0, 0, vec![]));
        let mut name_off = Vec::new();
        for s in &secs {
            if s.name.is_empty() {
                name_off.push(0);
            } else {
                name_off.push(shstr.len() as u32);
                shstr.cstr(&s.name);
            }
        }
        secs[shstr_idx].size = shstr.len() as u64;
        secs[shstr_idx].data = shstr.0;

        let nph = if dyn_idx.is_some() { 3 } else { 1 };
        let mut off = 64 + 56 * nph;
        let mut offs = Vec::new();
        for s in &secs {
            let al = s.align as usize;
            off = (off + al - 1) / al * al;
            offs.push(off);
            if s.typ != 8 {
                off += s.data.len();
            }
        }
        let end = off;
        // the file is mapped linearly at META for the dynamic section's sake
        const META: u64 = 0x4000_0000;
        if let Some(d) = dyn_idx {
            let (stroff, strsz, symoff) = (offs[d - 1], secs[d - 1].size, offs[d - 2]);
            for k in [d - 2, d - 1, d] {
                secs[k].addr = META + offs[k] as u64;
            }
            let data = &mut secs[d].data;
            for i in (0..data.len()).step_by(16) {
                let tag = u64::from_le_bytes(data[i..i + 8].try_into().unwrap());
                let v = match tag {
                    5 => META + stroff as u64,
                    10 => strsz,
                    6 => META + symoff as u64,
                    _ => continue,
                };
                data[i + 8..i + 16].copy_from_slice(&v.to_le_bytes());
            }
        }
        let shoff = (end + 7) / 8 * 8;
        let mut b = Buf::default();
        b.bytes(&[0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        b.u16(self.etype);
        b.u16(self.machine);
        b.u32(1);
        b.u64(0);
        b.u64(64);
        b.u64(shoff as u64);
        b.u32(0);
        b.u16(64);
        b.u16(56);
        b.u16(nph as u16);
        b.u16(64);
        b.u16(secs.len() as u16);
        b.u16(shstr_idx as u16);
        let ph = |b: &mut Buf, typ: u32, flags: u32, o: u64, va: u64, fs: u64, ms: u64| {
            b.u32(typ);
            b.u32(flags);
            b.u64(o);
            b.u64(va);
            b.u64(va);
            b.u64(fs);
            b.u64(ms);
            b.u64(1);
        };
        ph(&mut b, 1, 5, 0, self.load_vaddr, 0, 0x3000_0000);
        if let Some(d) = dyn_idx {
            ph(&mut b, 1, 4, 0, META, end as u64, end as u64);
            let (o, s) = (offs[d] as u64, secs[d].size);
            ph(&mut b, 2, 6, o, META + o, s, s);
        }
        for (s, o) in secs.iter().zip(&offs) {
            if s.typ == 8 {
                continue;
            }
            while b.len() < *o {
                b.u8(0);
            }
            b.bytes(&s.data);
        }
        while b.len() < shoff {
            b.u8(0);
        }
        for ((s, o), n) in secs.iter().zip(&offs).zip(&name_off) {
            b.u32(*n);
            b.u32(s.typ);
            b.u64(s.flags);
            b.u64(s.addr);
            b.u64(if s.typ == 0 { 0 } else { *o as u64 });
            b.u64(s.size);
            b.u32(s.link);
            b.u32(s.info);
            b.u64(s.align);
            b.u64(s.entsize);
        }
        b.0
    }
}
