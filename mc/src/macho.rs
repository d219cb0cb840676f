//! A small 64-bit Mach-O writer and universal-binary wrapper.
#![allow(dead_code)]
use crate::dwarf::Buf;

#[derive(Clone, Debug)]
pub struct Mach {
    pub cputype: u32,
    pub cpusub: u32,
    pub uuid: Option<[u8; 16]>,
    /// LC_ID_DYLIB
    pub dylib: Option<Vec<u8>>,
    pub text_addr: u64,
    pub text_size: u64,
    /// (name, address)
    pub syms: Vec<(Vec<u8>, u64)>,
    /// DWARF sections, names without prefix ("debug_info")
    pub dwarf: Vec<(&'static str, Vec<u8>)>,
}

pub const X86_64: u32 = 0x0100_0007;
pub const ARM64: u32 = 0x0100_000c;

impl Default for Mach {
    fn default() -> Self {
        Mach {
            cputype: X86_64,
            cpusub: 3,
            uuid: Some([0x11; 16]),
            dylib: None,
            text_addr: 0x1_0000_0000,
            text_size: 0x10000,
            syms: vec![],
            dwarf: vec![],
        }
    }
}

impl Mach {
    pub fn build(&self) -> Vec<u8> {
        let nm = |s: &str| {
            let mut n = [0u8; 16];
            n[..s.len()].copy_from_slice(s.as_bytes());
            n
        };
        let mut ncmds = 1;
        let mut size = 72 + 80;
        if self.uuid.is_some() {
            ncmds += 1;
            size += 24;
        }
        let dl = self.dylib.as_ref().map(|d| (24 + d.len() + 1 + 7) / 8 * 8);
        if let Some(l) = dl {
            ncmds += 1;
            size += l;
        }
        if !self.dwarf.is_empty() {
            ncmds += 1;
            size += 72 + 80 * self.dwarf.len();
        }
        if !self.syms.is_empty() {
            ncmds += 1;
            size += 24;
        }
        let data_off = 32 + size;
        let mut data = Buf::default();
        let mut b = Buf::default();
        b.u32(0xfeed_facf);
        b.u32(self.cputype);
        b.u32(self.cpusub);
        b.u32(if self.dylib.is_some() { 6 } else { 2 });
        b.u32(ncmds);
        b.u32(size as u32);
        b.u32(0x85);
        b.u32(0);
        let seg = |b: &mut Buf, name: &str, addr: u64, vs: u64, off: u64, fs: u64, n: usize| {
            b.u32(0x19);
            b.u32((72 + 80 * n) as u32);
            b.bytes(&nm(name));
            b.u64(addr);
            b.u64(vs);
            b.u64(off);
            b.u64(fs);
            b.u32(7);
            b.u32(5);
            b.u32(n as u32);
            b.u32(0);
        };
        let sect = |b: &mut Buf, name: &str, sg: &str, addr: u64, sz: u64, off: u32, fl: u32| {
            b.bytes(&nm(name));
            b.bytes(&nm(sg));
            b.u64(addr);
            b.u64(sz);
            b.u32(off);
            b.u32(0);
            b.u32(0);
            b.u32(0);
            b.u32(fl);
            b.u32(0);
            b.u32(0);
            b.u32(0);
        };
        seg(&mut b, "__TEXT", self.text_addr, self.text_size, 0, 0, 1);
        // zero-fill: takes no room in the file
        sect(&mut b, "__text", "__TEXT", self.text_addr + 0x100, self.text_size - 0x100, 0, 0x8000_0001);
        if let Some(u) = &self.uuid {
            b.u32(0x1b);
            b.u32(24);
            b.bytes(u);
        }
        if let (Some(n), Some(l)) = (&self.dylib, dl) {
            let at = b.len();
            b.u32(0xd);
            b.u32(l as u32);
            b.u32(24);
            b.u32(1);
            b.u32(1);
            b.u32(1);
            b.cstr(n);
            while b.len() < at + l {
                b.u8(0);
            }
        }
        if !self.dwarf.is_empty() {
            let tot: usize = self.dwarf.iter().map(|d| d.1.len()).sum();
            let addr = self.text_addr + self.text_size;
            seg(&mut b, "__DWARF", addr, tot as u64, data_off as u64, tot as u64, self.dwarf.len());
            let mut a = addr;
            for (n, d) in &self.dwarf {
                sect(&mut b, &format!("__{n}"), "__DWARF", a, d.len() as u64, (data_off + data.len()) as u32, 0x0200_0000);
                data.bytes(d);
                a += d.len() as u64;
            }
        }
        if !self.syms.is_empty() {
            let mut st = Buf::default();
            st.u8(b' ');
            st.u8(0);
            let symoff = data_off + data.len();
            for (n, a) in &self.syms {
                data.u32(st.len() as u32);
                data.u8(0xf);
                data.u8(1);
                data.u16(0);
                data.u64(*a);
                st.cstr(n);
            }
            let stroff = data_off + data.len();
            data.bytes(&st.0);
            b.u32(2);
            b.u32(24);
            b.u32(symoff as u32);
            b.u32(self.syms.len() as u32);
            b.u32(stroff as u32);
            b.u32(st.len() as u32);
        }
        assert_eq!(b.len(), data_off);
        b.bytes(&data.0);
        b.0
    }
}

/// (cputype, cpusubtype, contents)
pub fn fat(objs: &[(u32, u32, Vec<u8>)]) -> Vec<u8> {
    let be = |v: u32| v.to_be_bytes();
    let mut b = Buf::default();
    b.bytes(&be(0xcafe_babe));
    b.bytes(&be(objs.len() as u32));
    let mut off = 0x1000;
    for (c, s, d) in objs {
        b.bytes(&be(*c));
        b.bytes(&be(*s));
        b.bytes(&be(off as u32));
        b.bytes(&be(d.len() as u32));
        b.bytes(&be(12));
        off = (off + d.len() + 0xfff) / 0x1000 * 0x1000;
    }
    for (_, _, d) in objs {
        b.align(0x1000);
        b.bytes(d);
    }
    b.0
}
