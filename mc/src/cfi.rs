//! .eh_frame / .debug_frame writer.
use crate::dwarf::Buf;

/// In the steps: an instruction that makes the entry unreadable.
pub const BROKEN: u64 = u64::MAX;

/// One procedure: address, size, and the CFA offsets it goes through (at +1, +2, ...).
#[derive(Clone, Debug, Default)]
pub struct Fde {
    pub addr: u64,
    pub size: u64,
    pub steps: Vec<u64>,
}

/// `at`: address of the section; `eh`: .eh_frame, else .debug_frame
pub fn frame(at: u64, fdes: &[Fde], eh: bool) -> Vec<u8> {
    let mut b = Buf::default();
    let pad = |b: &mut Buf, start: usize| {
        while (b.len() - start) % 8 != 4 {
            b.u8(0);
        }
        let l = (b.len() - start) as u32;
        b.patch32(start - 4, l);
    };
    b.u32(0);
    let s = b.len();
    b.u32(if eh { 0 } else { 0xffff_ffff });
    b.u8(1);
    b.cstr(if eh { b"zR" } else { b"" });
    b.uleb(1);
    b.sleb(-8);
    b.u8(16);
    if eh {
        b.uleb(1);
        b.u8(0x1b);
    }
    b.bytes(&[0x0c, 7, 8, 0x90, 1]); // def_cfa rsp+8; ra at cfa-8
    pad(&mut b, s);
    for f in fdes {
        b.u32(0);
        let s = b.len();
        b.u32(if eh { s as u32 } else { 0 });
        if eh {
            let here = at + b.len() as u64;
            b.u32(f.addr.wrapping_sub(here) as u32);
            b.u32(f.size as u32);
            b.uleb(0);
        } else {
            b.u64(f.addr);
            b.u64(f.size);
        }
        for o in &f.steps {
            if *o == BROKEN {
                b.u8(0x0b); // restore_state without a state
                continue;
            }
            b.u8(0x41); // advance_loc 1
            b.u8(0x0e);
            b.uleb(*o);
        }
        pad(&mut b, s);
    }
    if eh {
        b.u32(0);
    }
    b.0
}

/// The records such a frame has to give, relative to the load address: those up to the first
/// unreadable entry.
pub fn records(fdes: &[Fde], load: u64) -> Vec<String> {
    let mut v = vec![];
    for f in fdes.iter().take_while(|f| !f.steps.contains(&BROKEN)) {
        v.push(format!("STACK CFI INIT {:x} {:x} .cfa: $rsp 8 + .ra: .cfa -8 + ^", f.addr - load, f.size));
        for (i, o) in f.steps.iter().enumerate() {
            v.push(format!("STACK CFI {:x} .cfa: $rsp {o} +", f.addr - load + 1 + i as u64));
        }
    }
    v
}
