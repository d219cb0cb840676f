//! Calling the code under test.
#![allow(dead_code)]
use crate::ev::guard;
use crate::sym::{parse, Sym};
use dump_syms::object_info::ObjectInfo;
use dump_syms::platform::Platform;

pub fn dump(o: &ObjectInfo) -> Vec<u8> {
    let mut v = Vec::new();
    o.dump(&mut v).expect("dump");
    v
}

pub fn elf_info(buf: &[u8], name: &str, inlines: bool) -> Result<ObjectInfo, String> {
    guard(|| ObjectInfo::from_elf(buf, name, Platform::Linux, None, inlines))?.map_err(|e| format!("error: {e}"))
}

pub fn elf_sym(buf: &[u8], name: &str, inlines: bool) -> Result<Sym, String> {
    let o = elf_info(buf, name, inlines)?;
    let t = guard(|| dump(&o))?;
    parse(&t)
}

pub fn pe_sym(buf: &[u8], name: &str) -> Result<Sym, String> {
    pe_sym_inl(buf, name, false)
}

pub fn pe_sym_inl(buf: &[u8], name: &str, inlines: bool) -> Result<Sym, String> {
    let t = guard(|| -> Result<Vec<u8>, String> {
        let pe = symbolic::debuginfo::pe::PeObject::parse(buf).map_err(|e| format!("error: {e}"))?;
        let o = ObjectInfo::from_pe_with_options(name, pe, None, inlines).map_err(|e| format!("error: {e}"))?;
        Ok(dump(&o))
    })??;
    parse(&t)
}

pub fn pdb_sym(buf: &[u8], name: &str, inlines: bool) -> Result<Sym, String> {
    let t = guard(|| -> Result<Vec<u8>, String> {
        let p = symbolic::debuginfo::pdb::PdbObject::parse(buf).map_err(|e| format!("error: {e}"))?;
        let o = ObjectInfo::from_pdb(p, name, None, None, None, inlines).map_err(|e| format!("error: {e}"))?;
        Ok(dump(&o))
    })??;
    parse(&t)
}

pub fn mach_sym(buf: &[u8], name: &str, arch: &str) -> Result<Sym, String> {
    mach_sym_inl(buf, name, arch, false)
}

pub fn mach_sym_inl(buf: &[u8], name: &str, arch: &str, inlines: bool) -> Result<Sym, String> {
    let a = arch.parse().map_err(|_| "arch".to_string())?;
    let t = guard(|| -> Result<Vec<u8>, String> {
        let o = ObjectInfo::from_macho(buf, name, a, None, inlines).map_err(|e| format!("error: {e}"))?;
        Ok(dump(&o))
    })??;
    parse(&t)
}

/// Runs `f` as nobody: what it creates outside of a scratch directory of its own fails.
pub fn unprivileged<T>(scratch: &std::path::Path, f: impl FnOnce() -> T) -> T {
    const NOBODY: u32 = 65534;
    std::os::unix::fs::chown(scratch, Some(NOBODY), Some(NOBODY)).expect("chown");
    unsafe {
        if libc::geteuid() != 0 {
            return f();
        }
        assert_eq!(libc::setresgid(NOBODY, NOBODY, 0), 0, "setresgid");
        assert_eq!(libc::setresuid(NOBODY, NOBODY, 0), 0, "setresuid");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        assert_eq!(libc::setresuid(0, 0, 0), 0, "setresuid");
        assert_eq!(libc::setresgid(0, 0, 0), 0, "setresgid");
        match r {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

/// All files and directories below `dir`, relative, sorted, with the contents of files.
pub fn tree(dir: &std::path::Path) -> std::collections::BTreeMap<String, Option<Vec<u8>>> {
    fn walk(root: &std::path::Path, d: &std::path::Path, out: &mut std::collections::BTreeMap<String, Option<Vec<u8>>>) {
        let rd = match std::fs::read_dir(d) {
            Ok(r) => r,
            Err(_) => return,
        };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            if e.file_type().map_or(false, |t| t.is_dir()) {
                out.insert(rel, None);
                walk(root, &p, out);
            } else {
                out.insert(rel, Some(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut m = std::collections::BTreeMap::new();
    walk(dir, dir, &mut m);
    m
}
