//! C05: every operation on an output failing, cut short or interrupted.
use crate::cli::{self, Inject, Op};
use crate::elf::*;
use crate::ev::*;
use crate::util::tree;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Default,
    Dash,
    File,
    Store,
    FileStore,
    DashStore,
}
use Out::*;
impl Out {
    fn file(&self) -> bool {
        matches!(self, File | FileStore)
    }
    fn stdout(&self) -> bool {
        matches!(self, Default | Dash | DashStore)
    }
    fn store(&self) -> bool {
        matches!(self, Store | FileStore | DashStore)
    }
}

fn object(id: u8, names: usize, pad: usize) -> Vec<u8> {
    let mut e = Elf::new();
    e.build_id = Some((0..20).map(|i| i ^ id).collect());
    e = e.text(0x1000, 0x8000);
    for i in 0..names {
        let mut n = format!("fun_{i}_");
        n += &"x".repeat(if i == 0 { pad } else { 60 });
        e.symtab.push(ElfSym {
            name: n.into_bytes(),
            value: 0x1000 + 16 * i as u64,
            size: 16,
            typ: 2,
            bind: 1,
            sec: Some(0),
        });
    }
    e.build()
}

struct Setup {
    files: Vec<String>,
    jobs: u32,
    out: Out,
    /// outputs exist already, and are longer
    old: bool,
    texts: Vec<Vec<u8>>,
    store: Vec<String>,
}

const JUNK: usize = 60000;

impl Setup {
    fn args(&self, dir: &Path, inputs: &Path) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        let p = |s: &str| dir.join(s).to_str().unwrap().to_string();
        if self.out.file() {
            a.extend(["-o".into(), p("o/out.sym")]);
        }
        if matches!(self.out, Dash | DashStore) {
            a.extend(["-o".into(), "-".into()]);
        }
        if self.out.store() {
            a.extend(["-s".into(), p("o/store")]);
        }
        a.extend(["-j".into(), self.jobs.to_string()]);
        a.extend(self.files.iter().map(|f| inputs.join(f).to_str().unwrap().to_string()));
        a
    }
    fn prepare(&self, dir: &Path) {
        let _ = std::fs::remove_dir_all(dir.join("o"));
        std::fs::create_dir_all(dir.join("o")).unwrap();
        if self.old {
            let junk = vec![b'#'; JUNK];
            if self.out.file() {
                std::fs::write(dir.join("o/out.sym"), &junk).unwrap();
            }
            if self.out.store() {
                for s in &self.store {
                    let p = dir.join("o/store").join(s);
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::fs::write(p, &junk).unwrap();
                }
            }
        }
    }
    /// the outputs are complete
    fn complete(&self, dir: &Path, stdout: &[u8]) -> Result<(), String> {
        let t = tree(&dir.join("o"));
        if self.out.file() {
            let f = t.get("out.sym").cloned().flatten().ok_or("no output file")?;
            if !self.texts.iter().any(|t| *t == f) {
                return Err(format!("the output file has {} bytes: not the complete text of a module", f.len()));
            }
        }
        if self.out.stdout() && stdout != self.texts.concat() {
            return Err(format!("standard output has {} bytes of {}", stdout.len(), self.texts.concat().len()));
        }
        if self.out.store() {
            for (s, text) in self.store.iter().zip(&self.texts) {
                let f = t.get(&format!("store/{s}")).cloned().flatten().ok_or(format!("{s} isn't in the store"))?;
                if f != *text {
                    return Err(format!("{s} in the store has {} bytes of {}", f.len(), text.len()));
                }
            }
        }
        Ok(())
    }
}

/// (what, harmless) for an operation
fn faults(op: &Op) -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = vec![];
    for e in [libc::EIO, libc::ENOSPC, libc::EACCES] {
        v.push((format!("err:{e}"), false));
    }
    match op.name.as_str() {
        "write" | "pwrite" => {
            v.push((format!("err:{}", libc::EINTR), true));
            v.push(("zero".into(), false));
            v.push((format!("err:{}", libc::EPIPE), false));
            v.push(("short:1".into(), true));
            if op.len > 3 {
                v.push(("short:-1".into(), true));
                v.push(("short:-2".into(), true));
            }
        }
        "create" => v.push((format!("err:{}", libc::EINTR), true)),
        _ => (),
    }
    v
}

pub fn c05(cx: &mut Ctx) {
    cx.level = "fault_enumeration";
    let t = cx.thorough;
    let dir = Scratch::new("C05");
    let inputs = dir.p("in");
    std::fs::create_dir_all(&inputs).unwrap();
    std::fs::create_dir_all(dir.p("home")).unwrap();
    let put = |name: &str, b: Vec<u8>| std::fs::write(inputs.join(name), b).unwrap();
    let reference = |name: &str| -> Vec<u8> {
        let tmp = Scratch::new("C05ref");
        let r = cli::run(&[inputs.join(name).to_str().unwrap().to_string()], &dir.0, &dir.p("home"), None, &tmp.0);
        assert_eq!(r.code, Some(0), "{}", r.stderr);
        assert!(r.stdout.starts_with(b"MODULE"));
        r.stdout
    };
    // texts of chosen lengths around the size of a write buffer
    let mut lens = vec![8191usize, 8192, 8193, 16384];
    if t {
        lens.extend([8190, 8194, 16383, 16385, 65536]);
    }
    put("small.so", object(1, 3, 5));
    put("other.so", object(2, 2, 9));
    put("big.so", object(3, 300, 5));
    let mut names = vec!["small.so".to_string(), "big.so".into()];
    for l in &lens {
        let n = format!("l{l}.so");
        let k = l / 120;
        put(&n, object((l % 251) as u8, k, 5));
        let have = reference(&n).len();
        assert!(have < *l, "{have} {l}");
        put(&n, object((l % 251) as u8, k, 5 + l - have));
        assert_eq!(reference(&n).len(), *l);
        names.push(n);
    }
    let mut texts: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for n in names.iter().chain([&"other.so".to_string()]) {
        texts.insert(n.clone(), reference(n));
    }
    let mut runs: Vec<Setup> = vec![];
    let mut add = |files: Vec<&str>, jobs: u32, out: Out, old: bool| {
        let tx: Vec<Vec<u8>> = files.iter().map(|f| texts[*f].clone()).collect();
        let store = files
            .iter()
            .zip(&tx)
            .map(|(f, t)| {
                let first = String::from_utf8_lossy(t).lines().next().unwrap().to_string();
                let id = first.split(' ').nth(3).unwrap().to_string();
                format!("{f}/{id}/{f}.sym")
            })
            .collect();
        runs.push(Setup {
            files: files.into_iter().map(|s| s.to_string()).collect(),
            jobs,
            out,
            old,
            texts: tx,
            store,
        });
    };
    for out in [Default, Dash, File, Store, FileStore, DashStore] {
        for old in [false, true] {
            if old && matches!(out, Default | Dash) {
                continue;
            }
            for n in &names {
                add(vec![n], 1, out, old);
            }
            for jobs in [1, 2] {
                add(vec!["small.so", "other.so"], jobs, out, old);
                add(vec!["big.so", "other.so"], jobs, out, old);
                add(vec!["other.so", "big.so"], jobs, out, old);
            }
        }
    }
    let ndone = std::sync::atomic::AtomicU64::new(0);
    let nhit = std::sync::atomic::AtomicU64::new(0);
    cx.run("single", runs.len(), |k| {
        let s = &runs[k];
        let d = Scratch::new("C05r");
        let mut st = Stats::default();
        let mut inj = Inject {
            root: d.p("o"),
            stdout: s.out.stdout(),
            ..std::default::Default::default()
        };
        let go = |inj: &Inject| {
            s.prepare(&d.0);
            let r = cli::run(&s.args(&d.0, &inputs), &d.0, &dir.p("home"), Some(inj), &d.0);
            ndone.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            r
        };
        let bad = |w: String, plan: &str, r: &cli::Ran| {
            Bad::new(format!(
                "{w}\ncommand line: dump_syms {}\nexisting outputs: {}\nfaults: {plan}\nexit status {:?}, stderr: {}\noperations: {:?}",
                s.args(Path::new("DIR"), Path::new("in")).join(" "),
                s.old,
                r.code,
                r.stderr,
                r.ops
            ))
        };
        let base = go(&inj);
        if base.code != Some(0) {
            return Err(bad("the run fails without any fault".into(), "", &base));
        }
        s.complete(&d.0, &base.stdout).map_err(|e| bad(format!("success reported, but {e}"), "", &base))?;
        st.states += 1;
        let judge = |plan: &str, harmless: bool, r: &cli::Ran| -> Result<(), Bad> {
            if r.ops.iter().any(|o| o.hit != 0) {
                nhit.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            if r.timeout {
                return Err(bad("the run doesn't end".into(), plan, r));
            }
            if r.code == Some(0) {
                return s.complete(&d.0, &r.stdout).map_err(|e| bad(format!("success reported, but {e}"), plan, r));
            }
            // (with several workers another operation may have that number this time)
            if harmless && r.ops.iter().all(|o| o.hit == 0 || matches!(o.name.as_str(), "write" | "pwrite" | "create")) {
                return Err(bad("a short or interrupted write made the run fail".into(), plan, r));
            }
            Ok(())
        };
        let mut seen = vec![];
        for (i, op) in base.ops.iter().enumerate() {
            // the same error from there on
            for e in [libc::EIO, libc::EACCES, libc::EPIPE, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, libc::EROFS, libc::EPERM, libc::ENOTDIR, libc::EISDIR, libc::ENAMETOOLONG, libc::EMFILE, libc::ENOENT, libc::EINVAL, libc::ETIMEDOUT, libc::ECONNRESET] {
                let fits = match op.name.as_str() {
                    "write" | "pwrite" => !matches!(e, libc::EACCES | libc::EROFS | libc::ENOTDIR | libc::EISDIR | libc::ENAMETOOLONG | libc::EMFILE | libc::ENOENT),
                    _ => !matches!(e, libc::EPIPE | libc::EFBIG | libc::EAGAIN | libc::EINVAL | libc::ETIMEDOUT | libc::ECONNRESET),
                };
                if !fits {
                    continue;
                }
                inj.plan = format!("{i}+=err:{e}");
                let r = go(&inj);
                st.states += 1;
                judge(&inj.plan, false, &r)?;
            }
            for (f, harmless) in faults(op) {
                inj.plan = format!("{i}={f}");
                let r = go(&inj);
                st.states += 1;
                judge(&inj.plan, harmless, &r)?;
                if harmless || t {
                    seen.push((i, f.clone(), harmless, r.ops.clone()));
                }
                // no space from there on
                if f.starts_with("short") || f == format!("err:{}", libc::ENOSPC) {
                    inj.plan = format!("{i}={f},{i}+=err:{}", libc::ENOSPC);
                    let r = go(&inj);
                    st.states += 1;
                    judge(&inj.plan, false, &r)?;
                }
            }
        }
        // a second fault after the first
        for (i, f, h, ops) in seen {
            let last = ops.iter().rposition(|o| o.hit != 0).unwrap_or(i);
            for (j, op) in ops.iter().enumerate().skip(last + 1).take(if t { 99 } else { 2 }) {
                for (g, h2) in faults(op) {
                    if !t && (g == format!("err:{}", libc::EIO) || g == format!("err:{}", libc::EACCES)) {
                        continue;
                    }
                    inj.plan = format!("{i}={f},{j}={g}");
                    let r = go(&inj);
                    st.states += 1;
                    judge(&inj.plan, h && h2, &r)?;
                }
            }
        }
        st.traces = st.states;
        st.transitions = st.states;
        if k % 7 == 0 {
            st.samples.push(json!({"command": s.args(Path::new("DIR"), Path::new("in")).join(" "), "existing_outputs": s.old,
                "operations": base.ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>(), "runs": st.states}));
        }
        Ok(st)
    });
    cx.note("rule", "for every output operation (create, write, mkdir, sync, rename) of every run: each error, zero, short and interrupted outcome, no space from there on, and a second fault after it");
    cx.note("runs_of_the_executable", ndone.into_inner());
    cx.note("runs_in_which_a_fault_hit", nhit.into_inner());
    cx.assume("operations are counted at the boundary to the C library; errors reported only by close() are outside (the language's file type ignores them)");
}
