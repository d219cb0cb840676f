//! C16: the process dies, or a file operation fails, while a download is being cached.
use crate::cli::{self, Inject, Op};
use crate::download::cabinet;
use crate::elf::*;
use crate::ev::*;
use crate::server::*;
use dump_syms::cache;
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};

const ID: &str = "0123456789ABCDEF0123456789ABCDEF1";

fn object(n: usize) -> Vec<u8> {
    let mut e = Elf::new();
    e.build_id = Some(vec![7; 20]);
    e = e.text(0x1000, 0x100);
    e.extra.push((b".filler".to_vec(), (0..n).map(|i| (i as u32).wrapping_mul(2654435761) as u8).collect(), 0x10000));
    e.build()
}

/// (what, the process dies, nothing has to go wrong)
fn faults(op: &Op) -> Vec<(String, bool, bool)> {
    let mut v = vec![("die".to_string(), true, false), ("dieafter".into(), true, false)];
    for e in [libc::EIO, libc::ENOSPC, libc::EACCES] {
        v.push((format!("err:{e}"), false, false));
    }
    if matches!(op.name.as_str(), "write" | "pwrite") {
        for n in ["0", "1", "-2", "-1"] {
            v.push((format!("torn:{n}"), true, false));
        }
        for n in ["1", "-2", "-1"] {
            v.push((format!("short:{n}"), false, true));
        }
        v.push((format!("err:{}", libc::EINTR), false, true));
        v.push(("zero".into(), false, false));
    }
    v
}

thread_local! {
    static SERVER: Server = Server::new();
}

struct Subject {
    name: &'static str,
    plain: Vec<u8>,
    /// as served
    raw: Vec<u8>,
    cab: bool,
    /// 0: no cache directory; 1: empty; 2: directory of the file exists
    pre: u8,
}

pub fn c16(cx: &mut Ctx) {
    cx.level = "fault_enumeration";
    let t = true;
    let sizes: &[usize] = if cx.thorough { &[10, 4000, 8192, 70_000, 300_000] } else { &[10, 300_000] };
    let mut subs = vec![];
    for name in ["a.so", "a.pdb", "a.pd_", "a.dl_", "a.exe"] {
        for n in sizes.iter().copied() {
            for cab in [false, true] {
                for pre in [0, 1, 2] {
                    if name != "a.pdb" && (pre != 0 || (n > 10) != cab) {
                        continue;
                    }
                    let plain = object(n);
                    let member = name.replace(".pd_", ".pdb").replace(".dl_", ".dll");
                    let raw = if cab { cabinet(&[(&member, &plain)], true) } else { plain.clone() };
                    subs.push(Subject {
                        name,
                        plain,
                        raw,
                        cab,
                        pre,
                    });
                }
            }
        }
    }
    let runs = AtomicU64::new(0);
    let hits = AtomicU64::new(0);
    cx.run("crash_points", subs.len(), |k| {
        let s = &subs[k];
        SERVER.with(|srv| {
            let d = Scratch::new("C16");
            std::fs::create_dir_all(d.p("home")).unwrap();
            let base = s.name.replace(".pd_", ".pdb").replace(".dl_", ".dll");
            let conf = format!("SRV*{}*http://127.0.0.1:{}/s0", d.s("cache"), srv.port);
            let online = || {
                let mut a = HashMap::new();
                a.insert(
                    format!("/s0/{}/{ID}/{}", s.name, s.name),
                    Answer {
                        head: Head::Ok,
                        get: if s.cab { Get::Cab } else { Get::Good },
                        slow: false,
                        plain: s.plain.clone(),
                        cab: s.raw.clone(),
                    },
                );
                srv.set(a);
            };
            let prepare = || {
                let _ = std::fs::remove_dir_all(d.p("cache"));
                match s.pre {
                    1 => std::fs::create_dir_all(d.p("cache")).unwrap(),
                    2 => std::fs::create_dir_all(d.p(&format!("cache/{base}/{ID}"))).unwrap(),
                    _ => (),
                }
            };
            let go = |plan: &str| -> cli::Ran {
                online();
                let a: Vec<String> = ["--symbol-server", &conf, "--debug-id", ID, "-o", &d.s("out.sym"), s.name].iter().map(|x| x.to_string()).collect();
                let inj = Inject {
                    root: d.p("cache"),
                    plan: plan.into(),
                    ..Default::default()
                };
                runs.fetch_add(1, Ordering::Relaxed);
                let r = cli::run(&a, &d.0, &d.p("home"), Some(&inj), &d.0);
                if r.ops.iter().any(|o| o.hit != 0) {
                    hits.fetch_add(1, Ordering::Relaxed);
                }
                r
            };
            let bad = |m: String, plan: &str, r: &cli::Ran| {
                Bad::new(format!(
                    "{m}\n{} of {} bytes, served as {} bytes, cache {}\nfaults: {plan}\nexit status {:?}, stderr: {}\noperations: {:?}\ncache: {:?}",
                    s.name,
                    s.plain.len(),
                    s.raw.len(),
                    ["absent", "empty", "prepared"][s.pre as usize],
                    r.code,
                    r.stderr,
                    r.ops,
                    crate::util::tree(&d.p("cache")).iter().map(|(k, v)| (k.clone(), v.as_ref().map(|v| v.len()))).collect::<Vec<_>>()
                ))
            };
            let lookup = || guard(|| cache::search_file(s.name.to_string(), ID, cache::get_sym_servers(Some(&conf)).as_ref()).0);
            // after the run: what the next lookups see
            let judge = |plan: &str, r: &cli::Ran, harmless: bool| -> Result<(), Bad> {
                if r.timeout {
                    return Err(bad("the run doesn't end".into(), plan, r));
                }
                srv.set(HashMap::new());
                let l = lookup();
                let found = match &l {
                    Ok(None) => false,
                    Ok(Some(b)) if *b == s.plain => true,
                    Ok(Some(b)) => return Err(bad(format!("the next lookup finds {} bytes in the cache", b.len()), plan, r)),
                    Err(e) => return Err(bad(format!("the next lookup fails: {e}"), plan, r)),
                };
                if r.code == Some(0) && !found {
                    return Err(bad("success reported, but the next lookup doesn't find the file in the cache".into(), plan, r));
                }
                if harmless && r.code != Some(0) {
                    return Err(bad("a short or interrupted write made the run fail".into(), plan, r));
                }
                Ok(())
            };
            let recover = |plan: &str, r: &cli::Ran| -> Result<(), Bad> {
                online();
                match lookup() {
                    Ok(Some(b)) if b == s.plain => (),
                    x => return Err(bad(format!("with a working server, the next lookup gives {:?}", x.map(|b| b.map(|b| b.len()))), plan, r)),
                }
                srv.set(HashMap::new());
                match lookup() {
                    Ok(Some(b)) if b == s.plain => Ok(()),
                    x => Err(bad(format!("after recovery, the next lookup gives {:?}", x.map(|b| b.map(|b| b.len()))), plan, r)),
                }
            };
            let mut st = Stats::default();
            prepare();
            let b0 = go("");
            if b0.code != Some(0) {
                return Err(bad("the run fails without any fault".into(), "", &b0));
            }
            judge("", &b0, true)?;
            for (i, op) in b0.ops.iter().enumerate() {
                for (f, dies, harmless) in faults(op) {
                    for then_full in [false, true] {
                        if then_full && !(f.starts_with("short") || f.starts_with("err:28")) {
                            continue;
                        }
                        let plan = if then_full { format!("{i}={f},{i}+=err:28") } else { format!("{i}={f}") };
                        prepare();
                        let r = go(&plan);
                        st.states += 1;
                        judge(&plan, &r, harmless && !then_full)?;
                        // a second run that dies, too, on what the first one left
                        if dies && (t || (s.pre == 0 && s.raw.len() < 10000)) {
                            let keep = Scratch::new("C16k");
                            copy(&d.p("cache"), &keep.p("c"));
                            let probe = go("");
                            judge(&plan, &probe, true)?;
                            for (j, op) in probe.ops.iter().enumerate() {
                                for (g, dies, _) in faults(op) {
                                    if !dies && !t {
                                        continue;
                                    }
                                    let _ = std::fs::remove_dir_all(d.p("cache"));
                                    copy(&keep.p("c"), &d.p("cache"));
                                    let p2 = format!("{plan} then {j}={g}");
                                    let r = go(&format!("{j}={g}"));
                                    st.states += 1;
                                    judge(&p2, &r, false)?;
                                    recover(&p2, &r)?;
                                }
                            }
                            let _ = std::fs::remove_dir_all(d.p("cache"));
                            copy(&keep.p("c"), &d.p("cache"));
                        }
                        recover(&plan, &r)?;
                    }
                }
            }
            // other processes look the file up while this one is at any of these points: one that goes on to its
            // end, or one that is stopped at any of its own points, while the first goes on to its end
            let mut plans: Vec<String> = vec![];
            for (i, op) in b0.ops.iter().enumerate() {
                plans.push(format!("{i}=stop"));
                if op.name == "write" && op.len > 1 {
                    plans.push(format!("{i}=short:-2,{}=stop", i + 1));
                    plans.push(format!("{i}=short:1,{}=stop", i + 1));
                }
            }
            let args = |out: &str| -> Vec<String> { ["--symbol-server", &conf, "--debug-id", ID, "-o", &d.s(out), s.name].iter().map(|x| x.to_string()).collect() };
            let other = d.p("other");
            std::fs::create_dir_all(&other).unwrap();
            for plan in &plans {
                for then in std::iter::once("").chain(plans.iter().map(|p| &p[..])) {
                    prepare();
                    online();
                    for f in ["gate.at", "gate.go", "gate2.at", "gate2.go"] {
                        let _ = std::fs::remove_file(d.p(f));
                    }
                    let inj = Inject { root: d.p("cache"), plan: plan.clone(), gate: d.p("gate"), ..Default::default() };
                    let inj2 = Inject { root: d.p("cache"), plan: then.into(), gate: d.p("gate2"), ..Default::default() };
                    runs.fetch_add(2, Ordering::Relaxed);
                    st.states += 1;
                    let wait = |at: &str, h: &dyn Fn() -> bool| {
                        let at = d.p(at);
                        while !at.exists() && !h() {
                            std::thread::sleep(std::time::Duration::from_micros(300));
                        }
                    };
                    let mut seen = vec![];
                    let (r, r2) = std::thread::scope(|sc| {
                        let h = sc.spawn(|| cli::run(&args("out.sym"), &d.0, &d.p("home"), Some(&inj), &d.0));
                        wait("gate.at", &|| h.is_finished());
                        let offline = |seen: &mut Vec<_>| {
                            srv.set(HashMap::new());
                            seen.push(lookup());
                            online();
                        };
                        offline(&mut seen);
                        let h2 = sc.spawn(|| cli::run(&args("other/out.sym"), &d.0, &d.p("home"), Some(&inj2), &other));
                        wait("gate2.at", &|| h2.is_finished());
                        offline(&mut seen);
                        std::fs::write(d.p("gate.go"), b"").unwrap();
                        let r = h.join().unwrap();
                        offline(&mut seen);
                        if r.code == Some(0) && !matches!(seen[2], Ok(Some(_))) {
                            seen[2] = Err("success reported, but not in the cache".into());
                        }
                        std::fs::write(d.p("gate2.go"), b"").unwrap();
                        (r, h2.join().unwrap())
                    });
                    let both = format!("{plan}; the other process: {then}");
                    for (x, when) in seen.iter().zip(["the first process is stopped", "both are stopped, or the second has ended", "the first has ended"]) {
                        match x {
                            Ok(None) => (),
                            Ok(Some(b)) if *b == s.plain => (),
                            x => return Err(bad(format!("while {when}, a lookup in the cache gives {:?}", x.as_ref().map(|b| b.as_ref().map(|b| b.len()))), &both, &r)),
                        }
                    }
                    for r in [&r, &r2] {
                        if r.code != Some(0) {
                            return Err(bad("a lookup at the same time made this one fail".into(), &both, r));
                        }
                        judge(&both, r, true)?;
                    }
                }
            }
            // a process that has stored the file and ended finds it at any later time, whatever another one, which had
            // begun before, still does
            for i in 0..b0.ops.len() {
                for k in i + 1..b0.ops.len() + 4 {
                    prepare();
                    online();
                    for f in ["gate.at", "gate.go", "gate.at2", "gate.go2"] {
                        let _ = std::fs::remove_file(d.p(f));
                    }
                    let plan = format!("{i}=stop,{k}=stop");
                    let inj = Inject { root: d.p("cache"), plan: plan.clone(), gate: d.p("gate"), ..Default::default() };
                    runs.fetch_add(2, Ordering::Relaxed);
                    st.states += 1;
                    let (r, r2, l) = std::thread::scope(|sc| {
                        let h = sc.spawn(|| cli::run(&args("out.sym"), &d.0, &d.p("home"), Some(&inj), &d.0));
                        let wait = |at: &str| {
                            while !d.p(at).exists() && !h.is_finished() {
                                std::thread::sleep(std::time::Duration::from_micros(300));
                            }
                        };
                        wait("gate.at");
                        let r2 = cli::run(&args("other/out.sym"), &d.0, &d.p("home"), None, &other);
                        std::fs::write(d.p("gate.go"), b"").unwrap();
                        wait("gate.at2");
                        srv.set(HashMap::new());
                        let l = lookup();
                        online();
                        std::fs::write(d.p("gate.go2"), b"").unwrap();
                        (h.join().unwrap(), r2, l)
                    });
                    for r in [&r, &r2] {
                        if r.code != Some(0) {
                            return Err(bad("a lookup at the same time made this one fail".into(), &plan, r));
                        }
                    }
                    if !matches!(&l, Ok(Some(b)) if *b == s.plain) {
                        return Err(bad(format!("another process has stored the file and ended, and a lookup gives {:?}", l.map(|b| b.map(|b| b.len()))), &plan, &r));
                    }
                    judge(&plan, &r, true)?;
                }
            }
            st.traces = st.states;
            st.transitions = st.states;
            st.samples.push(json!({"file": s.name, "bytes": s.raw.len(), "cabinet": s.cab,
                "operations": b0.ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>(), "histories": st.states}));
            Ok(st)
        })
    });
    cx.note("rule", "every operation on the cache directory as crash point (before, after, torn at 4 lengths) or failing call; after a crash, a second run that crashes at every point again; then lookups without and with the server; two processes looking the same file up: one is stopped before each of its operations and within its writes, then the other runs to its end or to each of its own such points, then the first and the second run to their ends, with lookups in the cache in between");
    cx.note("runs_of_the_executable", runs.into_inner());
    cx.note("runs_in_which_a_fault_hit", hits.into_inner());
    cx.assume("the process dies, not the machine: what the kernel has accepted stays");
}

fn copy(a: &std::path::Path, b: &std::path::Path) {
    if !a.exists() {
        return;
    }
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap().flatten() {
        let to = b.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to);
        } else {
            std::fs::copy(e.path(), to).unwrap();
        }
    }
}
