//! Stateless exploration: every schedule up to a number of preemptions, each in a process of its own.
use crate::ev::*;
use crate::rt::{self, End, Op, Rec, Shm};
use crate::scen::{Out, Scen};
use crate::util::tree;
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::io::Write as _;
use std::os::fd::FromRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

type Prefix = Vec<(u32, u32)>;

struct Reply {
    bad: Option<String>,
    mismatch: bool,
    recs: Vec<Rec>,
}

fn read_all(fd: i32, b: &mut [u8]) -> bool {
    let mut n = 0;
    while n < b.len() {
        let r = unsafe { libc::read(fd, b[n..].as_mut_ptr() as *mut _, b.len() - n) };
        if r <= 0 {
            return false;
        }
        n += r as usize;
    }
    true
}
fn write_all(fd: i32, b: &[u8]) {
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    f.write_all(b).unwrap();
}
fn u32s(fd: i32) -> Option<u32> {
    let mut b = [0; 4];
    read_all(fd, &mut b).then(|| u32::from_le_bytes(b))
}

fn child(s: &Scen, common: &Path, dir: &Path, shm: *mut Shm) -> ! {
    unsafe {
        libc::alarm(60);
        let out = std::ffi::CString::new(dir.join("stdout").to_str().unwrap()).unwrap();
        let fd = libc::open(out.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o644);
        libc::dup2(fd, 1);
        libc::close(fd);
        let cfg = s.config(dir);
        let files = s.files(common);
        let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
        rt::start(shm);
        let r = guard(|| {
            let r = dump_syms::dumper::several_files(&cfg, &files).map_err(|e| e.to_string());
            let _ = std::io::stdout().flush();
            r
        });
        match r {
            Ok(Ok(())) => rt::end(End::Ok, ""),
            Ok(Err(e)) => rt::end(End::Err, &e),
            Err(e) => rt::end(End::Panic, &e),
        }
    }
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 600 {
        format!("{}... ({} bytes)", s.chars().take(600).collect::<String>(), b.len())
    } else {
        s.into_owned()
    }
}

fn judge(s: &Scen, dir: &Path, end: End, msg: &str) -> Result<(), String> {
    let ok = match end {
        End::Ok => true,
        End::Err | End::Panic => false,
        End::Deadlock => return Err(format!("the run never finishes: {msg}")),
        End::TooLong => return Err(format!("the run doesn't seem to finish: {msg}")),
        _ => return Err("the process died".to_string()),
    };
    if ok != s.want.ok {
        return Err(format!(
            "the run reported {} but should have reported {}",
            if ok { "success".into() } else { format!("an error ({msg})") },
            if s.want.ok { "success" } else { "failure" }
        ));
    }
    let mut got = tree(dir);
    got.retain(|_, v| v.is_some());
    let stdout = got.remove("stdout").flatten().unwrap_or_default();
    let file = got.remove("out.sym").flatten();
    let got: std::collections::BTreeMap<String, Vec<u8>> = got.into_iter().map(|(k, v)| (k, v.unwrap())).collect();
    if got != s.want.store {
        let mut m = format!("files {:?}, expected {:?}", got.keys().collect::<Vec<_>>(), s.want.store.keys().collect::<Vec<_>>());
        for (k, v) in &got {
            if s.want.store.get(k).map_or(false, |w| w != v) {
                m += &format!("\n{k} holds:\n{}\nexpected:\n{}", show(v), show(&s.want.store[k]));
            }
        }
        return Err(m);
    }
    if stdout != s.want.stdout {
        return Err(format!("standard output holds:\n{}\nexpected:\n{}", show(&stdout), show(&s.want.stdout)));
    }
    match (&s.want.file, file) {
        (None, None) => Ok(()),
        (Some(w), None) if w.is_empty() => Ok(()),
        (Some(w), Some(f)) if w.contains(&f) || (w.is_empty() && f.is_empty()) => Ok(()),
        (_, f) => Err(format!("output file holds:\n{}\nnot the text of one module", f.map_or("nothing".into(), |f| show(&f)))),
    }
}

fn worker(rx: i32, tx: i32, scens: &[Scen], common: &Path, dir: PathBuf) -> ! {
    let shm = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shm
    };
    loop {
        let i = match u32s(rx) {
            Some(i) => i as usize,
            None => unsafe { libc::_exit(0) },
        };
        let n = u32s(rx).unwrap() as usize;
        unsafe {
            (*shm).end = End::Unknown;
            (*shm).nprefix = n as u32;
            (*shm).nrec = 0;
            (*shm).msg[0] = 0;
            for k in 0..n {
                (*shm).prefix[k] = (u32s(rx).unwrap(), u32s(rx).unwrap());
            }
        }
        let s = &scens[i];
        std::fs::create_dir_all(&dir).unwrap();
        s.prepare(&dir);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            child(s, common, &dir, shm);
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let (end, msg) = unsafe {
            let m = &(*shm).msg;
            let l = m.iter().position(|c| *c == 0).unwrap_or(0);
            ((*shm).end, String::from_utf8_lossy(&m[..l]).into_owned())
        };
        let (mis, bad) = if end == End::Mismatch {
            (1u32, String::new())
        } else {
            (0, judge(s, &dir, end, &msg).err().unwrap_or_default())
        };
        let _ = std::fs::remove_dir_all(&dir);
        let mut b = vec![];
        b.extend_from_slice(&mis.to_le_bytes());
        b.extend_from_slice(&(bad.len() as u32).to_le_bytes());
        b.extend_from_slice(bad.as_bytes());
        unsafe {
            let nrec = (*shm).nrec;
            b.extend_from_slice(&nrec.to_le_bytes());
            let p = (&(*shm).rec) as *const Rec as *const u8;
            b.extend_from_slice(std::slice::from_raw_parts(p, nrec as usize * std::mem::size_of::<Rec>()));
        }
        write_all(tx, &b);
    }
}

struct Link {
    tx: i32,
    rx: i32,
}
impl Link {
    fn exec(&self, scen: usize, p: &Prefix) -> Reply {
        let mut b = vec![];
        b.extend_from_slice(&(scen as u32).to_le_bytes());
        b.extend_from_slice(&(p.len() as u32).to_le_bytes());
        for (a, t) in p {
            b.extend_from_slice(&a.to_le_bytes());
            b.extend_from_slice(&t.to_le_bytes());
        }
        write_all(self.tx, &b);
        let mis = u32s(self.rx).expect("worker died");
        let n = u32s(self.rx).unwrap() as usize;
        let mut m = vec![0; n];
        read_all(self.rx, &mut m);
        let n = u32s(self.rx).unwrap() as usize;
        let mut recs = vec![
            Rec {
                cur: 0,
                op: Op::Read,
                live: false,
                chosen: 0,
                enabled: 0,
                key: 0
            };
            n
        ];
        let sz = n * std::mem::size_of::<Rec>();
        read_all(self.rx, unsafe { std::slice::from_raw_parts_mut(recs.as_mut_ptr() as *mut u8, sz) });
        Reply {
            bad: (!m.is_empty()).then(|| String::from_utf8_lossy(&m).into_owned()),
            mismatch: mis != 0,
            recs,
        }
    }
}

/// The schedules to try after this one: (prefix, preemptions; with `delay`, any deviations from
/// the round-robin schedule).
///
/// Also at points before the last forced step: two operations may be seen to conflict only in
/// this execution, as in the ones before it the other thread never got there. (In the
/// larger runs only if they are file operations.)
fn branch(recs: &[Rec], p: &Prefix, bound: u32, delay: bool, all: bool) -> Vec<(Prefix, u32)> {
    let from = p.last().map_or(0, |x| x.0 as usize + 1);
    // per key: last access by each thread, and last write
    let mut last: HashMap<u64, Vec<(u8, usize, bool)>> = HashMap::new();
    let mut racy = vec![false; recs.len()];
    for (i, r) in recs.iter().enumerate().rev() {
        if matches!(r.op, Op::Create | Op::Exit | Op::Join | Op::Yield) {
            continue;
        }
        let v = last.entry(r.key).or_default();
        racy[i] = v.iter().any(|(t, _, w)| *t != r.cur && (*w || r.writes()));
        match v.iter_mut().find(|(t, ..)| *t == r.cur) {
            Some(e) => e.2 |= r.writes(),
            None => v.push((r.cur, i, r.writes())),
        }
    }
    let mut out = vec![];
    for i in (0..recs.len()).rev() {
        let r = &recs[i];
        if r.enabled.count_ones() < 2 || (i < from && !all && !matches!(r.op, Op::Open | Op::WriteFile | Op::Fs)) {
            continue;
        }
        let kept = p.iter().take_while(|x| (x.0 as usize) < i).count();
        let used = p[..kept].iter().filter(|x| delay || recs[x.0 as usize].live).count() as u32;
        let cost = if r.live || delay { 1 } else { 0 };
        if used + cost > bound {
            continue;
        }
        if r.live && !racy[i] {
            continue;
        }
        for t in 0..rt::MAX as u32 {
            if r.enabled & (1u64 << t) != 0 && t != r.chosen as u32 {
                let mut q = p[..kept].to_vec();
                q.push((i as u32, t));
                if q.len() <= 64 {
                    out.push((q, used + cost));
                }
            }
        }
    }
    out
}

fn hash(scen: usize, p: &Prefix) -> u128 {
    use std::hash::{Hash, Hasher};
    let mut v = 0u128;
    for k in [17u8, 99] {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (k, scen, p).hash(&mut h);
        v = v << 64 | h.finish() as u128;
    }
    v
}

fn same(a: &[Rec], b: &[Rec]) -> bool {
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(x, y)| x.cur == y.cur && x.op == y.op && x.chosen == y.chosen && x.enabled == y.enabled)
}

pub fn explore(cx: &mut Ctx, dir: &Scratch, scens: Vec<Scen>) {
    let n = std::thread::available_parallelism().map_or(8, |n| n.get());
    let mut links = vec![];
    let mut pids = vec![];
    for k in 0..n {
        let mut a = [0; 2];
        let mut b = [0; 2];
        unsafe {
            libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC);
            libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(a[1]);
                libc::close(b[0]);
                for l in &links {
                    let l: &Link = l;
                    libc::close(l.tx);
                    libc::close(l.rx);
                }
                worker(a[0], b[1], &scens, &dir.0, dir.p(&format!("w{k}")));
            }
            pids.push(pid);
            libc::close(a[0]);
            libc::close(b[1]);
        }
        links.push(Link { tx: a[1], rx: b[0] });
    }
    struct Q {
        /// by number of preemptions: schedules with few come first
        work: Vec<Vec<(usize, Prefix)>>,
        seen: HashSet<u128>,
        busy: usize,
        cut: bool,
        bad: Option<(usize, Prefix, String, Vec<Rec>)>,
    }
    let q = Mutex::new(Q {
        work: vec![(0..scens.len()).rev().map(|i| (i, vec![])).collect()],
        seen: HashSet::new(),
        busy: 0,
        cut: false,
        bad: None,
    });
    let execs = AtomicU64::new(0);
    let points = AtomicU64::new(0);
    let replays = AtomicU64::new(0);
    let mism = AtomicU64::new(0);
    let maxlen = AtomicU64::new(0);
    let per: Vec<AtomicU64> = scens.iter().map(|_| AtomicU64::new(0)).collect();
    let budget: u64 = std::env::var("SCHED_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let limit: u64 = if cx.thorough { 5400 } else { 600 };
    let (one, two) = if cx.thorough { (16, 2) } else { (2, 0) };
    let all = |s: &Scen| s.bound <= 1 && s.jobs <= one || s.bound <= 2 && s.jobs <= two;
    let t0 = std::time::Instant::now();
    std::thread::scope(|sc| {
        for l in &links {
            let (all, q, execs, points, replays, mism, scens, maxlen, per) = (&all, &q, &execs, &points, &replays, &mism, &scens, &maxlen, &per);
            sc.spawn(move || loop {
                let job = {
                    let mut g = q.lock().unwrap();
                    if g.bad.is_some() {
                        return;
                    }
                    if execs.load(Ordering::Relaxed) > budget || t0.elapsed().as_secs() > limit {
                        g.cut = true;
                        return;
                    }
                    let k = g.work.iter().position(|w| !w.is_empty());
                    match k {
                        Some(k) => {
                            g.busy += 1;
                            let (i, p) = g.work[k].pop().unwrap();
                            Some((i, p, k as u32))
                        }
                        None if g.busy == 0 => return,
                        None => None,
                    }
                };
                let (i, p, used) = match job {
                    Some(j) => j,
                    None => {
                        std::thread::sleep(std::time::Duration::from_micros(200));
                        continue;
                    }
                };
                let r = l.exec(i, &p);
                let k = execs.fetch_add(1, Ordering::Relaxed);
                per[i].fetch_add(1, Ordering::Relaxed);
                points.fetch_add(r.recs.len() as u64, Ordering::Relaxed);
                maxlen.fetch_max(r.recs.len() as u64, Ordering::Relaxed);
                if r.mismatch {
                    mism.fetch_add(1, Ordering::Relaxed);
                }
                if r.bad.is_some() || (k % 97 == 0 && !r.mismatch) {
                    // the same schedule has to give the same execution
                    let r2 = l.exec(i, &p);
                    if same(&r.recs, &r2.recs) {
                        replays.fetch_add(1, Ordering::Relaxed);
                    } else {
                        mism.fetch_add(1, Ordering::Relaxed);
                    }
                }
                let next = if r.bad.is_none() && !r.mismatch { branch(&r.recs, &p, scens[i].bound, scens[i].delay, all(&scens[i])) } else { vec![] };
                let mut g = q.lock().unwrap();
                g.busy -= 1;
                if let Some(b) = r.bad {
                    let better = g.bad.as_ref().map_or(true, |(_, q, ..)| p.len() < q.len());
                    if better {
                        g.bad = Some((i, p, b, r.recs));
                    }
                } else {
                    for (p, u) in next {
                        if !g.seen.insert(hash(i, &p)) {
                            continue;
                        }
                        while g.work.len() <= u as usize {
                            g.work.push(vec![]);
                        }
                        g.work[u as usize].push((i, p));
                    }
                }
            });
        }
    });
    for l in &links {
        unsafe {
            libc::close(l.tx);
            libc::close(l.rx);
        }
    }
    for p in pids {
        unsafe { libc::waitpid(p, std::ptr::null_mut(), 0) };
    }
    let e = execs.into_inner();
    cx.stats.states = e;
    cx.stats.traces = e;
    cx.stats.transitions = points.into_inner();
    cx.note("schedules", e);
    let q = q.into_inner().unwrap();
    cx.note("every_schedule_within_the_bounds", !q.cut);
    cx.note("runs_explored", scens.len());
    cx.note("longest_execution_points", maxlen.into_inner());
    cx.note("schedules_replayed_identically", replays.into_inner());
    cx.note("schedules_not_reproducible", mism.load(Ordering::Relaxed));
    let mut bounds = HashMap::new();
    for s in &scens {
        *bounds.entry(s.bound).or_insert(0u32) += 1;
    }
    for (b, n) in bounds {
        cx.note(&format!("runs_with_{b}_preemptions"), n);
    }
    if std::env::var_os("MC_VERBOSE").is_some() {
        for (s, n) in scens.iter().zip(&per) {
            eprintln!("{:?} jobs {} {:?} cfi {} bound {}: {}", s.ins, s.jobs, s.out, s.cfi, s.bound, n.load(Ordering::Relaxed));
        }
        eprintln!("mismatches {}", mism.load(Ordering::Relaxed));
    }
    for (s, n) in scens.iter().zip(&per).take(6) {
        cx.stats.samples.push(json!({"files": format!("{:?}", s.ins), "jobs": s.jobs, "output": format!("{:?}", s.out),
            "preemption_bound": s.bound, "schedules": n.load(Ordering::Relaxed)}));
    }
    cx.assume("sequentially consistent memory; code between two scheduling points (atomic operations, futexes, thread and file operations of the instrumented code) runs as one step");
    cx.assume("a preemption is tried only before an operation on something another thread accesses later in that execution; operations on one thread's own objects commute with everything");
    if let Some((i, p, b, recs)) = q.bad {
        let s = &scens[i];
        let mut m = format!(
            "{b}\nfiles: {:?} jobs: {} output: {:?} check_cfi: {} {:?}\nschedule (step, thread): {p:?}\n",
            s.ins, s.jobs, s.out, s.cfi, s.conf
        );
        if matches!(s.out, Out::Stdout) {
            m += "(output on stdout)\n";
        }
        let mut tr = String::new();
        for (k, r) in recs.iter().enumerate() {
            tr += &format!("{k} thread {} {:?} {:x} enabled {:b} -> {}\n", r.cur, r.op, r.key, r.enabled, r.chosen);
        }
        cx.bads.push(Bad::new(m).file("trace.txt", tr.as_bytes()));
    }
}
