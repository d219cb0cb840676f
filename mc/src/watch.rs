//! Crashes, hangs and endless allocations of the code under test in this process.
//!
//! The enumeration runs in a child process; what its threads are at is in memory shared with
//! the parent, which reports a violation when the child dies of its own doing.
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};
use std::time::{Duration, Instant};

const SLOTS: usize = 256;

#[repr(C)]
struct Shared {
    part: [AtomicU64; 8],
    /// per thread: case + 1, and when it started (ms)
    at: [(AtomicU64, AtomicU64); SLOTS],
}
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
static ID: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static REPORTED: AtomicBool = AtomicBool::new(false);
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn shared() -> Option<&'static Shared> {
    unsafe { SHARED.load(Ordering::SeqCst).as_ref() }
}

fn now() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

fn put(to: &[AtomicU64], s: &str) {
    let mut b = s.as_bytes().to_vec();
    b.resize(to.len() * 8, 0);
    for (t, c) in to.iter().zip(b.chunks(8)) {
        t.store(u64::from_le_bytes(c.try_into().unwrap()), Ordering::SeqCst);
    }
}

fn get(from: &[AtomicU64]) -> String {
    let b: Vec<u8> = from.iter().flat_map(|f| f.load(Ordering::SeqCst).to_le_bytes()).collect();
    String::from_utf8_lossy(&b).trim_end_matches('\0').to_string()
}

pub fn part(p: &str) {
    if let Some(s) = shared() {
        put(&s.part, p);
    }
}

/// Runs one case in worker `k`.
pub fn case<T>(k: usize, i: usize, f: impl FnOnce() -> T) -> T {
    let Some(s) = shared() else { return f() };
    s.at[k].1.store(now(), Ordering::SeqCst);
    s.at[k].0.store(i as u64 + 1, Ordering::SeqCst);
    SLOT.with(|s| s.set(k));
    let r = f();
    s.at[k].0.store(0, Ordering::SeqCst);
    r
}

/// Prints the violation and leaves a replay and the evidence.
fn report(id: &str, why: &str, cases: &[u64]) {
    let part = shared().map(|s| get(&s.part)).unwrap_or_default();
    let what = format!("[{part}] {why}, in one of the cases {cases:?}");
    let dir = crate::ev::verif_dir().join("evidence");
    let rdir = dir.join("replay").join(format!("{id}-0"));
    let _ = std::fs::remove_dir_all(&rdir);
    let _ = std::fs::create_dir_all(&rdir);
    let p = rdir.join("replay.txt");
    let _ = std::fs::write(&p, format!("property: {id}\n{what}\n"));
    let ev = json!({
        "property": id,
        "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()),
        "seed": 1,
        "level": "model_checking",
        "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": [what.clone()], "exhaustive": false},
        "assumptions": [],
        "wall_s": now() as f64 / 1000.,
        "violations": 1,
    });
    let _ = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    println!("{what}\nVIOLATION property={id} replay={}", p.display());
}

fn running(s: &Shared) -> Vec<u64> {
    s.at.iter().map(|a| a.0.load(Ordering::SeqCst)).filter(|c| *c > 0).map(|c| c - 1).collect()
}

/// Forks: returns in the child.
pub fn start(id: &str, thorough: bool) {
    now();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED.store(p as *mut Shared, Ordering::SeqCst);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid > 0 {
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            // what it didn't remove
            for e in std::fs::read_dir(std::env::temp_dir()).into_iter().flatten().flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if n.starts_with("mc-") && n.contains(&format!("-{pid}-")) {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
            if libc::WIFEXITED(st) {
                std::process::exit(libc::WEXITSTATUS(st));
            }
            let sig = libc::WTERMSIG(st);
            if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
                report(id, &format!("the process crashed (signal {sig})"), &running(shared().unwrap()));
                std::process::exit(1);
            }
            eprintln!("ended by signal {sig}");
            std::process::exit(2);
        }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    put(&ID, id);
    let limit = if thorough { 3_000_000 } else { 400_000 };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let s = shared().unwrap();
        let old: Vec<u64> = s
            .at
            .iter()
            .filter(|a| a.0.load(Ordering::SeqCst) > 0 && now().saturating_sub(a.1.load(Ordering::SeqCst)) > limit)
            .map(|a| a.0.load(Ordering::SeqCst))
            .filter(|c| *c > 0)
            .map(|c| c - 1)
            .collect();
        if !old.is_empty() && !REPORTED.swap(true, Ordering::SeqCst) {
            report(&get(&ID), &format!("no end after {} s", limit / 1000), &old);
            std::process::exit(1);
        }
    });
}

/// Reports an allocation nothing here has a need for.
pub struct Alloc;

/// No input is larger than some MB.
const HUGE: usize = 3 << 30;

#[cold]
fn huge(n: usize) {
    if ID[0].load(Ordering::SeqCst) == 0 || REPORTED.swap(true, Ordering::SeqCst) {
        return;
    }
    let k = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    let s = shared().unwrap();
    let cases = match s.at.get(k) {
        Some(a) => vec![a.0.load(Ordering::SeqCst).wrapping_sub(1)],
        None => running(s),
    };
    report(&get(&ID), &format!("{n} bytes of memory wanted"), &cases);
    std::process::exit(1);
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE {
            huge(l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE {
            huge(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HUGE {
            huge(n);
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
