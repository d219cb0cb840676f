//! Evidence, replay artefacts, parallel exhaustive enumeration.
#![allow(dead_code)]
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// What went wrong, and everything needed to see it again.
#[derive(Clone, Debug, Default)]
pub struct Bad {
    pub what: String,
    pub files: Vec<(String, Vec<u8>)>,
    /// key into the known-findings file
    pub key: String,
}
impl Bad {
    pub fn new(what: impl Into<String>) -> Self {
        Bad {
            what: what.into(),
            ..Default::default()
        }
    }
    pub fn file(mut self, n: &str, d: &[u8]) -> Self {
        self.files.push((n.into(), d.to_vec()));
        self
    }
    pub fn key(mut self, k: &str) -> Self {
        self.key = k.into();
        self
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<Value>,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        if self.samples.len() < 6 {
            self.samples.extend(o.samples.iter().take(2).cloned());
        }
    }
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub t0: Instant,
    pub stats: Stats,
    pub extra: Map<String, Value>,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    pub bads: Vec<Bad>,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or("/verif".into(), PathBuf::from)
}

/// A fresh scratch directory below /tmp, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!(
            "mc-{}-{}-{}",
            tag,
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn p(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
    pub fn s(&self, s: &str) -> String {
        self.0.join(s).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("panic: {m}")
    })
}

/// Evaluates `f` on 0..n on all cores; stops early once a violation is found and
/// returns the one with the lowest index among those found.
pub fn par(n: usize, f: impl Fn(usize) -> Result<Stats, Bad> + Sync) -> (Stats, Option<Bad>) {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let tot = Mutex::new(Stats::default());
    let bad: Mutex<Option<(usize, Bad)>> = Mutex::new(None);
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get());
    std::thread::scope(|s| {
        let (next, stop, tot, bad, f) = (&next, &stop, &tot, &bad, &f);
        for k in 0..threads.min(n.max(1)).min(256) {
            s.spawn(move || loop {
                if stop.load(Ordering::SeqCst) {
                    return;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    return;
                }
                let r = match crate::watch::case(k, i, || guard(|| f(i))) {
                    Ok(r) => r,
                    Err(e) => Err(Bad::new(format!("case {i}: {e}"))),
                };
                match r {
                    Ok(st) => tot.lock().unwrap().add(&st),
                    Err(b) => {
                        stop.store(true, Ordering::SeqCst);
                        let mut g = bad.lock().unwrap();
                        if g.as_ref().map_or(true, |(j, _)| i < *j) {
                            *g = Some((i, b));
                        }
                    }
                }
            });
        }
    });
    (tot.into_inner().unwrap(), bad.into_inner().unwrap().map(|x| x.1))
}

impl Ctx {
    pub fn new(id: &str, thorough: bool) -> Self {
        Ctx {
            id: id.into(),
            thorough,
            t0: Instant::now(),
            stats: Default::default(),
            extra: Default::default(),
            assumptions: vec![],
            level: "model_checking",
            bads: vec![],
        }
    }
    pub fn note(&mut self, k: &str, v: impl Into<Value>) {
        self.extra.insert(k.into(), v.into());
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// Runs one enumeration and accumulates; true if it was clean.
    pub fn run(&mut self, part: &str, n: usize, f: impl Fn(usize) -> Result<Stats, Bad> + Sync) -> bool {
        let t = Instant::now();
        crate::watch::part(part);
        let (st, bad) = par(n, f);
        self.stats.add(&st);
        self.note(
            &format!("part_{part}"),
            json!({"states": st.states, "transitions": st.transitions, "traces": st.traces,
                   "completed": bad.is_none(), "wall_s": t.elapsed().as_secs_f64()}),
        );
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("[{}] {part}: {st:?} {:.1}s", self.id, t.elapsed().as_secs_f64());
        }
        match bad {
            Some(mut b) => {
                b.what = format!("[{part}] {}", b.what);
                self.bads.push(b);
                false
            }
            None => true,
        }
    }
    pub fn check(&mut self, part: &str, r: Result<(), Bad>) {
        if let Err(mut b) = r {
            b.what = format!("[{part}] {}", b.what);
            self.bads.push(b);
        }
    }

    /// Writes the evidence, prints the verdict and returns the exit code.
    pub fn finish(mut self) -> i32 {
        let known = std::fs::read_to_string(verif_dir().join("known_findings.json"))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .unwrap_or(json!({"known": []}));
        let mut fresh = vec![];
        for b in std::mem::take(&mut self.bads) {
            let k = known["known"].as_array().and_then(|a| {
                a.iter()
                    .find(|e| e["property"] == self.id.as_str() && !b.key.is_empty() && e["key"] == b.key.as_str())
            });
            match k {
                Some(e) => println!(
                    "KNOWN-FINDING: property={} {}",
                    self.id,
                    e["what"].as_str().unwrap_or("")
                ),
                None => fresh.push(b),
            }
        }
        let mut cov = Map::new();
        if self.level == "model_checking" {
            cov.insert("states".into(), self.stats.states.into());
            cov.insert("transitions".into(), self.stats.transitions.into());
            cov.insert("traces_validated_against_impl".into(), self.stats.traces.into());
        } else {
            cov.insert("evaluations".into(), self.stats.traces.into());
            cov.insert("distinct_nontrivial".into(), self.stats.states.into());
        }
        cov.insert("samples".into(), self.stats.samples.clone().into());
        cov.insert("exhaustive".into(), fresh.is_empty().into());
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.t0.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .unwrap();
        if fresh.is_empty() {
            println!(
                "OK property={} states={} transitions={} traces={} wall={:.1}s",
                self.id,
                self.stats.states,
                self.stats.transitions,
                self.stats.traces,
                self.t0.elapsed().as_secs_f64()
            );
            return 0;
        }
        for (n, b) in fresh.iter().enumerate() {
            let rdir = dir.join("replay").join(format!("{}-{}", self.id, n));
            let _ = std::fs::remove_dir_all(&rdir);
            std::fs::create_dir_all(&rdir).unwrap();
            for (name, d) in &b.files {
                std::fs::write(rdir.join(name), d).unwrap();
            }
            let p = rdir.join("replay.txt");
            std::fs::write(&p, format!("property: {}\n{}\n", self.id, b.what)).unwrap();
            println!("{}", b.what);
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        1
    }
}
