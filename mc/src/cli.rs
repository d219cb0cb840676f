//! Running the real dump_syms executable, with or without the fault injector.
#![allow(dead_code)]
use crate::ev::verif_dir;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn exe() -> PathBuf {
    verif_dir().join("target/release/dump_syms")
}
pub fn injector() -> PathBuf {
    verif_dir().join("target/inject.so")
}

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub len: i64,
    pub hit: i32,
    pub path: String,
}

#[derive(Debug)]
pub struct Ran {
    /// exit status; None: killed by a signal or the time limit
    pub code: Option<i32>,
    pub timeout: bool,
    pub stdout: Vec<u8>,
    pub stderr: String,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Default)]
pub struct Inject {
    pub root: PathBuf,
    pub input: PathBuf,
    pub on_input: bool,
    pub stdout: bool,
    pub plan: String,
    /// where the injector and we wait for each other
    pub gate: PathBuf,
}

pub fn run(args: &[String], cwd: &Path, home: &Path, inj: Option<&Inject>, tmp: &Path) -> Ran {
    let mut c = Command::new(exe());
    c.args(args).current_dir(cwd).env_clear().env("HOME", home).env("PATH", "/usr/bin:/bin");
    let out = tmp.join("stdout");
    let err = tmp.join("stderr");
    let log = tmp.join("ops");
    c.stdin(Stdio::null());
    c.stdout(std::fs::File::create(&out).unwrap());
    c.stderr(std::fs::File::create(&err).unwrap());
    if let Some(i) = inj {
        c.env("LD_PRELOAD", injector()).env("INJ_LOG", &log).env("INJ_ROOT", &i.root).env("INJ_IN", &i.input);
        if i.on_input {
            c.env("INJ_CLASS", "in");
        }
        if i.stdout {
            c.env("INJ_OUT1", "1");
        }
        c.env("INJ_GATE", &i.gate);
        if !i.plan.is_empty() {
            c.env("INJ_PLAN", &i.plan);
        }
    }
    let mut ch = c.spawn().expect("dump_syms");
    let t0 = std::time::Instant::now();
    let mut timeout = false;
    let mut nap = 200;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed().as_secs() > 30 {
            timeout = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(std::time::Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    };
    let ops = if inj.is_some() {
        std::fs::read_to_string(&log)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let mut f = l.splitn(5, ' ');
                f.next()?;
                Some(Op {
                    name: f.next()?.into(),
                    len: f.next()?.parse().ok()?,
                    hit: f.next()?.parse().ok()?,
                    path: f.next()?.into(),
                })
            })
            .collect()
    } else {
        vec![]
    };
    Ran {
        code: st.code(),
        timeout,
        stdout: std::fs::read(&out).unwrap_or_default(),
        stderr: String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned(),
        ops,
    }
}
