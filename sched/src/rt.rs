//! A controlled scheduler under the real code.
//!
//! One thread runs at a time. It can be switched at every scheduling point: the atomic operations
//! of the instrumented code, futex waits and wakes, thread creation, end and join, yields, and the
//! file operations with an effect. Everything in between is executed as one step.
#![allow(static_mut_refs)]
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX: usize = 64;
pub const STEPS: usize = 60_000;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Op {
    Read,
    Write,
    Wait,
    Wake,
    Create,
    Exit,
    Join,
    Yield,
    Open,
    WriteFile,
    Fs,
}

#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct Rec {
    pub cur: u8,
    pub op: Op,
    /// the running thread could have gone on
    pub live: bool,
    pub chosen: u8,
    pub enabled: u64,
    pub key: u64,
}
impl Rec {
    pub fn writes(&self) -> bool {
        !matches!(self.op, Op::Read)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum End {
    Unknown = 0,
    Ok,
    Err,
    Panic,
    Deadlock,
    TooLong,
    Mismatch,
}

/// Shared with the parent.
#[repr(C)]
pub struct Shm {
    pub end: End,
    pub nprefix: u32,
    /// (step, thread)
    pub prefix: [(u32, u32); 64],
    pub nrec: u32,
    pub msg: [u8; 512],
    pub rec: [Rec; STEPS],
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    None,
    Run,
    /// futex address, has a timeout
    Wait(u64, bool),
    Join(usize),
    Done,
}

struct Th {
    st: St,
    go: AtomicU32,
    pth: libc::pthread_t,
    timed_out: bool,
    seq: u64,
}

static mut TH: [Th; MAX] = [const {
    Th {
        st: St::None,
        go: AtomicU32::new(0),
        pth: 0,
        timed_out: false,
        seq: 0,
    }
}; MAX];
static mut N: usize = 0;
static mut SHM: *mut Shm = std::ptr::null_mut();
static mut ACTIVE: bool = false;
static mut NEXT_PREFIX: usize = 0;
static mut SEQ: u64 = 0;
static mut RUNLEN: u32 = 0;
static mut FDKEY: [u64; 1024] = [0; 1024];

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn me() -> Option<usize> {
    unsafe {
        if !ACTIVE {
            return None;
        }
    }
    let m = ME.with(|m| m.get());
    (m != usize::MAX).then_some(m)
}

unsafe fn raw_syscall(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], out("rcx") _, out("r11") _);
    r
}

unsafe fn finish(end: End, msg: &str) -> ! {
    (*SHM).end = end;
    let b = msg.as_bytes();
    let n = b.len().min(511);
    (&mut (*SHM).msg)[..n].copy_from_slice(&b[..n]);
    (&mut (*SHM).msg)[n] = 0;
    libc::_exit(0)
}

/// Called by the main thread of the child.
pub unsafe fn start(shm: *mut Shm) {
    SHM = shm;
    N = 1;
    TH[0].st = St::Run;
    TH[0].pth = libc::pthread_self();
    ME.with(|m| m.set(0));
    ACTIVE = true;
}

pub unsafe fn end(end: End, msg: &str) -> ! {
    ACTIVE = false;
    finish(end, msg)
}

unsafe fn enabled() -> u64 {
    let mut m = 0;
    for i in 0..N {
        if TH[i].st == St::Run {
            m |= 1u64 << i;
        }
    }
    m
}

/// Records the point and chooses who goes on. `live`: the caller can go on.
unsafe fn decide(cur: usize, op: Op, key: u64, live: bool) -> usize {
    let mut en = enabled();
    if en == 0 {
        // let time pass
        for i in 0..N {
            if let St::Wait(_, true) = TH[i].st {
                TH[i].st = St::Run;
                TH[i].timed_out = true;
                en = 1u64 << i;
                break;
            }
        }
    }
    if en == 0 {
        let mut s = String::from("deadlock:");
        for i in 0..N {
            let d = match TH[i].st {
                St::Wait(..) => "waits",
                St::Join(_) => "joins",
                St::Done => "done",
                _ => "?",
            };
            s.push_str(&format!(" thread {i} {d};"));
        }
        finish(End::Deadlock, &s);
    }
    let step = (*SHM).nrec;
    if step as usize >= STEPS {
        finish(End::TooLong, "too many steps");
    }
    let force = (NEXT_PREFIX < (*SHM).nprefix as usize && (*SHM).prefix[NEXT_PREFIX].0 == step)
        .then(|| (*SHM).prefix[NEXT_PREFIX].1 as usize);
    let rr = |en: u64| {
        let mut k = (cur + 1) % MAX;
        while en & (1u64 << k) == 0 {
            k = (k + 1) % MAX;
        }
        k
    };
    let chosen = match force {
        Some(t) => {
            NEXT_PREFIX += 1;
            if t >= N || en & (1 << t) == 0 {
                finish(End::Mismatch, "schedule can't be replayed");
            }
            t
        }
        None if !live => rr(en),
        None if op == Op::Yield => rr(en),
        None => {
            RUNLEN += 1;
            if RUNLEN > 5000 {
                // a thread which waits in a loop without yielding
                RUNLEN = 0;
                rr(en)
            } else {
                cur
            }
        }
    };
    if chosen != cur {
        RUNLEN = 0;
    }
    (&mut (*SHM).rec)[step as usize] = Rec {
        cur: cur as u8,
        op,
        live,
        chosen: chosen as u8,
        enabled: en,
        key,
    };
    (*SHM).nrec = step + 1;
    chosen
}

unsafe fn hand_over(to: usize) {
    TH[to].go.store(1, Ordering::SeqCst);
    let p = &TH[to].go as *const _ as i64;
    raw_syscall(libc::SYS_futex, [p, 1, 1, 0, 0, 0]);
}

unsafe fn wait_turn(me: usize) {
    let p = &TH[me].go as *const _ as i64;
    while TH[me].go.load(Ordering::SeqCst) == 0 {
        raw_syscall(libc::SYS_futex, [p, 0, 0, 0, 0, 0]);
    }
    TH[me].go.store(0, Ordering::SeqCst);
}

unsafe fn point_(m: usize, op: Op, key: u64, live: bool) {
    let n = decide(m, op, key, live);
    if n != m {
        hand_over(n);
        wait_turn(m);
    }
}

#[inline(never)]
pub fn point(op: Op, key: u64) {
    if let Some(m) = me() {
        unsafe { point_(m, op, key, true) }
    }
}

// ---- atomics -----------------------------------------------------------------------------

macro_rules! atomics {
    ($t:ty, $at:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *const $t, _: i32) -> $t {
            point(Op::Read, a as u64);
            (*(a as *const $at)).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _: i32) {
            point(Op::Write, a as u64);
            (*(a as *const $at)).store(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _: i32) -> $t {
            point(Op::Write, a as u64);
            (*(a as *const $at)).swap(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _: i32) -> $t {
            point(Op::Write, a as u64);
            (*(a as *const $at)).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _: i32) -> $t {
            point(Op::Write, a as u64);
            (*(a as *const $at)).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _: i32) -> $t {
            point(Op::Write, a as u64);
            (*(a as *const $at)).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _: i32) -> $t {
            point(Op::Write, a as u64);
            (*(a as *const $at)).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _: i32) -> $t {
            point(Op::Write, a as u64);
            (*(a as *const $at)).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _: i32) -> $t {
            point(Op::Write, a as u64);
            (*(a as *const $at)).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            point(Op::Write, a as u64);
            match (*(a as *const $at)).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    };
}
use std::sync::atomic::{AtomicU16, AtomicU64, AtomicU8};
atomics!(
    u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add,
    __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor,
    __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val
);
atomics!(
    u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add,
    __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor,
    __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val
);
atomics!(
    u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add,
    __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor,
    __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val
);
atomics!(
    u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add,
    __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor,
    __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val
);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(Ordering::SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

// ---- blocking ----------------------------------------------------------------------------

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex {
        if let Some(m) = me() {
            let op = (b as i32) & 0x7f;
            match op {
                0 | 9 => {
                    point_(m, Op::Read, a as u64, true);
                    if (*(a as *const AtomicU32)).load(Ordering::SeqCst) != c as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    TH[m].timed_out = false;
                    TH[m].st = St::Wait(a as u64, d != 0);
                    SEQ += 1;
                    TH[m].seq = SEQ;
                    point_(m, Op::Wait, a as u64, false);
                    if TH[m].timed_out {
                        set_errno(libc::ETIMEDOUT);
                        return -1;
                    }
                    return 0;
                }
                1 | 10 => {
                    point_(m, Op::Wake, a as u64, true);
                    let mut woken = 0;
                    while woken < c {
                        let w = (0..N)
                            .filter(|&i| matches!(TH[i].st, St::Wait(x, _) if x == a as u64))
                            .min_by_key(|&i| TH[i].seq);
                        match w {
                            Some(i) => TH[i].st = St::Run,
                            None => break,
                        }
                        woken += 1;
                    }
                    return woken;
                }
                _ => (),
            }
        }
    }
    let r = raw_syscall(n, [a, b, c, d, e, f]);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    match me() {
        Some(m) => point_(m, Op::Yield, 0, true),
        None => {
            raw_syscall(libc::SYS_sched_yield, [0; 6]);
        }
    }
    0
}

unsafe fn nap() -> bool {
    match me() {
        Some(m) => {
            point_(m, Op::Yield, 0, true);
            true
        }
        None => false,
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: i64, b: i64) -> i32 {
    if nap() {
        return 0;
    }
    raw_syscall(libc::SYS_nanosleep, [a, b, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, a: i64, b: i64) -> i32 {
    if nap() {
        return 0;
    }
    -raw_syscall(libc::SYS_clock_nanosleep, [c as i64, fl as i64, a, b, 0, 0]) as i32
}

// ---- threads -----------------------------------------------------------------------------

type Start = extern "C" fn(*mut c_void) -> *mut c_void;

unsafe fn real<T: Copy>(name: &[u8]) -> T {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b: Box<(usize, Start, usize)> = Box::from_raw(p as *mut _);
        let (id, f, arg) = *b;
        ME.with(|m| m.set(id));
        wait_turn(id);
        let r = f(arg as *mut c_void);
        TH[id].st = St::Done;
        for i in 0..N {
            if TH[i].st == St::Join(id) {
                TH[i].st = St::Run;
            }
        }
        let n = decide(id, Op::Exit, id as u64, false);
        ME.with(|m| m.set(usize::MAX));
        hand_over(n);
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const c_void, f: Start, arg: *mut c_void) -> i32 {
    let rc: unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> i32 = real(b"pthread_create\0");
    let m = match me() {
        Some(m) => m,
        None => return rc(t, attr, f, arg),
    };
    if N >= MAX {
        finish(End::TooLong, "too many threads");
    }
    let id = N;
    let b = Box::into_raw(Box::new((id, f, arg as usize)));
    let r = rc(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        return r;
    }
    TH[id].pth = *t;
    TH[id].st = St::Run;
    N += 1;
    point_(m, Op::Create, id as u64, true);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> i32 {
    if let Some(m) = me() {
        if let Some(id) = (0..N).find(|&i| TH[i].pth == t && i != 0) {
            if TH[id].st != St::Done {
                TH[m].st = St::Join(id);
                point_(m, Op::Join, id as u64, false);
            }
        }
    }
    let rj: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> i32 = real(b"pthread_join\0");
    rj(t, ret)
}

// ---- files -------------------------------------------------------------------------------

unsafe fn path_key(p: *const i8) -> u64 {
    let s = std::ffi::CStr::from_ptr(p);
    let mut h = 0xcbf29ce484222325u64;
    for b in s.to_bytes() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h | 1 << 63
}

unsafe fn do_open(p: *const i8, fl: i32, mode: u32) -> i32 {
    let w = fl & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
    let on = me().is_some();
    let k = if on { path_key(p) } else { 0 };
    if on {
        point(if w { Op::Open } else { Op::Read }, k);
    }
    let r = raw_syscall(libc::SYS_openat, [libc::AT_FDCWD as i64, p as i64, fl as i64, mode as i64, 0, 0]);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    if on && (r as usize) < 1024 {
        FDKEY[r as usize] = k;
    }
    r as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, fl: i32, mode: u32) -> i32 {
    do_open(p, fl | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const i8, fl: i32, mode: u32) -> i32 {
    do_open(p, fl, mode)
}

unsafe fn fd_key(fd: i32) -> u64 {
    if fd == 1 || fd == 2 {
        return 1 << 62 | fd as u64;
    }
    FDKEY.get(fd as usize).copied().unwrap_or(0)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const c_void, n: usize) -> isize {
    if me().is_some() {
        point(Op::WriteFile, fd_key(fd));
    }
    let r = raw_syscall(libc::SYS_write, [fd as i64, b as i64, n as i64, 0, 0, 0]);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const c_void, n: i32) -> isize {
    if me().is_some() {
        point(Op::WriteFile, fd_key(fd));
    }
    let r = raw_syscall(libc::SYS_writev, [fd as i64, v as i64, n as i64, 0, 0, 0]);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    r as isize
}

macro_rules! fsop {
    ($name:ident, $nr:expr, ($($a:ident: $t:ty),*), $path:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            if me().is_some() {
                point(Op::Fs, path_key($path));
            }
            let mut v = [0i64; 6];
            let mut _i = 0;
            $( v[_i] = $a as i64; _i += 1; )*
            let r = raw_syscall($nr, v);
            if r < 0 {
                set_errno(-r as i32);
                return -1;
            }
            r as i32
        }
    };
}
fsop!(mkdir, libc::SYS_mkdir, (p: *const i8, m: u32), p);
fsop!(rmdir, libc::SYS_rmdir, (p: *const i8), p);
fsop!(unlink, libc::SYS_unlink, (p: *const i8), p);
fsop!(rename, libc::SYS_rename, (a: *const i8, b: *const i8), b);
fsop!(link, libc::SYS_link, (a: *const i8, b: *const i8), b);

/// No execution depends on random numbers.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _fl: u32) -> isize {
    for i in 0..n {
        *b.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a;
    }
    n as isize
}
