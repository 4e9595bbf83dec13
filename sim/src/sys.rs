//! The simulated kernel.  The libc entry points that std, rand, csv, memmap
//! and bincode use are defined in this executable, so for a simulated client
//! thread every file, directory, mapping, clock, sleep and entropy request of
//! the real rust_graph code is answered here: from an in-memory file system,
//! a simulated clock and a seeded entropy source, with faults decided by the
//! run's choice streams.  Other threads get the real system calls.

use crate::choice::{self, Choices, Rng, FAULT, SCHED, WORK};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

// ---------------------------------------------------------------- faults --

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum F {
    Eio,
    Enospc,
    Eintr,
    Short,
    Eacces,
    Emfile,
    Enomem,
    Eagain,
    Erofs,
    Crash,
    Latency,
    /// user code called by the library (hashing, comparing, cloning a label) panics
    Panic,
}
pub const ALL_F: [F; 12] = [
    F::Eio,
    F::Enospc,
    F::Eintr,
    F::Short,
    F::Eacces,
    F::Emfile,
    F::Enomem,
    F::Eagain,
    F::Erofs,
    F::Crash,
    F::Latency,
    F::Panic,
];
impl F {
    pub fn name(self) -> &'static str {
        match self {
            F::Eio => "EIO",
            F::Enospc => "ENOSPC",
            F::Eintr => "EINTR",
            F::Short => "short",
            F::Eacces => "EACCES",
            F::Emfile => "EMFILE",
            F::Enomem => "ENOMEM",
            F::Eagain => "EAGAIN",
            F::Erofs => "EROFS",
            F::Crash => "crash",
            F::Latency => "latency",
            F::Panic => "panic in user code",
        }
    }
    fn bit(self) -> u32 {
        1 << self as u8
    }
}

/// How faults are *generated* (never consulted in replay).
#[derive(Clone, Default)]
struct Plan {
    mask: u32,
    rate: u64, // per mille per applicable fault point
    at: Option<u64>,
    count: u64,
    crash: bool,
}

// ------------------------------------------------------------ file system --

#[derive(Clone)]
enum Ent {
    Dir,
    File(usize),
}

#[derive(Clone, Default)]
struct Fs {
    ents: BTreeMap<String, Ent>,
    data: BTreeMap<usize, Arc<Vec<u8>>>,
    next: usize,
}

#[derive(Clone)]
struct Ofd {
    ino: usize,
    pos: u64,
    flags: c_int,
    path: String,
    dir: bool,
}

pub struct SimDir {
    names: Vec<(String, bool)>,
    pos: usize,
    path: String,
    ent: libc::dirent64,
}

#[derive(Default)]
struct Kernel {
    fs: Fs,
    snap: Option<Fs>,
    fds: BTreeMap<c_int, usize>,
    ofds: BTreeMap<usize, Ofd>,
    next_ofd: usize,
    dirs: BTreeSet<usize>,
    cap: Option<u64>,
    armed: bool,
    crashed: bool,
    sticky_ino: BTreeSet<String>,
    sticky_full: bool,
    now: u64, // simulated ns
    syscalls: u64,
    /// calls since the start; those that moved bytes count for a fortieth
    idle: u64,
    user_calls: u64,
    entropy_faults: bool,
    /// what getrandom delivers: 0 random, 1 zeros, 2 ones, 3 one repeated byte
    ent_mode: u8,
    clock_n: u64,
}

pub struct Sched {
    n: usize,
    cur: usize,
    live: Vec<bool>,
    on: bool,
    style: u64,
    budget: u64,
    fresh: bool,
}

pub struct Run {
    pub ch: Choices,
    k: Kernel,
    plan: Plan,
    sched: Sched,
    ent_seed: u64,
    pub hash: u64,
    pub events: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub fired: BTreeMap<&'static str, u64>,
    pub fired_n: u64,
    /// failures a caller cannot be expected to ride out
    pub hard_n: BTreeMap<i32, u64>,
    pub eintr_n: BTreeMap<i32, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// where in a file the first read failed, since this was last asked for
    read_err: BTreeMap<String, u64>,
    /// how often the simulated process was started again
    pub boots: u64,
    pub marks: u64,
    pub switches: u64,
    pub preempts: u64,
}

impl Run {
    pub fn new(ch: Choices, seed: u64, tracing: bool) -> Run {
        let mut k = Kernel::default();
        k.fs.next = 1;
        for d in ["/", "/w", "/tmp", "/data"] {
            k.fs.ents.insert(d.to_string(), Ent::Dir);
        }
        k.next_ofd = 1;
        Run {
            ch,
            k,
            plan: Plan::default(),
            sched: Sched {
                n: 1,
                cur: 0,
                live: vec![true],
                on: false,
                style: 0,
                budget: 0,
                fresh: true,
            },
            ent_seed: seed,
            hash: 0,
            events: 0,
            tracing,
            trace: Vec::new(),
            fired: BTreeMap::new(),
            fired_n: 0,
            hard_n: BTreeMap::new(),
            eintr_n: BTreeMap::new(),
            probes: BTreeMap::new(),
            boots: 0,
            read_err: BTreeMap::new(),
            marks: 0,
            switches: 0,
            preempts: 0,
        }
    }
    pub fn sim_ns(&self) -> u64 {
        self.k.now
    }
    pub fn syscalls(&self) -> u64 {
        self.k.syscalls
    }
    fn ev(&mut self, k: u64, a: u64, b: u64, d: impl FnOnce() -> String) {
        self.events += 1;
        self.hash = (self.hash ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15))
            .rotate_left(23)
            .wrapping_mul(0x1000_0000_01b3)
            ^ a.wrapping_mul(0xD6E8_FEB8_6659_FD93)
            ^ b.rotate_left(32);
        if self.tracing && self.trace.len() < 6000 {
            let s = d();
            self.trace.push(s);
        }
    }
}

static RUN: Mutex<Option<Box<Run>>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
pub static SYSCALL_CAP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(400_000);

thread_local! {
    static CID: Cell<i32> = const { Cell::new(-1) };
    static ENT: Cell<u64> = const { Cell::new(0) };
}

fn lock() -> MutexGuard<'static, Option<Box<Run>>> {
    RUN.lock().unwrap_or_else(|e| e.into_inner())
}
fn with<T>(f: impl FnOnce(&mut Run) -> T) -> T {
    let _p = NoPre::new();
    let mut g = lock();
    f(g.as_mut().expect("no run"))
}
#[inline]
pub fn in_sim() -> bool {
    CID.with(|c| c.get() >= 0)
}
pub fn cid() -> i32 {
    CID.with(|c| c.get())
}

/// Client number of the thread that drives a run.
pub const DRIVER: i32 = 1000;

pub fn real_write(fd: c_int, b: &[u8]) {
    unsafe {
        raw(1, fd as c_long, b.as_ptr() as c_long, b.len() as c_long, 0, 0, 0);
    }
}

pub fn install(r: Run) {
    maps().clear();
    *lock() = Some(Box::new(r));
}
pub fn uninstall() -> Run {
    *lock().take().expect("no run")
}

/// Make the calling thread a simulated client.
pub fn enter(client: i32) {
    let seed = with(|r| r.ent_seed);
    CID.with(|c| c.set(client));
    ENT.with(|e| e.set(choice::mix(seed, 0x5EED ^ ((client as u64) << 32)) | 1));
}
pub fn leave() {
    CID.with(|c| c.set(-1));
}
/// Change the entropy handed out from here on to this thread (hash seeds of
/// new threads, fresh RNGs).
pub fn reseed_entropy(x: u64) {
    ENT.with(|e| e.set(choice::mix(e.get(), x) | 1));
}

// ------------------------------------------------- API for the properties --

pub fn draw(n: u64) -> u64 {
    with(|r| r.ch.draw(WORK, n))
}
/// true with probability p/1000; false is the shrunk value.
pub fn chance(p: u64) -> bool {
    with(|r| {
        r.ch
            .draw_with(WORK, 2, |g| (g.below(1000) < p) as u64)
            == 1
    })
}
/// weighted choice; index 0 is the shrunk value
pub fn pick(w: &[u64]) -> usize {
    let t: u64 = w.iter().sum();
    with(|r| {
        r.ch.draw_with(WORK, w.len() as u64, |g| {
            let mut x = g.below(t.max(1));
            for (i, a) in w.iter().enumerate() {
                if x < *a {
                    return i as u64;
                }
                x -= a;
            }
            0
        }) as usize
    })
}
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}
/// small-biased value in [lo, hi]
pub fn span<T>(f: impl FnOnce() -> T) -> T {
    with(|r| r.ch.open(WORK));
    let v = f();
    with(|r| r.ch.close(WORK));
    v
}

pub fn note(d: impl FnOnce() -> String) {
    let t = with(|r| r.tracing);
    if t {
        let s = d();
        with(|r| r.ev(9, choice::hash_str(0, &s), 0, || s));
    } else {
        // the hash must not depend on whether tracing is on
        let s = d();
        with(|r| r.ev(9, choice::hash_str(0, &s), 0, String::new));
    }
}
/// Where the first failed read of this file was, since the last call.
pub fn read_error(path: &str) -> Option<u64> {
    with(|r| {
        let x = r.read_err.get(&norm(path)).copied();
        r.read_err.clear();
        x
    })
}
pub fn boots() -> u64 {
    with(|r| r.boots)
}
pub fn probe(p: &'static str) {
    with(|r| *r.probes.entry(p).or_insert(0) += 1)
}
/// User code called back by the library: the fault plan may make it panic.
pub fn user_code(what: &'static str) {
    if !in_sim() {
        return;
    }
    let a = with(|r| {
        if !r.k.armed {
            return Act::Ok;
        }
        // calls of label code have a limit of their own
        r.k.user_calls += 1;
        if r.k.user_calls > 500 * SYSCALL_CAP.load(std::sync::atomic::Ordering::Relaxed) {
            unsafe { raw(231, 96, 0, 0, 0, 0, 0) };
        }
        let a = gate(r, what, "", &[F::Panic]);
        r.k.syscalls -= 1;
        r.k.idle -= 40;
        a
    });
    if let Act::Err(_) = a {
        panic!("user code panics");
    }
}
/// An oracle was evaluated on something non-trivial.
pub fn mark() {
    with(|r| r.marks += 1)
}

/// Decide how faults will be generated during this run.
pub fn plan_faults(kinds: &[F], crash: bool, none_permille: u64) {
    with(|r| {
        let mut g = Rng::new(r.ch.draw(WORK, 1 << 30) ^ 0xFA17);
        let mut p = Plan {
            crash,
            ..Default::default()
        };
        if g.below(1000) >= none_permille {
            for k in kinds {
                if g.below(100) < 55 {
                    p.mask |= k.bit();
                }
            }
            if p.mask == 0 {
                p.mask = kinds[g.below(kinds.len() as u64) as usize].bit();
            }
            if crash && g.below(100) < 60 {
                p.mask |= F::Crash.bit();
                if g.below(100) < 40 {
                    p.mask = F::Crash.bit();
                }
            }
            if g.below(100) < 65 {
                let lim = [2, 5, 12, 40][g.below(4) as usize];
                p.at = Some(g.below(lim));
            } else {
                p.rate = [15, 40, 90, 200][g.below(4) as usize];
            }
        }
        r.plan = p;
    })
}
/// no faults at all for this run
pub fn plan_none() {
    with(|r| r.plan = Plan::default())
}
pub fn arm(on: bool) {
    with(|r| r.k.armed = on)
}
/// Re-position a single planned fault relative to now.
pub fn replan_at(limit: u64) {
    with(|r| {
        if r.plan.at.is_some() {
            let mut g = Rng::new(r.ch.draw(WORK, 1 << 30) ^ 0xA7);
            r.plan.at = Some(r.plan.count + g.below(limit.max(1)));
        }
    })
}
/// Persistent failures (full disk, failing file) end; capacity becomes unlimited.
pub fn heal() {
    with(|r| {
        r.k.sticky_full = false;
        r.k.sticky_ino.clear();
        r.k.cap = None;
        r.k.armed = false;
    })
}
pub fn set_cap(extra: Option<u64>) {
    with(|r| {
        let used: u64 = r.k.fs.data.values().map(|d| d.len() as u64).sum();
        r.k.cap = extra.map(|e| used + e);
    })
}
pub fn entropy_mode(m: u8) {
    with(|r| r.k.ent_mode = m)
}
pub fn get_entropy_mode() -> u8 {
    with(|r| r.k.ent_mode)
}
pub fn entropy_faults(on: bool) {
    with(|r| r.k.entropy_faults = on)
}
pub fn fired_total() -> u64 {
    with(|r| r.fired_n)
}
/// (failures a caller cannot ride out, interrupted calls) this client met so far
pub fn hard() -> (u64, u64) {
    let c = cid();
    with(|r| (r.hard_n.get(&c).copied().unwrap_or(0), r.eintr_n.get(&c).copied().unwrap_or(0)))
}
pub fn crashed() -> bool {
    with(|r| r.k.crashed)
}
pub fn syscalls() -> u64 {
    with(|r| r.k.syscalls)
}
/// Kill the process (if a fault did not already) and start a new one: open
/// files are gone, the file system is what the page cache held at the crash.
pub fn restart() {
    maps().clear();
    with(|r| {
        if let Some(s) = r.k.snap.take() {
            r.k.fs = s;
        }
        r.k.crashed = false;
        r.boots += 1;
        r.k.fds.clear();
        r.k.ofds.clear();
        r.ev(8, 0, 0, || "-- process restart".into());
    })
}
/// Crash right now, deliberately (not a fault draw).
pub fn kill_now() {
    with(|r| {
        if !r.k.crashed {
            maps_pull(r);
            let s = r.k.fs.clone();
            r.k.snap = Some(s);
            r.k.crashed = true;
        }
    })
}

pub fn vfs_get(path: &str) -> Option<Vec<u8>> {
    with(|r| match r.k.fs.ents.get(&norm(path)) {
        Some(Ent::File(i)) => Some((*r.k.fs.data[i]).clone()),
        _ => None,
    })
}
pub fn vfs_put(path: &str, data: &[u8]) {
    with(|r| {
        let p = norm(path);
        let ino = r.k.fs.next;
        r.k.fs.next += 1;
        r.k.fs.data.insert(ino, Arc::new(data.to_vec()));
        r.k.fs.ents.insert(p, Ent::File(ino));
        r.k.gc();
    })
}
pub fn vfs_mkdir(path: &str) {
    with(|r| {
        r.k.fs.ents.insert(norm(path), Ent::Dir);
    })
}
/// A saved copy of the whole simulated disk.
pub struct DiskImage(Fs);
pub fn disk_save() -> DiskImage {
    with(|r| DiskImage(r.k.fs.clone()))
}
pub fn disk_restore(d: &DiskImage) {
    maps().clear();
    with(|r| {
        r.k.fs = d.0.clone();
        r.k.fds.clear();
        r.k.ofds.clear();
    })
}
pub fn open_fds() -> usize {
    with(|r| r.k.fds.len())
}

// -------------------------------------------------------- client schedule --

pub fn sched_start(n: usize) {
    with(|r| {
        r.sched = Sched {
            n,
            cur: 0,
            live: vec![true; n],
            on: true,
            fresh: true,
            ..r.sched
        };
        let c = r.ch.draw(SCHED, n as u64) as usize;
        r.sched.cur = c;
    })
}
/// Block until this client holds the baton (called once by a new client).
pub fn sched_wait_turn() {
    let _p = NoPre::new();
    let me = cid() as usize;
    let mut g = lock();
    loop {
        let r = g.as_mut().unwrap();
        if r.sched.cur == me {
            return;
        }
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
pub fn sched_finish() {
    let _p = NoPre::new();
    let me = cid() as usize;
    let mut g = lock();
    let r = g.as_mut().unwrap();
    r.sched.live[me] = false;
    pass_baton(r);
    CV.notify_all();
}
pub fn sched_stop() {
    with(|r| {
        r.sched.on = false;
    })
}
fn pass_baton(r: &mut Run) {
    let live: Vec<usize> = (0..r.sched.n).filter(|i| r.sched.live[*i]).collect();
    if live.is_empty() {
        return;
    }
    let cur = r.sched.cur;
    // index 0 of the draw means "keep running the current client"
    let mut order: Vec<usize> = live.iter().copied().filter(|i| *i == cur).collect();
    order.extend(live.iter().copied().filter(|i| *i != cur));
    let n = order.len() as u64;
    let i = if n == 1 {
        0
    } else {
        r.ch.draw_with(SCHED, n, |g| {
            if g.below(100) < 45 {
                0
            } else {
                g.below(n)
            }
        }) as usize
    };
    r.sched.cur = order[i];
}
/// An explicit scheduling point (also reached at every simulated syscall).
pub fn yield_point() {
    if !in_sim() {
        return;
    }
    let _p = NoPre::new();
    let me = cid() as usize;
    let mut g = lock();
    {
        let r = g.as_mut().unwrap();
        if !r.sched.on || !r.sched.live.get(me).copied().unwrap_or(false) {
            return;
        }
        pass_baton(r);
        if r.sched.cur == me {
            return;
        }
        let c = r.sched.cur as u64;
        r.switches += 1;
        r.ev(7, me as u64, c, || format!("-- switch: client {} -> {}", me, c));
    }
    CV.notify_all();
    loop {
        if g.as_mut().unwrap().sched.cur == me {
            return;
        }
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

// --------------------------------------------- preemption at memory accesses --
//
// The instrumented build (bin/rustc-cov) calls `__sanitizer_cov_*` before every
// load and store and at every branch of rust_graph's code.  A client thread
// inside `preemptible` counts them; when the count the schedule stream gave has
// passed, another client gets the baton.  Accesses to the program's static
// variables - which threads can only meet in by design - are further points at
// which the schedule stream may switch.

struct NoPre(bool);
impl NoPre {
    #[inline]
    fn new() -> NoPre {
        NoPre(simpre::set(false))
    }
}
impl Drop for NoPre {
    #[inline]
    fn drop(&mut self) {
        if self.0 {
            simpre::set(true);
        }
    }
}

/// Whether this binary calls back at memory accesses.
pub fn instrumented() -> bool {
    std::cfg!(simcov)
}
/// Run `f`, which may lose the processor at any memory access.
pub fn preemptible<T>(f: impl FnOnce() -> T) -> T {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            simpre::set(self.0);
        }
    }
    let on = with(|r| r.sched.on);
    let _o = Off(simpre::set(on));
    f()
}
/// How eagerly clients are preempted in this run: 0 not at all (but for loops
/// that go on and on).
pub fn preempt_style(n: u64) {
    with(|r| {
        r.sched.style = n;
        r.sched.budget = 400;
    });
    simpre::left(1);
    simpre::hot(if n > 0 { 300 } else { 0 });
}
pub fn find_statics() {
    // the writable part of the executable's own image
    let m = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.display().to_string()).unwrap_or_default();
    let (mut lo, mut hi) = (0, 0);
    for l in m.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = match f[0].split_once('-') {
            Some((a, b)) => (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0)),
            None => continue,
        };
        if f[1].starts_with("rw") && (f.get(5) == Some(&exe.as_str()) || (a == hi && hi > 0 && f.len() == 5)) {
            if lo == 0 {
                lo = a;
            }
            hi = b;
        }
    }
    simpre::init(lo, hi, preempt);
}
#[cold]
#[inline(never)]
fn preempt(timer: bool) {
    // the code here may be about to read it
    unsafe {
        let e = *libc::__errno_location();
        preempt_(timer);
        *libc::__errno_location() = e;
    }
}
fn preempt_(timer: bool) {
    let me = cid() as usize;
    let mut g = lock();
    {
        let r = g.as_mut().unwrap();
        if !r.sched.on || !r.sched.live.get(me).copied().unwrap_or(false) {
            simpre::left(1 << 18);
            return;
        }
        if timer {
            // 0: nothing for long
            let style = if r.sched.budget > 0 { r.sched.style } else { 0 };
            let n = if style == 0 {
                0
            } else {
                r.sched.budget -= 1;
                r.ch.draw_with(SCHED, 1 << 16, |g| match (style, g.below(4)) {
                    (_, 0) => 1 + g.below(12),
                    (1, _) => 1 + g.below(20_000),
                    (2, _) => 1 + g.below(2_000),
                    (_, 1) => 1 + g.below(2_000),
                    _ => 1 + g.below(150),
                })
            };
            let long = 1 << 18;
            simpre::left(if n == 0 { long } else { n as i64 });
            if n == 0 {
                r.k.idle += 40 * 50;
                if r.k.idle > 40 * SYSCALL_CAP.load(Relaxed) {
                    unsafe { raw(231, 96, 0, 0, 0, 0, 0) };
                }
            }
            if r.sched.fresh {
                // the first count is not the end of one
                r.sched.fresh = false;
                return;
            }
        } else {
            simpre::hot(simpre::hot_left() - 1);
            if r.ch.draw_with(SCHED, 2, |g| (g.below(5) == 0) as u64) == 0 {
                return;
            }
        }
        let others: Vec<usize> = (0..r.sched.n).filter(|i| *i != me && r.sched.live[*i]).collect();
        if others.is_empty() {
            return;
        }
        let c = others[r.ch.draw(SCHED, others.len() as u64) as usize];
        r.sched.cur = c;
        r.switches += 1;
        r.preempts += 1;
        r.ev(7, me as u64, c as u64, || format!("-- client {} is preempted: switch to client {}", me, c));
    }
    CV.notify_all();
    loop {
        if g.as_mut().unwrap().sched.cur == me {
            return;
        }
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
fn own_futex(a: usize) -> bool {
    let inside = |p: usize, n: usize| a >= p && a < p + n;
    inside(&RUN as *const _ as usize, std::mem::size_of_val(&RUN))
        || inside(&CV as *const _ as usize, std::mem::size_of_val(&CV))
        || inside(&MAPS as *const _ as usize, std::mem::size_of_val(&MAPS))
}
/// A client blocks on a lock of the code under test: let another one run.
/// False if there is no other client (the wait is then a real one).
fn futex_yield() -> bool {
    let _p = NoPre::new();
    let me = cid() as usize;
    let mut g = lock();
    {
        let r = g.as_mut().unwrap();
        if !r.sched.on || !r.sched.live.get(me).copied().unwrap_or(false) {
            return false;
        }
        let others: Vec<usize> = (0..r.sched.n).filter(|i| *i != me && r.sched.live[*i]).collect();
        if others.is_empty() {
            return false;
        }
        r.k.syscalls += 1;
        r.k.idle += 40;
        if r.k.idle > 40 * SYSCALL_CAP.load(std::sync::atomic::Ordering::Relaxed) {
            unsafe { raw(231, 96, 0, 0, 0, 0, 0) };
        }
        let c = others[r.ch.draw(SCHED, others.len() as u64) as usize];
        r.sched.cur = c;
        r.switches += 1;
        r.ev(7, me as u64, c as u64, || format!("-- client {} waits for a lock: switch to client {}", me, c));
    }
    CV.notify_all();
    loop {
        if g.as_mut().unwrap().sched.cur == me {
            return true;
        }
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

// ----------------------------------------------------------- kernel logic --

impl Kernel {
    fn gc(&mut self) {
        let mut live: BTreeSet<usize> = BTreeSet::new();
        for e in self.fs.ents.values() {
            if let Ent::File(i) = e {
                live.insert(*i);
            }
        }
        for o in self.ofds.values() {
            live.insert(o.ino);
        }
        self.fs.data.retain(|i, _| live.contains(i));
    }
    fn used(&self) -> u64 {
        self.fs.data.values().map(|d| d.len() as u64).sum()
    }
}

fn norm(p: &str) -> String {
    let full = if p.starts_with('/') {
        p.to_string()
    } else {
        format!("/w/{}", p)
    };
    let mut out: Vec<&str> = Vec::new();
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}

enum Act {
    Ok,
    Err(c_int),
    /// transfer at most this share (per mille) of the request, then succeed
    Short(u64),
    /// the process dies during this call; share (per mille) of it takes effect
    Crash(u64),
}

/// Entry of every simulated call: counts, advances the clock, schedules and
/// draws the fault, if any.
fn gate(r: &mut Run, name: &'static str, path: &str, kinds: &[F]) -> Act {
    r.k.syscalls += 1;
    r.k.now += 20_000;
    maps_pull(r);
    r.k.idle += 40;
    if r.k.idle > 40 * SYSCALL_CAP.load(std::sync::atomic::Ordering::Relaxed) {
        unsafe { raw(231, 96, 0, 0, 0, 0, 0) };
    }
    if r.k.crashed {
        *r.hard_n.entry(cid()).or_insert(0) += 1;
        return Act::Err(libc::EIO);
    }
    if !r.k.armed || kinds.is_empty() {
        return Act::Ok;
    }
    if r.k.sticky_ino.contains(path) && kinds.contains(&F::Eio) {
        *r.hard_n.entry(cid()).or_insert(0) += 1;
        return Act::Err(libc::EIO);
    }
    if r.k.sticky_full && kinds.contains(&F::Enospc) {
        *r.hard_n.entry(cid()).or_insert(0) += 1;
        return Act::Err(libc::ENOSPC);
    }
    let plan = &mut r.plan;
    plan.count += 1;
    let c = plan.count - 1;
    let (mask, rate, at, crash) = (plan.mask, plan.rate, plan.at, plan.crash);
    let n = kinds.len() as u64 + 1;
    let v = r.ch.draw_with(FAULT, n, |g| {
        let fire = match at {
            Some(a) => c >= a && c < a + 1,
            None => rate > 0 && g.below(1000) < rate,
        };
        if !fire {
            return 0;
        }
        let en: Vec<u64> = (0..kinds.len())
            .filter(|i| mask & kinds[*i].bit() != 0 && (kinds[*i] != F::Crash || crash))
            .map(|i| i as u64 + 1)
            .collect();
        if en.is_empty() {
            return 0;
        }
        en[g.below(en.len() as u64) as usize]
    });
    if v == 0 {
        // a single planned fault moves on to the next point it applies to
        if let (Some(a), None) = (r.plan.at, r.ch.replay.as_ref()) {
            if c >= a {
                r.plan.at = Some(a + 1);
            }
        }
        return Act::Ok;
    }
    if r.ch.replay.is_none() && r.plan.at.is_some() {
        r.plan.at = Some(u64::MAX - 1);
    }
    let kind = kinds[v as usize - 1];
    let param = r.ch.draw(FAULT, 1000);
    *r.fired.entry(kind.name()).or_insert(0) += 1;
    r.fired_n += 1;
    match kind {
        F::Latency | F::Short | F::Panic => {}
        F::Eintr | F::Eagain => *r.eintr_n.entry(cid()).or_insert(0) += 1,
        _ => *r.hard_n.entry(cid()).or_insert(0) += 1,
    }
    r.ev(6, kind as u64, param, || {
        format!("!! fault {} at {}({}) param {}", kind.name(), name, path, param)
    });
    match kind {
        F::Latency => {
            r.k.now += 1_000_000 * (1 + param * param);
            Act::Ok
        }
        F::Eio => {
            if param % 4 == 3 {
                r.k.sticky_ino.insert(path.to_string());
            }
            Act::Err(libc::EIO)
        }
        F::Enospc => {
            if param % 4 != 0 {
                r.k.sticky_full = true;
            }
            Act::Err(libc::ENOSPC)
        }
        F::Eintr => Act::Err(libc::EINTR),
        F::Eacces => Act::Err(libc::EACCES),
        F::Emfile => Act::Err(libc::EMFILE),
        F::Enomem => Act::Err(libc::ENOMEM),
        F::Eagain => Act::Err(libc::EAGAIN),
        F::Erofs => Act::Err(libc::EROFS),
        F::Short => Act::Short(param),
        F::Crash => Act::Crash(param),
        F::Panic => Act::Err(0),
    }
}

fn die(r: &mut Run) {
    maps_pull(r);
    let s = r.k.fs.clone();
    r.k.snap = Some(s);
    r.k.crashed = true;
    r.ev(5, 0, 0, || "!! process killed".into());
}

type R = Result<i64, c_int>;

fn k_open(r: &mut Run, path: &str, flags: c_int) -> R {
    let p = norm(path);
    let create = flags & libc::O_CREAT != 0;
    let wr = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    let kinds: &[F] = if wr {
        &[F::Eacces, F::Emfile, F::Enospc, F::Erofs, F::Eio, F::Crash, F::Latency]
    } else {
        &[F::Eacces, F::Emfile, F::Eio, F::Crash, F::Latency]
    };
    let act = gate(r, "open", &p, kinds);
    let mut die_after = false;
    match act {
        Act::Err(e) => {
            r.ev(1, flags as u64, e as u64, || format!("open({}) = errno {}", p, e));
            return Err(e);
        }
        Act::Crash(x) => {
            if x < 500 {
                die(r);
                return Err(libc::EIO);
            }
            die_after = true;
        }
        _ => {}
    }
    let res = (|| -> R {
        let ino = match r.k.fs.ents.get(&p) {
            Some(Ent::Dir) => {
                if wr || create {
                    return Err(libc::EISDIR);
                }
                0
            }
            Some(Ent::File(i)) => {
                if flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if create && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                let i = *i;
                if flags & libc::O_TRUNC != 0 && wr {
                    r.k.fs.data.insert(i, Arc::new(Vec::new()));
                    maps_sync(r, i);
                }
                i
            }
            None => {
                if !create {
                    return Err(libc::ENOENT);
                }
                match r.k.fs.ents.get(&parent(&p)) {
                    Some(Ent::Dir) => {}
                    Some(_) => return Err(libc::ENOTDIR),
                    None => return Err(libc::ENOENT),
                }
                let i = r.k.fs.next;
                r.k.fs.next += 1;
                r.k.fs.data.insert(i, Arc::new(Vec::new()));
                r.k.fs.ents.insert(p.clone(), Ent::File(i));
                i
            }
        };
        let o = r.k.next_ofd;
        r.k.next_ofd += 1;
        r.k.ofds.insert(
            o,
            Ofd {
                ino,
                pos: 0,
                flags,
                path: p.clone(),
                dir: ino == 0,
            },
        );
        let mut fd = FD0;
        while r.k.fds.contains_key(&fd) {
            fd += 1;
        }
        r.k.fds.insert(fd, o);
        Ok(fd as i64)
    })();
    r.ev(1, flags as u64, enc(&res), || {
        format!("open({}, {:#x}) = {}", p, flags, show(&res))
    });
    if die_after {
        die(r);
        return Err(libc::EIO);
    }
    res
}
fn enc(r: &R) -> u64 {
    match r {
        Ok(v) => *v as u64,
        Err(e) => 0x8000_0000 | *e as u64,
    }
}
fn show(r: &R) -> String {
    match r {
        Ok(v) => v.to_string(),
        Err(e) => format!("errno {}", e),
    }
}

const FD0: c_int = 1_000_000;
#[inline]
fn is_sim_fd(fd: c_int) -> bool {
    fd >= FD0
}

fn k_read(r: &mut Run, fd: c_int, buf: *mut u8, len: usize, at: Option<u64>) -> R {
    let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
    let o = r.k.ofds[&oid].clone();
    let act = gate(
        r,
        "read",
        &o.path,
        &[F::Eio, F::Eintr, F::Short, F::Crash, F::Latency],
    );
    let mut limit = len;
    match act {
        Act::Err(e) => {
            r.ev(2, len as u64, e as u64, || format!("read({}, {}) = errno {}", o.path, len, e));
            r.read_err.entry(o.path.clone()).or_insert(at.unwrap_or(o.pos));
            return Err(e);
        }
        Act::Crash(_) => {
            die(r);
            return Err(libc::EIO);
        }
        Act::Short(p) => limit = 1 + (len.saturating_sub(1)) * p as usize / 1000,
        Act::Ok => {}
    }
    if o.dir {
        return Err(libc::EISDIR);
    }
    if o.flags & libc::O_ACCMODE == libc::O_WRONLY {
        return Err(libc::EBADF);
    }
    let pos = at.unwrap_or(o.pos) as usize;
    let data = r.k.fs.data.get(&o.ino).cloned().unwrap_or_default();
    let mut n = data.len().saturating_sub(pos).min(len);
    if n > limit {
        n = limit;
    }
    if n > 0 {
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), buf, n) };
    }
    if at.is_none() {
        r.k.ofds.get_mut(&oid).unwrap().pos += n as u64;
    }
    if n > 0 {
        r.k.idle -= 39;
    }
    r.ev(2, len as u64, n as u64, || format!("read({}, {}) = {}", o.path, len, n));
    Ok(n as i64)
}

fn k_write(r: &mut Run, fd: c_int, buf: *const u8, len: usize, at: Option<u64>) -> R {
    let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
    let o = r.k.ofds[&oid].clone();
    let act = gate(
        r,
        "write",
        &o.path,
        &[F::Enospc, F::Eio, F::Eintr, F::Short, F::Crash, F::Latency],
    );
    let mut limit = len;
    let mut die_after = false;
    match act {
        Act::Err(e) => {
            r.ev(3, len as u64, e as u64, || format!("write({}, {}) = errno {}", o.path, len, e));
            return Err(e);
        }
        Act::Crash(p) => {
            limit = (len + 1) * p as usize / 1000;
            limit = limit.min(len);
            die_after = true;
        }
        Act::Short(p) => limit = 1 + (len.saturating_sub(1)) * p as usize / 1000,
        Act::Ok => {}
    }
    if o.flags & libc::O_ACCMODE == libc::O_RDONLY || o.dir {
        return Err(libc::EBADF);
    }
    if let (Some(cap), true) = (r.k.cap, r.k.armed) {
        let free = cap.saturating_sub(r.k.used()) as usize;
        let pos = at.unwrap_or(o.pos) as usize;
        let have = r.k.fs.data.get(&o.ino).map(|d| d.len()).unwrap_or(0);
        let grow = (pos + limit).saturating_sub(have);
        if grow > free {
            limit = limit.saturating_sub(grow - free);
            if limit == 0 {
                *r.fired.entry("disk_full").or_insert(0) += 1;
                r.fired_n += 1;
                *r.hard_n.entry(cid()).or_insert(0) += 1;
                r.ev(3, len as u64, 28, || {
                    format!("write({}, {}) = ENOSPC (disk full)", o.path, len)
                });
                return Err(libc::ENOSPC);
            }
        }
    }
    let data = Arc::make_mut(r.k.fs.data.entry(o.ino).or_default());
    let pos = match at {
        Some(a) => a as usize,
        None if o.flags & libc::O_APPEND != 0 => data.len(),
        None => o.pos as usize,
    };
    if data.len() < pos {
        data.resize(pos, 0);
    }
    let src = unsafe { std::slice::from_raw_parts(buf, limit) };
    let over = (data.len() - pos).min(limit);
    data[pos..pos + over].copy_from_slice(&src[..over]);
    data.extend_from_slice(&src[over..]);
    maps_sync(r, o.ino);
    if at.is_none() {
        r.k.ofds.get_mut(&oid).unwrap().pos = (pos + limit) as u64;
    }
    r.ev(3, len as u64, limit as u64, || format!("write({}, {}) = {}", o.path, len, limit));
    if die_after {
        die(r);
        return Err(libc::EIO);
    }
    if limit > 0 {
        r.k.idle -= 39;
    }
    Ok(limit as i64)
}

fn k_close(r: &mut Run, fd: c_int) -> R {
    let oid = r.k.fds.remove(&fd).ok_or(libc::EBADF)?;
    r.k.syscalls += 1;
    r.k.now += 5_000;
    if !r.k.fds.values().any(|o| *o == oid) {
        let o = r.k.ofds.remove(&oid);
        let p = o.map(|o| o.path).unwrap_or_default();
        r.ev(4, 0, 0, || format!("close({})", p));
        r.k.gc();
    }
    Ok(0)
}

struct St {
    dir: bool,
    size: u64,
    ino: u64,
}
fn k_stat(r: &mut Run, path: &str, fault: bool) -> Result<St, c_int> {
    let p = norm(path);
    let kinds: &[F] = if fault {
        &[F::Eio, F::Eacces, F::Crash, F::Latency]
    } else {
        &[]
    };
    match gate(r, "stat", &p, kinds) {
        Act::Err(e) => {
            r.ev(10, 0, e as u64, || format!("stat({}) = errno {}", p, e));
            return Err(e);
        }
        Act::Crash(_) => {
            die(r);
            return Err(libc::EIO);
        }
        _ => {}
    }
    let res = match r.k.fs.ents.get(&p) {
        Some(Ent::Dir) => Ok(St {
            dir: true,
            size: 0,
            ino: 1,
        }),
        Some(Ent::File(i)) => Ok(St {
            dir: false,
            size: r.k.fs.data[i].len() as u64,
            ino: *i as u64 + 10,
        }),
        None => {
            // a component that is a file
            let mut q = parent(&p);
            let mut e = libc::ENOENT;
            while q != "/" {
                if let Some(Ent::File(_)) = r.k.fs.ents.get(&q) {
                    e = libc::ENOTDIR;
                }
                q = parent(&q);
            }
            Err(e)
        }
    };
    let (a, b) = match &res {
        Ok(s) => (s.size, 0),
        Err(e) => (0, *e as u64),
    };
    r.ev(10, a, b, || format!("stat({}) = size {} errno {}", p, a, b));
    res
}
fn k_fstat(r: &mut Run, fd: c_int) -> Result<St, c_int> {
    let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
    let o = r.k.ofds[&oid].clone();
    match gate(r, "fstat", &o.path, &[F::Eio, F::Latency]) {
        Act::Err(e) => {
            r.ev(11, 0, e as u64, || format!("fstat({}) = errno {}", o.path, e));
            return Err(e);
        }
        _ => {}
    }
    let size = r.k.fs.data.get(&o.ino).map(|d| d.len()).unwrap_or(0) as u64;
    r.ev(11, size, 0, || format!("fstat({}) = size {}", o.path, size));
    Ok(St {
        dir: o.dir,
        size,
        ino: o.ino as u64 + 10,
    })
}

fn k_path_op(r: &mut Run, name: &'static str, p: &str, f: impl FnOnce(&mut Run) -> R) -> R {
    let act = gate(
        r,
        name,
        p,
        &[F::Eio, F::Eacces, F::Erofs, F::Crash, F::Latency],
    );
    let mut die_after = false;
    match act {
        Act::Err(e) => {
            r.ev(12, e as u64, 0, || format!("{}({}) = errno {}", name, p, e));
            return Err(e);
        }
        Act::Crash(x) => {
            if x < 500 {
                die(r);
                return Err(libc::EIO);
            }
            die_after = true;
        }
        _ => {}
    }
    let res = f(r);
    r.ev(12, enc(&res), 1, || format!("{}({}) = {}", name, p, show(&res)));
    if die_after {
        die(r);
        return Err(libc::EIO);
    }
    res
}
fn k_unlink(r: &mut Run, path: &str) -> R {
    let p = norm(path);
    k_path_op(r, "unlink", &p.clone(), move |r| match r.k.fs.ents.get(&p) {
        None => Err(libc::ENOENT),
        Some(Ent::Dir) => Err(libc::EISDIR),
        Some(Ent::File(_)) => {
            r.k.fs.ents.remove(&p);
            r.k.gc();
            Ok(0)
        }
    })
}
fn k_rename(r: &mut Run, a: &str, b: &str) -> R {
    let (a, b) = (norm(a), norm(b));
    k_path_op(r, "rename", &a.clone(), move |r| match r.k.fs.ents.get(&a).cloned() {
        None => Err(libc::ENOENT),
        Some(e) => {
            if !matches!(r.k.fs.ents.get(&parent(&b)), Some(Ent::Dir)) {
                return Err(libc::ENOENT);
            }
            if let (Ent::File(_), Some(Ent::Dir)) = (&e, r.k.fs.ents.get(&b)) {
                return Err(libc::EISDIR);
            }
            if let Ent::Dir = e {
                let pre = format!("{}/", a);
                let moved: Vec<(String, Ent)> = r
                    .k
                    .fs
                    .ents
                    .iter()
                    .filter(|(k, _)| k.starts_with(&pre))
                    .map(|(k, v)| (k.clone(), v.clone()))
                    .collect();
                for (k, v) in moved {
                    r.k.fs.ents.remove(&k);
                    r.k.fs.ents.insert(format!("{}/{}", b, &k[pre.len()..]), v);
                }
            }
            r.k.fs.ents.remove(&a);
            r.k.fs.ents.insert(b, e);
            r.k.gc();
            Ok(0)
        }
    })
}
fn k_link(r: &mut Run, a: &str, b: &str) -> R {
    let (a, b) = (norm(a), norm(b));
    k_path_op(r, "link", &a.clone(), move |r| match r.k.fs.ents.get(&a).cloned() {
        Some(Ent::File(i)) => {
            if r.k.fs.ents.contains_key(&b) {
                return Err(libc::EEXIST);
            }
            r.k.fs.ents.insert(b, Ent::File(i));
            Ok(0)
        }
        Some(_) => Err(libc::EPERM),
        None => Err(libc::ENOENT),
    })
}
fn k_mkdir(r: &mut Run, path: &str) -> R {
    let p = norm(path);
    k_path_op(r, "mkdir", &p.clone(), move |r| {
        if r.k.fs.ents.contains_key(&p) {
            return Err(libc::EEXIST);
        }
        if !matches!(r.k.fs.ents.get(&parent(&p)), Some(Ent::Dir)) {
            return Err(libc::ENOENT);
        }
        r.k.fs.ents.insert(p, Ent::Dir);
        Ok(0)
    })
}
fn k_rmdir(r: &mut Run, path: &str) -> R {
    let p = norm(path);
    k_path_op(r, "rmdir", &p.clone(), move |r| match r.k.fs.ents.get(&p) {
        Some(Ent::Dir) => {
            let pre = format!("{}/", p);
            if r.k.fs.ents.keys().any(|k| k.starts_with(&pre)) {
                return Err(libc::ENOTEMPTY);
            }
            r.k.fs.ents.remove(&p);
            Ok(0)
        }
        Some(_) => Err(libc::ENOTDIR),
        None => Err(libc::ENOENT),
    })
}
fn k_truncate_ino(r: &mut Run, ino: usize, path: &str, len: u64) -> R {
    k_path_op(r, "truncate", path, move |r| {
        let d = Arc::make_mut(r.k.fs.data.entry(ino).or_default());
        d.resize(len as usize, 0);
        maps_sync(r, ino);
        Ok(0)
    })
}

// --------------------------------------------------------- raw primitives --

#[inline]
unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
#[inline]
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
#[inline]
unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        set_errno((-r) as c_int);
        -1
    } else {
        r
    }
}
#[inline]
unsafe fn fin(r: R) -> c_long {
    match r {
        Ok(v) => v as c_long,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn cs<'a>(p: *const c_char) -> &'a str {
    std::str::from_utf8(std::ffi::CStr::from_ptr(p).to_bytes()).unwrap_or("/non-utf8")
}
fn real_path(p: &str) -> bool {
    ["/proc", "/sys", "/dev", "/etc"]
        .iter()
        .any(|q| p == *q || p.starts_with(&format!("{}/", q)))
}
macro_rules! simcall {
    ($body:expr) => {{
        yield_point();
        let res: R = with($body);
        unsafe { fin(res) }
    }};
}
#[inline]
unsafe fn sim_p(p: *const c_char) -> bool {
    in_sim() && !real_path(cs(p))
}

// ------------------------------------------------------------ interposers --

/// Seeds (first eight bytes, the others zero) from which the generator of the
/// rand crate gives extreme numbers early on: the first thirteen a number whose
/// upper bits are all zero, the others one whose upper bits are all one.
const RARE_SEEDS: [u64; 20] = [
    823912, 3490438, 3103220, 253673, 1976732, 4222193, 1499706, 1864284, 1931266, 3348659, 2241670, 1330693, 2566115, 1681464, 26010,
    1948739, 1534511, 156550, 1306848, 1139297,
];
fn entropy_fill(buf: *mut u8, len: usize) {
    let mode = if in_sim() { with(|r| r.k.ent_mode) } else { 0 };
    if mode == 4 && len == 32 {
        ENT.with(|e| {
            let mut g = Rng::new(e.get());
            let s = RARE_SEEDS[g.below(RARE_SEEDS.len() as u64) as usize];
            for i in 0..len {
                unsafe { *buf.add(i) = if i < 8 { (s >> (8 * i)) as u8 } else { 0 } };
            }
            e.set(g.next() | 1);
        });
        return;
    }
    if mode > 0 && mode < 4 {
        let b = match mode {
            1 => 0,
            2 => 0xff,
            _ => ENT.with(|e| e.get()) as u8,
        };
        unsafe { std::ptr::write_bytes(buf, b, len) };
        return;
    }
    ENT.with(|e| {
        let mut g = Rng::new(e.get());
        for i in 0..len {
            unsafe { *buf.add(i) = g.next() as u8 };
        }
        e.set(g.next() | 1);
    })
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, l: usize, f: c_uint) -> isize {
    let _p = NoPre::new();
    if in_sim() {
        yield_point();
        let act = with(|r| {
            if r.k.crashed {
                return Act::Ok;
            }
            let en = r.k.entropy_faults;
            let kinds: &[F] = if !en {
                &[]
            } else if f & libc::GRND_NONBLOCK != 0 {
                &[F::Eintr, F::Eagain, F::Short]
            } else {
                &[F::Eintr, F::Short]
            };
            let a = gate(r, "getrandom", "", kinds);
            r.ev(13, l as u64, 0, || format!("getrandom({})", l));
            a
        });
        match act {
            Act::Err(e) => {
                set_errno(e);
                return -1;
            }
            Act::Short(p) if l > 0 => {
                let n = 1 + (l - 1) * p as usize / 1000;
                entropy_fill(b as *mut u8, n);
                return n as isize;
            }
            _ => {}
        }
    }
    entropy_fill(b as *mut u8, l);
    l as isize
}
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    let _p = NoPre::new();
    if n == 318 {
        return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long;
    }
    if n == 202 && in_sim() && matches!(b & 0x7f, 0 | 9) && !own_futex(a as usize) && futex_yield() {
        return 0; // woken, perhaps spuriously: the caller looks again
    }
    if n == 326 && in_sim() {
        set_errno(libc::ENOSYS); // copy_file_range
        return -1;
    }
    if n == 332 && in_sim() {
        return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx)
            as c_long;
    }
    ret(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, m: c_uint) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        return simcall!(|r| k_open(r, cs(p), fl)) as c_int;
    }
    ret(raw(2, p as c_long, fl as c_long, m as c_long, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, m: c_uint) -> c_int {
    let _p = NoPre::new();
    open64(p, fl, m)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, m: c_uint) -> c_int {
    let _p = NoPre::new();
    if in_sim() && (d == libc::AT_FDCWD || is_sim_fd(d) || cs(p).starts_with('/')) && !real_path(cs(p)) {
        let path = at_path(d, p);
        return simcall!(|r| k_open(r, &path, fl)) as c_int;
    }
    ret(raw(257, d as c_long, p as c_long, fl as c_long, m as c_long, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, m: c_uint) -> c_int {
    let _p = NoPre::new();
    openat64(d, p, fl, m)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, m: c_uint) -> c_int {
    let _p = NoPre::new();
    open64(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, m)
}
unsafe fn at_path(d: c_int, p: *const c_char) -> String {
    let s = cs(p);
    if s.starts_with('/') || d == libc::AT_FDCWD {
        return s.to_string();
    }
    let base = with(|r| {
        r.k.fds
            .get(&d)
            .and_then(|o| r.k.ofds.get(o))
            .map(|o| o.path.clone())
    })
    .unwrap_or_else(|| "/w".into());
    format!("{}/{}", base, s)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r| k_close(r, fd)) as c_int;
    }
    ret(raw(3, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, l: usize) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r| k_read(r, fd, b as *mut u8, l, None)) as isize;
    }
    ret(raw(0, fd as c_long, b as c_long, l as c_long, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, l: usize) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r| k_write(r, fd, b as *const u8, l, None)) as isize;
    }
    ret(raw(1, fd as c_long, b as c_long, l as c_long, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, l: usize, o: i64) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r| k_read(r, fd, b as *mut u8, l, Some(o as u64))) as isize;
    }
    ret(raw(17, fd as c_long, b as c_long, l as c_long, o, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, l: usize, o: i64) -> isize {
    let _p = NoPre::new();
    pread64(fd, b, l, o)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, l: usize, o: i64) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r| k_write(r, fd, b as *const u8, l, Some(o as u64))) as isize;
    }
    ret(raw(18, fd as c_long, b as c_long, l as c_long, o, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, l: usize, o: i64) -> isize {
    let _p = NoPre::new();
    pwrite64(fd, b, l, o)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return read(fd, x.iov_base, x.iov_len);
            }
        }
        return 0;
    }
    ret(raw(19, fd as c_long, v as c_long, n as c_long, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        let mut all: Vec<u8> = Vec::new();
        for i in 0..n as usize {
            let x = &*v.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        return simcall!(|r| k_write(r, fd, all.as_ptr(), all.len(), None)) as isize;
    }
    ret(raw(20, fd as c_long, v as c_long, n as c_long, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r: &mut Run| -> R {
            let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
            let (ino, pos) = {
                let x = &r.k.ofds[&oid];
                (x.ino, x.pos)
            };
            let len = r.k.fs.data.get(&ino).map(|d| d.len()).unwrap_or(0) as i64;
            let np = match w {
                libc::SEEK_SET => o,
                libc::SEEK_CUR => pos as i64 + o,
                libc::SEEK_END => len + o,
                _ => return Err(libc::EINVAL),
            };
            if np < 0 {
                return Err(libc::EINVAL);
            }
            r.k.ofds.get_mut(&oid).unwrap().pos = np as u64;
            Ok(np)
        }) as i64;
    }
    ret(raw(8, fd as c_long, o, w as c_long, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: i64, w: c_int) -> i64 {
    let _p = NoPre::new();
    lseek64(fd, o, w)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, c: c_int, a: c_long) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r: &mut Run| -> R {
            let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
            match c {
                libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                    let mut n = FD0;
                    while r.k.fds.contains_key(&n) {
                        n += 1;
                    }
                    r.k.fds.insert(n, oid);
                    Ok(n as i64)
                }
                libc::F_GETFL => Ok(r.k.ofds[&oid].flags as i64),
                _ => Ok(0),
            }
        }) as c_int;
    }
    ret(raw(72, fd as c_long, c as c_long, a, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, c: c_int, a: c_long) -> c_int {
    let _p = NoPre::new();
    fcntl(fd, c, a)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return 0;
    }
    ret(raw(73, fd as c_long, op as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r: &mut Run| -> R {
            let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
            let p = r.k.ofds[&oid].path.clone();
            k_path_op(r, "fsync", &p, |_| Ok(0))
        }) as c_int;
    }
    ret(raw(74, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return fsync(fd);
    }
    ret(raw(75, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, l: i64) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return simcall!(|r: &mut Run| -> R {
            let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
            let o = r.k.ofds[&oid].clone();
            k_truncate_ino(r, o.ino, &o.path, l as u64)
        }) as c_int;
    }
    ret(raw(77, fd as c_long, l, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, l: i64) -> c_int {
    let _p = NoPre::new();
    ftruncate64(fd, l)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, l: i64) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        return simcall!(|r: &mut Run| -> R {
            let q = norm(cs(p));
            match r.k.fs.ents.get(&q) {
                Some(Ent::File(i)) => {
                    let i = *i;
                    k_truncate_ino(r, i, &q, l as u64)
                }
                _ => Err(libc::ENOENT),
            }
        }) as c_int;
    }
    ret(raw(76, p as c_long, l, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: i64, l: i64) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        set_errno(libc::EOPNOTSUPP);
        return -1;
    }
    ret(raw(285, fd as c_long, m as c_long, o, l, 0, 0)) as c_int
}

unsafe fn fill_stat(b: *mut libc::stat64, s: &St) {
    std::ptr::write_bytes(b, 0, 1);
    (*b).st_mode = if s.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*b).st_size = s.size as i64;
    (*b).st_ino = s.ino;
    (*b).st_nlink = 1;
    (*b).st_blksize = 4096;
    (*b).st_blocks = (s.size as i64 + 511) / 512;
}
unsafe fn stat_fin(r: Result<St, c_int>, f: impl FnOnce(&St)) -> c_int {
    match r {
        Ok(s) => {
            f(&s);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        yield_point();
        return stat_fin(with(|r| k_stat(r, cs(p), true)), |s| fill_stat(b, s));
    }
    ret(raw(4, p as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        return stat64(p, b);
    }
    ret(raw(6, p as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        yield_point();
        return stat_fin(with(|r| k_fstat(r, fd)), |s| fill_stat(b, s));
    }
    ret(raw(5, fd as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut libc::stat64) -> c_int {
    let _p = NoPre::new();
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, b: *mut libc::stat64) -> c_int {
    let _p = NoPre::new();
    stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut libc::stat64, f: c_int) -> c_int {
    let _p = NoPre::new();
    if in_sim() && (is_sim_fd(d) || !real_path(cs(p))) {
        if f & libc::AT_EMPTY_PATH != 0 && cs(p).is_empty() {
            return fstat64(d, b);
        }
        let path = at_path(d, p);
        yield_point();
        return stat_fin(with(|r| k_stat(r, &path, true)), |s| fill_stat(b, s));
    }
    ret(raw(262, d as c_long, p as c_long, b as c_long, f as c_long, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    p: *const c_char,
    f: c_int,
    m: c_uint,
    b: *mut libc::statx,
) -> c_int {
    let _p = NoPre::new();
    if in_sim() && (is_sim_fd(d) || p.is_null() || !real_path(cs(p))) {
        let fill = |s: &St| {
            std::ptr::write_bytes(b, 0, 1);
            (*b).stx_mask = 0x7ff;
            (*b).stx_mode = (if s.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
            (*b).stx_size = s.size;
            (*b).stx_ino = s.ino;
            (*b).stx_nlink = 1;
            (*b).stx_blksize = 4096;
        };
        if p.is_null() || (f & libc::AT_EMPTY_PATH != 0 && cs(p).is_empty()) {
            if is_sim_fd(d) {
                yield_point();
                return stat_fin(with(|r| k_fstat(r, d)), fill);
            }
            if p.is_null() {
                set_errno(libc::EFAULT);
                return -1;
            }
        } else {
            let path = at_path(d, p);
            yield_point();
            return stat_fin(with(|r| k_stat(r, &path, true)), fill);
        }
    }
    ret(raw(332, d as c_long, p as c_long, f as c_long, m as c_long, b as c_long, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        yield_point();
        return stat_fin(with(|r| k_stat(r, cs(p), true)), |_| ());
    }
    ret(raw(21, p as c_long, m as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    let _p = NoPre::new();
    if in_sim() && !real_path(cs(p)) {
        let path = at_path(d, p);
        yield_point();
        return stat_fin(with(|r| k_stat(r, &path, true)), |_| ());
    }
    ret(raw(269, d as c_long, p as c_long, m as c_long, f as c_long, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        return simcall!(|r| k_unlink(r, cs(p))) as c_int;
    }
    ret(raw(87, p as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    let _p = NoPre::new();
    if in_sim() && !real_path(cs(p)) {
        let path = at_path(d, p);
        if f & libc::AT_REMOVEDIR != 0 {
            return simcall!(|r| k_rmdir(r, &path)) as c_int;
        }
        return simcall!(|r| k_unlink(r, &path)) as c_int;
    }
    ret(raw(263, d as c_long, p as c_long, f as c_long, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let _p = NoPre::new();
    if sim_p(a) {
        return simcall!(|r| k_rename(r, cs(a), cs(b))) as c_int;
    }
    ret(raw(82, a as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    let _p = NoPre::new();
    if sim_p(a) {
        return simcall!(|r| k_link(r, cs(a), cs(b))) as c_int;
    }
    ret(raw(86, a as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    let _p = NoPre::new();
    if sim_p(a) {
        return simcall!(|r| k_link(r, cs(a), cs(b))) as c_int;
    }
    ret(raw(265, d as c_long, a as c_long, e as c_long, b as c_long, f as c_long, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: c_uint) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        return simcall!(|r| k_mkdir(r, cs(p))) as c_int;
    }
    ret(raw(83, p as c_long, m as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        return simcall!(|r| k_rmdir(r, cs(p))) as c_int;
    }
    ret(raw(84, p as c_long, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: c_uint) -> c_int {
    let _p = NoPre::new();
    if sim_p(p) {
        return 0;
    }
    ret(raw(90, p as c_long, m as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: c_uint) -> c_int {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        return 0;
    }
    ret(raw(91, fd as c_long, m as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, l: usize) -> isize {
    let _p = NoPre::new();
    if sim_p(p) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw(89, p as c_long, b as c_long, l as c_long, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    oa: *mut i64,
    b: c_int,
    ob: *mut i64,
    l: usize,
    f: c_uint,
) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(a) || is_sim_fd(b) {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(raw(326, a as c_long, oa as c_long, b as c_long, ob as c_long, l as c_long, f as c_long)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, l: usize) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(a) || is_sim_fd(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw(40, a as c_long, b as c_long, o as c_long, l as c_long, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, l: usize, f: c_uint) -> isize {
    let _p = NoPre::new();
    if is_sim_fd(a) || is_sim_fd(b) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw(275, a as c_long, oa as c_long, b as c_long, ob as c_long, l as c_long, f as c_long)) as isize
}

// mappings: memory that follows the file it maps, for as long as it is mapped
struct Mapping {
    addr: usize,
    len: usize,
    off: usize,
    prot: c_int,
    ino: usize,
    /// writes to the memory go to the file
    shared: bool,
}
static MAPS: Mutex<Vec<Mapping>> = Mutex::new(Vec::new());
fn maps() -> std::sync::MutexGuard<'static, Vec<Mapping>> {
    MAPS.lock().unwrap_or_else(|e| e.into_inner())
}
/// The file changed: so do its mappings.  Beyond its end a mapping has zeros here (where the real one raises SIGBUS).
fn maps_sync(r: &mut Run, ino: usize) {
    let mut changed = 0;
    for m in maps().iter().filter(|m| m.ino == ino) {
        let empty = Vec::new();
        let data = r.k.fs.data.get(&ino).map(|d| &**d).unwrap_or(&empty);
        let n = data.len().saturating_sub(m.off).min(m.len);
        unsafe {
            raw(10, m.addr as c_long, m.len as c_long, (libc::PROT_READ | libc::PROT_WRITE) as c_long, 0, 0, 0);
            std::ptr::copy_nonoverlapping(data.as_ptr().add(m.off.min(data.len())), m.addr as *mut u8, n);
            std::ptr::write_bytes((m.addr + n) as *mut u8, 0, m.len - n);
            raw(10, m.addr as c_long, m.len as c_long, m.prot as c_long, 0, 0, 0);
        }
        changed += 1;
    }
    if changed > 0 {
        *r.probes.entry("a file changed while it was mapped").or_insert(0) += 1;
    }
}
/// What was written to shared mappings is in the files.
fn maps_pull(r: &mut Run) {
    for m in maps().iter().filter(|m| m.shared && m.prot & libc::PROT_WRITE != 0) {
        if let Some(d) = r.k.fs.data.get_mut(&m.ino) {
            let n = d.len().saturating_sub(m.off).min(m.len);
            let src = unsafe { std::slice::from_raw_parts(m.addr as *const u8, n) };
            if d[m.off..m.off + n] != *src {
                Arc::make_mut(d)[m.off..m.off + n].copy_from_slice(src);
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: usize) -> c_int {
    let _p = NoPre::new();
    if !maps().is_empty() {
        if in_sim() {
            with(maps_pull);
        }
        let (a, b) = (addr as usize, addr as usize + len);
        maps().retain(|m| m.addr + m.len <= a || m.addr >= b);
    }
    ret(raw(11, addr as c_long, len as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(
    addr: *mut c_void,
    len: usize,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: i64,
) -> *mut c_void {
    let _p = NoPre::new();
    if is_sim_fd(fd) && flags & libc::MAP_ANONYMOUS == 0 {
        yield_point();
        let data: Result<(usize, Arc<Vec<u8>>), c_int> = with(|r| {
            let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
            let o = r.k.ofds[&oid].clone();
            match gate(r, "mmap", &o.path, &[F::Enomem, F::Crash, F::Latency]) {
                Act::Err(e) => {
                    r.ev(14, len as u64, e as u64, || format!("mmap({}, {}) = errno {}", o.path, len, e));
                    return Err(e);
                }
                Act::Crash(_) => {
                    die(r);
                    return Err(libc::ENOMEM);
                }
                _ => {}
            }
            r.ev(14, len as u64, 0, || format!("mmap({}, {})", o.path, len));
            Ok((o.ino, r.k.fs.data.get(&o.ino).cloned().unwrap_or_default()))
        });
        let (ino, data) = match data {
            Ok(d) => d,
            Err(e) => {
                set_errno(e);
                return libc::MAP_FAILED;
            }
        };
        if len == 0 {
            set_errno(libc::EINVAL);
            return libc::MAP_FAILED;
        }
        let m = raw(
            9,
            0,
            len as c_long,
            (libc::PROT_READ | libc::PROT_WRITE) as c_long,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as c_long,
            -1,
            0,
        );
        if m < 0 && m > -4096 {
            set_errno((-m) as c_int);
            return libc::MAP_FAILED;
        }
        let off = off as usize;
        let n = data.len().saturating_sub(off).min(len);
        std::ptr::copy_nonoverlapping(data.as_ptr().add(off.min(data.len())), m as *mut u8, n);
        raw(10, m, len as c_long, prot as c_long, 0, 0, 0);
        let shared = flags & libc::MAP_SHARED != 0;
        if shared || prot & libc::PROT_WRITE == 0 {
            maps().push(Mapping { addr: m as usize, len: (len + 4095) & !4095, off, prot, ino, shared });
        }
        return m as *mut c_void;
    }
    let r = raw(9, addr as c_long, len as c_long, prot as c_long, flags as c_long, fd as c_long, off);
    if r < 0 && r > -4096 {
        set_errno((-r) as c_int);
        return libc::MAP_FAILED;
    }
    r as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(
    addr: *mut c_void,
    len: usize,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: i64,
) -> *mut c_void {
    let _p = NoPre::new();
    mmap64(addr, len, prot, flags, fd, off)
}

// directories
unsafe fn real_fn(name: &'static [u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    if p.is_null() {
        raw(231, 95, 0, 0, 0, 0, 0);
    }
    p
}
unsafe fn mk_dir(r: &mut Run, path: &str) -> Result<*mut SimDir, c_int> {
    let p = norm(path);
    match gate(r, "opendir", &p, &[F::Eacces, F::Emfile, F::Eio, F::Crash, F::Latency]) {
        Act::Err(e) => {
            r.ev(15, 0, e as u64, || format!("opendir({}) = errno {}", p, e));
            return Err(e);
        }
        Act::Crash(_) => {
            die(r);
            return Err(libc::EIO);
        }
        _ => {}
    }
    match r.k.fs.ents.get(&p) {
        Some(Ent::Dir) => {}
        Some(_) => return Err(libc::ENOTDIR),
        None => return Err(libc::ENOENT),
    }
    let pre = if p == "/" { "/".to_string() } else { format!("{}/", p) };
    let mut names: Vec<(String, bool)> = r
        .k
        .fs
        .ents
        .iter()
        .filter(|(k, _)| k.len() > pre.len() && k.starts_with(&pre) && !k[pre.len()..].contains('/'))
        .map(|(k, e)| (k[pre.len()..].to_string(), matches!(e, Ent::Dir)))
        .collect();
    names.push((".".into(), true));
    names.push(("..".into(), true));
    // the order a directory lists its entries in is the kernel's business
    for i in 0..names.len() {
        let left = (names.len() - i) as u64;
        let j = r.ch.draw(SCHED, left) as usize;
        names.swap(i, i + j);
    }
    let h = names
        .iter()
        .fold(0u64, |h, n| choice::hash_str(h, &n.0));
    r.ev(15, h, 0, || format!("opendir({}) lists {:?}", p, names.iter().map(|n| &n.0).collect::<Vec<_>>()));
    let d = Box::new(SimDir {
        names,
        pos: 0,
        path: p,
        ent: std::mem::zeroed(),
    });
    let d = Box::into_raw(d);
    r.k.dirs.insert(d as usize);
    Ok(d)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let _p = NoPre::new();
    if sim_p(p) {
        yield_point();
        return match with(|r| mk_dir(r, cs(p))) {
            Ok(d) => d as *mut c_void,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(real_fn(b"opendir\0"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    let _p = NoPre::new();
    if is_sim_fd(fd) {
        yield_point();
        let r = with(|r| {
            let oid = *r.k.fds.get(&fd).ok_or(libc::EBADF)?;
            let p = r.k.ofds[&oid].path.clone();
            mk_dir(r, &p)
        });
        return match r {
            Ok(d) => d as *mut c_void,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: extern "C" fn(c_int) -> *mut c_void = std::mem::transmute(real_fn(b"fdopendir\0"));
    f(fd)
}
fn is_sim_dir(d: *mut c_void) -> bool {
    in_sim() && with(|r| r.k.dirs.contains(&(d as usize)))
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    let _p = NoPre::new();
    if is_sim_dir(d) {
        yield_point();
        let sd = &mut *(d as *mut SimDir);
        let act = with(|r| gate(r, "readdir", &sd.path.clone(), &[F::Eio, F::Crash, F::Latency]));
        match act {
            Act::Err(e) => {
                set_errno(e);
                return std::ptr::null_mut();
            }
            Act::Crash(_) => {
                with(die);
                set_errno(libc::EIO);
                return std::ptr::null_mut();
            }
            _ => {}
        }
        if sd.pos >= sd.names.len() {
            return std::ptr::null_mut(); // errno untouched: end of directory
        }
        let (n, dir) = sd.names[sd.pos].clone();
        sd.pos += 1;
        sd.ent = std::mem::zeroed();
        sd.ent.d_ino = sd.pos as u64 + 100;
        sd.ent.d_type = if dir { libc::DT_DIR } else { libc::DT_REG };
        sd.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (i, b) in n.bytes().take(254).enumerate() {
            sd.ent.d_name[i] = b as c_char;
        }
        return &mut sd.ent;
    }
    let f: extern "C" fn(*mut c_void) -> *mut libc::dirent64 = std::mem::transmute(real_fn(b"readdir64\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let _p = NoPre::new();
    if is_sim_dir(d) {
        with(|r| r.k.dirs.remove(&(d as usize)));
        drop(Box::from_raw(d as *mut SimDir));
        return 0;
    }
    let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(real_fn(b"closedir\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    let _p = NoPre::new();
    if is_sim_dir(d) {
        return libc::AT_FDCWD;
    }
    let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(real_fn(b"dirfd\0"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let _p = NoPre::new();
    if sim_p(p) {
        let q = norm(cs(p));
        if !with(|r| r.k.fs.ents.contains_key(&q)) {
            set_errno(libc::ENOENT);
            return std::ptr::null_mut();
        }
        let b = if out.is_null() { libc::malloc(q.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(q.as_ptr() as *const c_char, b, q.len());
        *b.add(q.len()) = 0;
        return b;
    }
    let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(real_fn(b"realpath\0"));
    f(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, l: usize) -> *mut c_char {
    let _p = NoPre::new();
    if in_sim() {
        if l < 3 {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(b"/w\0".as_ptr() as *const c_char, b, 3);
        return b;
    }
    if raw(79, b as c_long, l as c_long, 0, 0, 0, 0) < 0 {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    b
}

// time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    let _p = NoPre::new();
    if in_sim() {
        let n = with(|r| {
            // reading the clock takes a varying time, as on a real machine
            r.k.clock_n += 1;
            r.k.now += 1_000 + (choice::mix(r.ent_seed, r.k.clock_n) & 0x7ff);
            r.k.now
        }) + 1_600_000_000_000_000_000;
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(228, c as c_long, t as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    let _p = NoPre::new();
    if in_sim() {
        return 4242;
    }
    ret(raw(39, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let _p = NoPre::new();
    if in_sim() {
        if !futex_yield() {
            yield_point();
        }
        return 0;
    }
    ret(raw(24, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    let _p = NoPre::new();
    if in_sim() {
        with(|r| {
            r.k.now += (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
            r.ev(16, 0, 0, || "sleep".into())
        });
        yield_point();
        return 0;
    }
    ret(raw(35, a as c_long, b as c_long, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    c: c_int,
    f: c_int,
    a: *const libc::timespec,
    b: *mut libc::timespec,
) -> c_int {
    let _p = NoPre::new();
    if in_sim() {
        with(|r| {
            let t = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
            if f & libc::TIMER_ABSTIME != 0 {
                r.k.now = r.k.now.max(t.saturating_sub(1_600_000_000_000_000_000));
            } else {
                r.k.now += t;
            }
            r.ev(16, 0, 0, || "sleep".into())
        });
        yield_point();
        return 0;
    }
    -(raw(230, c as c_long, f as c_long, a as c_long, b as c_long, 0, 0) as c_int)
}
