//! The callbacks of the instrumented build (bin/rustc-cov), in a crate that is
//! not instrumented itself: they must not call anything that calls back.

use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

thread_local! {
    static PRE: Cell<bool> = const { Cell::new(false) };
}
/// Callbacks left until the timer rings.
static LEFT: AtomicI64 = AtomicI64::new(i64::MAX);
/// Switch points at static variables left.
static HOT: AtomicI64 = AtomicI64::new(0);
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static HOOK: AtomicUsize = AtomicUsize::new(0);

/// Whether this thread may be preempted from now on; the value until now.
#[inline(never)]
pub fn set(on: bool) -> bool {
    PRE.with(|p| p.replace(on))
}
#[inline(never)]
pub fn left(n: i64) {
    LEFT.store(n, Relaxed)
}
#[inline(never)]
pub fn hot(n: i64) {
    HOT.store(n, Relaxed)
}
#[inline(never)]
pub fn hot_left() -> i64 {
    HOT.load(Relaxed)
}
/// Where the static variables lie, and what to call (true: the timer rang;
/// false: a static variable is accessed).
#[inline(never)]
pub fn init(lo: usize, hi: usize, hook: fn(bool)) {
    LO.store(lo, Relaxed);
    HI.store(hi, Relaxed);
    HOOK.store(hook as usize, Relaxed);
}

#[inline(always)]
fn tick(a: usize) {
    PRE.with(|p| {
        if p.get() {
            let l = LEFT.load(Relaxed) - 1;
            LEFT.store(l, Relaxed);
            if l <= 0 || (a >= LO.load(Relaxed) && a < HI.load(Relaxed) && HOT.load(Relaxed) > 0) {
                let h = HOOK.load(Relaxed);
                if h != 0 {
                    // the hook is instrumented
                    p.set(false);
                    unsafe { std::mem::transmute::<usize, fn(bool)>(h)(l <= 0) };
                    p.set(true);
                }
            }
        }
    })
}

macro_rules! covs {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(a: usize) { tick(a) }
    )* };
}
covs!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
      __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *const u32) {
    tick(0)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
