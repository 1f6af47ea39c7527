//! Hooks the compiler inserts into the library under test (and nothing else), see ../rustc-wrap.sh: one call
//! per control-flow edge and per load and store. They give the scheduler a preemption point between any two
//! memory accesses, the evidence a coverage measure, and the bounded-work checks a clock that does not
//! depend on the machine. Without the instrumentation they are never called.

use crate::world;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering};

pub const MAX_EDGES: usize = 1 << 17;
static SEEN: [AtomicU8; MAX_EDGES] = [const { AtomicU8::new(0) }; MAX_EDGES];
static EDGES: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static WORK: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Edges executed by the library on this thread so far.
pub fn work() -> u64 { WORK.with(|c| c.get()) }
/// Edges of the library known to the build; zero if it is not instrumented.
pub fn edges() -> u32 { EDGES.load(Ordering::Relaxed).min(MAX_EDGES as u32 - 1) }
pub fn covered() -> Vec<u32> { (1..=edges()).filter(|i| SEEN[*i as usize].load(Ordering::Relaxed) != 0).collect() }

/// Preempt this thread after `n` more hook calls (u64::MAX: never).
pub fn preempt_after(n: u64) { LEFT.with(|c| c.set(n)); }
pub fn work_limit(n: u64) { LIMIT.with(|c| c.set(if n == u64::MAX { n } else { work().saturating_add(n) })); }

#[inline(always)]
fn tick() {
    LEFT.with(|c| {
        let v = c.get();
        if v == 0 { world::preempt_step() } else if v != u64::MAX { c.set(v - 1) }
    });
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 { return; }
    while a < b {
        *a = EDGES.fetch_add(1, Ordering::Relaxed) + 1;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i < MAX_EDGES { SEEN[i].store(1, Ordering::Relaxed); }
    let w = WORK.with(|c| { let w = c.get() + 1; c.set(w); w });
    if w > LIMIT.with(|c| c.get()) { world::out_of_work() }
    tick();
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline(always)]
unsafe fn access(a: *const u8) {
    tick();
    if a >= std::ptr::addr_of!(__data_start) && a < std::ptr::addr_of!(_end) { world::preempt_shared() }
}
macro_rules! mem { ($($n:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(a: *const u8) { access(a) } )* } }
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
     __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
