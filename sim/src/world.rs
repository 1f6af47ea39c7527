//! The simulated world: the tape, the event log, the fault and probe counters, and the seams through
//! which the code under test meets anything non-deterministic (allocator, hash seeds, clock,
//! thread scheduling). Plug-in callbacks and output sinks are the other two seams (handlers.rs, sinks.rs).

use crate::tape::Tape;
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};

pub struct World {
    pub tape: Tape,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, u64>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _h = HookGuard::enter();
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("no world"))
}

pub fn begin(tape: Tape, tracing: bool) {
    let w = World {
        tape, hash: 0xcbf2_9ce4_8422_2325, sched_hash: 0xcbf2_9ce4_8422_2325, steps: 0, tracing,
        trace: Vec::new(), faults: BTreeMap::new(), probes: BTreeMap::new(), known: BTreeMap::new(),
    };
    *WORLD.lock().unwrap_or_else(|e| e.into_inner()) = Some(w);
    HASH_SEED.store(0x5EED, Ordering::SeqCst);
    PATIENCE.with(|c| c.set(1));
    CLOCK_NS.store(1_000_000_000, Ordering::SeqCst);
    CLOCK_STEP.store(0, Ordering::SeqCst);
}

pub fn end() -> World {
    WORLD.lock().unwrap_or_else(|e| e.into_inner()).take().expect("no world")
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut h = h;
    for b in v.to_le_bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    h
}
pub fn hash_str(h: u64, s: &str) -> u64 { hash_bytes(h, s.as_bytes()) }
pub fn hash_bytes(mut h: u64, s: &[u8]) -> u64 {
    for b in s { h = (h ^ *b as u64).wrapping_mul(0x0100_0000_01b3); }
    mix(h, s.len() as u64)
}

/// Uniform choice in 0..n. Zero is always the plainest choice, so that shrinking simplifies.
pub fn draw(n: u64) -> u64 { if n <= 1 { return 0; } with(|w| w.tape.draw(n)) }
pub fn draw_via(n: u64, f: impl FnOnce(u64) -> u64) -> u64 { with(|w| w.tape.draw_via(n, f)) }
pub fn chance(num: u64, den: u64) -> bool { draw(den) >= den - num }
pub fn range(lo: u64, hi: u64) -> u64 { lo + draw(hi - lo + 1) }
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T { &xs[draw(xs.len() as u64) as usize] }

pub fn fault(kind: &'static str) { with(|w| { *w.faults.entry(kind).or_insert(0) += 1; }); ev("fault", || kind.to_string(), hash_str(1, kind)); }
pub fn probe(name: &'static str) { with(|w| *w.probes.entry(name).or_insert(0) += 1); }
pub fn known(name: &'static str) { with(|w| *w.known.entry(name).or_insert(0) += 1); }

/// Record one event. `h` feeds the event-log hash; the text is only built when tracing.
pub fn ev(label: &'static str, text: impl FnOnce() -> String, h: u64) {
    let tracing = with(|w| {
        w.steps += 1;
        w.hash = mix(hash_str(w.hash, label), h);
        w.tracing
    });
    if tracing {
        let _h = HookGuard::enter();
        let mut s = text();
        if s.len() > 4000 {
            let mut n = 4000;
            while !s.is_char_boundary(n) { n -= 1; }
            s.truncate(n);
            s.push_str("...");
        }
        let line = format!("{}: {}", label, s);
        with(|w| w.trace.push(line));
    }
}
pub fn sched_note(v: u64) { with(|w| w.sched_hash = mix(w.sched_hash, v)); }

// ---------------------------------------------------------------------------------------------
// Who is running: code under test or the simulator.

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static IN_HOOK: Cell<u32> = const { Cell::new(0) };
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static GAP: Cell<u64> = const { Cell::new(0) };
    static MEAS: Cell<bool> = const { Cell::new(false) };
    static MEM_CUR: Cell<isize> = const { Cell::new(0) };
    static MEM_PEAK: Cell<isize> = const { Cell::new(0) };
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

struct HookGuard;
impl HookGuard {
    fn enter() -> HookGuard { IN_HOOK.with(|c| c.set(c.get() + 1)); HookGuard }
}
impl Drop for HookGuard {
    fn drop(&mut self) { IN_HOOK.with(|c| c.set(c.get() - 1)); }
}

pub struct SutFlag(bool);
impl Drop for SutFlag { fn drop(&mut self) { IN_SUT.with(|c| c.set(self.0)); } }
pub fn set_sut(v: bool) -> SutFlag { IN_SUT.with(|c| { let o = c.get(); c.set(v); SutFlag(o) }) }
pub fn in_sut() -> bool { IN_SUT.with(|c| c.get()) }

/// A panic the simulator injects through a callback.
pub struct Injected(pub u64);
pub fn inject_panic(n: u64) -> ! { std::panic::resume_unwind(Box::new(Injected(n))) }

pub enum Died { Injected(u64), Panicked(String) }
impl Died {
    pub fn text(&self) -> String {
        match *self { Died::Injected(n) => format!("injected panic {}", n), Died::Panicked(ref s) => format!("panic: {}", s) }
    }
}
fn died(p: Box<dyn Any + Send>) -> Died {
    match p.downcast::<Injected>() {
        Ok(i) => Died::Injected(i.0),
        Err(p) => {
            let mut s = LAST_PANIC.with(|c| std::mem::take(&mut *c.borrow_mut()));
            if s.is_empty() {
                s = if let Some(x) = p.downcast_ref::<&str>() { x.to_string() }
                    else if let Some(x) = p.downcast_ref::<String>() { x.clone() } else { "?".into() };
            }
            Died::Panicked(s)
        }
    }
}

/// Run code under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Died> {
    let _f = set_sut(true);
    crate::hooks::work_limit(WORK_LIMIT * PATIENCE.with(|c| c.get()));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|p| { let _h = HookGuard::enter(); died(p) });
    crate::hooks::work_limit(u64::MAX);
    r
}

/// Run simulator code from inside a callback of the code under test.
pub fn callback<R>(f: impl FnOnce() -> R) -> R { let _f = set_sut(false); f() }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _h = HookGuard::enter();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(x) = info.payload().downcast_ref::<&str>() { x.to_string() }
            else if let Some(x) = info.payload().downcast_ref::<String>() { x.clone() } else { "?".into() };
        if in_sut() {
            LAST_PANIC.with(|c| *c.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            eprintln!("HARNESS PANIC: {} at {}", msg, loc);
        }
    }));
}

// ---------------------------------------------------------------------------------------------
// Allocator seam: memory accounting and preemption points.

pub struct SimAlloc;

pub const EXIT_RUNAWAY: i32 = 88;
/// Control-flow edges one call into the library may execute: some two hundred times what the largest
/// simulated input needs today.
const WORK_LIMIT: u64 = 8_000_000_000;
thread_local!(static PATIENCE: std::cell::Cell<u64> = std::cell::Cell::new(1));
/// The run holds input so large that quadratic work, which no property forbids, would reach the limit.
pub fn patient() { PATIENCE.with(|c| c.set(12)); }

/// Run `f` with a limit on the number of allocations it makes: the simulator's measure of progress,
/// independent of the machine's speed. Running out ends the process with EXIT_RUNAWAY.
pub fn metered<R>(limit: u64, f: impl FnOnce() -> R) -> R {
    FUEL.with(|c| c.set(limit));
    let r = f();
    FUEL.with(|c| c.set(u64::MAX));
    r
}
#[cold]
pub fn out_of_work() {
    crate::hooks::work_limit(u64::MAX);
    eprintln!("RUNAWAY: step limit reached");
    std::process::exit(EXIT_RUNAWAY);
}
#[cold]
fn out_of_fuel() {
    FUEL.with(|c| c.set(u64::MAX));
    eprintln!("RUNAWAY: allocation limit reached");
    std::process::exit(EXIT_RUNAWAY);
}

#[inline]
fn on_alloc(size: usize) {
    FUEL.with(|c| { let v = c.get(); if v != u64::MAX { if v == 0 { out_of_fuel() } else { c.set(v - 1) } } });
    MEAS.with(|m| if m.get() {
        MEM_CUR.with(|c| {
            let v = c.get() + size as isize;
            c.set(v);
            MEM_PEAK.with(|p| if v > p.get() { p.set(v) });
        });
    });
    if TASK.with(|t| t.get()) != usize::MAX && IN_SUT.with(|c| c.get()) && IN_HOOK.with(|c| c.get()) == 0 {
        GAP.with(|g| {
            let v = g.get();
            if v > 0 { g.set(v - 1) } else { preempt_alloc() }
        });
    }
}
#[inline]
fn on_free(size: usize) {
    MEAS.with(|m| if m.get() { MEM_CUR.with(|c| c.set(c.get() - size as isize)) });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { on_alloc(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { on_alloc(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { on_free(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n);
        on_free(l.size());
        System.realloc(p, l, n)
    }
}

/// Peak memory the closure holds on this thread, above what was held when it started.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, usize) {
    MEM_CUR.with(|c| c.set(0));
    MEM_PEAK.with(|c| c.set(0));
    MEAS.with(|c| c.set(true));
    let r = f();
    MEAS.with(|c| c.set(false));
    (r, MEM_PEAK.with(|c| c.get()).max(0) as usize)
}

// ---------------------------------------------------------------------------------------------
// Hash seeds and clock.

pub static HASH_SEED: AtomicU64 = AtomicU64::new(0x5EED);
pub static HASH_SEED_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_STEP: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_FUTEX: i64 = 202;
const ETIMEDOUT: i32 = 110;

/// The real system call: the kernel's result, negative for an error.
unsafe fn kernel(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
extern "C" { fn __errno_location() -> *mut i32; }
unsafe fn libc_result(r: i64) -> i64 {
    if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r }
}

/// Interposed: the standard library's locks, condition variables and parking wait through here. A task of
/// the scheduler that would sleep on a lock hands over instead and tries again when it is next chosen.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && matches!(b & 0x7f, 0 | 9) && d == 0 && TASK.with(|t| t.get()) == usize::MAX && IN_SUT.with(|c| c.get()) && IN_HOOK.with(|c| c.get()) == 0 {
        // Nobody else runs library code now: a lock that does not come free is held by this very thread.
        for _ in 0..400 {
            if std::ptr::read_volatile(a as *const u32) != c as u32 { return 0; }
            let ts = Timespec { s: 0, ns: 10_000_000 };
            kernel(35, std::ptr::addr_of!(ts) as i64, 0, 0, 0, 0, 0);
        }
        if std::ptr::read_volatile(a as *const u32) != c as u32 { return 0; }
        let _h = HookGuard::enter();
        eprintln!("DEADLOCK: a call waits for a lock its own thread holds");
        std::process::exit(EXIT_DEADLOCK);
    }
    if n == SYS_FUTEX && TASK.with(|t| t.get()) != usize::MAX && IN_SUT.with(|c| c.get()) && IN_HOOK.with(|c| c.get()) == 0 {
        match b & 0x7f {
            0 | 9 => return match wait_on_lock(d != 0) { true => 0, false => { *__errno_location() = ETIMEDOUT; -1 } },
            1 | 10 => wake_lockers(),
            _ => {}
        }
    }
    libc_result(kernel(n, a, b, c, d, e, f))
}

/// Interposed: the standard library seeds its hash maps from here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    HASH_SEED_READS.fetch_add(1, Ordering::SeqCst);
    let mut x = HASH_SEED.load(Ordering::SeqCst);
    let mut i = 0;
    while i < len {
        let v = crate::tape::splitmix(&mut x).to_le_bytes();
        let n = (len - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), n);
        i += n;
    }
    len as isize
}

#[repr(C)]
pub struct Timespec { s: i64, ns: i64 }

/// Interposed: code under test reads the simulated clock, the simulator the real one.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if IN_SUT.with(|c| c.get()) && IN_HOOK.with(|c| c.get()) == 0 {
        CLOCK_READS.fetch_add(1, Ordering::SeqCst);
        let step = CLOCK_STEP.load(Ordering::SeqCst);
        let v = CLOCK_NS.fetch_add(step, Ordering::SeqCst);
        (*ts).s = (v / 1_000_000_000) as i64;
        (*ts).ns = (v % 1_000_000_000) as i64;
        return 0;
    }
    libc_result(kernel(SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

// ---------------------------------------------------------------------------------------------
// Scheduler: real threads, exactly one of which holds the token.

/// Preemption between single memory accesses of the library (instrumented builds): on or off for the run, and
/// how many more such preemptions may come close together.
#[derive(Clone, Copy)]
pub struct Steps { pub on: bool, pub left: u64 }

struct Sched {
    active: bool,
    alive: Vec<bool>,
    waiting: Vec<bool>,
    blocked: Vec<bool>,
    locked: Vec<bool>,
    idle_rounds: u64,
    steps: Steps,
    tids: Vec<u64>,
    current: usize,
    progress: u64,
    max_gap: u64,
    forced: u64,
}
static SCHED: Mutex<Sched> = Mutex::new(Sched { active: false, alive: vec![], waiting: vec![], blocked: vec![], locked: vec![], idle_rounds: 0, steps: Steps { on: false, left: 0 }, tids: vec![], current: 0, progress: 0, max_gap: 0, forced: 0 });
static CV: Condvar = Condvar::new();
static NO_ALLOC_PREEMPT: AtomicBool = AtomicBool::new(false);
pub static FORCED: AtomicU64 = AtomicU64::new(0);

fn lock_sched() -> std::sync::MutexGuard<'static, Sched> { SCHED.lock().unwrap_or_else(|e| e.into_inner()) }

#[cold]
fn preempt_alloc() {
    if NO_ALLOC_PREEMPT.load(Ordering::Relaxed) { GAP.with(|g| g.set(u64::MAX)); return; }
    yield_point(1);
    let _h = HookGuard::enter();
    let max = lock_sched().max_gap;
    if max == 0 { GAP.with(|g| g.set(u64::MAX)); } else { let v = draw(max); GAP.with(|g| g.set(v)); }
}

/// Called from the instrumentation when this thread's countdown has run out.
#[cold]
pub fn preempt_step() {
    if TASK.with(|t| t.get()) == usize::MAX { crate::hooks::preempt_after(u64::MAX); return; }
    if !IN_SUT.with(|c| c.get()) || IN_HOOK.with(|c| c.get()) != 0 { return; }
    if NO_ALLOC_PREEMPT.load(Ordering::Relaxed) { crate::hooks::preempt_after(u64::MAX); return; }
    yield_point(6);
    let _h = HookGuard::enter();
    crate::hooks::preempt_after(next_step());
}
/// Called from the instrumentation at an access to writable static memory: state shared between callers.
#[cold]
pub fn preempt_shared() {
    if TASK.with(|t| t.get()) == usize::MAX || !IN_SUT.with(|c| c.get()) || IN_HOOK.with(|c| c.get()) != 0 { return; }
    {
        let _h = HookGuard::enter();
        let mut s = lock_sched();
        if !s.steps.on || s.steps.left == 0 { return; }
        s.steps.left -= 1;
        drop(s);
        probe("shared_state_access");
        if draw(2) == 0 { return; }
    }
    yield_point(7);
}
fn next_step() -> u64 {
    let mut s = lock_sched();
    if !s.steps.on { return u64::MAX; }
    if s.steps.left == 0 { return 100_000; }
    s.steps.left -= 1;
    drop(s);
    match draw(4) { 0 => draw(16), 1 => draw(400), 2 => draw(4_000), _ => draw(40_000) }
}
/// A task would sleep on a lock of the code under test. False: its time limit passed.
fn wait_on_lock(timed: bool) -> bool {
    let me = TASK.with(|t| t.get());
    let _h = HookGuard::enter();
    let mut s = lock_sched();
    if !s.active { return true; }
    if s.current != me { s.blocked[me] = false; wait_turn(s, me); return true; }
    s.locked[me] = true;
    let cand: Vec<usize> = (0..s.alive.len()).filter(|k| s.alive[*k] && !s.blocked[*k] && !s.locked[*k]).collect();
    if cand.is_empty() {
        for l in s.locked.iter_mut() { *l = false; }
        s.idle_rounds += 1;
        if timed { return false; }
        if s.idle_rounds > 2_000 { eprintln!("DEADLOCK: every task waits inside the code under test"); std::process::exit(EXIT_DEADLOCK); }
        let others: Vec<usize> = (0..s.alive.len()).filter(|k| s.alive[*k] && *k != me).collect();
        if others.is_empty() {
            // Somebody outside the simulation must hold it.
            drop(s);
            std::thread::sleep(std::time::Duration::from_millis(1));
            return true;
        }
        let next = others[draw(others.len() as u64) as usize];
        s.current = next;
        CV.notify_all();
        wait_turn(s, me);
        return true;
    }
    let next = cand[draw(cand.len() as u64) as usize];
    s.progress += 1;
    sched_note((8 << 32) | ((me as u64) << 16) | next as u64);
    s.current = next;
    CV.notify_all();
    ev("switch", || format!("task {} -> task {} at a lock", me, next), (8 << 32) | ((me as u64) << 16) | next as u64);
    with(|w| *w.faults.entry("waited_on_lock").or_insert(0) += 1);
    wait_turn(s, me);
    true
}
fn wake_lockers() {
    let _h = HookGuard::enter();
    let mut s = lock_sched();
    for l in s.locked.iter_mut() { *l = false; }
    s.idle_rounds = 0;
}

/// A point at which the scheduler may hand over to another task. `kind`: 1 allocation, 2 callback, 3 sink write, 4 job boundary.
pub fn yield_point(kind: u64) {
    let me = TASK.with(|t| t.get());
    if me == usize::MAX { return; }
    let _h = HookGuard::enter();
    let mut s = lock_sched();
    if !s.active { return; }
    if s.blocked[me] {
        // Was found waiting on a lock of the code under test; rejoin the queue.
        s.blocked[me] = false;
    }
    if s.current == me {
        s.locked[me] = false;
        let mut cand = vec![me];
        for i in 0..s.alive.len() { if i != me && s.alive[i] && !s.blocked[i] && !s.locked[i] { cand.push(i); } }
        let next = cand[draw(cand.len() as u64) as usize];
        s.progress += 1;
        sched_note((kind << 32) | ((me as u64) << 16) | next as u64);
        if next == me { return; }
        s.current = next;
        CV.notify_all();
        ev("switch", || format!("task {} -> task {} at {}", me, next, ["", "allocation", "callback", "write", "boundary", "end", "a single step", "an access to shared state"][kind as usize]), (kind << 32) | ((me as u64) << 16) | next as u64);
    }
    wait_turn(s, me);
}

fn wait_turn(mut s: std::sync::MutexGuard<'static, Sched>, me: usize) {
    while s.active && s.current != me {
        s.waiting[me] = true;
        s = CV.wait(s).unwrap_or_else(|e| e.into_inner());
        s.waiting[me] = false;
    }
    s.progress += 1;
}

pub const EXIT_DEADLOCK: i32 = 87;

/// Run the jobs as tasks under the seeded scheduler; returns their results in order.
pub fn run_tasks<R: Send + 'static>(jobs: Vec<Box<dyn FnOnce() -> R + Send>>, max_gap: u64, steps: Steps, stack: usize) -> Vec<Option<R>> {
    let n = jobs.len();
    let first = draw(n as u64) as usize;
    {
        let mut s = lock_sched();
        *s = Sched { active: true, alive: vec![true; n], waiting: vec![false; n], blocked: vec![false; n], locked: vec![false; n], idle_rounds: 0, steps, tids: vec![0; n], current: usize::MAX, progress: 0, max_gap, forced: 0 };
    }
    let mut hs = Vec::new();
    for (i, job) in jobs.into_iter().enumerate() {
        hs.push(std::thread::Builder::new().stack_size(stack).spawn(move || {
            let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok()))).unwrap_or(0u64);
            {
                let mut s = lock_sched();
                s.tids[i] = tid;
                // Warm the per-thread hash keys under a per-task seed, one task at a time.
                drop(s);
            }
            { let s = lock_sched(); wait_turn(s, i); }
            TASK.with(|t| t.set(i));
            GAP.with(|g| g.set(if max_gap == 0 { u64::MAX } else { draw(max_gap) }));
            crate::hooks::preempt_after(next_step());
            let r = job();
            TASK.with(|t| t.set(usize::MAX));
            crate::hooks::preempt_after(u64::MAX);
            let mut s = lock_sched();
            // Make sure we own the token before drawing.
            if s.blocked[i] { s.blocked[i] = false; }
            while s.active && s.current != i { s.waiting[i] = true; s = CV.wait(s).unwrap_or_else(|e| e.into_inner()); s.waiting[i] = false; }
            s.alive[i] = false;
            s.progress += 1;
            for l in s.locked.iter_mut() { *l = false; }
            let cand: Vec<usize> = (0..s.alive.len()).filter(|k| s.alive[*k] && !s.blocked[*k]).collect();
            if !cand.is_empty() {
                let next = cand[draw(cand.len() as u64) as usize];
                sched_note((5 << 32) | ((i as u64) << 16) | next as u64);
                s.current = next;
            } else {
                s.current = usize::MAX;
                for k in 0..s.alive.len() { if s.alive[k] { s.current = k; break; } }
            }
            CV.notify_all();
            r
        }).expect("spawn"));
    }
    // All registered: start.
    loop {
        let s = lock_sched();
        if s.tids.iter().all(|t| *t != 0) { break; }
        drop(s);
        std::thread::yield_now();
    }
    { let mut s = lock_sched(); s.current = first; CV.notify_all(); }
    monitor();
    let out = hs.into_iter().map(|h| h.join().ok()).collect();
    lock_sched().active = false;
    out
}

/// Watches for a token holder that waits on something the simulator does not own (a lock inside the
/// code under test) and passes the token on, so that lock-based code is neither hung nor blamed.
fn monitor() {
    let mut last = u64::MAX;
    let mut still = 0;
    let mut dead = 0;
    loop {
        let mut s = lock_sched();
        if !s.alive.iter().any(|a| *a) { return; }
        let (g, to) = CV.wait_timeout(s, std::time::Duration::from_millis(15)).unwrap_or_else(|e| e.into_inner());
        s = g;
        if !to.timed_out() { continue; }
        if s.progress != last { last = s.progress; still = 0; dead = 0; continue; }
        let cur = s.current;
        if cur == usize::MAX || cur >= s.alive.len() || !s.alive[cur] || s.waiting[cur] { continue; }
        if !sleeping(s.tids[cur]) { still = 0; dead = 0; continue; }
        still += 1;
        if still < 4 { continue; }
        still = 0;
        s.blocked[cur] = true;
        s.forced += 1;
        FORCED.fetch_add(1, Ordering::SeqCst);
        if FORCED.load(Ordering::SeqCst) > 8 { NO_ALLOC_PREEMPT.store(true, Ordering::SeqCst); }
        let next = (0..s.alive.len()).find(|k| s.alive[*k] && !s.blocked[*k]);
        match next {
            Some(k) => { s.current = k; CV.notify_all(); }
            None => {
                // Everybody sleeps outside the simulator.
                if (0..s.alive.len()).all(|k| !s.alive[k] || (sleeping(s.tids[k]) && !s.waiting[k])) {
                    dead += 1;
                    if dead > 40 { eprintln!("DEADLOCK: every task waits inside the code under test"); std::process::exit(EXIT_DEADLOCK); }
                }
                for b in s.blocked.iter_mut() { *b = false; }
            }
        }
    }
}

fn sleeping(tid: u64) -> bool {
    let _h = HookGuard::enter();
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')).unwrap_or(false),
        Err(_) => false,
    }
}

/// How a fresh thread meets the code: its name, how much of its stack is in use already, and whether the
/// call comes from a destructor that runs because a panic is on its way through.
#[derive(Clone, Debug, Default)]
pub struct Place { pub name: Option<&'static str>, pub deep: usize, pub unwinding: bool }

#[inline(never)]
fn deeper<R>(n: usize, f: &mut dyn FnMut() -> R) -> R {
    // Frames of an odd size, so that every depth puts the callee's locals elsewhere.
    let mut pad = [0u8; 40];
    std::hint::black_box(&mut pad);
    let r = if n == 0 { f() } else { deeper(n - 1, f) };
    std::hint::black_box(&mut pad);
    r
}
struct AtDrop<'a>(&'a mut dyn FnMut());
impl<'a> Drop for AtDrop<'a> { fn drop(&mut self) { (self.0)() } }

/// Like `on_fresh_thread`, at some place of that thread's life.
pub fn on_thread_at<R: Send + 'static>(seed: u64, stack: usize, place: Place, f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
    HASH_SEED.store(seed, Ordering::SeqCst);
    let mut b = std::thread::Builder::new().stack_size(stack);
    if let Some(n) = place.name { b = b.name(n.to_string()); }
    b.spawn(move || {
        let mut f = Some(f);
        let mut once = || { let f = f.take().expect("once"); if place.unwinding {
            let mut out = None;
            let mut f = Some(f);
            let mut run = || out = Some((f.take().expect("once"))());
            let _ = catch_unwind(AssertUnwindSafe(|| { let _d = AtDrop(&mut run); inject_panic(0) }));
            out.expect("ran")
        } else { f() } };
        deeper(place.deep, &mut once)
    }).expect("spawn").join().ok()
}

/// Run a closure alone on a fresh thread (fresh thread-locals and hash keys).
pub fn on_fresh_thread<R: Send + 'static>(seed: u64, stack: usize, f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
    HASH_SEED.store(seed, Ordering::SeqCst);
    std::thread::Builder::new().stack_size(stack).spawn(f).expect("spawn").join().ok()
}
