//! Deterministic simulation of magmaflow. See ../../DESIGN.md.
//!
//!   sim check ID            run the property's seeds (VERIF_SEED, VERIF_TIER), write evidence, exit 0/1/2
//!   sim replay FILE         re-execute a replay file; exit 1 if the violation appears again
//!   sim one ID RUNSEED      one run, traced
//!   sim hashes ID N [W K]   event-log hashes of the first N runs (every W-th from K), for determinism diffs

mod cfg;
mod common;
mod dict;
mod enc;
mod gen;
mod handlers;
mod hooks;
mod layout;
mod props;
mod sinks;
mod spec;
mod tables;
mod tape;
mod world;

use common::Viol;
use props::{Prop, PROPS};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};
use tape::Tape;

#[global_allocator]
static ALLOC: world::SimAlloc = world::SimAlloc;

pub static HARNESS_PANIC: AtomicBool = AtomicBool::new(false);

const WORKERS: u64 = 8;
const HANG_S: u64 = 120;
const EXIT_ERR: i32 = 2;

struct Ran { viol: Option<Viol>, world: world::World }

/// One run. The property executes on a fresh thread with a small stack.
fn run_one(p: &'static Prop, tape: Tape, tracing: bool) -> Ran { run_fn(p.f, tape, tracing) }
fn run_fn(f: fn() -> common::Res, tape: Tape, tracing: bool) -> Ran {
    world::begin(tape, tracing);
    let r = std::thread::Builder::new().stack_size(props::STACK).spawn(f).expect("spawn").join();
    let w = world::end();
    match r {
        Ok(r) => Ran { viol: r.err(), world: w },
        Err(_) => { HARNESS_PANIC.store(true, Ordering::SeqCst); Ran { viol: None, world: w } }
    }
}

fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    let mut x = world::mix(world::hash_str(base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xA5A5, id), i);
    tape::splitmix(&mut x)
}

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("no such property: {}", id); std::process::exit(EXIT_ERR) } }
}

fn main() {
    world::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(prop(&a[2])),
        Some("worker") => worker(&a[2..]),
        Some("replay") => replay(Path::new(&a[2])),
        Some("one") => one(prop(&a[2]), a[3].parse().expect("seed")),
        Some("tape") => one_tape(prop(&a[2]), Path::new(&a[3])),
        Some("history") => history(prop(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), &a[7]),
        Some("hashes") => hashes(prop(&a[2]), a[3].parse().unwrap(), a.get(4).map(|x| x.parse().unwrap()).unwrap_or(1), a.get(5).map(|x| x.parse().unwrap()).unwrap_or(0)),
        Some("dict") => { dict::print(); 0 }
        Some("props") => { for p in PROPS { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage: sim check|replay|one|hashes ..."); EXIT_ERR }
    };
    std::process::exit(code);
}

fn base_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64 }
fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn hashes(p: &'static Prop, n: u64, w: u64, k: u64) -> i32 {
    let s = base_seed();
    let mut i = k;
    while i < n {
        let r = run_one(p, Tape::seeded(run_seed(s, p.id, i)), false);
        println!("{} {} {:016x} {:016x} {} {}", p.id, i, r.world.hash, r.world.sched_hash, r.world.steps, r.viol.map(|v| v.class).unwrap_or_default());
        i += w;
    }
    0
}

fn tape_out() -> Option<std::fs::File> { std::env::var("SIM_TAPE_OUT").ok().and_then(|p| std::fs::File::create(p).ok()) }

fn finish(r: Ran) -> i32 {
    for t in &r.world.trace { println!("  {}", t); }
    match r.viol {
        Some(v) => { println!("class={}\nmessage={}", v.class, v.msg.replace('\n', " ")); 1 }
        None => if HARNESS_PANIC.load(Ordering::SeqCst) { EXIT_ERR } else { 0 },
    }
}
fn one(p: &'static Prop, seed: u64) -> i32 {
    let mut t = Tape::seeded(seed);
    t.sink = tape_out();
    finish(run_one(p, t, true))
}
fn read_tape(s: &str) -> Vec<u64> { s.split_whitespace().filter_map(|x| x.parse().ok()).collect() }
fn one_tape(p: &'static Prop, f: &Path) -> i32 {
    let t = read_tape(&std::fs::read_to_string(f).expect("tape"));
    let mut t = Tape::replay(t);
    t.sink = tape_out();
    finish(run_one(p, t, true))
}
/// Re-execute a worker's runs from `from` up to and including `upto`; the last must show `class`.
fn history(p: &'static Prop, base: u64, step: u64, from: u64, upto: u64, class: &str) -> i32 {
    let mut i = from;
    while i < upto { run_one(p, Tape::seeded(run_seed(base, p.id, i)), false); i += step; }
    let r = run_one(p, Tape::seeded(run_seed(base, p.id, upto)), true);
    if let Some(ref v) = r.viol { if class != "*" && v.class != class { println!("(another violation: {})", v.class); } }
    finish(r)
}

// ---------------------------------------------------------------------------------------- worker

#[derive(Default)]
struct Stats {
    runs: u64, steps: u64, draws: u64, nontrivial: u64,
    faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, known: BTreeMap<String, u64>,
    hashes: HashSet<u64>, scheds: HashSet<u64>, nt_hashes: HashSet<u64>, edges: HashSet<u64>, all_edges: u64,
}

/// worker ID SEED START STEP COUNT DEADLINE_S OUT
fn worker(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let base: u64 = a[1].parse().unwrap();
    let (start, step, count): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let deadline = Instant::now() + Duration::from_secs_f64(a[5].parse().unwrap());
    let out = PathBuf::from(&a[6]);
    let mark = std::fs::File::create(out.with_extension("mark")).expect("mark");
    let put = |i: u64, n: u64| { let mut b = [0u8; 16]; b[..8].copy_from_slice(&i.to_le_bytes()); b[8..].copy_from_slice(&n.to_le_bytes()); let _ = mark.write_at(&b, 0); };
    let mut st = Stats::default();
    let mut i = start;
    let mut capped = false;
    while i < count {
        if st.runs % 16 == 0 && Instant::now() > deadline { capped = true; break; }
        put(i, 0);
        let r = run_one(p, Tape::seeded(run_seed(base, p.id, i)), false);
        if HARNESS_PANIC.load(Ordering::SeqCst) { eprintln!("harness panic in {} run {} seed {}", p.id, i, run_seed(base, p.id, i)); return EXIT_ERR; }
        let w = &r.world;
        st.runs += 1;
        st.steps += w.steps;
        st.draws += w.tape.rec.len() as u64;
        for (k, v) in &w.faults { *st.faults.entry(k.to_string()).or_insert(0) += v; }
        for (k, v) in &w.probes { *st.probes.entry(k.to_string()).or_insert(0) += v; }
        for (k, v) in &w.known { *st.known.entry(k.to_string()).or_insert(0) += v; }
        st.hashes.insert(w.hash);
        st.scheds.insert(w.sched_hash);
        if nontrivial(w) { st.nontrivial += 1; st.nt_hashes.insert(w.hash); }
        if let Some(v) = r.viol {
            write_found(&out, i, &v.class, &v.msg, &w.tape.rec, &[], false);
            let (tape, v, trace) = shrink(p, w.tape.rec.clone(), v, |n| put(i, n));
            write_found(&out, i, &v.class, &v.msg, &tape, &trace, true);
            break;
        }
        i += step;
    }
    write_stats(&out, &st, capped);
    0
}

fn nontrivial(w: &world::World) -> bool {
    !w.faults.is_empty() || ["large_stream", "large_function", "deep_nesting", "cut_at_boundary", "has_instructions", "handler_called", "recovered_several_blocks", "several_blocks"].iter().any(|k| w.probes.contains_key(k))
}

fn write_found(out: &Path, i: u64, class: &str, msg: &str, tape: &[u64], trace: &[String], done: bool) {
    let mut s = format!("run={}\nclass={}\nmessage={}\nshrunk={}\ntape=", i, class, msg.replace('\n', " "), done);
    for t in tape { let _ = write!(s, "{} ", t); }
    s.push('\n');
    for t in trace { let _ = writeln!(s, "trace={}", t.replace('\n', " ")); }
    let tmp = out.with_extension("found.tmp");
    if std::fs::write(&tmp, s).is_ok() { let _ = std::fs::rename(&tmp, out.with_extension("found")); }
}

fn write_stats(out: &Path, s: &Stats, capped: bool) {
    let mut t = format!("runs {}\nsteps {}\ndraws {}\nnontrivial {}\ncapped {}\nforced {}\nhash_seed_reads {}\nclock_reads {}\n", s.runs, s.steps, s.draws, s.nontrivial, capped as u64,
        world::FORCED.load(Ordering::SeqCst), world::HASH_SEED_READS.load(Ordering::SeqCst), world::CLOCK_READS.load(Ordering::SeqCst));
    for (k, v) in &s.faults { let _ = writeln!(t, "fault:{} {}", k, v); }
    for (k, v) in &s.probes { let _ = writeln!(t, "probe:{} {}", k, v); }
    for (k, v) in &s.known { let _ = writeln!(t, "known:{} {}", k, v); }
    let _ = writeln!(t, "edges {}", hooks::edges());
    for e in hooks::covered() { let _ = writeln!(t, "e {:x}", e); }
    for h in &s.hashes { let _ = writeln!(t, "h {:x}", h); }
    for h in &s.scheds { let _ = writeln!(t, "s {:x}", h); }
    for h in &s.nt_hashes { let _ = writeln!(t, "n {:x}", h); }
    let _ = std::fs::write(out.with_extension("stats"), t);
}

/// Shrink a failing tape while the same class of violation persists.
fn shrink(p: &'static Prop, tape: Vec<u64>, v: Viol, mut tick: impl FnMut(u64)) -> (Vec<u64>, Viol, Vec<String>) {
    let until = Instant::now() + Duration::from_secs(12);
    let mut best = tape;
    let mut bv = v;
    let mut n = 0;
    let mut tries = 0;
    let mut attempt = |t: &[u64], bv: &Viol, tries: &mut u64| -> Option<(Vec<u64>, Viol)> {
        *tries += 1;
        tick(*tries);
        let r = run_one(p, Tape::replay(t.to_vec()), false);
        if HARNESS_PANIC.swap(false, Ordering::SeqCst) { return None; }
        match r.viol { Some(v) if v.class == bv.class => { let mut rec = r.world.tape.rec; while rec.last() == Some(&0) { rec.pop(); } Some((rec, v)) } _ => None }
    };
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a.iter().sum::<u64>() < b.iter().sum::<u64>());
    loop {
        let mut progress = false;
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > until { break; }
                let e = (i + size).min(best.len());
                // Delete, then zero.
                let mut t = best[..i].to_vec();
                t.extend_from_slice(&best[e..]);
                if let Some((r, v)) = attempt(&t, &bv, &mut tries) { if better(&r, &best) { best = r; bv = v; progress = true; continue; } }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[i..e] { *x = 0; }
                    if let Some((r, v)) = attempt(&t, &bv, &mut tries) { if better(&r, &best) { best = r; bv = v; progress = true; } }
                }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() || Instant::now() > until { break; }
            for k in 0..3 {
                if i >= best.len() || best[i] == 0 { break; }
                let mut t = best.clone();
                t[i] = match k { 0 => t[i] / 2, 1 => t[i] - 1, _ => t[i] / 16 };
                if let Some((r, v)) = attempt(&t, &bv, &mut tries) { if better(&r, &best) { best = r; bv = v; progress = true; } }
            }
        }
        n += 1;
        if !progress || n > 8 || Instant::now() > until { break; }
    }
    let r = run_one(p, Tape::replay(best.clone()), true);
    let v = match r.viol { Some(v) => v, None => bv };
    (best, v, r.world.trace)
}

// ---------------------------------------------------------------------------------------- parent

struct Found { run: u64, class: String, msg: String, tape: Vec<u64>, trace: Vec<String>, shrunk: bool }

fn parse_found(p: &Path) -> Option<Found> {
    let s = std::fs::read_to_string(p).ok()?;
    let mut f = Found { run: 0, class: String::new(), msg: String::new(), tape: vec![], trace: vec![], shrunk: false };
    for l in s.lines() {
        if let Some((k, v)) = l.split_once('=') {
            match k { "run" => f.run = v.parse().ok()?, "class" => f.class = v.into(), "message" => f.msg = v.into(), "tape" => f.tape = read_tape(v), "trace" => f.trace.push(v.into()), "shrunk" => f.shrunk = v == "true", _ => {} }
        }
    }
    Some(f)
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("magmaflow-sim-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

fn exe() -> PathBuf { std::env::current_exe().expect("exe") }

enum Sub { Exit(i32, String), Crash(String), Hang }
/// Run this binary with a time limit.
fn sub(args: &[String], tape_out: Option<&Path>, limit: Duration) -> Sub {
    let mut c = Command::new(exe());
    c.args(args).stdout(Stdio::piped()).stderr(Stdio::null());
    if let Some(p) = tape_out { c.env("SIM_TAPE_OUT", p); }
    let mut ch = match c.spawn() { Ok(c) => c, Err(e) => return Sub::Exit(EXIT_ERR, e.to_string()) };
    let mut so = ch.stdout.take().expect("stdout");
    let rd = std::thread::spawn(move || { let mut s = Vec::new(); let _ = std::io::Read::read_to_end(&mut so, &mut s); String::from_utf8_lossy(&s).into_owned() });
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                let s = rd.join().unwrap_or_default();
                return match st.code() {
                    Some(c) if c == world::EXIT_DEADLOCK => Sub::Crash("deadlock".into()),
                    Some(c) if c == world::EXIT_RUNAWAY => Sub::Crash("runaway".into()),
                    Some(c) => Sub::Exit(c, s),
                    None => Sub::Crash(format!("signal {}", st.signal().unwrap_or(0))),
                };
            }
            _ => if t0.elapsed() > limit { let _ = ch.kill(); let _ = ch.wait(); return Sub::Hang; },
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 1 } else { 20 }));
    }
}
fn s(x: impl ToString) -> String { x.to_string() }

fn check(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let base = base_seed();
    let deep = thorough();
    let mut count = if deep { p.thorough } else { p.quick };
    if let Ok(n) = std::env::var("SIM_RUNS") { if let Ok(n) = n.parse() { count = n; } }
    let cap: f64 = std::env::var("SIM_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if deep { 700.0 } else { 200.0 });
    println!("property={} tier={} VERIF_SEED={} runs={} workers={}", p.id, if deep { "thorough" } else { "quick" }, base, count, WORKERS);
    let dir = scratch();
    let code = check_in(p, base, deep, count, cap, t0, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn check_in(p: &'static Prop, base: u64, deep: bool, count: u64, cap: f64, t0: Instant, dir: &Path) -> i32 {
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    // Directed runs first.
    if p.id == "C03" {
        let r = run_fn(props::c03_probe, Tape::seeded(base), true);
        if HARNESS_PANIC.load(Ordering::SeqCst) { return EXIT_ERR; }
        for (k, v) in &r.world.known { *known.entry(k.to_string()).or_insert(0) += v; }
        if let Some(v) = r.viol {
            let f = Found { run: 0, class: v.class, msg: v.msg, tape: vec![], trace: r.world.trace, shrunk: true };
            return report(p, base, &f, "directed", "");
        }
    }
    let mut ch: Vec<(Child, PathBuf, Option<i32>, (u64, u64), Instant)> = Vec::new();
    for k in 0..WORKERS {
        let out = dir.join(format!("w{}", k));
        let c = Command::new(exe()).args(["worker", p.id, &s(base), &s(k), &s(WORKERS), &s(count), &s(cap), &out.to_string_lossy()])
            .stdout(Stdio::null()).stderr(std::fs::File::create(out.with_extension("err")).expect("err file")).spawn();
        match c { Ok(c) => ch.push((c, out, None, (u64::MAX, 0), Instant::now())), Err(e) => { eprintln!("cannot start a worker: {}", e); return EXIT_ERR; } }
    }
    let mut crashed: Vec<(u64, String)> = Vec::new();
    let mut failed = false;
    let mut found_at: Option<Instant> = None;
    loop {
        let mut open = 0;
        for w in ch.iter_mut() {
            if w.2.is_some() { continue; }
            match w.0.try_wait() {
                Ok(Some(st)) => {
                    w.2 = Some(st.code().unwrap_or(-1));
                    if let Some(m) = read_mark(&w.1) {
                        match st.code() {
                            Some(0) => {}
                            Some(c) if c == world::EXIT_DEADLOCK => crashed.push((m.0, "deadlock: every caller waits inside the library".into())),
                            Some(c) if c == world::EXIT_RUNAWAY => crashed.push((m.0, "runaway: the library works or allocates without end".into())),
                            Some(c) => { eprintln!("worker exited with {}: {}", c, std::fs::read_to_string(w.1.with_extension("err")).unwrap_or_default()); failed = true; }
                            None => {
                                let e = std::fs::read_to_string(w.1.with_extension("err")).unwrap_or_default();
                                let why = if e.contains("overflowed its stack") { "stack exhausted".into() } else { format!("killed by signal {}", st.signal().unwrap_or(0)) };
                                crashed.push((m.0, why));
                            }
                        }
                    } else if st.code() != Some(0) { failed = true; }
                    if w.1.with_extension("found").exists() && found_at.is_none() { found_at = Some(Instant::now()); }
                }
                _ => {
                    open += 1;
                    if let Some(m) = read_mark(&w.1) {
                        if m != w.3 { w.3 = m; w.4 = Instant::now(); }
                        else if w.4.elapsed().as_secs() > HANG_S { let _ = w.0.kill(); let _ = w.0.wait(); w.2 = Some(-2); crashed.push((m.0, format!("no progress for {} s", HANG_S))); }
                    }
                }
            }
        }
        if open == 0 { break; }
        if !crashed.is_empty() && found_at.is_none() { found_at = Some(Instant::now()); }
        // Once something is found the other workers get a moment to finish, no more.
        if let Some(t) = found_at {
            if t.elapsed().as_secs() > 14 { for w in ch.iter_mut() { if w.2.is_none() { let _ = w.0.kill(); let _ = w.0.wait(); w.2 = Some(-3); } } break; }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let mut found: Vec<Found> = Vec::new();
    let mut st = Stats::default();
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    for w in &ch {
        if let Some(f) = parse_found(&w.1.with_extension("found")) { found.push(f); }
        if let Ok(t) = std::fs::read_to_string(w.1.with_extension("stats")) {
            for l in t.lines() {
                let (k, v) = match l.split_once(' ') { Some(x) => x, None => continue };
                if k == "h" { st.hashes.insert(u64::from_str_radix(v, 16).unwrap_or(0)); continue; }
                if k == "e" { st.edges.insert(u64::from_str_radix(v, 16).unwrap_or(0)); continue; }
                if k == "edges" { st.all_edges = v.parse().unwrap_or(0); continue; }
                if k == "s" { st.scheds.insert(u64::from_str_radix(v, 16).unwrap_or(0)); continue; }
                if k == "n" { st.nt_hashes.insert(u64::from_str_radix(v, 16).unwrap_or(0)); continue; }
                let n: u64 = v.parse().unwrap_or(0);
                if let Some(f) = k.strip_prefix("fault:") { *st.faults.entry(f.into()).or_insert(0) += n; }
                else if let Some(f) = k.strip_prefix("probe:") { *st.probes.entry(f.into()).or_insert(0) += n; }
                else if let Some(f) = k.strip_prefix("known:") { *known.entry(f.into()).or_insert(0) += n; }
                else { *extra.entry(k.into()).or_insert(0) += n; }
            }
        }
    }
    st.runs = extra.get("runs").cloned().unwrap_or(0);
    crashed.sort();
    found.sort_by_key(|f| f.run);
    if found.is_empty() && crashed.is_empty() && failed { eprintln!("harness error"); return EXIT_ERR; }
    // Findings on file.
    let listed = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut code = 0;
    for (k, n) in &known {
        match listed.lines().find(|l| l.starts_with("KNOWN-FINDING:") && l.contains(&format!("property={} ", p.id)) && l.contains(&format!("[{}]", k))) {
            Some(l) => println!("{} (seen {} times)", l, n),
            None => { let f = Found { run: 0, class: k.clone(), msg: format!("{} (not listed in known_findings.txt)", k), tape: vec![], trace: vec![], shrunk: true }; code = report(p, base, &f, "directed", ""); }
        }
    }
    let mut violations = 0;
    if code == 0 {
        if let Some(f) = found.first() {
            violations = 1;
            code = settle(p, base, f, dir);
        } else if let Some(&(run, ref why)) = crashed.first() {
            violations = 1;
            code = settle_crash(p, base, run, why, dir);
        }
    } else { violations = 1; }
    evidence(p, base, deep, count, &st, &extra, &known, t0.elapsed().as_secs_f64(), violations, dir);
    if code == 0 { println!("property={} held on {} runs ({} distinct event logs), {:.1} s", p.id, st.runs, st.hashes.len(), t0.elapsed().as_secs_f64()); }
    code
}

fn read_mark(out: &Path) -> Option<(u64, u64)> {
    let b = std::fs::read(out.with_extension("mark")).ok()?;
    if b.len() < 16 { return None; }
    Some((u64::from_le_bytes(b[..8].try_into().ok()?), u64::from_le_bytes(b[8..16].try_into().ok()?)))
}

/// Confirm a found violation in fresh processes and report it.
fn settle(p: &'static Prop, base: u64, f: &Found, dir: &Path) -> i32 {
    let tf = dir.join("confirm.tape");
    let write = |t: &[u64]| { let mut x = String::new(); for v in t { let _ = write!(x, "{} ", v); } let _ = std::fs::write(&tf, x); };
    write(&f.tape);
    let limit = Duration::from_secs(HANG_S);
    match sub(&[s("tape"), s(p.id), tf.to_string_lossy().into_owned()], None, limit) {
        Sub::Exit(1, o) if o.contains(&format!("class={}", f.class)) => return report(p, base, f, "tape", ""),
        _ => {}
    }
    // The run's own seed.
    let seed = run_seed(base, p.id, f.run);
    if let Sub::Exit(1, o) = sub(&[s("one"), s(p.id), s(seed)], None, limit) {
        if o.contains(&format!("class={}", f.class)) { return report(p, base, f, "seed", ""); }
    }
    // It needs what earlier runs left behind in the process.
    let mut from = f.run % WORKERS;
    let try_from = |from: u64| matches!(sub(&[s("history"), s(p.id), s(base), s(WORKERS), s(from), s(f.run), f.class.clone()], None, Duration::from_secs(240)), Sub::Exit(1, ref o) if o.contains(&format!("class={}", f.class)));
    let t0 = Instant::now();
    if try_from(from) {
        // Drop as much of the past as possible.
        let mut back = 1;
        while t0.elapsed().as_secs() < 60 {
            let k = back * WORKERS;
            if k > f.run - from { break; }
            if try_from(f.run - k) { from = f.run - k; break; }
            back *= 4;
        }
        return report(p, base, f, "history", &format!("{} {} {}", WORKERS, from, f.run));
    }
    let mut g = Found { run: f.run, class: f.class.clone(), msg: f.msg.clone(), tape: f.tape.clone(), trace: f.trace.clone(), shrunk: f.shrunk };
    g.msg.push_str(" (seen once; fresh processes did not show it again: the library's result depends on something outside its inputs)");
    report(p, base, &g, "seed", "")
}

fn settle_crash(p: &'static Prop, base: u64, run: u64, why: &str, dir: &Path) -> i32 {
    let seed = run_seed(base, p.id, run);
    let out = dir.join("crash.tape");
    let limit = Duration::from_secs(HANG_S);
    let first = sub(&[s("one"), s(p.id), s(seed)], Some(&out), limit);
    let dead = |x: &Sub| matches!(x, Sub::Crash(_) | Sub::Hang);
    let mut f = Found { run, class: "crash".into(), msg: format!("the process ended: {}", why), tape: vec![], trace: vec![], shrunk: false };
    if !dead(&first) {
        if let Sub::Exit(1, _) = first { f.msg.push_str(" (alone, the run reports a violation)"); }
        let from = run % WORKERS;
        return report(p, base, &f, "history", &format!("{} {} {}", WORKERS, from, run));
    }
    let mut best = read_tape(&std::fs::read_to_string(&out).unwrap_or_default());
    let hang = matches!(first, Sub::Hang);
    let tf = dir.join("try.tape");
    let until = Instant::now() + Duration::from_secs(if hang { 1 } else { 25 });
    let mut dies = |t: &[u64]| -> Option<Vec<u64>> {
        let mut x = String::new();
        for v in t { let _ = write!(x, "{} ", v); }
        let _ = std::fs::write(&tf, x);
        if dead(&sub(&[s("tape"), s(p.id), tf.to_string_lossy().into_owned()], Some(&out), limit)) { Some(read_tape(&std::fs::read_to_string(&out).unwrap_or_default())) } else { None }
    };
    let mut size = best.len() / 2;
    while size >= 1 && Instant::now() < until {
        let mut i = 0;
        while i < best.len() && Instant::now() < until {
            let e = (i + size).min(best.len());
            let mut t = best[..i].to_vec();
            t.extend_from_slice(&best[e..]);
            match dies(&t) { Some(r) if r.len() < best.len() => best = r, _ => i += size }
        }
        size /= 2;
    }
    f.tape = best;
    f.shrunk = true;
    report(p, base, &f, "tape", "")
}

fn report(p: &'static Prop, base: u64, f: &Found, kind: &str, hist: &str) -> i32 {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.replay", p.id, base, f.run));
    let mut t = format!("# sim replay {}\nproperty={}\nkind={}\nverif_seed={}\nrun={}\nrun_seed={}\nclass={}\nmessage={}\n", path.display(), p.id, kind, base, f.run, run_seed(base, p.id, f.run), f.class, f.msg.replace('\n', " "));
    if kind == "history" { let _ = writeln!(t, "history={}", hist); }
    if kind == "tape" { t.push_str("tape="); for v in &f.tape { let _ = write!(t, "{} ", v); } t.push('\n'); }
    let _ = writeln!(t, "minimised={}", f.shrunk);
    for l in &f.trace { let _ = writeln!(t, "trace={}", l.replace('\n', " ")); }
    let _ = std::fs::write(&path, t);
    println!("violation class={} run={} seed={}: {}", f.class, f.run, run_seed(base, p.id, f.run), f.msg);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    let _ = std::io::stdout().flush();
    1
}

fn replay(path: &Path) -> i32 {
    let t = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path.display(), e); return EXIT_ERR; } };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string())).unwrap_or_default();
    let (id, kind, class) = (get("property"), get("kind"), get("class"));
    let p = prop(&id);
    let dir = scratch();
    let tf = dir.join("replay.tape");
    let args: Vec<String> = match kind.as_str() {
        "tape" => { let _ = std::fs::write(&tf, get("tape")); vec![s("tape"), s(p.id), tf.to_string_lossy().into_owned()] }
        "history" => { let h = get("history"); let mut v = vec![s("history"), s(p.id), get("verif_seed")]; v.extend(h.split_whitespace().map(|x| x.to_string())); v.push(class.clone()); v }
        "directed" => {
            let r = run_fn(props::c03_probe, Tape::seeded(1), true);
            let bad = r.viol.is_some() || !r.world.known.is_empty();
            let _ = std::fs::remove_dir_all(&dir);
            if bad { println!("VIOLATION property={} replay={}", p.id, path.display()); return 1; }
            println!("not reproduced");
            return 0;
        }
        _ => vec![s("one"), s(p.id), get("run_seed")],
    };
    let r = sub(&args, None, Duration::from_secs(240));
    let _ = std::fs::remove_dir_all(&dir);
    let (again, out) = match r {
        Sub::Exit(1, o) => (o.contains(&format!("class={}", class)), o),
        Sub::Exit(_, o) => (false, o),
        Sub::Crash(w) => (class == "crash", w),
        Sub::Hang => (class == "crash", "no progress".into()),
    };
    println!("{}", out);
    if again { println!("VIOLATION property={} replay={}", p.id, path.display()); 1 } else { println!("not reproduced"); 0 }
}

// -------------------------------------------------------------------------------------- evidence

fn js(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String { let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect(); format!("{{{}}}", v.join(", ")) }

fn evidence(p: &'static Prop, base: u64, deep: bool, planned: u64, st: &Stats, extra: &BTreeMap<String, u64>, known: &BTreeMap<String, u64>, wall: f64, violations: u64, dir: &Path) {
    // Samples: traces of the first runs, re-executed apart from the search.
    let mut samples = Vec::new();
    let mut i = 0;
    while samples.len() < 2 && i < 12 && violations == 0 {
        let r = sub(&[s("one"), s(p.id), s(run_seed(base, p.id, i))], None, Duration::from_secs(20));
        if let Sub::Exit(0, o) = r {
            let lines: Vec<String> = o.lines().take(14).map(|l| common::clip(l.trim())).collect();
            if lines.len() > 1 || i > 8 { samples.push(format!("{{\"run\": {}, \"seed\": {}, \"trace\": [{}]}}", i, run_seed(base, p.id, i), lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "))); }
        }
        i += 1;
    }
    let _ = dir;
    let e = |k: &str| extra.get(k).cloned().unwrap_or(0);
    let per_hour = if wall > 0.0 { (st.runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let t = format!("{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"runs_planned\": {planned},\n  \"workers_stopped_by_wall_cap\": {capped},\n  \"seeds_per_hour\": {ph},\n  \"simulated_events\": {steps},\n  \"choices_drawn\": {draws},\n  \"simulated_time\": \"the library has no timers; progress is counted in events (simulated_events). Clock reads by the library: {clock}\",\n  \"distinct_event_logs\": {dh},\n  \"distinct_schedules\": {ds},\n  \"distinctness_measure\": \"64-bit hash of the event log (calls, outcomes, faults, switches); schedules: hash of the sequence of scheduling decisions\",\n  \"library_edges_reached\": {edges},\n  \"library_edges_in_build\": {all_edges},\n  \"library_edges_measure\": \"control-flow edges of the compiled library (LLVM coverage pass; includes drop glue, unused generic instances and unreachable panics), counted over the whole process\",\n  \"faults_injected\": {faults},\n  \"probes\": {probes},\n  \"known_findings_seen\": {known},\n  \"forced_handovers\": {forced},\n  \"hash_seed_reads\": {hsr},\n  \"real_components\": [\"magmaflow reader, disassembler, layout pass, control-flow recovery, printers, GLSL.std.450 handler (all unmodified library code)\"],\n  \"stub_components\": [\"stored image and its faults\", \"extended-instruction handlers other than GLSL.std.450\", \"output sinks\", \"thread scheduler\", \"hash seed source (getrandom)\", \"clock (clock_gettime)\", \"allocator wrapper\"]\n }},\n \"assumptions\": [{assume}],\n \"wall_s\": {wall:.2},\n \"violations\": {viol}\n}}\n",
        id = js(p.id), tier = js(if deep { "thorough" } else { "quick" }), seed = base as i64, runs = st.runs, dn = st.nt_hashes.len(), rule = js(p.rule), samples = samples.join(", "), planned = planned, capped = e("capped"), ph = per_hour,
        steps = e("steps"), draws = e("draws"), clock = e("clock_reads"), dh = st.hashes.len(), ds = st.scheds.len(), faults = jmap(&st.faults), probes = jmap(&st.probes), known = jmap(known), forced = e("forced"), hsr = e("hash_seed_reads"),
        assume = ["the reference model in /verif/sim (spec.rs, layout.rs, cfg.rs) states the intended behaviour", "sampling: a clean batch is evidence, not proof"].iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        wall = wall, viol = violations, edges = st.edges.len(), all_edges = st.all_edges);
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(d.join(format!("{}.json", p.id)), t) { eprintln!("evidence: {}", e); }
}
