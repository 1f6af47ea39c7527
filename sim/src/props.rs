//! The properties: one function each, run once per seed. Every choice comes from the tape.

use crate::cfg::{self, Outcomes, Shape, B, T};
use crate::common::*;
use crate::dict;
use crate::enc::{self, EncOp};
use crate::gen::{self, head, Binds, Module, Style};
use crate::handlers::{self, HSpec, Misbehave, Plan};
use crate::layout::{self, Bad};
use crate::sinks::{FmtSink, IoSink, Mode};
use crate::spec::{self, Fail};
use crate::tables::STORAGECLASS;
use crate::world::{self, chance, draw, ev, fault, mix, pick, probe, range, sut, Died};
use magmaflow::spv::logical::{find_control_flow, validate, ControlFlowChain, ControlFlowError, ControlFlowFunctionPrinter, FunctionDefinition, LogicalModule};
use magmaflow::spv::raw::{Core, RawModule};
use std::fmt::Write as FW;
use std::io::Write as IW;

pub const STACK: usize = 2 << 20;

pub struct Prop { pub id: &'static str, pub f: fn() -> Res, pub quick: u64, pub thorough: u64, pub rule: &'static str }

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", f: c01, quick: 200_000, thorough: 3000_000, rule: "one run = one generated image, cut at every byte (small images) or at sampled and boundary bytes; non-trivial: at least one cut was read" },
    Prop { id: "C02", f: c02, quick: 1600_000, thorough: 20000_000, rule: "one run = one image hit by 0-5 storage faults and read back; non-trivial: a fault landed" },
    Prop { id: "C03", f: c03, quick: 1600_000, thorough: 20000_000, rule: "one run = one image hit by 0-4 faults at word, byte, string, operand or instruction level; non-trivial: a fault landed" },
    Prop { id: "C04", f: c04, quick: 36_000, thorough: 900_000, rule: "one run = the whole pipeline over a damaged, random, or very large image on a 2 MB stack with memory accounting; non-trivial: a fault landed or the image was large" },
    Prop { id: "C05", f: c05, quick: 1200_000, thorough: 15000_000, rule: "one run = the same words stored in both byte orders under the same word faults and byte cut; non-trivial: a fault landed or the image has instructions" },
    Prop { id: "C06", f: c06, quick: 1400_000, thorough: 18000_000, rule: "one run = up to three modules with faulty import traffic read one after another with logged handlers; non-trivial: an import fault landed or a handler was called" },
    Prop { id: "C07", f: c07, quick: 700_000, thorough: 12000_000, rule: "one run = up to three reads with handlers made to fail, panic, under- or over-read, each followed by healthy reads; non-trivial: a handler fault fired" },
    Prop { id: "C08", f: c08, quick: 400_000, thorough: 5000_000, rule: "one run = one module printed into a healthy sink and 6-24 failing ones; non-trivial: a sink fault fired" },
    Prop { id: "C09", f: c09, quick: 200_000, thorough: 2800_000, rule: "one run = the recovered control flow of a module's functions printed, alone and with code, into healthy and failing sinks; non-trivial: a sink fault fired" },
    Prop { id: "C10", f: c10, quick: 1000_000, thorough: 14000_000, rule: "one run = a laid-out module whose records were lost, repeated, moved or swapped before the layout pass; non-trivial: a record fault landed" },
    Prop { id: "C11", f: c11, quick: 1000_000, thorough: 14000_000, rule: "one run = a laid-out module whose records were lost, repeated, moved or swapped before the layout pass; non-trivial: a record fault landed" },
    Prop { id: "C12", f: c12, quick: 900_000, thorough: 9000_000, rule: "one run = a structured or damaged function, recovered, then structure and graph executed under 8 seeded outcome streams; non-trivial: recovery succeeded on more than one block" },
    Prop { id: "C13", f: c13, quick: 1000_000, thorough: 14000_000, rule: "one run = a structured function recovered undamaged, or with lost, repeated or misdirected blocks; non-trivial: more than one block" },
    Prop { id: "C14", f: c14, quick: 72_000, thorough: 1300_000, rule: "one run = one job repeated under other hash seeds, clocks, threads and call histories; non-trivial: at least two variants ran" },
    Prop { id: "C15", f: c15, quick: 18_000, thorough: 350_000, rule: "one run = 2-14 callers interleaved at memory accesses, allocations, callbacks and writes, or nested inside each other's callbacks up to 12 deep; non-trivial: at least one switch or nested call happened" },
    Prop { id: "C16", f: c16, quick: 400_000, thorough: 6500_000, rule: "one run = pairs of accepted images differing by one fault, compared, cloned and outlived; non-trivial: a fault landed" },
];

fn small_module() -> Module { match draw(3) { 0 => gen::soup(12), 1 => gen::soup(40), _ => whole_module(3, 12) } }

// ------------------------------------------------------------------------------------------ C01

fn c01() -> Res {
    if chance(1, 2000) { return c01_large(); }
    if chance(1, 8) { return c01_unsound(); }
    let m = if chance(1, 40) { gen::soup(400) } else { small_module() };
    cut_and_read(&m, &[])
}

/// Images of many pages, cut at and around page and power-of-two boundaries.
fn c01_large() -> Res {
    probe("many_pages");
    let mut st = Style::plain();
    let want = gen::huge(&[5_000, 9_000, 17_000, 34_000, 66_000]) + draw(3000) as usize;
    let unit: Vec<Vec<u32>> = { let mut u = Vec::new(); while u.is_empty() { u = gen::code(&mut st, &Binds::default(), &[], range(1, 6)); } u };
    let mut insts = Vec::new();
    let mut n = 5;
    while n < want { let mut w = unit[insts.len() % unit.len()].clone(); if w.len() > 1 { let k = w.len() - 1; if matches!(w[0] & 0xFFFF, 128..=200) { w[k] = n as u32; } } n += w.len(); insts.push(w); }
    let m = Module { head: gen::header(), insts, hs: vec![], big: chance(1, 3) };
    let len = n * 4;
    let mut cuts = Vec::new();
    for _ in 0..range(6, 16) {
        let page = *pick(&[512usize, 4096, 8192, 65_536, 131_072]);
        let c = (draw((len / page) as u64 + 1) as usize * page + draw(17) as usize).saturating_sub(8);
        cuts.push(c.min(len));
    }
    for p in [16usize, 32, 64, 128, 256].iter() { if p * 1024 < len && chance(1, 2) { cuts.push(p * 1024); cuts.push(p * 1024 + 4 * draw(3) as usize); } }
    cut_and_read(&m, &cuts)
}

/// An image that was unsound to begin with, cut: what comes out, if anything, is what was stored whole.
fn c01_unsound() -> Res {
    let (bytes, hs) = damaged();
    probe("unsound_image_cut");
    for _ in 0..range(2, 8) {
        let c = if chance(1, 2) { 4 * draw(bytes.len() as u64 / 4 + 1) } else { draw(bytes.len() as u64 + 1) } as usize;
        if c < bytes.len() { fault("torn_tail_bytes"); }
        if let Out::Ok(g) = read(&bytes[..c], &hs) {
            match lib_ref(&bytes[..c], &hs).out {
                Ok(ref want) => if let Some(s) = faithful(&g, want) { return viol("phantom", format!("unsound image cut at byte {} of {}: {}", c, bytes.len(), s)); },
                Err(_) => {
                    let (w, at) = (stored_words(&bytes[..c]), lib_ref(&bytes[..c], &hs).bad_at);
                    if c % 4 != 0 || w.len() < 5 || (at >= 5 && (at >= w.len() || at + (w[at] >> 16) as usize > w.len())) { return viol("accepted", format!("an unsound image of {} bytes cut at byte {}, inside an instruction or the header, was accepted with {} instructions", bytes.len(), c, g.instructions.len())); }
                }
            }
        }
    }
    Ok(())
}

fn cut_and_read(m: &Module, at: &[usize]) -> Res {
    let bytes = m.bytes();
    let full = lib_ref(&bytes, &m.hs);
    let offs: Vec<usize> = m.offsets().iter().map(|o| o * 4).collect();
    let all = match full.out { Ok(ref r) => r, Err(_) => panic!("generator made an unsound image") };
    let mut cuts: Vec<usize> = Vec::new();
    if !at.is_empty() { cuts.extend_from_slice(at); cuts.push(bytes.len()); } else if bytes.len() <= 260 && chance(1, 3) { cuts.extend(0..=bytes.len()); probe("every_byte_cut"); } else {
        cuts.push(bytes.len());
        for _ in 0..range(4, 24) {
            let c = match draw(4) {
                0 => draw(bytes.len() as u64 + 1) as usize,
                1 => *pick(&offs),
                2 => (*pick(&offs) + draw(9) as usize).saturating_sub(4).min(bytes.len()),
                _ => (draw(bytes.len() as u64 / 4 + 1) * 4) as usize,
            };
            cuts.push(c);
        }
        if chance(1, 4) { cuts.extend(0..=24.min(bytes.len())); }
    }
    for c in cuts {
        if c < bytes.len() { fault("torn_tail_bytes"); }
        let out = read(&bytes[..c], &m.hs);
        let at = offs.iter().position(|o| *o == c);
        match (out, at) {
            (Out::Died(d), _) => return viol("panic", format!("cut at byte {} of {}: {}", c, bytes.len(), d.text())),
            (Out::Ok(g), Some(k)) => {
                probe("cut_at_boundary");
                let want = spec::RefModule { head: all.head, insts: all.insts[..k].to_vec() };
                if let Some(s) = faithful(&g, &want) { return viol("phantom", format!("cut at byte {} of {} (after {} instructions): {}", c, bytes.len(), k, s)); }
            }
            (Out::Ok(g), None) => return viol("accepted", format!("cut at byte {} of {}, inside an instruction or the header, was accepted with {} instructions", c, bytes.len(), g.instructions.len())),
            (Out::Err(e), Some(k)) => return viol("refused", format!("cut at byte {} of {}, right after {} whole instructions, was refused with {}", c, bytes.len(), k, e)),
            (Out::Err(e), None) => {
                let want = if c % 4 != 0 { "UnexpectedStreamAlignment" } else { "UnexpectedEndOfStream" };
                if e != want { return viol("wrong_error", format!("cut at byte {} of {} refused with {}, expected {}", c, bytes.len(), e, want)); }
                probe("cut_refused");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02

/// A stored image after faults of every level.
fn damaged() -> (Vec<u8>, Vec<HSpec>) { let m = small_module(); damage_image(m) }
fn damaged_or_tall() -> (Vec<u8>, Vec<HSpec>) { let m = if chance(1, 16_000) { gen::tall() } else { small_module() }; damage_image(m) }
fn damage_image(m: Module) -> (Vec<u8>, Vec<HSpec>) {
    let mut m = m;
    let n = draw(4);
    if n > 0 && chance(1, 2) { gen::damage_insts(&mut m, n); }
    if n > 0 && chance(1, 6) { gen::damage_strings(&mut m); }
    let words = m.words();
    let offs = m.offsets();
    let mut w = words;
    if n > 0 && chance(1, 2) {
        let stale = if chance(1, 2) { gen::soup(12).words() } else { let mut v = w.clone(); v.reverse(); v };
        let k = range(1, 2);
        // Faults in the body more often than in the header.
        if chance(1, 2) && w.len() > 6 {
            let head: Vec<u32> = w[..5].to_vec();
            let o: Vec<usize> = offs[..offs.len() - 1].iter().map(|x| x - 5).collect();
            let tail = gen::damage_words(&w[5..], &o, if stale.len() > 5 { &stale[5..] } else { &[] }, k);
            w = head;
            w.extend(tail);
        } else { w = gen::damage_words(&w, &offs[..offs.len() - 1], &stale, k); }
    }
    let mut b = gen::to_bytes(&w, m.big);
    if n > 0 && chance(1, 8) { gen::damage_bytes(&mut b, 1); }
    (b, m.hs)
}

/// Now and then an almost identical image is read (and printed) right before.
fn sibling_read(bytes: &[u8], hs: &[HSpec]) {
    if bytes.len() > 4_000 || bytes.len() < 24 || !chance(1, 8) { return; }
    probe("sibling_before");
    let mut b = bytes.to_vec();
    let n = (b.len() / 4) as u64;
    match draw(4) {
        0 => { let k = range(20, b.len() as u64 - 1) as usize; b[k] ^= 1 << draw(8); }
        1 => { let (i, j) = (range(2, n - 1) as usize, range(2, n - 1) as usize); for k in 0..4 { b.swap(4 * i + k, 4 * j + k); } }
        2 => { let k = range(2, n - 1) as usize; b.truncate(4 * k); }
        _ => { let k = range(8, 15) as usize; b[k] ^= 1 << draw(8); }
    }
    if let Out::Ok(m) = read(&b, hs) { let _ = display(&m); }
}

fn c02() -> Res {
    let (bytes, hs) = damaged_or_tall();
    sibling_read(&bytes, &hs);
    let out = read(&bytes, &hs);
    let m = match out { Out::Ok(m) => m, _ => return Ok(()) };
    probe("accepted");
    let want = lib_ref(&bytes, &hs);
    match want.out {
        Ok(ref r) => if let Some(s) = faithful(&m, r) { return viol("unfaithful", s); },
        Err(_) => {
            // Accepted though undecodable (not this property's business unless words went astray).
            let w = stored_words(&bytes);
            let mut all: Vec<u32> = enc::header(&m).to_vec();
            for i in &m.instructions { all.extend(i.words()); }
            for (k, d) in want.good.iter().enumerate() {
                if k >= m.instructions.len() || m.instructions[k].words() != d.canon { return viol("unfaithful", format!("instruction {} not returned as stored", k)); }
            }
            let from = 5 + want.good.iter().map(|d| d.canon.len()).sum::<usize>();
            if all.len() != w.len() || all[from.min(all.len())..] != w[from.min(w.len())..] { return viol("unfaithful", format!("accepted, but what was returned does not stand for the stored words (from word {})", want.bad_at)); }
        }
    }
    Ok(())
}
fn stored_words(b: &[u8]) -> Vec<u32> {
    let v: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    if v.first() == Some(&spec::MAGIC.swap_bytes()) { v.into_iter().map(|x| x.swap_bytes()).collect() } else { v }
}

// ------------------------------------------------------------------------------------------ C03

fn c03() -> Res {
    let (bytes, hs) = if chance(1, 12) { header_hit() } else { damaged_or_tall() };
    sibling_read(&bytes, &hs);
    let out = read(&bytes, &hs);
    let strict = spec::ref_read(&bytes, &hs, &Plan::default(), true);
    match judge(&out, &strict.out) {
        None => {
            if matches!(out, Out::Ok(_)) { probe("accepted"); return Ok(()); }
            probe("refused");
            if chance(1, 32) { error_text(&bytes, &hs) } else { Ok(()) }
        }
        Some((class, msg)) => {
            let lax = lib_ref(&bytes, &hs);
            if judge(&out, &lax.out).is_none() { world::known("C03-aligned"); return Ok(()); }
            viol(&class, format!("first undecodable place: word {}: {}", strict.bad_at, msg))
        }
    }
}

/// The words an error is reported in tell its kind apart from every other.
fn error_text(bytes: &[u8], hs: &[HSpec]) -> Res {
    use magmaflow::spv::raw::ReadError::*;
    use magmaflow::spv::types::{OpId, ResultId, Version};
    handlers::push_log(Plan::default(), None);
    let reg = handlers::register(hs);
    let r = sut(|| magmaflow::spv::raw::read_module(bytes, reg));
    handlers::pop_log();
    let e = match r { Ok(Err(e)) => e, _ => return Ok(()) };
    let kinds = [UnexpectedEndOfStream, UnexpectedStreamAlignment, BadMagic, UnknownVersionBytes(0, 1, 1, 0), UnknownVersion(Version(1, 1)), UnknownReservedSchema, UnknownOp(1, 1),
        UnimplementedOp("OpImageRead"), InvalidString, UnexpectedEndOfInstruction, InstructionHadExcessData, UnknownInstSet("x".into()), UnknownInstSetId(OpId(1)), UnknownExtInstOp("x", 1),
        DuplicateResultId(ResultId(1)), UnknownAddressingModel(9), UnknownMemoryModel(9), UnknownExecutionModel(9), UnknownExecutionMode(99), UnknownCapability(99), UnknownDecoration(99), UnknownBuiltIn(99),
        UnknownFpRoundingMode(9), UnknownFpFastMathMode(99), UnknownLinkageType(9), UnknownSignedness(9), UnknownStorageClass(99), UnknownFunctionControl(99), UnknownFunctionParameterAttribute(99),
        UnknownMemoryAccess(99), UnknownDim(9), UnknownDepthStatus(9), UnknownArrayed(9), UnknownMS(9), UnknownSampledStatus(9), UnknownImageFormat(99), UnknownAccessQualifier(9), UnknownLoopControl(99), UnknownSelectionControl(99)];
    let mine = match display(&e) { Ok(t) => t, Err(d) => return viol("panic", format!("error text: {}", d.text())) };
    if mine.trim().is_empty() { return viol("error_text", format!("{:?} is reported without any words", e)); }
    for k in kinds.iter() {
        if std::mem::discriminant(k) == std::mem::discriminant(&e) { continue; }
        if let Ok(t) = display(k) { if t == mine { return viol("error_text", format!("{:?} is reported in the same words as {:?}: {}", e, k, t)); } }
    }
    probe("error_texts_compared");
    Ok(())
}

fn header_hit() -> (Vec<u8>, Vec<HSpec>) {
    let m = gen::soup(4);
    let mut w = m.words();
    let i = draw(5) as usize;
    w[i] = match draw(5) { 0 => w[i] ^ 1 << draw(32), 1 => gen::word(), 2 => w[i].swap_bytes(), 3 => w[i].wrapping_add(1), _ => w[i].rotate_left(8) };
    fault("header_hit");
    (gen::to_bytes(&w, m.big), m.hs)
}

/// The listed finding's input, always tried.
pub fn c03_probe() -> Res {
    // OpLoad %1 %2 %3 Aligned 4
    let w = [spec::MAGIC, 0x10000, 0, 10, 0, 6 << 16 | 61, 1, 2, 3, 2, 4];
    let bytes = gen::to_bytes(&w, false);
    let out = read(&bytes, &[]);
    let strict = spec::ref_read(&bytes, &[], &Plan::default(), true);
    match judge(&out, &strict.out) {
        None => Ok(()),
        Some((class, msg)) => { if judge(&out, &lib_ref(&bytes, &[]).out).is_none() { world::known("C03-aligned"); Ok(()) } else { viol(&class, msg) } }
    }
}

// ------------------------------------------------------------------------------------------ C04

fn c04() -> Res {
    let (bytes, hs, what) = match draw(200) {
        0..=99 => { let (b, h) = damaged(); (b, h, "damaged") }
        100..=139 => { let (b, h) = damaged_functions(); (b, h, "damaged functions") }
        140..=159 => {
            // Random content behind a sound header.
            let mut w = gen::header().to_vec();
            for _ in 0..draw(40) { let v = match draw(3) { 0 => gen::word(), 1 => (draw(8) as u32) << 16 | pick(spec::OPS).op as u32, _ => draw(20) as u32 }; w.push(v); }
            fault("random_content");
            (gen::to_bytes(&w, chance(1, 2)), gen::handler_set(3), "random")
        }
        160..=179 => { let n = draw(64); let b = (0..n).map(|_| draw(256) as u8).collect(); fault("random_content"); (b, vec![handlers::glsl()], "bytes") }
        180..=191 => { let (b, h) = claims(); (b, h, "length claims") }
        192..=194 => { let b = deep(); (b, vec![], "deep") }
        197 => { probe("large_layout"); (large_layout(), vec![], "large layout") }
        195..=196 => { probe("large_stream"); (large_stream(), vec![handlers::glsl()], "large stream") }
        _ => { probe("large_function"); (large_function(), vec![], "large function") }
    };
    pipeline(&bytes, &hs, what)
}

/// Memory recovery may hold, per block of the function: a block may be placed up to 64 times.
const RECOVERY_MEM: usize = 64 << 10;

fn pipeline(bytes: &[u8], hs: &[HSpec], what: &str) -> Res {
    let (out, mem) = world::measure(|| read(bytes, hs));
    let allow = (1 << 20) + 256 * bytes.len();
    if mem > allow { return viol("memory", format!("{}: reading {} bytes held {} bytes of memory (allowance {})", what, bytes.len(), mem, allow)); }
    let m = match out {
        Out::Ok(m) => m,
        Out::Err(_) => return Ok(()),
        Out::Died(d) => return viol("panic", format!("{}: read: {}", what, d.text())),
    };
    let stage = |s: &str, d: Died| viol::<()>("panic", format!("{}: {}: {}", what, s, d.text()));
    let t = match display(&m) { Ok(t) => t, Err(d) => return stage("disassemble", d) };
    ev("text", || format!("{} bytes of disassembly", t.len()), t.len() as u64);
    let (r, mem) = world::measure(|| sut(|| validate(m)));
    if mem > allow { return viol("memory", format!("{}: laying out a module of {} bytes held {} more bytes of memory (allowance {})", what, bytes.len(), mem, allow)); }
    let l = match r { Ok(Ok(l)) => l, Ok(Err(e)) => { ev("layout", || format!("{:?}", e), 1); return Ok(()); } Err(d) => return stage("layout", d) };
    probe("laid_out");
    for f in &l.function_definitions {
        let limit = 1_000_000 + 5_000 * f.blocks.len() as u64;
        let f2 = f.clone();
        let (r, mem) = world::measure(|| world::metered(limit, || sut(|| find_control_flow(f2))));
        let allow = (1 << 20) + RECOVERY_MEM * f.blocks.len();
        if mem > allow { return viol("memory", format!("{}: recovering a function of {} blocks held {} bytes of memory (allowance {})", what, f.blocks.len(), mem, allow)); }
        match r {
            Err(d) => return stage("recover", d),
            Ok(Err(e)) => { probe("recovery_refused"); let e = format!("{:?}", e); ev("recover", || e.clone(), world::hash_str(1, &e)); if let Err(d) = sut(|| format!("{:?}", e)) { return stage("error text", d); } }
            Ok(Ok(c)) => {
                probe("recovered");
                // Printing is quadratic in the number of blocks; the largest are printed as structure only.
                if let Err(d) = display(&c) { return stage("print structure", d); }
                if f.blocks.len() <= 3000 { if let Err(d) = display(&ControlFlowFunctionPrinter(f, &c)) { return stage("print function", d); } }
                if let Err(d) = sut(move || drop(c)) { return stage("drop structure", d); }
            }
        }
    }
    if let Err(d) = sut(move || drop(l)) { return stage("drop", d); }
    Ok(())
}

fn damaged_functions() -> (Vec<u8>, Vec<HSpec>) {
    let mut st = Style::plain();
    let n = range(1, 4);
    let m = gen::laid_out(&mut st, 1, vec![], |st, b, h| {
        let mut out = Vec::new();
        for _ in 0..range(1, 2) {
            let mut bl = cfg::structured(st, b, h, Shape { max_depth: draw(5), max_seq: 3, budget: 14, tails: true, share: chance(1, 2), exits: draw(3), hints: true, code: 2 });
            bl.truncate(20);
            cfg::damage(&mut bl, n);
            cfg::definition(st, &bl, &mut out);
        }
        out
    });
    (m.bytes(), m.hs)
}

/// Huge claimed lengths on little data.
fn claims() -> (Vec<u8>, Vec<HSpec>) {
    let m = gen::soup(6);
    let mut w = m.words();
    let offs = m.offsets();
    for _ in 0..range(1, 3) {
        let i = *pick(&offs);
        if i < w.len() { w[i] = (w[i] & 0xFFFF) | (*pick(&[0xFFFFu32, 0x8000, 0x7FFF, 0x4000, 0]) << 16); }
        else { w.push((*pick(&[0xFFFFu32, 0x8000]) << 16) | pick(spec::OPS).op as u32); }
        fault("word_count_hit");
    }
    (gen::to_bytes(&w, m.big), m.hs)
}

fn deep() -> Vec<u8> {
    let mut st = Style::plain();
    let n = match draw(4) { 0 => range(1, 60), 1 => range(60, 300), 2 => range(300, 1200), _ => range(1200, 6000) };
    probe("deep_nesting");
    let b = match draw(3) {
        0 => cfg::nested(n, &mut st),
        1 => cfg::many_exits(n, &mut st),
        _ => { probe("shared_arms"); cfg::ladder(n.min(400), &mut st) }
    };
    function_image(&mut st, &b)
}

fn function_image(st: &mut Style, b: &[B]) -> Vec<u8> {
    let mut insts = vec![head(14, vec![0, 0, 1])];
    cfg::definition(st, b, &mut insts);
    Module { head: gen::header(), insts, hs: vec![], big: chance(1, 4) }.bytes()
}

fn large_stream() -> Vec<u8> {
    let n = *pick(&[20_000u64, 60_000, 120_000, 200_000]) + draw(100);
    let mut st = Style::plain();
    let k: Vec<Vec<u32>> = (0..range(1, 4)).map(|_| gen::code(&mut st, &Binds::default(), &[], 1)).flatten().collect();
    let layout = chance(1, 2);
    let mut w = gen::header().to_vec();
    if layout { w.extend([3 << 16 | 14, 0, 1, 5 << 16 | 54, 1, 2, 0, 3, 2 << 16 | 248, 5]); }
    for i in 0..n as usize { if k.is_empty() { w.push(1 << 16); } else { w.extend_from_slice(&k[i % k.len()]); } }
    if layout { w.extend([1 << 16 | 253, 1 << 16 | 56]); }
    gen::to_bytes(&w, chance(1, 4))
}

/// Very many records of one section, parameters, declarations or definitions.
fn large_layout() -> Vec<u8> {
    let mut st = Style::plain();
    let n = gen::huge(&[5_000, 20_000, 70_000]);
    let mut m = gen::laid_out(&mut st, 2, vec![], |_, _, _| vec![]);
    let decl = vec![head(54, vec![0, 1, 2, 0, 3]), head(55, vec![0, 1, 4]), head(56, vec![0])];
    let mut def = decl[..2].to_vec();
    let b = cfg::structured(&mut st, &Binds::default(), &[], Shape { max_depth: 2, max_seq: 2, budget: 4, tails: false, share: false, exits: 1, hints: true, code: 1 });
    let mut body = Vec::new();
    cfg::definition(&mut st, &b, &mut body);
    def.extend(body.iter().skip_while(|w| matches!(w[0] & 0xFFFF, 54 | 55)).cloned());
    match draw(5) {
        4 => { let b = cfg::chain(((n / 2).min(30_000)) as u32, chance(1, 2)); cfg::definition(&mut st, &b, &mut m.insts); if chance(1, 2) { m.insts.extend(def); } }
        0 => { for _ in 0..n { m.insts.extend(decl.iter().cloned()); } }
        1 => { for _ in 0..n / 4 { m.insts.extend(def.iter().cloned()); } }
        2 => { m.insts.push(def[0].clone()); for _ in 0..n { m.insts.push(def[1].clone()); } m.insts.extend(def[2..].iter().cloned()); }
        _ => {
            let k = draw(m.insts.len() as u64) as usize;
            let x = if m.insts[k][0] & 0xFFFF == 14 { head(14, vec![0, 0, 1]) } else { m.insts[k].clone() };
            if x[0] & 0xFFFF != 14 && x.len() < 300 { let t = m.insts.split_off(k); for _ in 0..n { m.insts.push(x.clone()); } m.insts.extend(t); }
            m.insts.extend(def);
        }
    }
    m.bytes()
}

fn large_function() -> Vec<u8> {
    let n = if chance(1, 4) { gen::huge(&[3_000]).min(24_000) as u32 } else { *pick(&[1_000u32, 2_000, 5_000, 20_000]) + draw(50) as u32 };
    let b = cfg::chain(n, chance(1, 2));
    let mut st = Style::plain();
    function_image(&mut st, &b)
}

// ------------------------------------------------------------------------------------------ C05

fn c05() -> Res {
    let mut m = if chance(1, 8_000) { gen::tall() } else { small_module() };
    if chance(1, 3) { gen::damage_insts(&mut m, 1); }
    if chance(1, 8) { gen::damage_strings(&mut m); }
    let mut w = m.words();
    if chance(1, 2) { let stale = gen::soup(6).words(); let o = m.offsets(); w = gen::damage_words(&w, &o[..o.len() - 1], &stale, range(1, 2)); }
    let (mut le, mut be) = (gen::to_bytes(&w, false), gen::to_bytes(&w, true));
    if chance(1, 3) { let k = draw(le.len() as u64 + 1) as usize; le.truncate(k); be.truncate(k); fault("torn_tail_bytes"); }
    if !m.insts.is_empty() { probe("has_instructions"); }
    let (a, la) = read_with(&le, &m.hs, &Plan::default(), None);
    let (b, lb) = read_with(&be, &m.hs, &Plan::default(), None);
    let bad = |s: String| viol::<()>("byte_order", format!("{} words, {} bytes kept: {}", w.len(), le.len(), s));
    if la.calls != lb.calls { return bad(format!("handlers saw {:?} little-endian, {:?} big-endian", la.calls, lb.calls)); }
    match (a, b) {
        (Out::Err(x), Out::Err(y)) => if x != y { return bad(format!("refused with {} little-endian, {} big-endian", clip(&x), clip(&y))); },
        (Out::Ok(x), Out::Ok(y)) => {
            probe("both_accepted");
            if enc::header(&x) != enc::header(&y) { return bad(format!("headers differ: {:x?} and {:x?}", enc::header(&x), enc::header(&y))); }
            if x.instructions.len() != y.instructions.len() { return bad(format!("{} and {} instructions", x.instructions.len(), y.instructions.len())); }
            for (i, (p, q)) in x.instructions.iter().zip(y.instructions.iter()).enumerate() {
                if p.words() != q.words() || enc::ext_tag(p) != enc::ext_tag(q) { return bad(format!("instruction {}: {} little-endian, {} big-endian", i, clip(&format!("{:?}", p)), clip(&format!("{:?}", q)))); }
            }
            let (s, t) = (display(&x), display(&y));
            match (s, t) { (Ok(s), Ok(t)) => if s != t { return bad("disassembly differs".into()); }, (Err(_), Err(_)) => {}, _ => return bad("one prints, the other panics".into()) }
            if let Ok(false) = sut(|| x == y) { return bad("modules compare unequal".into()); }
        }
        (Out::Died(x), Out::Died(y)) => { if x.text() != y.text() { return bad("different panics".into()); } }
        (x, y) => return bad(format!("little-endian {}, big-endian {}", x.text(), y.text())),
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ C06, C07

/// A module that is mostly imports and extended instructions, possibly with faulty import traffic.
fn ext_module(hs: &[HSpec], ids: &[u32], faulty: bool) -> Module {
    let mut st = Style::new();
    st.lists = draw(3);
    st.strs = draw(4);
    let mut insts = Vec::new();
    let mut bound: Vec<(u32, usize)> = Vec::new();
    let n = if chance(1, 60) { probe("long_ext_traffic"); range(14, 120) } else { range(2, 14) };
    // Far more imports than usual, under ids in any order.
    let mut ids = ids.to_vec();
    if !hs.is_empty() && chance(1, 50) {
        probe("many_imports");
        let k = gen::bulk() as u32;
        let (base, step) = (range(1, 40) as u32, *pick(&[1u32, 3, 256, 65_536, 0x0100_0001]));
        for i in 0..k {
            let i = if step == 3 { k - i } else { i };
            let id = base.wrapping_add(i.wrapping_mul(step));
            if bound.iter().any(|b| b.0 == id) { continue; }
            let name = pick(hs).name;
            insts.push(gen::import(id, name, st.dirty_pad));
            bound.push((id, handlers::find(hs, name).expect("registered")));
            ids.push(id);
        }
    }
    let ids = &ids[..];
    let others: Vec<&spec::OpSpec> = spec::OPS.iter().filter(|s| s.op != 11 && s.op != 12).collect();
    for _ in 0..n {
        match draw(8) {
            0 | 1 => {
                let id = *pick(ids);
                let odd = faulty && chance(1, 8);
                let name = if odd && chance(1, 2) { fault("unregistered_import"); gen::set_name() } else if hs.is_empty() { continue } else { pick(hs).name };
                if bound.iter().any(|b| b.0 == id) { if odd || (faulty && chance(1, 10)) { fault("import_id_reused"); } else { continue; } }
                insts.push(gen::import(id, name, st.dirty_pad));
                if let Some(h) = handlers::find(hs, name) { if !bound.iter().any(|b| b.0 == id) { bound.push((id, h)); } }
            }
            2..=5 => {
                let set = if faulty && chance(1, 12) { fault("unbound_set_used"); *pick(ids) } else if bound.is_empty() { continue } else { pick(&bound).0 };
                let h = bound.iter().find(|b| b.0 == set).map(|b| &hs[b.1]);
                let mut w = vec![0, st.id(), st.fresh(), set];
                match h {
                    Some(h) if h.real_glsl => { w.push(if faulty && chance(1, 10) { draw(90) as u32 } else { 13 + draw(2) as u32 }); w.push(st.id()); }
                    _ => {
                        let i = if chance(1, 3) { gen::word() } else { draw(40) as u32 };
                        let i = if faulty && chance(1, 20) { fault("unknown_instruction_number"); handlers::nearest_unknown(i) } else { handlers::nearest_known(i) };
                        w.push(i);
                        let k = match handlers::arity(h.map(|h| h.tag).unwrap_or(0), i) { Some(k) => k, None => if chance(1, 40) { probe("many_ext_operands"); gen::bulk() as usize } else { draw(7) as usize } };
                        let k = if faulty && chance(1, 20) { fault("operands_lost_or_added"); draw(7) as usize } else { k };
                        if k > 40 { let z = gen::word(); for j in 0..k as u32 { w.push(z.wrapping_add(j.wrapping_mul(0x9E37_79B1))); } } else { for _ in 0..k { let v = if chance(1, 4) { gen::word() } else { st.id() }; w.push(v); } }
                    }
                }
                insts.push(head(12, w));
            }
            6 => insts.extend(gen::code(&mut st, &Binds::default(), hs, 1)),
            _ => {
                // Any other kind of instruction, now and then over an id the imports use.
                let s = *pick(&others);
                let mut w = gen::inst(s, &mut st, &Binds::default(), hs);
                let at = s.ks.iter().take_while(|k| matches!(**k, spec::K::Id | spec::K::Res)).count();
                if at > 0 && w.len() > at && chance(1, 3) { let k = 1 + draw(at as u64) as usize; w[k] = if bound.is_empty() || chance(1, 3) { *pick(ids) } else { pick(&bound).0 }; probe("set_id_elsewhere"); }
                insts.push(w);
            }
        }
    }
    let mut m = Module { head: gen::header(), insts, hs: hs.to_vec(), big: chance(1, 3) };
    if faulty && chance(1, 3) {
        let len = m.insts.len() as u64;
        if len > 1 {
            let i = draw(len) as usize;
            match draw(4) {
                0 => { m.insts.remove(i); fault("lost_instruction"); }
                1 => { let x = m.insts[i].clone(); let k = draw(len + 1) as usize; m.insts.insert(k, x); fault("repeated_instruction"); }
                2 => { let x = m.insts.remove(i); let k = draw(len) as usize; m.insts.insert(k, x); fault("moved_instruction"); }
                _ => { let k = draw(len) as usize; m.insts.swap(i, k); fault("swapped_instructions"); }
            }
        }
    }
    m
}

fn check_read(m: &Module, plan: &Plan, what: &str) -> Res {
    let bytes = m.bytes();
    let (out, log) = read_with(&bytes, &m.hs, plan, None);
    if let Some(tok) = log.fired {
        return match out {
            Out::Died(Died::Injected(t)) if t == tok => { probe("panic_surfaced"); Ok(()) }
            o => viol("panic_swallowed", format!("{}: a handler panicked in get_name/duplicate, the read returned: {}", what, o.text())),
        };
    }
    let want = spec::ref_read(&bytes, &m.hs, plan, false);
    if !log.calls.is_empty() { probe("handler_called"); }
    if log.over > 0 { return viol("overread", format!("{}: a handler obtained a word beyond its own instruction", what)); }
    if log.calls != want.calls {
        let k = log.calls.iter().zip(want.calls.iter()).take_while(|(a, b)| a == b).count();
        return viol("calls", format!("{}: handler call {}: got {:?}, expected {:?}", what, k, log.calls.get(k), want.calls.get(k)));
    }
    if let Some((c, s)) = judge(&out, &want.out) { return viol(&c, format!("{}: {}", what, s)); }
    probe(if matches!(out, Out::Ok(_)) { "accepted" } else { "refused" });
    Ok(())
}

fn handlers_for_run() -> Vec<HSpec> {
    let mut hs = gen::handler_set(6);
    // Two handlers under one name: the first registered must win.
    if hs.len() > 1 && chance(1, 3) { let n = hs[0].name; let k = hs.len() - 1; if !hs[k].real_glsl { hs[k].name = n; probe("two_handlers_one_name"); } }
    hs
}

fn c06() -> Res {
    let hs = handlers_for_run();
    let ids: Vec<u32> = (0..range(1, 5)).map(|_| if chance(1, 4) { gen::word() } else { range(1, 9) as u32 }).collect();
    let n = if chance(1, 100) { range(4, 30) } else { range(1, 3) };
    for k in 0..n {
        let mut hs = hs.clone();
        if k + 1 < n && chance(1, 3) && !hs.is_empty() {
            // Another caller registers the handlers otherwise.
            probe("other_registration");
            for _ in 0..range(1, 3) {
                let (i, j) = (draw(hs.len() as u64) as usize, draw(hs.len() as u64) as usize);
                match draw(3) { 0 => hs.swap(i, j), 1 => { let h = hs[i].clone(); hs.insert(j, h); } _ => if hs.len() > 1 { hs.remove(i); } }
            }
        }
        let m = ext_module(&hs, &ids, chance(2, 3));
        check_read(&m, &Plan::default(), &format!("module {} of {}", k + 1, n))?;
    }
    Ok(())
}

fn c07() -> Res {
    let hs = handlers_for_run();
    let ids: Vec<u32> = (0..range(1, 4)).map(|_| range(1, 9) as u32).collect();
    let n = range(1, 3);
    for k in 0..n {
        let m = ext_module(&hs, &ids, chance(1, 4));
        let calls = spec::ref_read(&m.bytes(), &m.hs, &Plan::default(), false).calls.len() as u64;
        let mut plan = Plan::default();
        for _ in 0..range(1, 2) {
            let at = if calls == 0 { 0 } else { draw(calls) as usize };
            let mis = match draw(6) {
                0 => Misbehave::Err { kind: draw(40), val: gen::word(), after: draw(4) as usize },
                1 => Misbehave::Panic { token: 100 + draw(50), after: draw(4) as usize },
                2 => Misbehave::Under { leave: if chance(1, 4) { *pick(&[4usize, 5, 8, 16, 33, 64, 200]) } else { range(1, 3) as usize } },
                3 => Misbehave::OverThenOk,
                4 => Misbehave::OverThenErr,
                _ => Misbehave::Err { kind: draw(40), val: gen::word(), after: 99 },
            };
            if !plan.at.iter().any(|x| x.0 == at) { plan.at.push((at, mis)); }
        }
        if chance(1, 8) { plan.name_panic = Some((range(1, 4) as u32, 900)); }
        if chance(1, 8) { plan.dup_panic = Some((range(1, 4) as u32, 901)); }
        // Now and then the same failure over and over.
        let times = if chance(1, 60) { probe("failing_marathon"); if chance(1, 4) { 1 + dict::small(300) } else { *pick(&[5u64, 7, 10, 20, 40, 70, 130, 270]) } } else { 1 };
        for t in 0..times { check_read(&m, &plan, &if t == 0 { format!("faulty read {}", k + 1) } else { format!("faulty read {}, time {}", k + 1, t + 1) })?; }
        // Afterwards: the same image with the handlers healthy, and another one.
        check_read(&m, &Plan::default(), &format!("healthy read after faulty read {}", k + 1))?;
        if chance(1, 3) { let m2 = ext_module(&hs, &ids, true); check_read(&m2, &Plan::default(), &format!("other module after faulty read {}", k + 1))?; }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ C08, C09

/// Print into healthy and failing sinks; `want` is the one fixed text.
fn sinks(x: &dyn std::fmt::Display, want: &str, what: &str, tries: u64) -> Res {
    let healthy = |when: &str| -> Res {
        let mut s = FmtSink::new(Mode::Healthy);
        let r = sut(|| write!(s, "{}", x));
        ev("print", || format!("{} {}: {} bytes", what, when, s.got.len()), s.got.len() as u64);
        match r {
            Err(d) => viol("panic", format!("{} {}: {}", what, when, d.text())),
            Ok(Err(_)) => viol("false_failure", format!("{} {}: the sink accepted everything, yet failure was reported", what, when)),
            Ok(Ok(())) => if s.got != want { viol("text", format!("{} {}: {}", what, when, first_diff(want, &s.got))) } else { Ok(()) },
        }
    };
    healthy("into a healthy sink")?;
    let len = want.len() as u64;
    // Number of pieces, to aim faults at.
    let pieces = { let mut s = FmtSink::new(Mode::Healthy); let _ = sut(|| write!(s, "{}", x)); s.calls as u64 };
    for _ in 0..tries {
        let near = |len: u64| -> usize {
            if len > 20_000 && chance(1, 3) {
                // In or right before a line whose number is round.
                let line = if chance(1, 3) { dict::size(100_000).unwrap_or(1000) as usize } else { (1usize << range(8, 16)) * range(1, 3) as usize + draw(9) as usize - 1 };
                return match want.bytes().enumerate().filter(|b| b.1 == b'\n').map(|b| b.0).nth(line) { Some(p) => p + 1 + draw(3) as usize, None => want.len() / 2 };
            }
            match draw(4) { 0 => draw(len + 2) as usize, 1 => len.saturating_sub(draw(40)) as usize, 2 => draw(120.min(len + 1)) as usize, _ => {
                // Right at a line end.
                let k = draw(len + 1) as usize;
                match want.as_bytes()[k..].iter().position(|b| *b == b'\n') { Some(p) => k + p + draw(2) as usize, None => want.len() }
            } }
        };
        if chance(1, 4) {
            let mut s = IoSink { got: vec![], fail_at: if chance(3, 4) { Some(near(len)) } else { None }, zero: chance(1, 4), short: chance(1, 2), eintr: chance(1, 3), failed: false, after_fail: 0 };
            let at = s.fail_at;
            let r = sut(|| write!(s, "{}", x).map_err(|e| e.to_string()));
            let d = format!("{} into a byte sink failing at {:?}", what, at);
            if s.after_fail > 0 { return viol("after_failure", format!("{}: {} more writes after the failure", d, s.after_fail)); }
            if !want.as_bytes().starts_with(&s.got) { return viol("prefix", format!("{}: the {} bytes written are no prefix", d, s.got.len())); }
            match r {
                Err(p) => return viol("panic", format!("{}: {}", d, p.text())),
                Ok(Ok(())) => if s.failed || s.got.len() != want.len() { return viol("false_success", format!("{}: success reported with {} of {} bytes", d, s.got.len(), want.len())); },
                Ok(Err(e)) => if !s.failed { return viol("false_failure", format!("{}: {} reported though all was taken", d, e)); },
            }
            continue;
        }
        let mode = match draw(4) {
            0 => Mode::FullWhole(near(len)),
            1 => Mode::FullPartial(near(len)),
            2 => Mode::Transient(draw(pieces + 1) as usize),
            _ => Mode::Panic(draw(pieces + 1) as usize),
        };
        let mut s = FmtSink::new(mode.clone());
        let r = sut(|| write!(s, "{}", x));
        let d = format!("{} into a sink with {:?}", what, mode);
        ev("print", || format!("{}: {} bytes", d, s.got.len()), s.got.len() as u64);
        if s.after_fail > 0 { return viol("after_failure", format!("{}: {} more pieces after the refusal", d, s.after_fail)); }
        if !want.starts_with(&s.got) { return viol("prefix", format!("{}: the {} bytes written are no prefix: {}", d, s.got.len(), first_diff(want, &s.got))); }
        match r {
            Err(Died::Injected(_)) if s.failed && matches!(mode, Mode::Panic(_)) => probe("sink_panic_surfaced"),
            Err(p) => return viol("panic", format!("{}: {}", d, p.text())),
            Ok(Ok(())) => if s.failed || s.got != want { return viol("false_success", format!("{}: success reported with {} of {} bytes", d, s.got.len(), want.len())); },
            Ok(Err(_)) => if !s.failed { return viol("false_failure", format!("{}: failure reported though all was taken", d)); },
        }
        if chance(1, 6) { healthy("again after a failure")?; }
    }
    if len < 4000 && chance(1, 100) {
        // The same output refusing again and again.
        let at = draw(len + 1) as usize;
        let n = *pick(&[8u64, 20, 40, 70, 130, 270]);
        probe("failing_marathon");
        let mode = if chance(1, 4) { Mode::Panic(draw(pieces + 1) as usize) } else { Mode::FullPartial(at) };
        for k in 0..n {
            let mut s = FmtSink::new(mode.clone());
            let r = sut(|| write!(s, "{}", x));
            let full = s.got == want && !s.failed;
            if s.after_fail > 0 || !want.starts_with(&s.got) || matches!(r, Ok(Ok(()))) != full { return viol("prefix", format!("{} into a sink with {:?}, time {}: {} bytes written, {} pieces after the refusal, {:?}", what, mode, k + 1, s.got.len(), s.after_fail, r.map_err(|d| d.text()))); }
        }
    }
    healthy("again at the end")
}
fn first_diff(want: &str, got: &str) -> String {
    for (i, (a, b)) in want.lines().zip(got.lines()).enumerate() { if a != b { return format!("line {}: expected `{}`, got `{}`", i + 1, clip(a), clip(b)); } }
    format!("expected {} bytes, got {}", want.len(), got.len())
}

fn c08() -> Res {
    let m = if chance(1, 8_000) { gen::tall() } else { small_module() };
    let bytes = m.bytes();
    let r = match lib_ref(&bytes, &m.hs).out { Ok(r) => r, Err(_) => panic!("generator made an unsound image") };
    let mut r = r;
    let mut g = match read(&bytes, &m.hs) { Out::Ok(g) => g, _ => { probe("skipped"); return Ok(()); } };
    if faithful(&g, &r).is_some() { probe("skipped"); return Ok(()); }
    if chance(1, 8) {
        // Instructions only a caller can make.
        probe("hand_made_instructions");
        for _ in 0..range(1, 4) {
            let k = draw(g.instructions.len() as u64 + 1) as usize;
            let (c, text) = hand_made();
            g.instructions.insert(k, c);
            r.insts.insert(k, spec::Decoded { op: 0, text, canon: vec![], tag: None });
        }
    }
    sibling_read(&bytes, &m.hs);
    sinks(&g, &r.text(), "module", range(3, 12))?;
    for (i, c) in g.instructions.iter().enumerate() {
        if let Core::OpExtInst(ref x) = *c {
            if x.instruction.as_ref().as_any().downcast_ref::<magmaflow::glsl450::Inst>().is_none() { continue; }
            probe("glsl_name");
            if let Ok(n) = sut(|| x.instruction.as_ref().get_op().get_name()) {
                if !r.insts[i].text.split_whitespace().any(|w| w == n) { return viol("name", format!("an instruction shown as `{}` says its name in disassembly is {}", clip(&r.insts[i].text), n)); }
            }
        }
    }
    // A single instruction on its own.
    if !g.instructions.is_empty() && chance(1, 3) {
        let k = draw(g.instructions.len() as u64) as usize;
        sinks(&g.instructions[k], &r.insts[k].text, "instruction", range(1, 3))?;
    }
    Ok(())
}

fn c09() -> Res {
    let m = if chance(1, 12_000) { probe("very_long_function"); let mut st = Style::plain(); let n = if chance(1, 2) { dict::size(3_000).unwrap_or(600) } else { *pick(&[300, 700, 1_500, 2_100]) + draw(20) } as u32; let b = cfg::chain(n, chance(1, 2)); gen::laid_out(&mut st, 1, vec![], |st, _, _| { let mut out = Vec::new(); cfg::definition(st, &b, &mut out); out }) } else { func_module(4, true) };
    let bytes = m.bytes();
    let r = match lib_ref(&bytes, &m.hs).out { Ok(r) => r, Err(_) => panic!("generator made an unsound image") };
    let l = match laid(&bytes, &m.hs, &r) { Some(l) => l, None => { probe("skipped"); return Ok(()); } };
    let texts = cfg::block_texts(&r.insts);
    for (i, f) in l.function_definitions.iter().enumerate() {
        let c = match sut(|| find_control_flow(f.clone())) { Ok(Ok(c)) => c, _ => { probe("not_recovered"); continue; } };
        probe("recovered");
        sinks(&c, &cfg::chain_text(&c), "structure", range(2, 6))?;
        sinks(&ControlFlowFunctionPrinter(f, &c), &cfg::func_text(&c, &texts[i]), "function", range(2, 8))?;
    }
    Ok(())
}

/// Read and lay out; None when an earlier stage did not do its job (other properties' business).
fn laid(bytes: &[u8], hs: &[HSpec], r: &spec::RefModule) -> Option<LogicalModule> {
    let g = match read(bytes, hs) { Out::Ok(g) => g, _ => return None };
    if faithful(&g, r).is_some() { return None; }
    let ws: Vec<Vec<u32>> = r.insts.iter().map(|d| d.canon.clone()).collect();
    let want = match layout::parse(&ws) { Ok(w) => w, Err(_) => panic!("generator made a misplaced instruction") };
    match sut(|| validate(g)) { Ok(Ok(l)) => if layout::diff(&want, &layout::observed(&l)).is_none() { Some(l) } else { None }, _ => None }
}

/// A module around a few functions with code.
fn func_module(code: u64, share: bool) -> Module {
    let mut st = Style::new();
    if st.lists > 1 { st.lists = 1; }
    if st.strs > 2 { st.strs = 0; }
    let hs = gen::handler_set(3);
    gen::laid_out(&mut st, 1, hs, |st, b, h| {
        let mut out = Vec::new();
        for _ in 0..range(1, 2) {
            let bl = function_blocks(st, b, h, code, share);
            cfg::definition(st, &bl, &mut out);
        }
        out
    })
}
fn function_blocks(st: &mut Style, b: &Binds, h: &[HSpec], code: u64, share: bool) -> Vec<B> {
    match draw(16) {
        0 => { let n = if chance(1, 8) { range(1, 100) } else if chance(1, 8) { dict::small(98) + 1 } else { range(1, 16) }; cfg::nested(n, st) }
        1 => { let n = if chance(1, 8) { range(1, 100) } else if chance(1, 8) { dict::small(98) + 1 } else { range(1, 16) }; cfg::many_exits(n, st) }
        2 => cfg::structured(st, b, h, Shape { max_depth: 12, max_seq: 2, budget: 40, tails: false, share: false, exits: 1, hints: true, code }),
        _ => { let budget = range(2, 30) as i64; cfg::structured(st, b, h, Shape { max_depth: draw(6), max_seq: range(1, 5), budget, tails: share && chance(1, 3), share: share && chance(1, 3), exits: draw(4), hints: chance(1, 2), code }) }
    }
}

// ------------------------------------------------------------------------------------ C10, C11

/// A stream of records on its way to the layout pass, with faults.
fn record_stream() -> Option<(RawModule, Vec<Vec<u32>>)> {
    let m = if chance(1, 30) { gen::soup(20) } else { whole_module(range(1, 4), 8) };
    let mut g = match read(&m.bytes(), &m.hs) { Out::Ok(g) => g, _ => return None };
    if chance(1, 6) { sprinkle_globals(&mut g.instructions); }
    if !g.instructions.is_empty() && chance(1, 3_000) {
        // One record over and over, far beyond 16-bit counts.
        probe("huge_stream");
        let v = &mut g.instructions;
        let mut k = draw(v.len() as u64) as usize;
        if chance(2, 3) {
            // One that may occur any number of times.
            let many: Vec<usize> = (0..v.len()).filter(|i| !matches!(v[*i], Core::OpMemoryModel(_) | Core::OpFunction(_) | Core::OpFunctionEnd(_) | Core::OpLabel(_) | Core::OpSelectionMerge(_) | Core::OpLoopMerge(_) | Core::OpBranch(_) | Core::OpBranchConditional(_) | Core::OpReturn(_))).collect();
            if !many.is_empty() { k = *pick(&many); }
        }
        let times = gen::huge(&[4_000, 33_000, 65_530, 66_000, 70_000]);
        let (from, to) = if chance(1, 2) { (k, k) } else { unit(v, k) };
        let tail = v.split_off(to + 1);
        let n = to + 1 - from;
        for i in 0..times { let x = v[from + i % n].clone(); v.push(x); }
        // Whole repetitions only.
        while (v.len() - from) % n != 0 { v.pop(); }
        v.extend(tail);
    }
    let n = match draw(4) { 0 => 0, 1 => 1, 2 => range(1, 2), _ => range(1, 6) };
    for _ in 0..n {
        let v = &mut g.instructions;
        let len = v.len() as u64;
        if len == 0 { break; }
        let i = if len > 3_000 && chance(2, 3) { len - 1 - draw(16) } else { draw(len) } as usize;
        match draw(10) {
            0 => { v.remove(i); fault("record_lost"); }
            1 => { let x = v[i].clone(); v.insert(i, x); fault("record_repeated"); }
            2 => { let x = v[i].clone(); let k = draw(len + 1) as usize; v.insert(k, x); fault("record_repeated_elsewhere"); }
            3 => { let x = v.remove(i); let k = draw(len) as usize; v.insert(k, x); fault("record_moved"); }
            4 => { if len > 1 { let k = draw(len - 1) as usize; v.swap(k, k + 1); fault("neighbours_swapped"); } }
            5 => { let k = draw(len) as usize; v.swap(i, k); fault("records_swapped"); }
            6 => { v.truncate(i); fault("stream_cut"); }
            7 => { let k = range(i as u64, len.min(i as u64 + 6) - 1) as usize; v.drain(i..=k); fault("records_lost"); }
            8 => {
                // A variable whose storage class says it lives elsewhere.
                let vars: Vec<usize> = (0..v.len()).filter(|k| matches!(v[*k], Core::OpVariable(_))).collect();
                let i = if vars.is_empty() { i } else { *pick(&vars) };
                if chance(1, 2) && !vars.is_empty() { v.remove(i); }
                v.insert(i, variable(pick(STORAGECLASS.vals).0));
                fault("variable_class_hit");
            }
            _ => { let x = extra_record(); v.insert(i, x); fault("stray_record"); }
        }
    }
    if g.instructions.len() < 300 && !g.instructions.is_empty() && chance(1, 8) {
        // An almost identical stream is laid out right before.
        probe("sibling_before");
        let mut s = g.clone();
        let (i, j) = (draw(s.instructions.len() as u64) as usize, draw(s.instructions.len() as u64) as usize);
        match draw(3) { 0 => { s.instructions.remove(i); } 1 => s.instructions.swap(i, j), _ => { let x = s.instructions[i].clone(); s.instructions.insert(i, x); } }
        let _ = sut(|| validate(s));
    }
    let ws = layout::core_words(&g.instructions);
    Some((g, ws))
}

/// The basic block or function around a record.
fn unit(v: &[Core], k: usize) -> (usize, usize) {
    let is = |i: usize, f: &dyn Fn(&Core) -> bool| f(&v[i]);
    let label = |c: &Core| matches!(*c, Core::OpLabel(_));
    let branch = |c: &Core| matches!(*c, Core::OpBranch(_) | Core::OpBranchConditional(_) | Core::OpReturn(_));
    let func = |c: &Core| matches!(*c, Core::OpFunction(_));
    let end = |c: &Core| matches!(*c, Core::OpFunctionEnd(_));
    let (open, close): (&dyn Fn(&Core) -> bool, &dyn Fn(&Core) -> bool) = if chance(1, 2) { (&label, &branch) } else { (&func, &end) };
    let all: Vec<usize> = (0..v.len()).filter(|i| is(*i, open)).collect();
    if all.is_empty() { return (k, k); }
    let a = *pick(&all);
    match (a..v.len()).find(|i| is(*i, close)) { Some(b) => (a, b), None => (k, k) }
}

fn hand_made() -> (Core, String) {
    use crate::tables::ACCESSQUALIFIER;
    use magmaflow::spv::op::*;
    use magmaflow::spv::types::{AccessQualifier, OpId, StorageClass};
    let id = gen::word();
    let res = |name: &str| format!("{:>12} = {}", format!("%{}", id), name);
    match draw(5) {
        0 => (Core::OpTypeEvent(OpTypeEvent { result_id: rid(id) }), res("OpTypeEvent")),
        1 => (Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: rid(id) }), res("OpTypeDeviceEvent")),
        2 => (Core::OpTypeQueue(OpTypeQueue { result_id: rid(id) }), res("OpTypeQueue")),
        3 => {
            let k = draw(3) as usize;
            let a = [AccessQualifier::ReadOnly, AccessQualifier::WriteOnly, AccessQualifier::ReadWrite][k].clone();
            (Core::OpTypePipe(OpTypePipe { result_id: rid(id), access_qualifier: a }), res(&format!("OpTypePipe {}", ACCESSQUALIFIER.vals[k].1)))
        }
        _ => (Core::OpTypeForwardPointer(OpTypeForwardPointer { pointer_type: OpId(id), storage_class: StorageClass::Function }), format!("{}OpTypeForwardPointer %{} Function", " ".repeat(15), id)),
    }
}
fn rid(n: u32) -> magmaflow::spv::types::ResultId { magmaflow::spv::types::ResultId(n) }
fn extra_record() -> Core {
    use magmaflow::spv::op::*;
    let mut st = Style::plain();
    match draw(10) {
        0 => Core::OpTypeEvent(OpTypeEvent { result_id: rid(draw(99) as u32) }),
        1 => Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: rid(draw(99) as u32) }),
        2 => Core::OpTypeQueue(OpTypeQueue { result_id: rid(draw(99) as u32) }),
        3 => Core::OpTypePipe(OpTypePipe { result_id: rid(draw(99) as u32), access_qualifier: magmaflow::spv::types::AccessQualifier::ReadOnly }),
        4 => Core::OpTypeForwardPointer(OpTypeForwardPointer { pointer_type: magmaflow::spv::types::OpId(draw(99) as u32), storage_class: magmaflow::spv::types::StorageClass::Function }),
        _ => {
            let ops: Vec<&spec::OpSpec> = spec::OPS.iter().filter(|s| s.op != 11 && s.op != 12).collect();
            let w = gen::inst(*pick(&ops), &mut st, &Binds::default(), &[]);
            let m = Module { head: [spec::MAGIC, 0x10000, 0, 9, 0], insts: vec![w], hs: vec![], big: false };
            match read(&m.bytes(), &[]) { Out::Ok(mut g) if g.instructions.len() == 1 => g.instructions.remove(0), _ => Core::OpNop(OpNop {}) }
        }
    }
}
fn variable(class: u32) -> Core {
    use magmaflow::spv::op::*;
    let m = Module { head: [spec::MAGIC, 0x10000, 0, 9, 0], insts: vec![head(59, vec![0, 1, 2, class])], hs: vec![], big: false };
    match read(&m.bytes(), &[]) { Out::Ok(mut g) if g.instructions.len() == 1 => g.instructions.remove(0), _ => Core::OpNop(OpNop {}) }
}
fn sprinkle_globals(v: &mut Vec<Core>) {
    // Kinds the reader does not produce, at places where types belong.
    if let Some(k) = v.iter().position(|c| { let w = c.words(); matches!(w[0] & 0xFFFF, 19..=33 | 43 | 44) }) {
        for _ in 0..range(1, 3) { let x = loop_extra(); v.insert(k, x); }
        probe("layout_only_types");
    }
}
fn loop_extra() -> Core {
    use magmaflow::spv::op::*;
    match draw(3) { 0 => Core::OpTypeEvent(OpTypeEvent { result_id: rid(5) }), 1 => Core::OpTypeQueue(OpTypeQueue { result_id: rid(6) }), _ => Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: rid(7) }) }
}

fn odd(ws: &[Vec<u32>]) -> bool { ws.iter().any(|w| w.is_empty() || w[0] == 0xFFFF_FFFF || (w[0] & 0xFFFF == 59 && w.len() < 4)) }

fn c10() -> Res {
    let (g, ws) = match record_stream() { Some(x) => x, None => { probe("skipped"); return Ok(()); } };
    if odd(&ws) { probe("skipped"); return Ok(()); }
    let l = match sut(|| validate(g)) { Ok(Ok(l)) => l, Ok(Err(e)) => { ev("layout", || format!("{:?}", e), 2); return Ok(()); } Err(_) => return Ok(()) };
    probe("laid_out");
    ev("layout", || format!("{} records placed", ws.len()), ws.len() as u64);
    let got = layout::observed(&l);
    match layout::parse(&ws) {
        Ok(want) => {
            if !want.decls.is_empty() { probe("with_declarations"); }
            if want.defs.len() > 1 { probe("several_definitions"); }
            if let Some(s) = layout::diff(&want, &got) { return viol("misplaced", s); }
            ext_intact(&l)?;
        }
        Err(_) => {
            let mut flat: Vec<Vec<u32>> = Vec::new();
            for s in &got.secs { flat.extend(s.1.iter().cloned()); }
            // Declarations, then definitions, each closed by its end.
            for f in got.decls.iter().chain(got.defs.iter()) {
                flat.push(f.func.clone());
                flat.extend(f.params.iter().cloned());
                for b in &f.blocks { flat.push(b.label.clone()); flat.extend(b.code.iter().cloned()); flat.extend(b.merge.iter().cloned()); flat.push(b.branch.clone()); }
                flat.push(head(56, vec![0]));
            }
            let stray = got.secs.iter().find(|s| s.0 == "globals").map(|s| s.1.iter().any(|w| layout::sec_of(w) != spec::Sec::Global)).unwrap_or(false)
                || got.defs.iter().any(|f| f.blocks.iter().any(|b| b.code.iter().any(|w| layout::sec_of(w) != spec::Sec::Code)));
            if stray { return viol("misplaced", "a variable ended up in a section it does not belong to".into()); }
            if flat != ws { return viol("misplaced", format!("accepted a stream of {} records that does not fit the layout; reading the sections back gives {} records that differ", ws.len(), flat.len())); }
        }
    }
    Ok(())
}
/// Extended instructions keep the handler they were decoded by (their words alone do not show it).
fn ext_intact(l: &LogicalModule) -> Res {
    for f in &l.function_definitions { for b in &f.blocks { for c in &b.code { if let Err(d) = display(c) { return viol("panic", d.text()); } } } }
    Ok(())
}

fn c11() -> Res {
    let (g, ws) = match record_stream() { Some(x) => x, None => { probe("skipped"); return Ok(()); } };
    if odd(&ws) { probe("skipped"); return Ok(()); }
    let r = match sut(|| validate(g)) { Ok(r) => r, Err(d) => return viol("panic", d.text()) };
    ev("layout", || match r { Ok(_) => "accepted".into(), Err(ref e) => format!("{:?}", e) }, r.is_ok() as u64);
    match (r, layout::parse(&ws)) {
        (Ok(_), Ok(_)) => { probe("accepted"); Ok(()) }
        (Ok(_), Err(b)) => viol("accepted", format!("a stream of {} records was accepted, expected refusal: {:?}", ws.len(), b)),
        (Err(e), Ok(_)) => viol("refused", format!("a well laid out stream of {} records was refused with {:?}", ws.len(), e)),
        (Err(e), Err(b)) => {
            let ok = match b { Bad::NoMemoryModel => format!("{:?}", e) == "MemoryModelMissing", Bad::At(ref v) => v.iter().any(|x| format!("{:?}", x) == format!("{:?}", e)) };
            if matches!(b, Bad::NoMemoryModel) { probe("no_memory_model"); } else { probe("refused_at_index"); }
            if ok { Ok(()) } else { viol("wrong_error", format!("refused with {:?}, expected {:?} ({} records)", e, b, ws.len())) }
        }
    }
}

// ------------------------------------------------------------------------------------ C12, C13

fn one_function(blocks: &[B]) -> Option<FunctionDefinition> {
    let mut st = Style::plain();
    if chance(1, 2) { st.ids = draw(4); if chance(1, 2) { st.next = gen::word(); } }
    let mut insts = vec![head(14, vec![0, 0, 1])];
    let empty = blocks.is_empty();
    if empty {
        // A definition before it, so that the empty one is no declaration.
        cfg::definition(&mut st, &[B { label: 1, code: vec![], merge: cfg::M::None, term: T::Ret }], &mut insts);
    }
    cfg::definition(&mut st, blocks, &mut insts);
    let m = Module { head: gen::header(), insts, hs: vec![], big: false };
    let bytes = m.bytes();
    let r = match lib_ref(&bytes, &m.hs).out { Ok(r) => r, Err(_) => panic!("generator made an unsound image") };
    let mut l = laid(&bytes, &m.hs, &r)?;
    l.function_definitions.pop()
}
fn as_fun(f: &FunctionDefinition) -> layout::Fun {
    layout::Fun { func: f.function.words(), params: vec![], blocks: f.blocks.iter().map(|b| layout::Blk { label: b.label.words(), code: vec![], merge: b.merge.as_ref().map(|m| m.words()), branch: b.branch.words() }).collect() }
}
fn recover(f: &FunctionDefinition) -> Result<Result<ControlFlowChain, ControlFlowError>, Died> {
    let r = sut(|| find_control_flow(f.clone()));
    ev("recover", || match r { Ok(Ok(ref c)) => format!("{} blocks -> {:?}", f.blocks.len(), c), Ok(Err(ref e)) => format!("{} blocks -> {:?}", f.blocks.len(), e), Err(ref d) => d.text() },
        match r { Ok(Ok(ref c)) => world::hash_str(1, &format!("{:?}", c)), Ok(Err(ref e)) => world::hash_str(2, &format!("{:?}", e)), Err(_) => 3 });
    r
}

/// Now and then an almost identical function is recovered (and printed) right before.
fn sibling_first(b: &[B]) {
    if b.len() > 60 || !chance(1, 5) { return; }
    probe("sibling_before");
    if let Some(f) = one_function(&cfg::sibling(b)) {
        if let Ok(Ok(c)) = recover(&f) { let _ = display(&ControlFlowFunctionPrinter(&f, &c)); }
    }
}

fn c12() -> Res {
    let mut st = Style::plain();
    let long = chance(1, 6_000);
    let mut b = if long { long_function() } else { { let code = if chance(1, 3) { 3 } else { 0 }; function_blocks(&mut st, &Binds::default(), &[], code, true) } };
    if !long && chance(1, 2) {
        if b.len() > 24 { b.truncate(24); }
        cfg::damage(&mut b, range(1, 3));
    }
    // Blocks nobody branches to.
    if chance(1, 6) { let l = b.iter().map(|x| x.label).max().unwrap_or(0).wrapping_add(1000); let t = b.first().map(|x| x.label).unwrap_or(0); b.push(B { label: l, code: vec![], merge: cfg::M::None, term: T::Br(t) }); probe("unreachable_block"); }
    sibling_first(&b);
    let f = match one_function(&b) { Some(f) => f, None => { probe("skipped"); return Ok(()); } };
    let c = match recover(&f) { Ok(Ok(c)) => c, _ => { probe("refused"); return Ok(()); } };
    probe("recovered");
    let fun = as_fun(&f);
    if fun.blocks.len() > 1 { probe("recovered_several_blocks"); }
    for _ in 0..8 {
        let seed = draw(1 << 32);
        let bias = range(1, 7);
        let bound = if long { 70_000 } else { *pick(&[60usize, 200, 600]) };
        let (a, ea) = cfg::run_graph(&fun, Outcomes::new(seed, bias), bound);
        let (p, ep) = cfg::run_chain(&c, Outcomes::new(seed, bias), bound);
        ev("execute", || format!("{} steps, {:?}", a.len(), ea), a.len() as u64);
        if a != p || ea != ep {
            let k = a.iter().zip(p.iter()).take_while(|(x, y)| x == y).count();
            return viol("execution", format!("after {} common blocks the function goes to {:?} (ends {:?} after {}), the structure to {:?} (ends {:?} after {})", k, a.get(k), ea, a.len(), p.get(k), ep, p.len()));
        }
        if ea == cfg::End::Return { probe("ran_to_return"); }
    }
    if let Err(s) = cfg::check_hints(&c, &fun) { return viol("hints", s); }
    Ok(())
}

/// Far more blocks than ordinary functions have.
/// Whether recovery does about the same work per block whatever the size. Quadratic work is no fault, but would take forever on the largest functions.
fn quick_to_recover() -> bool {
    if crate::hooks::edges() == 0 { return false; }
    let cost = |n: u32| { let f = one_function(&cfg::chain(n, false)); let w = crate::hooks::work(); if let Some(f) = f { let _ = sut(|| find_control_flow(f)); } crate::hooks::work() - w };
    cost(2_000) < 6 * cost(500)
}
fn long_function() -> Vec<B> {
    probe("very_long_function");
    let big = chance(1, 24) && quick_to_recover();
    let n = if big { probe("huge_function"); gen::huge(&[20_000, 33_000, 66_000]).min(70_000) } else { gen::huge(&[1_000, 4_097, 9_000]).min(10_000) };
    cfg::chain(n as u32, chance(1, 2))
}

fn c13() -> Res {
    let mut st = Style::plain();
    let mut b = if chance(1, 40) { vec![] } else if chance(1, 6_000) { long_function() } else { { let code = if chance(1, 3) { 3 } else { 0 }; function_blocks(&mut st, &Binds::default(), &[], code, false) } };
    if b.len() > 1 { probe("several_blocks"); }
    let mode = if b.is_empty() { 9 } else if b.len() > 900 { draw(7) } else { draw(8) };
    let mut lost: Vec<u32> = Vec::new();
    let mut dup: Vec<u32> = Vec::new();
    match mode {
        0..=3 => {}
        4 => if b.len() > 1 { for _ in 0..range(1, 2) { if b.len() > 1 { let k = range(1, b.len() as u64 - 1) as usize; lost.push(b.remove(k).label); fault("lost_block"); } } },
        5 => { for _ in 0..range(1, 2) { let mut x = pick(&b).clone(); dup.push(x.label); if chance(1, 2) { x.term = T::Ret; x.merge = cfg::M::None; } let k = draw(b.len() as u64 + 1) as usize; b.insert(k, x); fault("duplicated_block"); } }
        6 => {
            // An unconditional branch that leads nowhere.
            let labels: Vec<u32> = b.iter().map(|x| x.label).collect();
            let c: Vec<usize> = (0..b.len()).filter(|i| matches!(b[*i].term, T::Br(_)) && b[*i].merge == cfg::M::None).collect();
            if !c.is_empty() {
                let to = { let mut t = gen::word(); while labels.contains(&t) { t = t.wrapping_add(1); } t };
                b[*pick(&c)].term = T::Br(to);
                lost.push(to);
                fault("retargeted_branch");
            }
        }
        7 => { b.truncate(24); cfg::damage(&mut b, range(1, 3)); }
        _ => fault("no_blocks"),
    }
    sibling_first(&b);
    let f = match one_function(&b) { Some(f) => f, None => { probe("skipped"); return Ok(()); } };
    let r = match recover(&f) { Ok(r) => r, Err(d) => return viol("panic", d.text()) };
    let mut times: std::collections::BTreeMap<u32, usize> = Default::default();
    for x in &b { *times.entry(x.label).or_default() += 1; }
    let has = |n: u32| times.get(&n).cloned().unwrap_or(0);
    let (_, missing) = cfg::reach(&b);
    let dups: Vec<u32> = b.iter().map(|x| x.label).filter(|l| has(*l) > 1).collect();
    let et = match r { Ok(_) => String::new(), Err(ref e) => format!("{:?}", e) };
    // Whatever the damage: what an error says about labels is true.
    if let Err(ref e) = r {
        match *e {
            ControlFlowError::UnknownBlockId(ref i) => if has(cfg::id_num(i)) > 0 { return viol("untruthful", format!("{} although that block is there", et)); },
            ControlFlowError::DuplicateBlockId(ref i) => if has(cfg::id_num(i)) < 2 { return viol("untruthful", format!("{} although that label occurs {} time(s)", et, has(cfg::id_num(i)))); },
            ControlFlowError::NoBlocks => if !b.is_empty() { return viol("untruthful", format!("{} although there are {}", et, b.len())); },
            _ => {}
        }
    }
    if b.is_empty() { return match r { Err(ControlFlowError::NoBlocks) => { probe("no_blocks_refused"); Ok(()) } _ => viol("wrong_error", format!("a function without blocks: {}", if et.is_empty() { "recovered" } else { &et })) }; }
    if !dups.is_empty() {
        probe("duplicate_label");
        return match r {
            Err(ControlFlowError::DuplicateBlockId(_)) => Ok(()),
            Err(ControlFlowError::UnknownBlockId(_)) if !missing.is_empty() => Ok(()),
            Ok(_) => viol("accepted", format!("duplicated label(s) {:?}, yet recovered", dups)),
            Err(_) if mode == 7 => Ok(()),
            Err(_) => viol("wrong_error", format!("duplicated label(s) {:?}, refused with {}", dups, et)),
        };
    }
    if !missing.is_empty() {
        probe("missing_block");
        return match r {
            Ok(_) => viol("accepted", format!("execution runs into missing block(s) {:?}, yet recovered", missing)),
            Err(ControlFlowError::UnknownBlockId(_)) => Ok(()),
            Err(_) if mode == 7 => Ok(()),
            Err(_) => viol("wrong_error", format!("missing block(s) {:?}, refused with {}", missing, et)),
        };
    }
    if mode != 7 && lost.is_empty() && dup.is_empty() {
        probe("structured_intact");
        if let Err(_) = r { return viol("refused", format!("a structured function of {} blocks was refused with {}", b.len(), et)); }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ C14, C15

fn any_job() -> Job {
    let (bytes, hs) = match draw(4) {
        0 => damaged(),
        1 => damaged_functions(),
        2 => { let ids: Vec<u32> = (1..5).collect(); let hs = handlers_for_run(); let m = ext_module(&hs, &ids, chance(1, 3)); (m.bytes(), m.hs) }
        _ => { let m = func_module(3, true); (m.bytes(), m.hs) }
    };
    let mut plan = Plan::default();
    if chance(1, 5) { plan.at.push((draw(3) as usize, match draw(3) { 0 => Misbehave::Panic { token: 7, after: 1 }, 1 => Misbehave::Err { kind: draw(40), val: 5, after: 0 }, _ => Misbehave::Under { leave: 1 } })); }
    Job { bytes, hs, plan }
}

/// A few sections and one small function.
fn small_job() -> Job {
    let mut st = Style::plain();
    let hs = gen::handler_set(2);
    let m = gen::laid_out(&mut st, 1, hs, |st, b, h| {
        let mut out = Vec::new();
        let bl = cfg::structured(st, b, h, Shape { max_depth: 2, max_seq: 2, budget: 6, tails: false, share: false, exits: 1, hints: true, code: 2 });
        cfg::definition(st, &bl, &mut out);
        out
    });
    Job { bytes: m.bytes(), hs: m.hs, plan: Plan::default() }
}

fn jobs_text(j: &Job) -> String { format!("{} bytes, {} handlers", j.bytes.len(), j.hs.len()) }

fn c14() -> Res {
    let job = any_job();
    let others: Vec<Job> = (0..draw(4)).map(|_| any_job()).collect();
    let j = job.clone();
    let base = match world::on_fresh_thread(0x5EED, STACK, move || run_job(&j, &Ctx::plain())) { Some(d) => d, None => panic!("job died") };
    ev("alone", || jobs_text(&job), base.hash());
    for k in 0..range(2, 6) {
        let seed = draw(1 << 40);
        let clock = *pick(&[0u64, 1, 1_000_000_000, 4_102_444_800_000_000_000, 86_400_000_000_000, u64::MAX / 4]);
        let step = *pick(&[0u64, 1, 1_000, 10_000_000_000, 3_600_000_000_000]);
        world::CLOCK_NS.store(clock, std::sync::atomic::Ordering::SeqCst);
        world::CLOCK_STEP.store(step, std::sync::atomic::Ordering::SeqCst);
        fault("hash_seed_changed");
        fault("clock_jump");
        let hist: Vec<Job> = others.iter().filter(|_| chance(1, 2)).cloned().collect();
        let reps = range(1, 3);
        // Now and then a long history.
        let hist: Vec<Job> = if !hist.is_empty() && chance(1, 25) && hist.iter().all(|h| h.bytes.len() < 3000) {
            probe("long_history");
            let n = if chance(1, 4) { 1 + dict::small(300) as usize } else { *pick(&[6usize, 12, 30, 60, 110, 140, 280]) };
            (0..n).map(|i| hist[i % hist.len()].clone()).collect()
        } else { hist };
        let junk = draw(5);
        let j = job.clone();
        let nh = hist.len();
        if nh > 0 { fault("earlier_calls"); }
        let calm = |j: &Job| !j.plan.at.iter().any(|x| matches!(x.1, Misbehave::Panic { .. }));
        let place = world::Place {
            name: *pick(&[None, None, Some("main"), Some("worker-1"), Some("w0"), Some("tokio-runtime-worker"), Some("render"), Some("")]),
            deep: match draw(3) { 0 => 0, 1 => draw(64) as usize, _ => draw(2_000) as usize },
            unwinding: calm(&job) && hist.iter().all(|h| calm(h)) && chance(1, 4),
        };
        if place.name.is_some() { fault("thread_renamed"); }
        if place.deep > 0 { fault("stack_shifted"); }
        if place.unwinding { fault("called_while_unwinding"); }
        let at = format!("{:?}", place);
        let got = world::on_thread_at(seed, STACK, place, move || {
            // Shift addresses.
            let keep: Vec<Vec<u8>> = (0..junk * 7).map(|i| vec![1u8; 16 + 48 * i as usize]).collect();
            for h in &hist { run_job(h, &Ctx::plain()); }
            let r: Vec<Digest> = (0..reps).map(|_| run_job(&j, &Ctx::plain())).collect();
            drop(keep);
            r
        });
        let got = match got { Some(g) => g, None => panic!("job died") };
        for (i, g) in got.iter().enumerate() {
            ev("again", || format!("variant {} repetition {}", k, i), g.hash());
            if *g != base { return viol("differs", format!("variant {} (hash seed {}, clock {} step {}, {} earlier calls, {}), repetition {}: {}", k, seed, clock, step, nh, at, i, base.diff(g))); }
        }
    }
    Ok(())
}

fn c15() -> Res {
    // Now and then a stampede: many callers with little to do each, all in the same stage, switching finely.
    let stampede = chance(1, 12);
    let n = if stampede { probe("stampede"); range(5, 14) } else if chance(1, 30) { probe("many_callers"); range(5, 14) } else { range(2, 4) } as usize;
    let jobs: Vec<Vec<Job>> = if stampede {
        let one = chance(1, 2);
        let shared = small_job();
        (0..n).map(|_| vec![if one { shared.clone() } else { small_job() }]).collect()
    } else { (0..n).map(|_| (0..range(1, 2)).map(|_| any_job()).collect()).collect() };
    // Alone, each job on a thread of its own.
    let alone: Vec<Vec<Digest>> = jobs.iter().map(|v| v.iter().map(|j| { let j = j.clone(); world::on_fresh_thread(0x5EED, STACK, move || run_job(&j, &Ctx::plain())).expect("job died") }).collect()).collect();
    for (v, d) in jobs.iter().zip(alone.iter()) { for (j, d) in v.iter().zip(d.iter()) { ev("alone", || jobs_text(j), d.hash()); } }
    if !stampede && chance(1, 3) { return reentrant(jobs, alone); }
    let gap = if stampede { *pick(&[2u64, 3, 6, 12]) } else { *pick(&[0u64, 3, 10, 40, 200]) };
    if gap > 0 { fault("preempted_at_allocations"); }
    let tasks: Vec<Box<dyn FnOnce() -> Vec<Digest> + Send>> = jobs.iter().map(|v| {
        let v = v.clone();
        Box::new(move || v.iter().map(|j| { let d = run_job(j, &Ctx { yields: true, inner: None }); world::yield_point(4); d }).collect::<Vec<_>>()) as Box<dyn FnOnce() -> Vec<Digest> + Send>
    }).collect();
    fault("concurrent_callers");
    let steps = world::Steps { on: chance(1, 2) && crate::hooks::edges() > 0, left: 120 };
    if steps.on { fault("preempted_at_single_steps"); }
    let got = world::run_tasks(tasks, gap, steps, STACK);
    for (t, g) in got.into_iter().enumerate() {
        let g = g.expect("task died");
        for (k, (a, b)) in alone[t].iter().zip(g.iter()).enumerate() {
            ev("task", || format!("task {} job {}", t, k), b.hash());
            if a != b { return viol("disturbed", format!("task {} job {} among {} tasks: {}", t, k, n, a.diff(b))); }
        }
    }
    Ok(())
}

struct Nest { inner: Vec<(Job, Digest)>, when: u64, phase: u64, limit: u64, bad: std::cell::RefCell<Option<String>>, count: std::cell::Cell<u64> }
/// Callbacks that call the library again, whose callbacks do so too, `depth` deep.
fn nest(n: &std::rc::Rc<Nest>, depth: usize) -> Ctx {
    let n = n.clone();
    Ctx { yields: false, inner: Some(Box::new(move || -> Box<dyn FnMut(usize)> {
        let n = n.clone();
        Box::new(move |i| {
            if (i as u64) % n.when != n.phase % n.when || n.count.get() >= n.limit { return; }
            n.count.set(n.count.get() + 1);
            fault("reentrant_call");
            let k = (n.count.get() as usize) % n.inner.len();
            let d = run_job(&n.inner[k].0, &if depth > 1 { nest(&n, depth - 1) } else { Ctx::plain() });
            if d != n.inner[k].1 && n.bad.borrow().is_none() { *n.bad.borrow_mut() = Some(format!("nested job {}, {} levels to go: {}", k, depth - 1, n.inner[k].1.diff(&d))); }
        })
    })) }
}

/// Other calls from inside a handler callback or a sink write of this call.
fn reentrant(jobs: Vec<Vec<Job>>, alone: Vec<Vec<Digest>>) -> Res {
    let outer = jobs[0][0].clone();
    let mut inner: Vec<(Job, Digest)> = jobs[1..].iter().zip(alone[1..].iter()).flat_map(|(v, d)| v.iter().cloned().zip(d.iter().cloned())).collect();
    let mut depth = if chance(1, 3) { probe("nested_calls_in_nested_calls"); range(2, 12) as usize } else { 1 };
    let mut when = if depth > 1 { range(1, 4) } else { range(1, 12) };
    let phase = draw(12);
    let mut outer = outer;
    let mut want = alone[0][0].clone();
    if depth > 1 && chance(1, 6) {
        // A tower: every call makes the next one in its first callback, mostly during the read.
        depth = if chance(1, 3) { 2 + dict::small(60) as usize } else { range(13, 60) as usize };
        when = 1;
        if chance(3, 4) {
            let busy: Vec<(Job, Digest)> = inner.iter().filter(|j| j.1.part("calls").map_or(false, |c| c != "[]")).cloned().collect();
            if !busy.is_empty() { probe("deep_tower"); outer = busy[0].0.clone(); want = busy[0].1.clone(); inner = busy; }
        }
    }
    let stack = if depth > 12 { STACK * 64 } else { STACK * 4 };
    let r = world::on_fresh_thread(0x5EED, stack, move || {
        let n = std::rc::Rc::new(Nest { inner, when, phase, limit: if depth > 12 { depth as u64 + 4 } else if depth > 1 { 30 } else { 13 }, bad: Default::default(), count: Default::default() });
        let d = run_job(&outer, &nest(&n, depth));
        let b = n.bad.borrow().clone();
        (d, b)
    });
    let (d, bad) = r.expect("job died");
    ev("nested", || "outer job with nested ones".into(), d.hash());
    if let Some(s) = bad { return viol("disturbed", s); }
    if d != want { return viol("disturbed", format!("outer job with nested calls: {}", want.diff(&d))); }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C16

/// Different words that mean the same to a float comparison, a narrower type, a signed type, or a folded text.
fn twins() -> (u32, u32) {
    let w = gen::word();
    match draw(12) {
        0 => (0, 0x8000_0000),
        1 => (0x8000_0000, 0),
        2 => (0x7FC0_0000, 0x7FC0_0000 | range(1, 255) as u32),
        3 => (w, w ^ 0x8000_0000),
        4 => (w, w & 0xFFFF),
        5 => (w, w & 0xFF),
        6 => (w, w.swap_bytes()),
        7 => (w, w.rotate_left(16)),
        8 => (w, w ^ 0x20),
        9 => (w & 0xFFFF, w & 0xFFFF | (w & 0x8000) * 0x1_FFFE),
        10 => (0, 0xFFFF_FFFF),
        _ => (w, !w),
    }
}

fn c16() -> Res {
    let mut m = if chance(1, 2) { gen::soup(8) } else { small_module() };
    let tall = chance(1, 8_000);
    if tall { m = gen::tall(); } else if chance(1, 6) { let ids: Vec<u32> = (1..4).collect(); let hs = vec![handlers::glsl(), handlers::sim("sim.a", 1), handlers::sim("sim.b", 2)]; m = ext_module(&hs, &ids, false); }
    // An operand that holds one of two values a careless comparison might take for the same.
    let mut twin = None;
    if !m.insts.is_empty() && chance(1, 2) {
        let (i, x, y) = { let i = draw(m.insts.len() as u64) as usize; let (x, y) = twins(); (i, x, y) };
        let n = m.insts[i].len();
        if n > 1 {
            let k = if chance(1, 2) { n - 1 } else { range(1, n as u64 - 1) as usize };
            let old = m.insts[i][k];
            m.insts[i][k] = x;
            if lib_ref(&m.bytes(), &m.hs).out.is_ok() { twin = Some((i, k, y)); probe("twin_operand"); } else { m.insts[i][k] = old; }
        }
    }
    let bytes = m.bytes();
    let r = match lib_ref(&bytes, &m.hs).out { Ok(r) => r, Err(_) => panic!("generator made an unsound image") };
    let a = match read(&bytes, &m.hs) { Out::Ok(a) => a, _ => { probe("skipped"); return Ok(()); } };
    let eq = |x: &RawModule, y: &RawModule| sut(|| (x == y, y == x, !(x != y)));
    // A second reading of the same image, in the other byte order.
    let b2 = gen::to_bytes(&m.words(), !m.big);
    if let Out::Ok(a2) = read(&b2, &m.hs) {
        match eq(&a, &a2) { Ok((true, true, true)) => {} Ok(_) => return viol("unequal", "two readings of the same words compare unequal".into()), Err(_) => return Ok(()) }
    }
    // Up to eight damaged siblings.
    let mut i_lay = 0;
    for _ in 0..if tall { 3 } else { 8 } {
        let mut d = m.clone();
        let mut hs2 = m.hs.clone();
        match draw(12) {
            10 | 11 => if let Some((i, k, y)) = twin { d.insts[i][k] = y; fault("operand_twin"); } else { gen::damage_insts(&mut d, 1) },
            0 => { let k = draw(5) as usize; if k == 2 || k == 3 { d.head[k] = match draw(3) { 0 => gen::word(), 1 => d.head[k] ^ 1 << draw(32), _ => d.head[k].wrapping_add(1) }; fault("header_hit"); } }
            1 => { // Another handler under the same names.
                for h in hs2.iter_mut() { if h.real_glsl { *h = handlers::sim(handlers::GLSL, handlers::MIMIC); } else { h.tag += 50; } }
                fault("other_handlers");
            }
            2 => { if let Some(k) = (0..d.insts.len()).find(|k| matches!(d.insts[*k][0] & 0xFFFF, 2 | 4..=7 | 10)) { let n = d.insts[k].len(); let w = d.insts[k][n - 1]; if w >> 24 == 0 { d.insts[k][n - 1] = w | ((draw(255) as u32 + 1) << 24); fault("padding_hit"); } } }
            _ => gen::damage_insts(&mut d, 1),
        }
        let db = d.bytes();
        let dr = match lib_ref(&db, &hs2).out { Ok(r) => r, Err(_) => continue };
        let b = match read(&db, &hs2) { Out::Ok(b) => b, _ => continue };
        let same = r.head == dr.head && r.insts.len() == dr.insts.len() && r.insts.iter().zip(dr.insts.iter()).all(|(x, y)| x.canon == y.canon && x.tag == y.tag);
        ev("compare", || format!("same meaning: {}", same), same as u64);
        probe(if same { "same_meaning_pair" } else { "different_meaning_pair" });
        match eq(&a, &b) {
            Err(_) => return Ok(()),
            Ok((p, q, z)) => if p != same || q != same || z != same {
                let k = r.insts.iter().zip(dr.insts.iter()).position(|(x, y)| x.canon != y.canon || x.tag != y.tag);
                return viol(if same { "unequal" } else { "equal" }, format!("a==b {}, b==a {}, !(a!=b) {}; they denote {} (first differing instruction {:?}: {} / {}; headers {:x?} / {:x?})", p, q, z, if same { "the same" } else { "different things" },
                    k, k.map(|k| clip(&r.insts[k].text)).unwrap_or_default(), k.map(|k| clip(&dr.insts[k].text)).unwrap_or_default(), r.head, dr.head));
            },
        }
        // Laid out, if both can be.
        if i_lay < 2 && r.insts.len() < 200 {
            if let (Ok(Ok(x)), Ok(Ok(y))) = (sut(|| validate(a.clone())), sut(|| validate(b.clone()))) {
                i_lay += 1;
                let (ox, oy) = (layout::observed(&x), layout::observed(&y));
                let same_l = layout::diff(&ox, &oy).is_none() && r.insts.len() == dr.insts.len() && r.insts.iter().zip(dr.insts.iter()).all(|(x, y)| x.canon == y.canon && x.tag == y.tag);
                let flat = |n: usize, o: &layout::Lay| { let mut k = 0; for s in &o.secs { k += s.1.len(); } for f in o.decls.iter().chain(o.defs.iter()) { k += 2 + f.params.len(); for b in &f.blocks { k += 2 + b.code.len() + b.merge.iter().count(); } } k == n };
                if flat(r.insts.len(), &ox) && flat(dr.insts.len(), &oy) {
                    probe("compared_laid_out");
                    if let Ok(e) = sut(|| (x == y, y == x, !(x != y))) { if e != (same_l, same_l, same_l) { return viol(if same_l { "unequal" } else { "equal" }, format!("laid out modules compare {:?}, they denote {}", e, if same_l { "the same" } else { "different things" })); } }
                }
            }
        }
        // Instruction by instruction as well.
        let aligned = a.instructions.len() == r.insts.len() && b.instructions.len() == dr.insts.len();
        for (i, (x, y)) in a.instructions.iter().zip(b.instructions.iter()).enumerate().take(if aligned { r.insts.len().min(dr.insts.len()) } else { 0 }) {
            let s = r.insts[i].canon == dr.insts[i].canon && r.insts[i].tag == dr.insts[i].tag;
            if let Ok(e) = sut(|| x == y) { if e != s { return viol(if s { "unequal" } else { "equal" }, format!("instruction {}: == gives {}: {} / {}", i, e, clip(&r.insts[i].text), clip(&dr.insts[i].text))); } }
        }
    }
    // Clones.
    let want = display(&a);
    let sound = faithful(&a, &r).is_none();
    let c = match sut(|| a.clone()) { Ok(c) => c, Err(_) => return Ok(()) };
    match eq(&a, &c) { Ok((true, true, true)) => {} Ok(_) => return viol("clone_unequal", "a clone does not equal its original".into()), Err(_) => return Ok(()) }
    let lm = sut(|| validate(a));
    if let Ok(Ok(l)) = lm {
        let lc = match sut(|| l.clone()) { Ok(c) => c, Err(_) => return Ok(()) };
        if let Ok(false) = sut(|| l == lc) { return viol("clone_unequal", "a clone of the laid out module does not equal it".into()); }
        let before = layout::observed(&l);
        drop(l);
        if let Some(s) = layout::diff(&before, &layout::observed(&lc)) { return viol("clone_altered", s); }
    }
    // The original is gone; scribble over freed memory.
    let junk: Vec<Vec<u8>> = (0..20).map(|i| vec![0xA5; 8 << (i % 6)]).collect();
    fault("original_dropped");
    if let (true, Some(s)) = (sound, faithful(&c, &r)) { return viol("clone_altered", format!("after the original was dropped the clone changed: {}", s)); }
    if let (Ok(x), Ok(y)) = (want, display(&c)) { if x != y { return viol("clone_text", "the clone prints other text than its original did".into()); } }
    drop(junk);
    let _ = mix(0, 0);
    let _: Option<Fail> = None;
    Ok(())
}
