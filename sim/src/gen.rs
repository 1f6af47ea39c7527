//! Workload generator: module images, handler sets, storage faults. Every choice comes from the tape.

use crate::handlers::{self, HSpec};
use crate::spec::{self, OpSpec, K, Sec, OPS};
use crate::tables::*;
use crate::world::{self, chance, draw, pick, range};

/// Per-run style ("swarm"): what kind of ids, strings and sizes this run uses.
#[derive(Clone, Debug)]
pub struct Style { pub ids: u64, pub strs: u64, pub lists: u64, pub dirty_pad: bool, pub next: u32, pub linked: bool, pub defs: Vec<(u16, u32)> }
impl Style {
    pub fn new() -> Style {
        Style { ids: draw(4), strs: draw(5), lists: draw(5), dirty_pad: chance(1, 4), next: 1, linked: chance(1, 3), defs: vec![] }
    }
    pub fn plain() -> Style { Style { ids: 0, strs: 0, lists: 0, dirty_pad: false, next: 1, linked: false, defs: vec![] } }
    pub fn id(&mut self) -> u32 {
        match self.ids {
            0 => range(1, 20) as u32,
            1 => range(1, 300) as u32,
            2 => word(),
            _ => if chance(1, 4) { word() } else { range(1, 60) as u32 },
        }
    }
    /// An id to refer to; in linked modules mostly that of an earlier instruction, types for operands that want one.
    fn link(&mut self, op: u16) -> u32 {
        if !self.linked || self.defs.is_empty() || chance(1, 4) { return self.id(); }
        if op >= 41 && chance(1, 2) {
            let t: Vec<u32> = self.defs.iter().filter(|d| matches!(d.0, 19..=33)).map(|d| d.1).collect();
            if !t.is_empty() { return *pick(&t); }
        }
        pick(&self.defs).1
    }
    pub fn fresh(&mut self) -> u32 {
        let n = self.next;
        self.next = self.next.wrapping_add(match self.ids { 2 => 65_537, 3 => 251, _ => 1 });
        n
    }
    fn list_len(&mut self) -> usize {
        (match self.lists {
            0 => draw(3),
            1 => draw(6),
            2 => draw(24),
            3 => if chance(1, 10) { *pick(&[63, 64, 127, 128, 255, 256, 257, 300, 511, 513, 1023, 1025]) } else if chance(1, 10) { crate::dict::small(330) } else { draw(5) },
            _ => if chance(1, 60) { *pick(&[2047u64, 4096, 9000, 20_000, 32_760, 65_500]) } else if chance(1, 60) { crate::dict::size(65_000).unwrap_or(400) } else { draw(4) },
        }) as usize
    }
}

/// A 32-bit word with a bias to edges.
pub fn word() -> u32 {
    match draw(7) {
        0 => draw(16) as u32,
        6 => crate::dict::int(),
        1 => *pick(&[0, 1, 2, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_FFFE, 16, 32, 64, 0xFFFF_8000, 0x0723_0203, 0x0302_2307]),
        2 => 1u32 << draw(32),
        3 => draw(1000) as u32,
        _ => draw(1 << 32) as u32,
    }
}

const ODD: &[char] = &['"', '\\', '\n', '%', ' ', ';', '\t', '\u{7f}', 'é', 'ß', '漢', '😀', '\u{200d}', '\u{feff}', '\u{10ffff}', '\u{80}', '{', '}', '\u{1}', '=', '\r', '\'', '/', '`', '\u{b}', '\u{a0}', '\u{2028}', '\u{fffd}', '\u{301}', '\u{d7ff}', '\u{e000}'];
/// Sequences a careless filter would treat specially.
const SEQ: &[&str] = &["\r\n", "\\n", "\\r\\n", "\\0", "\\\"", "\"\"", "  ", "\r", "//", "/*", "%s", "%1", "{}", "\n\n", "e\u{301}", "..", "; ", "\\\\"];

const PLAIN: &[u8] = b"abcxyzABCXYZ0123456789__..--$@";

pub fn string(st: &Style) -> String {
    if st.strs > 0 && chance(1, 8) {
        // A text the code mentions, perhaps with a little more around it.
        if let Some(t) = crate::dict::text() { let mut t = t; if chance(1, 3) { for _ in 0..1 + draw(9) { t.push(if chance(1, 8) { *pick(ODD) } else { *pick(PLAIN) as char }); } } if chance(1, 8) { t.insert(0, 'a'); } return t; }
    }
    let len = match st.strs {
        0 => draw(8),
        1 => (*pick(&[0i64, 4, 8, 12, 16, 20, 64, 128]) + *pick(&[0i64, 1, -1])).max(0) as u64,
        2 => draw(40),
        3 => draw(12),
        _ => if chance(1, 20) { *pick(&[63, 64, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5003, 65_535, 200_000]) } else if chance(1, 20) { crate::dict::size(100_000).unwrap_or(300) } else if chance(1, 20) { crate::dict::small(330) } else { draw(12) },
    } as usize;
    let odd = match st.strs { 0 => 0, 3 => 2, _ => 5 };
    if len > 48 {
        // One choice for the whole content.
        let k = draw(1000);
        let mut s = String::with_capacity(len + 4);
        let mut i = 0u64;
        while s.len() < len {
            let c = if odd > 0 && (k + i * 7) % 97 == 0 { ODD[((k + i) % ODD.len() as u64) as usize] } else { (b'a' + ((k + i * 3) % 26) as u8) as char };
            s.push(c);
            i += 1;
        }
        return s;
    }
    let mut s = String::new();
    while s.len() < len {
        if odd > 0 && draw(odd) == odd - 1 { if chance(1, 4) { s.push_str(pick(SEQ)); } else { s.push(*pick(ODD)); } } else { s.push(if st.strs == 2 { *pick(PLAIN) } else { b'a' + draw(26) as u8 } as char); }
    }
    s
}

pub fn push_string(o: &mut Vec<u32>, s: &str, dirty: bool) {
    let b = s.as_bytes();
    for i in 0..b.len() / 4 + 1 {
        let mut w = [0u8; 4];
        let mut seen = false;
        for k in 0..4 {
            if 4 * i + k < b.len() { w[k] = b[4 * i + k]; } else if !seen { seen = true; } else if dirty { w[k] = draw(256) as u8; }
        }
        o.push(u32::from_le_bytes(w));
    }
}

pub fn head(op: u16, mut w: Vec<u32>) -> Vec<u32> { w[0] = ((w.len() as u32) << 16) | op as u32; w }

/// Imports made so far: (id, handler index).
#[derive(Clone, Default)]
pub struct Binds { pub ids: Vec<(u32, usize)> }

fn en(t: &EnumTab) -> u32 { pick(t.vals).0 }

/// A valid instruction of the given kind; extended instructions need a binding.
pub fn inst(s: &OpSpec, st: &mut Style, binds: &Binds, hs: &[HSpec]) -> Vec<u32> {
    let mut w = vec![0];
    for k in s.ks {
        match *k {
            K::Id => { let v = st.link(s.op); w.push(v) }
            K::Res => { let v = if chance(1, 8) { st.id() } else { st.fresh() }; if st.linked && st.defs.len() < 60 { st.defs.push((s.op, v)); } w.push(v) }
            // Widths and sizes are mostly ordinary ones.
            K::Lit => w.push(if matches!(s.op, 21..=24) && chance(3, 4) { *pick(&[1, 2, 3, 4, 8, 16, 32, 64]) } else { word() }),
            K::Str => { let t = string(st); push_string(&mut w, &t, st.dirty_pad) }
            K::OptId => if chance(1, 2) { w.push(st.id()) },
            K::OptStr => if w.len() == 4 && chance(1, 2) { let t = string(st); push_string(&mut w, &t, st.dirty_pad) },
            K::Ids => { let n = st.list_len(); fill(&mut w, n, st) }
            K::Words => { let n = 1 + st.list_len(); fill(&mut w, n, st) }
            K::Phis => { let n = 2 * st.list_len().min(32_000); fill(&mut w, n, st) }
            K::En(t) => w.push(en(t)),
            K::OptEn(t) => if chance(1, 2) { w.push(en(t)) },
            K::SrcLang => w.push(if chance(1, 4) { word() } else { draw(5) as u32 }),
            K::MemAccOpt => if chance(1, 2) { w.push(draw(8) as u32) },
            K::FnCtl => w.push(draw(16) as u32),
            K::LoopCtl => { let v = if chance(1, 2) { draw(16) as u32 } else { draw(4) as u32 }; w.push(v); if v & 8 != 0 { w.push(word()) } }
            K::SelCtl => w.push(draw(4) as u32),
            K::WeightsOpt => if chance(1, 2) { w.push(word()); w.push(word()) },
            K::Deco => match draw(4) {
                0 => w.push(pick(DECORATION_PLAIN).0),
                1 => { w.push(pick(spec::DECO_LIT).0); w.push(word()) }
                2 => { w.push(11); w.push(en(&BUILTIN)) }
                _ => match draw(4) {
                    0 => { w.push(38); w.push(en(&FUNCTIONPARAMETERATTRIBUTE)) }
                    1 => { w.push(39); w.push(en(&FPROUNDINGMODE)) }
                    2 => { w.push(40); w.push(draw(32) as u32) }
                    _ => { w.push(41); let t = string(st); push_string(&mut w, &t, st.dirty_pad); w.push(en(&LINKAGETYPE)) }
                },
            },
            K::Mode => match draw(6) {
                0 => { w.push(0); w.push(word()) }
                1 => { w.push(17); for _ in 0..3 { w.push(word()) } }
                2 => { w.push(18); for _ in 0..3 { w.push(word()) } }
                3 => { w.push(26); w.push(word()) }
                4 => { w.push(30); w.push(st.id()) }
                _ => w.push(pick(EXECMODE_PLAIN).0),
            },
            K::Import => unreachable!("imports are made by import()"),
            K::Ext => {
                let (set, h) = *pick(&binds.ids);
                w.push(set);
                if hs[h].real_glsl { w.push(13 + draw(2) as u32); w.push(st.id()); }
                else {
                    let i = handlers::nearest_known(if chance(1, 3) { word() } else { draw(30) as u32 });
                    w.push(i);
                    match handlers::arity(hs[h].tag, i) { None => { let n = st.list_len(); fill(&mut w, n, st) } Some(n) => fill(&mut w, n, st) }
                }
            }
        }
    }
    // Stay within the 16-bit word count.
    if w.len() > 0xFFFF { return head(0, vec![0]); }
    head(s.op, w)
}

fn fill(w: &mut Vec<u32>, n: usize, st: &mut Style) {
    if n > 40 {
        let k = draw(1 << 20) as u32;
        let n = n.min(0xFFFF - w.len() - 2);
        for i in 0..n as u32 { w.push(k.wrapping_mul(i.wrapping_mul(2_654_435_761)).wrapping_add(i)); }
    } else {
        if n > 1 && chance(1, 8) {
            // A regular list.
            let v = st.id();
            match draw(4) {
                0 => for _ in 0..n { w.push(v) },
                1 => for i in 0..n { w.push(v.wrapping_add(i as u32)) },
                2 => for i in 0..n { w.push(v.wrapping_sub(i as u32)) },
                _ => for i in 0..n { w.push(v.wrapping_add(i as u32 % 2)) },
            }
            return;
        }
        for _ in 0..n { let v = if chance(1, 3) { word() } else { st.id() }; w.push(v) }
    }
}

pub fn import(id: u32, name: &str, dirty: bool) -> Vec<u32> {
    let mut w = vec![0, id];
    push_string(&mut w, name, dirty);
    head(11, w)
}

pub const NAMES: &[&str] = &["GLSL.std.450", "GLSL.std.45", "GLSL.std.4500", "glsl.std.450", "OpenCL.std", "sim.a", "sim.b", "", "sim.ab", "長い名前", "a", "sim.a ", "0123456789abcdef", "sim.aa", "NonSemantic.a.very.long.set.name.that.goes.on.and.on.for.sixty.four.b", "NonSemantic.a.very.long.set.name.that.goes.on.and.on.for.sixty.four.c", "NonSemantic.a.very.long.set.nime.that.goes.on.and.on.for.sixty.four.b", "GLSL.std.450.ext", " GLSL.std.450", "GLSL_std_450"];

/// Many more names than ordinary programs register.
pub fn many_names() -> &'static [&'static str] {
    static N: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    N.get_or_init(|| (0..300).map(|i| &*Box::leak(format!("set.{:03}", i).into_boxed_str())).collect())
}

/// A handler set: usually the real one and a few simulated ones.
/// A name for an instruction set: one of ours, or a text the code mentions.
pub fn set_name() -> &'static str {
    if chance(1, 12) { if let Some(t) = crate::dict::text() { return crate::dict::keep(t); } }
    if chance(1, 30) {
        // Any length.
        let n = if chance(1, 2) { crate::dict::small(330) } else { draw(130) };
        let k = draw(20) as u32;
        return crate::dict::keep((0..n as u32).map(|i| PLAIN[((i * i + k) % PLAIN.len() as u32) as usize] as char).collect());
    }
    *pick(NAMES)
}

pub fn handler_set(max: u64) -> Vec<HSpec> {
    let mut hs = Vec::new();
    if chance(3, 4) { hs.push(handlers::glsl()); }
    if max > 2 && chance(1, 40) {
        // A crowd of handlers.
        world::probe("many_handlers");
        let n = if chance(1, 5) { 1 + crate::dict::small(255) } else { *pick(&[8u64, 9, 10, 16, 17, 20, 32, 33, 40, 64, 65, 100, 128, 130, 257]) };
        let from = draw(40) as usize;
        for i in 0..n as usize { hs.push(handlers::sim(many_names()[from + i], 100 + i as u32)); }
    }
    for i in 0..draw(max) { let name = set_name(); hs.push(handlers::sim(name, i as u32 + 1)); }
    if hs.len() > 1 && chance(1, 4) { let k = draw(hs.len() as u64) as usize; hs.swap(0, k); }
    hs
}

/// Ids of the imports; only names some handler answers to.
pub fn imports(hs: &[HSpec], st: &mut Style, max: u64, out: &mut Vec<Vec<u32>>) -> Binds {
    let mut b = Binds::default();
    if hs.is_empty() { return b; }
    for _ in 0..draw(max) {
        let name = pick(hs).name;
        let id = if chance(1, 4) { st.id() } else { st.fresh() };
        if b.ids.iter().any(|x| x.0 == id) { continue; }
        let h = handlers::find(hs, name).expect("registered");
        out.push(import(id, name, st.dirty_pad));
        b.ids.push((id, h));
    }
    b
}

#[derive(Clone)]
pub struct Module { pub head: [u32; 5], pub insts: Vec<Vec<u32>>, pub hs: Vec<HSpec>, pub big: bool }

impl Module {
    pub fn words(&self) -> Vec<u32> { let mut w = self.head.to_vec(); for i in &self.insts { w.extend_from_slice(i); } w }
    pub fn bytes(&self) -> Vec<u8> { to_bytes(&self.words(), self.big) }
    /// Word offsets of the instructions, and of the end.
    pub fn offsets(&self) -> Vec<usize> { let mut o = vec![5]; for i in &self.insts { o.push(o[o.len() - 1] + i.len()); } o }
}

pub fn to_bytes(w: &[u32], big: bool) -> Vec<u8> {
    let mut b = Vec::with_capacity(w.len() * 4);
    for x in w { b.extend_from_slice(&if big { x.to_be_bytes() } else { x.to_le_bytes() }); }
    b
}

pub fn header() -> [u32; 5] {
    let tool = if chance(1, 8) { crate::dict::int() & 0xFFFF } else if chance(1, 4) { draw(65_536) as u32 } else { draw(14) as u32 };
    let ver = if chance(1, 8) { crate::dict::int() & 0xFFFF } else if chance(1, 2) { draw(20) as u32 } else { draw(65_536) as u32 };
    [spec::MAGIC, 0x0001_0000, (tool << 16) | ver, word(), 0]
}

/// Any mix of valid instructions, in any order. `n_max` bounds the count.
pub fn soup(n_max: u64) -> Module {
    let mut st = Style::new();
    let hs = handler_set(4);
    let mut insts = Vec::new();
    let mut binds = imports(&hs, &mut st, 5, &mut insts);
    let n = match draw(4) { 0 => draw(4), 1 => draw(12), 2 => draw(n_max / 2 + 1), _ => draw(n_max + 1) };
    // Swarm: a few kinds of instruction only, or all.
    let kinds: Vec<&OpSpec> = if chance(1, 2) { (0..1 + draw(4)).map(|_| pick(OPS)).collect() } else { OPS.iter().collect() };
    for _ in 0..n {
        let s = *pick(&kinds);
        if s.op == 11 {
            let id = st.fresh();
            if !hs.is_empty() && !binds.ids.iter().any(|x| x.0 == id) {
                let name = pick(&hs).name;
                let h = handlers::find(&hs, name).expect("registered");
                insts.push(import(id, name, st.dirty_pad));
                binds.ids.push((id, h));
            }
            continue;
        }
        if s.op == 12 && binds.ids.is_empty() { continue; }
        insts.push(inst(s, &mut st, &binds, &hs));
    }
    Module { head: header(), insts, hs, big: chance(1, 3) }
}

/// A count far beyond the ordinary: one of the given ones, or around one the code mentions.
pub fn huge(usual: &[u64]) -> usize {
    world::patient();
    if chance(1, 2) { if let Some(n) = crate::dict::size(100_000) { return n as usize; } }
    (*pick(usual) + draw(20)) as usize
}

/// Thousands of instructions, ending in a few that occur nowhere else.
pub fn tall() -> Module {
    world::probe("tall_module");
    let m = soup(24);
    let mut k = 0;
    while k < m.insts.len() && m.insts[k][0] & 0xFFFF == 11 { k += 1; }
    let unit: Vec<&Vec<u32>> = m.insts[k..].iter().filter(|w| w[0] & 0xFFFF != 11 && w.len() < 40).collect();
    let nop = vec![1 << 16];
    let n = huge(&[3_000, 5_000, 17_000, 33_000, 65_530, 66_000]);
    let mut insts: Vec<Vec<u32>> = m.insts.iter().filter(|w| w[0] & 0xFFFF == 11).cloned().collect();
    for i in 0..n {
        let mut w = if unit.is_empty() { nop.clone() } else { unit[i % unit.len()].clone() };
        if matches!(w[0] & 0xFFFF, 126..=190) && w.len() > 3 { w[2] = i as u32; }
        insts.push(w);
    }
    insts.extend(m.insts[k..].iter().filter(|w| w[0] & 0xFFFF != 11).cloned());
    Module { head: m.head, insts, hs: m.hs, big: m.big }
}

pub fn ops_in(sec: Sec) -> Vec<&'static OpSpec> { OPS.iter().filter(|s| s.sec == sec).collect() }

/// Code instructions of a block (function-local variables included).
pub fn code(st: &mut Style, binds: &Binds, hs: &[HSpec], n: u64) -> Vec<Vec<u32>> {
    static C: std::sync::OnceLock<Vec<&'static OpSpec>> = std::sync::OnceLock::new();
    let ops = C.get_or_init(|| ops_in(Sec::Code));
    let mut out = Vec::new();
    let n = if n > 1 && chance(1, 150) { bulk() } else { n };
    for _ in 0..n {
        if chance(1, 6) {
            let mut w = vec![0, st.id(), st.fresh(), 7];
            if chance(1, 2) { w.push(st.id()); }
            out.push(head(59, w));
            continue;
        }
        let s = *pick(ops);
        if s.op == 12 && binds.ids.is_empty() { continue; }
        out.push(inst(s, st, binds, hs));
    }
    out
}

/// Now and then far more of something than ordinary modules have.
pub fn bulk() -> u64 { if chance(1, 4) { return 1 + crate::dict::small(330); } if chance(1, 12) { if let Some(n) = crate::dict::size(6_000) { return n; } } *pick(&[9, 17, 33, 65, 66, 100, 129, 130, 257, 258, 300]) }
fn count(m: u64) -> u64 { if m > 1 && chance(1, 300) { bulk() } else { draw(m) } }

/// A module in layout order; `funcs` supplies the function definitions' instructions.
pub fn laid_out(st: &mut Style, max_per_section: u64, hs: Vec<HSpec>, funcs: impl FnOnce(&mut Style, &Binds, &[HSpec]) -> Vec<Vec<u32>>) -> Module {
    let mut insts = Vec::new();
    let m = max_per_section + 1;
    let none = Binds::default();
    for _ in 0..count(m) { insts.push(inst(spec::op_named("OpCapability"), st, &none, &hs)); }
    for _ in 0..count(m) { insts.push(inst(spec::op_named("OpExtension"), st, &none, &hs)); }
    let binds = imports(&hs, st, if chance(1, 200) { bulk() } else { m }, &mut insts);
    insts.push(inst(spec::op_named("OpMemoryModel"), st, &none, &hs));
    for _ in 0..count(m) { insts.push(inst(spec::op_named("OpEntryPoint"), st, &none, &hs)); }
    for _ in 0..count(m) { insts.push(inst(spec::op_named("OpExecutionMode"), st, &none, &hs)); }
    for sec in [Sec::Debug, Sec::Anno, Sec::Global] {
        let ops = ops_in(sec);
        for _ in 0..count(m) { insts.push(inst(*pick(&ops), st, &none, &hs)); }
        if sec == Sec::Global {
            for _ in 0..count(3) {
                let mut w = vec![0, st.id(), st.fresh(), *pick(&[0u32, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11])];
                if chance(1, 2) { w.push(st.id()); }
                insts.push(head(59, w));
            }
            if chance(1, 2) { for _ in 0..count(m) { insts.push(inst(*pick(&ops), st, &none, &hs)); } }
        }
    }
    for _ in 0..count(3) { function_header(st, &mut insts); insts.push(head(56, vec![0])); }
    insts.extend(funcs(st, &binds, &hs));
    Module { head: header(), insts, hs, big: chance(1, 4) }
}

pub fn function_header(st: &mut Style, out: &mut Vec<Vec<u32>>) {
    let none = Binds::default();
    out.push(inst(spec::op_named("OpFunction"), st, &none, &[]));
    for _ in 0..count(4) { out.push(inst(spec::op_named("OpFunctionParameter"), st, &none, &[])); }
}

// -------------------------------------------------------------------------------- storage faults

/// Word-level faults on a stored image; returns the damaged words.
pub fn damage_words(words: &[u32], offs: &[usize], stale: &[u32], n: u64) -> Vec<u32> {
    let mut w = words.to_vec();
    for _ in 0..n {
        if w.is_empty() { break; }
        let len = w.len() as u64;
        match draw(12) {
            0 => { let i = draw(len) as usize; w[i] ^= 1 << draw(32); world::fault("bit_flip"); }
            1 => { let i = draw(len) as usize; w[i] = word(); world::fault("word_overwrite"); }
            2 => { let (a, b) = span(len); for x in &mut w[a..b] { *x = 0; } world::fault("zeroed_range"); }
            3 => { let (a, b) = span(len); for i in a..b { if i < stale.len() { w[i] = stale[i]; } } world::fault("stale_range"); }
            4 => { let (a, b) = span(len); w.drain(a..b); world::fault("lost_range"); }
            5 => { let (a, b) = span(len); let c: Vec<u32> = w[a..b].to_vec(); for (k, x) in c.into_iter().enumerate() { w.insert(b + k, x); } world::fault("repeated_range"); }
            6 => {
                // Swap two equal-sized ranges.
                let k = range(1, 8.min(len)) as usize;
                let a = draw(len - k as u64 + 1) as usize;
                let b = draw(len - k as u64 + 1) as usize;
                for i in 0..k { w.swap(a + i, b + i); }
                world::fault("swapped_ranges");
            }
            7 => { for _ in 0..range(1, 6) { w.push(if chance(1, 2) { 0 } else { word() }); } world::fault("trailing_garbage"); }
            8 => { let k = draw(len + 1) as usize; w.truncate(k); world::fault("torn_tail"); }
            // Aimed at instruction heads: word count or opcode.
            9 if !offs.is_empty() => {
                let i = *pick(offs);
                if i < w.len() {
                    let h = w[i];
                    w[i] = match draw(4) {
                        0 => (h & 0xFFFF) | ((h >> 16).wrapping_add(1) << 16),
                        1 => (h & 0xFFFF) | ((h >> 16).wrapping_sub(1) << 16),
                        2 => h & 0xFFFF,
                        _ => (h & 0xFFFF) | (if chance(1, 4) { crate::dict::int() } else { draw(12) as u32 }) << 16,
                    };
                    world::fault("word_count_hit");
                }
            }
            10 if !offs.is_empty() => {
                let i = *pick(offs);
                if i < w.len() {
                    w[i] = (w[i] & 0xFFFF_0000) | match draw(4) { 0 => pick(OPS).op as u32, 1 => pick(UNIMPLEMENTED).0 as u32, 2 => crate::dict::int() & 0xFFFF, _ => draw(330) as u32 };
                    world::fault("opcode_hit");
                }
            }
            _ => {
                // Aimed at operands: small out-of-range enumerants, one extra bit, an off-by-one.
                let i = if offs.is_empty() { draw(len) as usize } else { *pick(offs) + 1 + draw(9) as usize };
                if i < w.len() {
                    w[i] = match draw(5) { 0 => draw(64) as u32, 1 => w[i].wrapping_add(1), 2 => w[i] | 1 << draw(32), 3 => crate::dict::int(), _ => w[i] ^ (0xFF << (8 * draw(4))) };
                    world::fault("operand_hit");
                }
            }
        }
    }
    w
}

fn span(len: u64) -> (usize, usize) {
    let a = draw(len);
    let m = len - a;
    let k = match draw(3) { 0 => 1, 1 => range(1, m.min(4)), _ => range(1, m) };
    (a as usize, (a + k) as usize)
}

/// Byte-level faults: what word-level ones cannot do (odd lengths, shifted content).
pub fn damage_bytes(b: &mut Vec<u8>, n: u64) {
    for _ in 0..n {
        if b.is_empty() { break; }
        let len = b.len() as u64;
        match draw(5) {
            0 => { let k = draw(len + 1) as usize; b.truncate(k); world::fault("torn_tail_bytes"); }
            1 => { let i = draw(len) as usize; b[i] ^= 1 << draw(8); world::fault("bit_flip"); }
            2 => { let i = draw(len) as usize; b.remove(i); world::fault("lost_byte"); }
            3 => { let i = draw(len) as usize; let v = draw(256) as u8; b.insert(i, v); world::fault("inserted_byte"); }
            _ => { let i = draw(len) as usize; b[i] = *pick(&[0, 0xFF, 0x80, 0xC3, 0xE2, 0xF0, 0x41]); world::fault("byte_overwrite"); }
        }
    }
}

/// Targets a string operand: drop the terminator, break the encoding, shift the terminator.
pub fn damage_strings(m: &mut Module) -> bool {
    let cands: Vec<usize> = (0..m.insts.len()).filter(|i| matches!(m.insts[*i][0] & 0xFFFF, 2..=7 | 10 | 11 | 15 | 31 | 71 | 72)).collect();
    if cands.is_empty() { return false; }
    let i = *pick(&cands);
    let n = m.insts[i].len();
    if n < 2 { return false; }
    // Terminators sit near the end; aim there half of the time.
    let k = if chance(1, 2) { n - 1 } else { 1 + draw(n as u64 - 1) as usize };
    let w = m.insts[i][k];
    m.insts[i][k] = match draw(6) {
        0 => w | 0x0101_0101,
        1 => w | 0x8000_0000 >> (8 * draw(4)),
        2 => w & !(0xFF << (8 * draw(4))),
        3 => 0x6161_6161,
        4 => (w & 0xFFFF_0000) | 0xA9C3,
        _ => (w & 0xFF00_0000) | 0x80_A0ED,
    };
    world::fault("string_hit");
    true
}

/// Instruction-level faults that keep the framing sound: operands lost or added with the word count
/// adjusted, operands overwritten, whole instructions lost, repeated or moved, another opcode.
pub fn damage_insts(m: &mut Module, n: u64) {
    for _ in 0..n {
        if m.insts.is_empty() { return; }
        let len = m.insts.len() as u64;
        let i = draw(len) as usize;
        let wl = m.insts[i].len();
        let fix = |w: &mut Vec<u32>| { let n = w.len() as u32; w[0] = (w[0] & 0xFFFF) | n << 16; };
        match draw(13) {
            0 => if wl > 1 { let k = range(1, (wl as u64 - 1).min(3)) as usize; m.insts[i].truncate(wl - k); fix(&mut m.insts[i]); world::fault("lost_operand_tail"); },
            1 => if wl < 0xFFF0 { for _ in 0..range(1, 3) { let v = word(); m.insts[i].push(v); } fix(&mut m.insts[i]); world::fault("extra_operands"); },
            2 => if wl > 1 { let k = range(1, wl as u64 - 1) as usize; m.insts[i].remove(k); fix(&mut m.insts[i]); world::fault("lost_operand"); },
            3 => if wl < 0xFFF0 { let k = range(1, wl as u64) as usize; let v = word(); m.insts[i].insert(k, v); fix(&mut m.insts[i]); world::fault("inserted_operand"); },
            4 => { m.insts.remove(i); world::fault("lost_instruction"); }
            5 => { let c = m.insts[i].clone(); let k = if chance(1, 3) { i + 1 } else { draw(len + 1) as usize }; m.insts.insert(k, c); world::fault("repeated_instruction"); }
            6 => { let k = draw(len) as usize; m.insts.swap(i, k); world::fault("swapped_instructions"); }
            7 => if wl > 1 {
                let k = range(1, (wl as u64 - 1).min(12)) as usize;
                let w = m.insts[i][k];
                m.insts[i][k] = match draw(6) { 0 => draw(64) as u32, 1 => w.wrapping_add(1), 2 => w ^ 1 << draw(32), 3 => word(), 4 => draw(16) as u32, _ => w.swap_bytes() };
                world::fault("operand_overwritten");
            },
            8 => if wl > 2 { let a = range(1, wl as u64 - 1) as usize; let b = range(1, wl as u64 - 1) as usize; m.insts[i].swap(a, b); world::fault("swapped_operands"); },
            9 => if wl < 0xFFF0 {
                // Optional operands appear, with values that look like nothing.
                let z = *pick(&[0u32, 0, 0, 1, 0xFFFF_FFFF]);
                if m.insts[i][0] & 0xFFFF == 246 && wl == 4 && m.insts[i][3] & 8 == 0 { m.insts[i][3] |= 8; m.insts[i].push(z); }
                else { for _ in 0..range(1, 2) { m.insts[i].push(z); } }
                fix(&mut m.insts[i]);
                world::fault("zero_operands_added");
            },
            10 => if wl > 2 { let a = range(1, wl as u64 - 1) as usize; let b = range(1, wl as u64 - 1) as usize; m.insts[i][a] = m.insts[i][b]; world::fault("operand_copied"); },
            11 => if wl > 1 { let k = wl - 1 - draw((wl as u64 - 1).min(6)) as usize; let w = m.insts[i][k]; m.insts[i][k] = match draw(5) { 0 => w ^ 1 << draw(32), 1 => 0, 2 => w ^ 0x20, 3 => w.wrapping_sub(1), _ => word() }; world::fault("late_operand_overwritten"); },
            _ => { let o = match draw(5) { 0 => pick(UNIMPLEMENTED).0 as u32, 1 => draw(400) as u32, 2 => crate::dict::int() & 0xFFFF, _ => pick(OPS).op as u32 }; m.insts[i][0] = (m.insts[i][0] & 0xFFFF_0000) | o; world::fault("opcode_overwritten"); }
        }
    }
}
