//! Functions as graphs: structured generator, block faults, interpreters for the graph and for the
//! recovered structure, and reference printers.

use crate::gen::{self, head, Binds, Style};
use crate::handlers::HSpec;
use crate::layout::{Blk, Fun, W};
use crate::spec;
use crate::tape::splitmix;
use crate::world::{self, chance, draw, pick, range};
use magmaflow::spv::logical::{BlockId, ControlFlowChain};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum M { None, Sel { merge: u32, ctl: u32 }, Loop { merge: u32, cont: u32, ctl: u32, dep: u32 } }
#[derive(Clone, Debug, PartialEq)]
pub enum T { Br(u32), Cond { c: u32, t: u32, f: u32, w: Option<(u32, u32)> }, Ret }
#[derive(Clone, Debug)]
pub struct B { pub label: u32, pub code: Vec<W>, pub merge: M, pub term: T }

impl B {
    pub fn insts(&self) -> Vec<W> {
        let mut v = vec![head(248, vec![0, self.label])];
        v.extend(self.code.iter().cloned());
        match self.merge {
            M::None => {}
            M::Sel { merge, ctl } => v.push(head(247, vec![0, merge, ctl])),
            M::Loop { merge, cont, ctl, dep } => { let mut w = vec![0, merge, cont, ctl]; if ctl & 8 != 0 { w.push(dep) } v.push(head(246, w)) }
        }
        match self.term {
            T::Br(t) => v.push(head(249, vec![0, t])),
            T::Cond { c, t, f, w } => { let mut x = vec![0, c, t, f]; if let Some((a, b)) = w { x.push(a); x.push(b) } v.push(head(250, x)) }
            T::Ret => v.push(head(253, vec![0])),
        }
        v
    }
    pub fn succ(&self) -> Vec<u32> { match self.term { T::Br(t) => vec![t], T::Cond { t, f, .. } => vec![t, f], T::Ret => vec![] } }
}

pub struct Shape {
    pub max_depth: u64,
    pub max_seq: u64,
    pub budget: i64,
    /// Selections whose sides share blocks other than the merge block.
    pub tails: bool,
    /// Constructs may converge at an enclosing construct's convergence block (not well-formed SPIR-V).
    pub share: bool,
    pub exits: u64,
    pub hints: bool,
    pub code: u64,
}

pub struct Builder<'a> {
    pub blocks: Vec<B>,
    next: u32,
    stride: u32,
    shape: Shape,
    st: &'a mut Style,
    binds: &'a Binds,
    hs: &'a [HSpec],
    pub depth_seen: u64,
}

impl<'a> Builder<'a> {
    fn label(&mut self) -> u32 { let n = self.next; self.next = self.next.wrapping_add(self.stride); n }
    fn put(&mut self, label: u32, merge: M, term: T) {
        let n = if self.shape.code == 0 { 0 } else { draw(self.shape.code) };
        let code = gen::code(self.st, self.binds, self.hs, n);
        self.blocks.push(B { label, code, merge, term });
        self.shape.budget -= 1;
    }
    fn weights(&mut self) -> Option<(u32, u32)> { if self.shape.hints && chance(1, 2) { Some((gen::word(), gen::word())) } else { None } }
    fn cond(&mut self) -> u32 { self.st.id() }

    /// Constructs that start at `start` and go on at `next`. `lp`: (head, merge) when directly in a loop body.
    fn seq(&mut self, start: u32, next: u32, lp: Option<(u32, u32)>, depth: u64) {
        self.depth_seen = self.depth_seen.max(depth);
        let n = 1 + draw(self.shape.max_seq);
        let mut kinds: Vec<u64> = Vec::new();
        for _ in 0..n {
            if self.shape.budget - (kinds.len() as i64) <= 0 { break; }
            kinds.push(draw(if lp.is_some() { 4 + self.shape.exits } else { 4 }));
        }
        // Converging straight into the enclosing convergence point needs a block of its own.
        if !self.shape.share || kinds.is_empty() {
            match kinds.last() { Some(&k) if k == 0 || k == 1 || k >= 4 => {} _ => kinds.push(0) }
        }
        let mut at = start;
        let n = kinds.len();
        for (i, k) in kinds.into_iter().enumerate() {
            let after = if i + 1 == n { next } else { self.label() };
            let nest = depth < self.shape.max_depth && self.shape.budget > 0;
            match k {
                2 if nest => {
                    let t = if chance(1, 5) { after } else { self.label() };
                    let f = if chance(1, 3) { after } else if self.shape.tails && t != after && chance(1, 6) { world::probe("same_arms"); t } else { self.label() };
                    let ctl = if self.shape.hints { draw(4) as u32 } else { 0 };
                    let (c, w) = (self.cond(), self.weights());
                    self.put(at, M::Sel { merge: after, ctl }, T::Cond { c, t, f, w });
                    // Now and then both sides lead into one more block before they rejoin.
                    let to = if self.shape.tails && t != after && f != after && f != t && chance(1, 4) {
                        let x = self.label();
                        self.put(x, M::None, T::Br(after));
                        world::probe("shared_tail");
                        x
                    } else { after };
                    if t != after { self.seq(t, to, None, depth + 1); }
                    if f != after && f != t { self.seq(f, to, None, depth + 1); }
                    world::probe("selection");
                }
                3 if nest => {
                    let body = if chance(1, 8) { at } else { self.label() };
                    let ctl = if self.shape.hints { draw(16) as u32 } else { 0 };
                    let dep = gen::word();
                    let from = self.blocks.len();
                    self.put(at, M::Loop { merge: after, cont: at, ctl, dep }, T::Br(body));
                    if body != at { self.seq(body, at, Some((at, after)), depth + 1); }
                    // The continue target is some block of the body.
                    let k = range(from as u64, self.blocks.len() as u64 - 1) as usize;
                    let lab = self.blocks[k].label;
                    if let M::Loop { ref mut cont, .. } = self.blocks[from].merge { *cont = lab }
                    world::probe("loop");
                }
                k if k >= 4 => {
                    let (head, merge) = lp.expect("in loop");
                    let f = if chance(1, 3) { world::probe("loop_continue"); head } else { world::probe("loop_break"); merge };
                    let (c, w) = (self.cond(), self.weights());
                    self.put(at, M::None, T::Cond { c, t: after, f, w });
                }
                _ => self.put(at, M::None, T::Br(after)),
            }
            at = after;
        }
    }
}

/// A structured function's blocks, entry first.
pub fn structured(st: &mut Style, binds: &Binds, hs: &[HSpec], shape: Shape) -> Vec<B> {
    let stride = if chance(1, 8) { gen::word() | 1 } else { *pick(&[1u32, 1, 2, 7, 64, 256, 1024, 65_536, 65_537, 0x0010_0000, 0x1000_0001, 0xFFFF_FFFF]) };
    let first = if chance(1, 4) { *pick(&[0u32, 0xFFFF_FFF0, 0x7FFF_FFFE, 0xFFFF, 100_000]) } else { range(1, 50) as u32 };
    let mut b = Builder { blocks: vec![], next: first, stride, shape, st, binds, hs, depth_seen: 0 };
    let entry = b.label();
    let last = b.label();
    if chance(7, 8) { b.seq(entry, last, None, 0); b.put(last, M::None, T::Ret); } else { b.put(entry, M::None, T::Ret); }
    let d = b.depth_seen;
    if d >= 3 { world::probe("nesting_3_or_more"); }
    if d >= 8 { world::probe("nesting_8_or_more"); }
    let mut blocks = b.blocks;
    shuffle_tail(&mut blocks);
    blocks
}

/// One construct inside the other, `depth` deep.
pub fn nested(depth: u64, st: &mut Style) -> Vec<B> {
    let first = range(1, 50) as u32;
    let mut next = first + 1;
    let mut blocks = Vec::new();
    let mut at = first;
    let mut closers: Vec<(u32, u32)> = Vec::new();
    // Besides the levels: straight blocks on the way in, and further exits, a hundred in all.
    let (straight, more) = (if chance(1, 2) { range(1, 4) } else { 0 }, chance(1, 3));
    let mut exits = 100u64.saturating_sub(depth);
    for _ in 0..depth {
        for _ in 0..if straight > 0 { draw(straight) } else { 0 } {
            blocks.push(B { label: at, code: vec![], merge: M::None, term: T::Br(next) });
            at = next;
            next += 1;
        }
        let (inner, after) = (next, next + 1);
        next += 2;
        let c = st.id();
        match draw(3) {
            0 => { blocks.push(B { label: at, code: vec![], merge: M::Sel { merge: after, ctl: draw(4) as u32 }, term: T::Cond { c, t: inner, f: after, w: None } }); closers.push((after, after)); }
            1 => { blocks.push(B { label: at, code: vec![], merge: M::Sel { merge: after, ctl: 0 }, term: T::Cond { c, t: after, f: inner, w: None } }); closers.push((after, after)); }
            _ => {
                // Loop with one exit.
                blocks.push(B { label: at, code: vec![], merge: M::Loop { merge: after, cont: at, ctl: draw(4) as u32, dep: 0 }, term: T::Br(next) });
                for _ in 0..if more { draw(4) } else { 0 } {
                    if exits == 0 { break; }
                    exits -= 1;
                    blocks.push(B { label: next, code: vec![], merge: M::None, term: T::Cond { c, t: next + 1, f: if chance(1, 2) { at } else { after }, w: None } });
                    next += 1;
                }
                blocks.push(B { label: next, code: vec![], merge: M::None, term: T::Cond { c, t: inner, f: after, w: None } });
                next += 1;
                closers.push((at, after));
            }
        }
        at = inner;
    }
    // Innermost straight block, then every level's convergence block leads to the enclosing one.
    let mut target = closers.last().map(|c| c.0);
    let mut from = at;
    let mut stack = closers;
    loop {
        match target {
            Some(t) => { blocks.push(B { label: from, code: vec![], merge: M::None, term: T::Br(t) }); let (_, after) = stack.pop().expect("level"); from = after; target = stack.last().map(|c| c.0); }
            None => { blocks.push(B { label: from, code: vec![], merge: M::None, term: T::Ret }); break; }
        }
    }
    relabel(&mut blocks);
    shuffle_tail(&mut blocks);
    blocks
}

/// Selections inside each other, both sides of each leading to the same next one.
pub fn ladder(n: u64, st: &mut Style) -> Vec<B> {
    let first = range(1, 9) as u32;
    let mut blocks = Vec::new();
    let n = n as u32;
    for i in 0..n {
        let (at, merge, inner) = (first + 2 * i, first + 2 * i + 1, first + 2 * i + 2);
        let c = st.id();
        blocks.push(B { label: at, code: vec![], merge: M::Sel { merge, ctl: 0 }, term: T::Cond { c, t: inner, f: inner, w: None } });
        blocks.push(B { label: merge, code: vec![], merge: M::None, term: if i == 0 { T::Ret } else { T::Br(merge - 2) } });
    }
    blocks.push(B { label: first + 2 * n, code: vec![], merge: M::None, term: T::Br(first + 2 * n - 1) });
    relabel(&mut blocks);
    shuffle_tail(&mut blocks);
    blocks
}

/// A loop with many exits in a row.
pub fn many_exits(n: u64, st: &mut Style) -> Vec<B> {
    let e = range(1, 9) as u32;
    let (h, m) = (e + 1, e + 2);
    let mut blocks = vec![
        B { label: e, code: vec![], merge: M::None, term: T::Br(h) },
        B { label: h, code: vec![], merge: M::Loop { merge: m, cont: h, ctl: 0, dep: 0 }, term: T::Br(e + 3) },
        B { label: m, code: vec![], merge: M::None, term: T::Ret },
    ];
    for i in 0..n as u32 {
        let f = if chance(1, 3) { h } else { m };
        let c = st.id();
        blocks.push(B { label: e + 3 + i, code: vec![], merge: M::None, term: T::Cond { c, t: e + 4 + i, f, w: None } });
    }
    blocks.push(B { label: e + 3 + n as u32, code: vec![], merge: M::None, term: T::Br(h) });
    relabel(&mut blocks);
    shuffle_tail(&mut blocks);
    blocks
}

/// A straight chain of `n` blocks, cheap to make; order reversed or kept.
pub fn chain(n: u32, loops: bool) -> Vec<B> {
    let mut v = Vec::with_capacity(n as usize + 1);
    let mut i = 1;
    while i < n {
        if loops && i % 4 == 1 {
            // selection with one arm
            v.push(B { label: i, code: vec![], merge: M::Sel { merge: i + 2, ctl: 0 }, term: T::Cond { c: 1, t: i + 1, f: i + 2, w: None } });
            v.push(B { label: i + 1, code: vec![], merge: M::None, term: T::Br(i + 2) });
            i += 2;
        } else {
            v.push(B { label: i, code: vec![], merge: M::None, term: T::Br(i + 1) });
            i += 1;
        }
    }
    v.push(B { label: i, code: vec![], merge: M::None, term: T::Ret });
    if chance(1, 2) { let n = v.len(); if n > 2 { v[1..].reverse(); } }
    v
}

/// Other numbers for the same labels, colliding in their low or high halves.
fn relabel(b: &mut [B]) {
    if !chance(1, 3) { return; }
    let k = *pick(&[256u32, 1024, 65_536, 65_537, 0xFFFF_FFFF, 0x9E37_79B1]);
    let c = gen::word();
    let f = |x: &mut u32| *x = x.wrapping_mul(k).wrapping_add(c);
    for b in b.iter_mut() {
        f(&mut b.label);
        match b.merge { M::None => {} M::Sel { ref mut merge, .. } => f(merge), M::Loop { ref mut merge, ref mut cont, .. } => { f(merge); f(cont) } }
        match b.term { T::Ret => {} T::Br(ref mut t) => f(t), T::Cond { ref mut t, f: ref mut g, .. } => { f(t); f(g) } }
    }
}

fn shuffle_tail(b: &mut [B]) {
    let mode = draw(3);
    if b.len() < 3 || mode == 0 { return; }
    if mode == 1 { b[1..].reverse(); return; }
    for i in (2..b.len()).rev() { let j = range(1, i as u64) as usize; b.swap(i, j); }
}

/// Random faults on a function's blocks. `any`: also faults that leave it arbitrary.
/// A function that is almost the same: other hints, weights, condition or code, or one block hit.
pub fn sibling(blocks: &[B]) -> Vec<B> {
    let mut v = blocks.to_vec();
    if v.is_empty() { return v; }
    match draw(4) {
        0 => { for b in v.iter_mut() { match b.merge { M::Sel { ref mut ctl, .. } => *ctl = draw(4) as u32, M::Loop { ref mut ctl, ref mut dep, .. } => { *ctl = draw(16) as u32; *dep = draw(9) as u32; } M::None => {} } } }
        1 => { for b in v.iter_mut() { if let T::Cond { ref mut w, ref mut c, .. } = b.term { *w = if w.is_some() { None } else { Some((draw(9) as u32, draw(9) as u32)) }; *c = draw(9) as u32; } } }
        2 => { for b in v.iter_mut() { if b.code.is_empty() { b.code.push(head(0, vec![0])); } else { b.code.pop(); } } }
        _ => damage(&mut v, 1),
    }
    v
}

pub fn damage(blocks: &mut Vec<B>, n: u64) {
    for _ in 0..n {
        if blocks.is_empty() { return; }
        let len = blocks.len() as u64;
        let kind = draw(12);
        // Faults on merges and conditional branches hit blocks that have one.
        let among: Vec<usize> = match kind {
            3 | 4 => (0..blocks.len()).filter(|k| blocks[*k].merge != M::None).collect(),
            5 => (0..blocks.len()).filter(|k| matches!(blocks[*k].term, T::Cond { .. })).collect(),
            11 => (0..blocks.len()).filter(|k| blocks[*k].merge == M::None && matches!(blocks[*k].term, T::Cond { .. })).collect(),
            _ => vec![],
        };
        let i = if among.is_empty() { draw(len) as usize } else { *pick(&among) };
        let labels: Vec<u32> = blocks.iter().map(|b| b.label).collect();
        match kind {
            0 => { blocks.remove(i); world::fault("lost_block"); }
            1 => { let b = blocks[i].clone(); let j = draw(len + 1) as usize; blocks.insert(j, b); world::fault("duplicated_block"); }
            2 => { let t = target(&labels); retarget(&mut blocks[i], t); world::fault("retargeted_branch"); }
            3 => if blocks[i].merge != M::None { blocks[i].merge = M::None; world::fault("lost_merge"); },
            4 => {
                let t = target(&labels);
                match blocks[i].merge { M::Sel { ref mut merge, .. } | M::Loop { ref mut merge, .. } => { *merge = t; world::fault("wrong_merge"); } M::None => {} }
            }
            5 => if let T::Cond { ref mut t, ref mut f, .. } = blocks[i].term { std::mem::swap(t, f); world::fault("swapped_arms"); },
            6 => { blocks[i].term = T::Ret; world::fault("early_return"); }
            7 => { let k = draw(len) as usize; blocks.swap(0, k); world::fault("wrong_entry"); }
            8 => { let t = *pick(&labels); let f = *pick(&labels); blocks[i].term = T::Cond { c: 1, t, f, w: None }; world::fault("overwritten_branch"); }
            9 => {
                let m = *pick(&labels);
                blocks[i].merge = if chance(1, 2) { M::Sel { merge: m, ctl: draw(4) as u32 } } else { M::Loop { merge: m, cont: m, ctl: draw(16) as u32, dep: 3 } };
                world::fault("stray_merge");
            }
            11 => {
                // An exit that leads to a loop's continue target, or somewhere into the body.
                let conts: Vec<u32> = blocks.iter().filter_map(|b| if let M::Loop { cont, .. } = b.merge { Some(cont) } else { None }).collect();
                let to = if conts.is_empty() || chance(1, 3) { *pick(&labels) } else { *pick(&conts) };
                if let T::Cond { ref mut f, .. } = blocks[i].term { *f = to; world::fault("misdirected_exit"); }
            }
            _ => { let t = *pick(&labels); blocks[i].label = t; world::fault("relabelled_block"); }
        }
    }
}
fn target(labels: &[u32]) -> u32 { if chance(1, 6) { gen::word() } else { *pick(labels) } }
fn retarget(b: &mut B, to: u32) {
    match b.term {
        T::Br(ref mut t) => *t = to,
        T::Cond { ref mut t, ref mut f, .. } => if chance(1, 2) { *t = to } else { *f = to },
        T::Ret => b.term = T::Br(to),
    }
}

/// Blocks reachable by branches from the entry, and labels branched to that do not exist.
pub fn reach(blocks: &[B]) -> (BTreeSet<u32>, BTreeSet<u32>) {
    let map: BTreeMap<u32, &B> = blocks.iter().map(|b| (b.label, b)).collect();
    let (mut seen, mut missing) = (BTreeSet::new(), BTreeSet::new());
    let mut todo: Vec<u32> = blocks.first().map(|b| b.label).into_iter().collect();
    while let Some(l) = todo.pop() {
        if seen.contains(&l) || missing.contains(&l) { continue; }
        match map.get(&l) { Some(b) => { seen.insert(l); todo.extend(b.succ()); } None => { missing.insert(l); } }
    }
    (seen, missing)
}

// --------------------------------------------------------------------------------- interpreters

pub fn id_num(id: &BlockId) -> u32 { let s = format!("{}", id); s.trim_start_matches('%').parse().unwrap_or(u32::MAX) }

/// Branch outcomes: a seeded stream with a bias.
pub struct Outcomes { x: u64, bias: u64 }
impl Outcomes {
    pub fn new(seed: u64, bias: u64) -> Outcomes { Outcomes { x: seed, bias } }
    fn next(&mut self) -> bool { splitmix(&mut self.x) % 8 < self.bias }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum End { Return, Bound, Missing(u32), Odd }

/// Follow the function's own branches.
pub fn run_graph(f: &Fun, mut oc: Outcomes, bound: usize) -> (Vec<u32>, End) {
    let mut map: BTreeMap<u32, &Blk> = BTreeMap::new();
    for b in &f.blocks { map.entry(b.label[1]).or_insert(b); }
    let mut path = Vec::new();
    let mut at = match f.blocks.first() { Some(b) => b.label[1], None => return (path, End::Odd) };
    loop {
        if path.len() >= bound { return (path, End::Bound); }
        let b = match map.get(&at) { Some(b) => b, None => return (path, End::Missing(at)) };
        path.push(at);
        match (b.branch[0] & 0xFFFF) as u16 {
            249 => at = b.branch[1],
            250 => at = if oc.next() { b.branch[2] } else { b.branch[3] },
            _ => return (path, End::Return),
        }
    }
}

enum Flow { Next, Break, Continue, Bound, Odd }

/// Execute the recovered structure.
pub fn run_chain(c: &ControlFlowChain, mut oc: Outcomes, bound: usize) -> (Vec<u32>, End) {
    let mut path = Vec::new();
    let f = step(c, &mut oc, bound, &mut path);
    let e = match f { Flow::Next => End::Return, Flow::Bound => End::Bound, _ => End::Odd };
    (path, e)
}
fn visit(id: &BlockId, bound: usize, path: &mut Vec<u32>) -> bool { if path.len() >= bound { return false; } path.push(id_num(id)); true }
fn step(c: &ControlFlowChain, oc: &mut Outcomes, bound: usize, path: &mut Vec<u32>) -> Flow {
    match *c {
        ControlFlowChain::Atom(ref id) => if visit(id, bound, path) { Flow::Next } else { Flow::Bound },
        ControlFlowChain::Block(ref v) => {
            for x in v { match step(x, oc, bound, path) { Flow::Next => {} f => return f } }
            Flow::Next
        }
        ControlFlowChain::Selection(ref id, ref l, ref r, _, _) => {
            if !visit(id, bound, path) { return Flow::Bound; }
            if oc.next() { step(l, oc, bound, path) } else { step(r, oc, bound, path) }
        }
        ControlFlowChain::Loop(ref id, ref inner, _, _) => loop {
            if !visit(id, bound, path) { return Flow::Bound; }
            match step(inner, oc, bound, path) {
                Flow::Next | Flow::Continue => {}
                Flow::Break => return Flow::Next,
                f => return f,
            }
        },
        ControlFlowChain::Break => Flow::Break,
        ControlFlowChain::Continue => Flow::Continue,
    }
}

/// Hints and weights of the structure against the instructions they come from.
pub fn check_hints(c: &ControlFlowChain, f: &Fun) -> Result<(), String> {
    use crate::enc::Enc;
    let map: BTreeMap<u32, &Blk> = f.blocks.iter().map(|b| (b.label[1], b)).collect();
    let mut todo = vec![c];
    while let Some(c) = todo.pop() {
        match *c {
            ControlFlowChain::Block(ref v) => todo.extend(v.iter()),
            ControlFlowChain::Selection(ref id, ref l, ref r, ref hint, ref w) => {
                let b = match map.get(&id_num(id)) { Some(b) => b, None => return Err(format!("selection at {} which is no block", id)) };
                let mut got = Vec::new();
                w.enc(&mut got);
                let want: &[u32] = if (b.branch[0] & 0xFFFF) == 250 { &b.branch[4..] } else { &[] };
                if got != want { return Err(format!("selection {}: weights {:?}, the branch has {:?}", id, got, want)); }
                let mut got = Vec::new();
                hint.enc(&mut got);
                let want = match b.merge { Some(ref m) if (m[0] & 0xFFFF) == 247 => m[2], _ => 0 };
                if got != [want] { return Err(format!("selection {}: hint {:?}, the merge has {}", id, got, want)); }
                todo.push(l);
                todo.push(r);
            }
            ControlFlowChain::Loop(ref id, ref inner, ref hint, ref w) => {
                let b = match map.get(&id_num(id)) { Some(b) => b, None => return Err(format!("loop at {} which is no block", id)) };
                let mut got = Vec::new();
                w.enc(&mut got);
                let want: &[u32] = if (b.branch[0] & 0xFFFF) == 250 { &b.branch[4..] } else { &[] };
                if got != want { return Err(format!("loop {}: weights {:?}, the branch has {:?}", id, got, want)); }
                let mut got = Vec::new();
                hint.enc(&mut got);
                let want: &[u32] = match b.merge { Some(ref m) if (m[0] & 0xFFFF) == 246 => &m[3..], _ => &[0] };
                if got != want { return Err(format!("loop {}: hint {:?}, the merge has {:?}", id, got, want)); }
                todo.push(inner);
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------ reference printers

/// Texts of a block's code and branch instructions.
#[derive(Clone, Default)]
pub struct BlockText { pub code: Vec<String>, pub branch: String }

/// Block texts of every function of a decoded module, by function then label.
pub fn block_texts(insts: &[spec::Decoded]) -> Vec<BTreeMap<u32, BlockText>> {
    let mut out: Vec<BTreeMap<u32, BlockText>> = Vec::new();
    let mut cur: BTreeMap<u32, BlockText> = BTreeMap::new();
    let mut label = None;
    let mut t = BlockText::default();
    for i in insts {
        match i.op {
            54 => { cur = BTreeMap::new(); label = None; }
            248 => { label = Some(i.canon[1]); t = BlockText::default(); }
            246 | 247 => {}
            249 | 250 | 253 => if let Some(l) = label.take() { t.branch = i.text.clone(); cur.insert(l, std::mem::take(&mut t)); },
            56 => if !cur.is_empty() || !out.is_empty() { out.push(std::mem::take(&mut cur)); },
            _ => if label.is_some() { t.code.push(i.text.clone()); },
        }
    }
    out
}

fn sel_hint(c: &magmaflow::spv::types::SelectionControl) -> Option<String> {
    use crate::enc::Enc;
    let mut v = vec![]; c.enc(&mut v);
    if v[0] == 0 { None } else { Some(spec::selection_text(v[0])) }
}
fn loop_hint(c: &magmaflow::spv::types::LoopControl) -> Option<String> {
    use crate::enc::Enc;
    let mut v = vec![]; c.enc(&mut v);
    if v[0] == 0 { None } else { Some(spec::loop_text(v[0], v.get(1).cloned())) }
}
fn weights(w: &Option<magmaflow::spv::types::BranchWeights>) -> Option<String> { w.as_ref().map(|w| format!("{} {}", w.true_weight, w.false_weight)) }

fn is_empty(c: &ControlFlowChain) -> bool { matches!(*c, ControlFlowChain::Block(ref v) if v.is_empty()) }

pub fn chain_text(c: &ControlFlowChain) -> String { let mut s = String::new(); ct(c, 0, &mut s); s }
fn ct(c: &ControlFlowChain, d: usize, s: &mut String) {
    let ind = "    ".repeat(d);
    let mut open = |what: &str, id: &BlockId, hint: Option<String>, w: Option<String>| {
        s.push_str(&format!("{}{} %{}", ind, what, id_num(id)));
        if let Some(h) = hint { s.push_str(&format!(" [{}]", h)); }
        if let Some(w) = w { s.push_str(&format!(" [{}]", w)); }
        s.push_str(" {\n");
    };
    match *c {
        ControlFlowChain::Atom(ref id) => s.push_str(&format!("{}%{}\n", ind, id_num(id))),
        ControlFlowChain::Block(ref v) => for x in v { ct(x, d, s) },
        ControlFlowChain::Selection(ref id, ref l, ref r, ref h, ref w) => {
            open("selection", id, sel_hint(h), weights(w));
            ct(l, d + 1, s);
            if !is_empty(r) { s.push_str(&format!("{}}} else {{\n", ind)); ct(r, d + 1, s); }
            s.push_str(&format!("{}}}\n", ind));
        }
        ControlFlowChain::Loop(ref id, ref i, ref h, ref w) => {
            open("loop", id, loop_hint(h), weights(w));
            ct(i, d + 1, s);
            s.push_str(&format!("{}}}\n", ind));
        }
        ControlFlowChain::Break => s.push_str(&format!("{}break;\n", ind)),
        ControlFlowChain::Continue => s.push_str(&format!("{}continue;\n", ind)),
    }
}

pub fn func_text(c: &ControlFlowChain, b: &BTreeMap<u32, BlockText>) -> String { let mut s = String::new(); ft(c, b, 0, &mut s); s }
fn blk(id: &BlockId, b: &BTreeMap<u32, BlockText>, ind: &str, s: &mut String) {
    let n = id_num(id);
    let t = b.get(&n).cloned().unwrap_or_default();
    s.push_str(&format!("{}> Begin {}\n", ind, n));
    for x in t.code.iter().chain(Some(&t.branch)) { s.push_str(&format!("{}>>> {}\n", ind, x)); }
    s.push_str(&format!("{}> End {}\n", ind, n));
}
fn ft(c: &ControlFlowChain, b: &BTreeMap<u32, BlockText>, d: usize, s: &mut String) {
    let ind = "    ".repeat(d);
    match *c {
        ControlFlowChain::Atom(ref id) => blk(id, b, &ind, s),
        ControlFlowChain::Block(ref v) => for x in v { ft(x, b, d, s) },
        ControlFlowChain::Selection(ref id, ref l, ref r, ref h, ref w) => {
            blk(id, b, &ind, s);
            if let Some(h) = sel_hint(h) { s.push_str(&format!(" [{}]", h)); }
            if let Some(w) = weights(w) { s.push_str(&format!(" [{}]", w)); }
            s.push_str(&format!("{}{{\n", ind));
            ft(l, b, d + 1, s);
            if !is_empty(r) { s.push_str(&format!("{}}} else {{\n", ind)); ft(r, b, d + 1, s); }
            s.push_str(&format!("{}}}\n", ind));
        }
        ControlFlowChain::Loop(ref id, ref i, ref h, ref w) => {
            blk(id, b, &ind, s);
            if let Some(h) = loop_hint(h) { s.push_str(&format!(" [{}]", h)); }
            if let Some(w) = weights(w) { s.push_str(&format!(" [{}]", w)); }
            s.push_str(&format!("{}{{\n", ind));
            ft(i, b, d + 1, s);
            s.push_str(&format!("{}}}\n", ind));
        }
        ControlFlowChain::Break => s.push_str(&format!("{}break;\n", ind)),
        ControlFlowChain::Continue => s.push_str(&format!("{}continue;\n", ind)),
    }
}

/// Wraps blocks into a definition's instructions.
pub fn definition(st: &mut Style, blocks: &[B], out: &mut Vec<W>) {
    gen::function_header(st, out);
    for b in blocks { out.extend(b.insts()); }
    out.push(head(56, vec![0]));
}
