//! Simulated extended-instruction handlers (the plug-in seam): real `ExtInstSet` implementations whose
//! every call is logged and can be made to fail, panic, mis-read or re-enter the library; plus their model.

use crate::spec::Fail;
use crate::world;
use magmaflow::glsl450;
use magmaflow::spv::raw::{MemoryBlock, MemoryBlockResult, ReadError};
use magmaflow::spv::types::{OpId, ResultId};
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use std::any::Any;
use std::cell::RefCell;
use std::fmt;

/// One registered handler.
#[derive(Clone, Debug, PartialEq)]
pub struct HSpec {
    pub name: &'static str,
    pub tag: u32,
    /// The library's own GLSL.std.450 set instead of a simulated one.
    pub real_glsl: bool,
}
pub const GLSL: &str = "GLSL.std.450";
pub const GLSL_TAG: u32 = 9999;
pub fn glsl() -> HSpec { HSpec { name: GLSL, tag: GLSL_TAG, real_glsl: true } }
pub fn sim(name: &'static str, tag: u32) -> HSpec { HSpec { name, tag, real_glsl: false } }

#[derive(Clone, Debug, PartialEq)]
pub enum Misbehave {
    /// Return this error before / after reading `n` operand words.
    Err { kind: u64, val: u32, after: usize },
    /// Panic after reading `n` operand words.
    Panic { token: u64, after: usize },
    /// Leave operand words unread although the instruction has them.
    Under { leave: usize },
    /// Keep reading past the end; ignore the refusal and succeed.
    OverThenOk,
    /// Keep reading past the end; report the refusal.
    OverThenErr,
}

/// Faults by index of the `read_instruction` call within one read, and by `get_name`/`duplicate` call.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub at: Vec<(usize, Misbehave)>,
    /// `get_name` / `duplicate` of the handler with this tag panics.
    pub name_panic: Option<(u32, u64)>,
    pub dup_panic: Option<(u32, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call { pub tag: u32, pub inst: u32, pub offered: usize, pub got: Vec<u32> }

pub fn mk_err(kind: u64, val: u32) -> ReadError {
    match kind % 40 {
        0 => ReadError::UnknownExtInstOp("simulated", val),
        1 => ReadError::InvalidString,
        2 => ReadError::UnexpectedEndOfStream,
        3 => ReadError::UnknownCapability(val),
        4 => ReadError::DuplicateResultId(ResultId(val)),
        5 => ReadError::UnknownInstSetId(OpId(val)),
        6 => ReadError::InstructionHadExcessData,
        7 => ReadError::UnexpectedEndOfInstruction,
        8 => ReadError::UnexpectedStreamAlignment,
        9 => ReadError::BadMagic,
        10 => ReadError::UnknownVersionBytes(val as u8, 1, 2, 3),
        11 => ReadError::UnknownReservedSchema,
        12 => ReadError::UnknownOp(val as u16, (val >> 16) as u16),
        13 => ReadError::UnimplementedOp("simulated"),
        14 => ReadError::WrongWordCountForOp,
        15 => ReadError::UnknownInstSet(format!("{}", val)),
        16 => ReadError::UnknownAddressingModel(val),
        17 => ReadError::UnknownMemoryModel(val),
        18 => ReadError::UnknownExecutionModel(val),
        19 => ReadError::UnknownExecutionMode(val),
        20 => ReadError::UnknownDecoration(val),
        21 => ReadError::UnknownBuiltIn(val),
        22 => ReadError::UnknownFpRoundingMode(val),
        23 => ReadError::UnknownFpFastMathMode(val),
        24 => ReadError::UnknownLinkageType(val),
        25 => ReadError::UnknownSignedness(val),
        26 => ReadError::UnknownStorageClass(val),
        27 => ReadError::UnknownFunctionControl(val),
        28 => ReadError::UnknownFunctionParameterAttribute(val),
        29 => ReadError::UnknownMemoryAccess(val),
        30 => ReadError::UnknownDim(val),
        31 => ReadError::UnknownDepthStatus(val),
        32 => ReadError::UnknownArrayed(val),
        33 => ReadError::UnknownMS(val),
        34 => ReadError::UnknownSampledStatus(val),
        35 => ReadError::UnknownImageFormat(val),
        36 => ReadError::UnknownAccessQualifier(val),
        37 => ReadError::UnknownLoopControl(val),
        38 => ReadError::UnknownSelectionControl(val),
        _ => ReadError::UnknownOp(12, val as u16),
    }
}

/// How many operand words simulated instruction `inst` takes: fixed, or all.
pub fn arity(tag: u32, inst: u32) -> Option<usize> {
    if tag == MIMIC { return Some(1); }
    match inst % 5 { 0 => None, 1 => Some(1), 2 => Some(2), 3 => Some(0), _ => Some(5) }
}
/// Known instruction numbers are spread over the whole 32-bit range.
pub fn known(inst: u32) -> bool { inst.wrapping_mul(2_654_435_761) >> 28 != 3 }
pub fn nearest_known(mut i: u32) -> u32 { while !known(i) { i = i.wrapping_add(1); } i }
pub fn nearest_unknown(mut i: u32) -> u32 { while known(i) { i = i.wrapping_add(1); } i }

/// A handler whose instructions print exactly like the library's own Sin and Cos.
pub const MIMIC: u32 = 77;

/// The text deliberately does not determine the instruction: handlers share texts, and one instruction
/// in three keeps its last operand to itself.
pub fn inst_text(tag: u32, inst: u32, words: &[u32]) -> String {
    if tag == MIMIC && (inst == 13 || inst == 14) && words.len() == 1 { return format!("{} %{}", if inst == 13 { "Sin" } else { "Cos" }, words[0]); }
    let (start, end) = dress(inst);
    if start.is_empty() { return end.to_string(); }
    let mut s = format!("{}{}.{}", start, tag % 2, inst);
    for w in shown(inst, words) { s.push_str(&format!(" {:x}", w)); }
    s.push_str(end);
    s
}
/// How the text begins and ends: now and then with blanks, letters outside ASCII, something long, or nothing at all.
fn dress(inst: u32) -> (&'static str, &'static str) {
    match inst % 23 {
        3 => ("Sim", " "), 5 => ("Sim", "  \t"), 7 => ("  Sim", ""), 9 => ("Sím長い", "…"), 11 => ("", ""), 13 => ("", "   "), 15 => ("sim {} %", "\u{1F30B}"),
        17 => ("Sim", " 0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"),
        _ => ("Sim", ""),
    }
}
fn shown(inst: u32, words: &[u32]) -> &[u32] { if inst % 3 == 0 && !words.is_empty() { &words[..words.len() - 1] } else { words } }

// ------------------------------------------------------------------------------------------- model

pub fn find(hs: &[HSpec], name: &str) -> Option<usize> { hs.iter().position(|h| h.name == name) }

/// What the handler does with `rest`: words consumed and text, or a failure.
pub fn model(h: &HSpec, inst: u32, rest: &[u32], plan: &Plan, calls: &mut Vec<Call>) -> Result<(usize, String), Fail> {
    if h.real_glsl {
        return match inst {
            13 | 14 => match rest.first() {
                Some(x) => Ok((1, format!("{} %{}", if inst == 13 { "Sin" } else { "Cos" }, x))),
                None => Err(ReadError::UnexpectedEndOfInstruction.into()),
            },
            n => Err(ReadError::UnknownExtInstOp(GLSL, n).into()),
        };
    }
    let idx = calls.len();
    let mut call = Call { tag: h.tag, inst, offered: rest.len(), got: Vec::new() };
    let mis = plan.at.iter().find(|x| x.0 == idx).map(|x| &x.1);
    let take = |call: &mut Call, n: usize| -> usize { let n = n.min(rest.len()); call.got = rest[..n].to_vec(); n };
    let r = match mis {
        Some(&Misbehave::Err { kind, val, after }) => { take(&mut call, after); Err(mk_err(kind, val).into()) }
        Some(&Misbehave::Panic { token, after }) => { take(&mut call, after); Err(Fail::Panic(token)) }
        Some(&Misbehave::Under { leave }) => { let n = take(&mut call, rest.len().saturating_sub(leave)); Ok((n, inst_text(h.tag, inst, &rest[..n]))) }
        Some(&Misbehave::OverThenOk) => {
            // A block is used up by the refused read, so the handler cannot return success afterwards.
            take(&mut call, rest.len());
            Err(ReadError::UnexpectedEndOfInstruction.into())
        }
        Some(&Misbehave::OverThenErr) => { take(&mut call, rest.len()); Err(ReadError::UnexpectedEndOfInstruction.into()) }
        None => {
            if !known(inst) {
                Err(ReadError::UnknownExtInstOp(h.name, inst).into())
            } else {
                match arity(h.tag, inst) {
                    None => { let n = take(&mut call, rest.len()); Ok((n, inst_text(h.tag, inst, &rest[..n]))) }
                    Some(k) if k <= rest.len() => { let n = take(&mut call, k); Ok((n, inst_text(h.tag, inst, &rest[..n]))) }
                    Some(_) => { take(&mut call, rest.len()); Err(ReadError::UnexpectedEndOfInstruction.into()) }
                }
            }
        }
    };
    calls.push(call);
    r
}

// ---------------------------------------------------------------------------------------- real thing

#[derive(Clone, Debug, PartialEq)]
pub struct SimInst { pub tag: u32, pub inst: u32, pub words: Vec<u32> }
impl Op for SimInst { fn get_name(&self) -> &'static str { "SimInst" } }
impl fmt::Display for SimInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        // Deliberately written in several pieces: every piece is a point at which a sink may fail.
        if self.tag == MIMIC && (self.inst == 13 || self.inst == 14) && self.words.len() == 1 { return write!(f, "{} %{}", if self.inst == 13 { "Sin" } else { "Cos" }, self.words[0]); }
        let (start, end) = dress(self.inst);
        if start.is_empty() { return f.write_str(end); }
        write!(f, "{}{}.{}", start, self.tag % 2, self.inst)?;
        for w in shown(self.inst, &self.words) { write!(f, " {:x}", w)?; }
        f.write_str(end)
    }
}
impl ExtInst for SimInst {
    fn get_op(&self) -> &dyn Op { self }
    fn as_any(&self) -> &dyn Any { self }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        match other.as_any().downcast_ref::<SimInst>() { Some(o) => PartialEq::eq(self, o), None => false }
    }
}

/// Per-thread log of one or more reads in progress.
pub struct Log { pub calls: Vec<Call>, pub plan: Plan, pub over: usize, pub reenter: Option<Box<dyn FnMut(usize)>>, pub dups: usize, /// Token of a panic that really fired in `get_name` or `duplicate`.
    pub fired: Option<u64> }
thread_local! { static LOG: RefCell<Vec<Log>> = const { RefCell::new(Vec::new()) }; }

pub fn push_log(plan: Plan, reenter: Option<Box<dyn FnMut(usize)>>) {
    LOG.with(|l| l.borrow_mut().push(Log { calls: vec![], plan, over: 0, reenter, dups: 0, fired: None }));
}
pub fn pop_log() -> Log { LOG.with(|l| l.borrow_mut().pop().expect("log")) }
fn top<R>(f: impl FnOnce(&mut Log) -> R) -> R { LOG.with(|l| f(l.borrow_mut().last_mut().expect("handler called outside a simulated read"))) }

pub struct SimSet { spec: HSpec }
pub fn register(hs: &[HSpec]) -> Vec<Box<dyn ExtInstSet>> {
    hs.iter().map(|h| if h.real_glsl { Box::new(glsl450::InstSet) as Box<dyn ExtInstSet> } else { Box::new(SimSet { spec: h.clone() }) }).collect()
}

/// The next operand, by either of the two calls a handler has for it.
fn next<'a>(b: MemoryBlock<'a>, inst: u32, k: usize) -> MemoryBlockResult<'a, u32> {
    if (inst as usize + k) % 3 == 2 { let (b, i) = b.read_op_id()?; Ok((b, i.0)) } else { b.read_word() }
}

impl ExtInstSet for SimSet {
    fn get_name(&self) -> &'static str {
        world::callback(|| {
            if let Some((t, p)) = top(|l| l.plan.name_panic) { if t == self.spec.tag { world::fault("handler_panic_in_get_name"); top(|l| l.fired = Some(p)); world::inject_panic(p); } }
            self.spec.name
        })
    }
    fn read_instruction<'a, 'b>(&'b self, inst: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        world::callback(|| {
            world::yield_point(2);
            let (idx, mis) = top(|l| {
                let idx = l.calls.len();
                l.calls.push(Call { tag: self.spec.tag, inst, offered: block.remaining(), got: vec![] });
                (idx, l.plan.at.iter().find(|x| x.0 == idx).map(|x| x.1.clone()))
            });
            world::ev("handler", || format!("call {} handler {} instruction {} operands {}", idx, self.spec.tag, inst, block.remaining()), ((self.spec.tag as u64) << 32) | inst as u64);
            // Re-entrant use of the library from inside the callback.
            let hook = top(|l| l.reenter.take());
            if let Some(mut h) = hook {
                h(idx);
                top(|l| l.reenter = Some(h));
            }
            let mut words = Vec::new();
            let mut block = block;
            macro_rules! read_n { ($n:expr) => { for _ in 0..$n { if block.end() { break; } let (b, w) = next(block, inst, words.len())?; block = b; words.push(w); top(|l| l.calls[idx].got.push(w)); } } }
            match mis {
                Some(Misbehave::Err { kind, val, after }) => { read_n!(after); world::fault("handler_error"); Err(mk_err(kind, val)) }
                Some(Misbehave::Panic { token, after }) => { read_n!(after); world::fault("handler_panic"); world::inject_panic(token) }
                Some(Misbehave::Under { leave }) => {
                    let n = block.remaining().saturating_sub(leave);
                    read_n!(n);
                    world::fault("handler_underread");
                    Ok((block, Box::new(SimInst { tag: self.spec.tag, inst, words }) as Box<dyn ExtInst>))
                }
                Some(Misbehave::OverThenOk) | Some(Misbehave::OverThenErr) => {
                    read_n!(usize::MAX >> 1);
                    world::fault("handler_overread");
                    match next(block, inst, words.len()) {
                        Ok((b, w)) => {
                            // Words of somebody else.
                            top(|l| { l.over += 1; l.calls[idx].got.push(w); });
                            Ok((b, Box::new(SimInst { tag: self.spec.tag, inst, words }) as Box<dyn ExtInst>))
                        }
                        Err(e) => Err(e),
                    }
                }
                None => {
                    if !known(inst) { return Err(ReadError::UnknownExtInstOp(self.spec.name, inst)); }
                    match arity(self.spec.tag, inst) {
                        None => read_n!(usize::MAX >> 1),
                        Some(k) => {
                            for _ in 0..k {
                                let (b, w) = next(block, inst, words.len())?;
                                block = b;
                                words.push(w);
                                top(|l| l.calls[idx].got.push(w));
                            }
                        }
                    }
                    world::yield_point(2);
                    Ok((block, Box::new(SimInst { tag: self.spec.tag, inst, words }) as Box<dyn ExtInst>))
                }
            }
        })
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        world::callback(|| {
            top(|l| l.dups += 1);
            if let Some((t, p)) = top(|l| l.plan.dup_panic) { if t == self.spec.tag { world::fault("handler_panic_in_duplicate"); top(|l| l.fired = Some(p)); world::inject_panic(p); } }
            Box::new(SimSet { spec: self.spec.clone() }) as Box<dyn ExtInstSet>
        })
    }
}
