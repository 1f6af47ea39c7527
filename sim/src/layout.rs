//! Reference layout: the section automaton over instruction words.

use crate::enc::EncOp;
use crate::spec::{op_spec, Sec, LAYOUT_ONLY};
use magmaflow::spv::logical::{BasicBlock, LogicalModule, ValidationError};
use magmaflow::spv::raw::Core;

pub type W = Vec<u32>;

#[derive(Debug, PartialEq, Clone)]
pub struct Blk { pub label: W, pub code: Vec<W>, pub merge: Option<W>, pub branch: W }
#[derive(Debug, PartialEq, Clone)]
pub struct Fun { pub func: W, pub params: Vec<W>, pub blocks: Vec<Blk> }
#[derive(Debug, PartialEq, Clone)]
pub struct Lay { pub secs: Vec<(&'static str, Vec<W>)>, pub decls: Vec<Fun>, pub defs: Vec<Fun> }

pub fn sec_of(w: &[u32]) -> Sec {
    let op = (w[0] & 0xFFFF) as u16;
    let s = match op_spec(op) { Some(s) => s.sec, None => LAYOUT_ONLY.iter().find(|s| s.op == op).expect("layout op").sec };
    if s == Sec::Var { if w[3] == 7 { Sec::Code } else { Sec::Global } } else { s }
}

#[derive(Debug)]
pub enum Bad {
    NoMemoryModel,
    /// Acceptable errors.
    At(Vec<ValidationError>),
}

pub fn parse(ws: &[W]) -> Result<Lay, Bad> {
    let n = ws.len();
    let secs: Vec<Sec> = ws.iter().map(|w| sec_of(w)).collect();
    let mut i = 0;
    let mut out = Vec::new();
    let run = |name: &'static str, s: Sec, i: &mut usize, out: &mut Vec<(&'static str, Vec<W>)>| {
        let mut v = Vec::new();
        while *i < n && secs[*i] == s { v.push(ws[*i].clone()); *i += 1; }
        out.push((name, v));
    };
    run("capabilities", Sec::Cap, &mut i, &mut out);
    run("extensions", Sec::Extn, &mut i, &mut out);
    run("ext_inst_imports", Sec::Imp, &mut i, &mut out);
    if i >= n || secs[i] != Sec::MemModel { return Err(Bad::NoMemoryModel); }
    out.push(("memory_model", vec![ws[i].clone()]));
    i += 1;
    run("entry_points", Sec::Entry, &mut i, &mut out);
    run("execution_modes", Sec::Mode, &mut i, &mut out);
    run("debug", Sec::Debug, &mut i, &mut out);
    run("annotations", Sec::Anno, &mut i, &mut out);
    run("globals", Sec::Global, &mut i, &mut out);
    let (mut decls, mut defs) = (Vec::new(), Vec::new());
    let mut in_decls = true;
    while i < n {
        if secs[i] != Sec::Func {
            return Err(Bad::At(vec![ValidationError::ExpectedOpFunction(i), ValidationError::UnexpectedInstruction(i)]));
        }
        let func = ws[i].clone();
        i += 1;
        if i == n {
            // A function header alone: unplaceable itself, or the end comes too early.
            return Err(Bad::At(vec![ValidationError::UnexpectedInstruction(n - 1), ValidationError::UnexpectedInstruction(n), ValidationError::ExpectedOpFunctionEnd(n), ValidationError::ExpectedOpFunctionEnd(n - 1)]));
        }
        let mut params = Vec::new();
        while i < n && secs[i] == Sec::Param { params.push(ws[i].clone()); i += 1; }
        if in_decls && i < n && secs[i] == Sec::End {
            i += 1;
            decls.push(Fun { func, params, blocks: vec![] });
            continue;
        }
        in_decls = false;
        let mut blocks = Vec::new();
        while i < n && secs[i] == Sec::Label {
            let label = ws[i].clone();
            i += 1;
            let mut code = Vec::new();
            while i < n && secs[i] == Sec::Code { code.push(ws[i].clone()); i += 1; }
            let mut merge = None;
            if i < n && secs[i] == Sec::Merge { merge = Some(ws[i].clone()); i += 1; }
            if i >= n || secs[i] != Sec::Branch { return Err(Bad::At(vec![ValidationError::ExpectedBranch(i)])); }
            blocks.push(Blk { label, code, merge, branch: ws[i].clone() });
            i += 1;
        }
        if i >= n || secs[i] != Sec::End { return Err(Bad::At(vec![ValidationError::ExpectedOpFunctionEnd(i)])); }
        i += 1;
        defs.push(Fun { func, params, blocks });
    }
    Ok(Lay { secs: out, decls, defs })
}

fn ws<T: EncOp>(v: &[T]) -> Vec<W> { v.iter().map(|x| x.words()).collect() }
fn blk(b: &BasicBlock) -> Blk { Blk { label: b.label.words(), code: ws(&b.code), merge: b.merge.as_ref().map(|m| m.words()), branch: b.branch.words() } }

/// What the library produced, in the same shape.
pub fn observed(m: &LogicalModule) -> Lay {
    use crate::enc::Enc;
    let caps = m.capabilities.iter().map(|c| { let mut w = vec![0]; c.enc(&mut w); crate::gen::head(17, w) }).collect();
    let exts = m.extensions.iter().map(|s| { let mut w = vec![0]; s.enc(&mut w); crate::gen::head(10, w) }).collect();
    Lay {
        secs: vec![
            ("capabilities", caps), ("extensions", exts), ("ext_inst_imports", ws(&m.ext_inst_imports)), ("memory_model", vec![m.memory_model.words()]),
            ("entry_points", ws(&m.entry_points)), ("execution_modes", ws(&m.execution_modes)), ("debug", ws(&m.debug)), ("annotations", ws(&m.annotations)), ("globals", ws(&m.globals)),
        ],
        decls: m.function_declarations.iter().map(|f| Fun { func: f.function.words(), params: ws(&f.parameters), blocks: vec![] }).collect(),
        defs: m.function_definitions.iter().map(|f| Fun { func: f.function.words(), params: ws(&f.parameters), blocks: f.blocks.iter().map(blk).collect() }).collect(),
    }
}

pub fn core_words(cs: &[Core]) -> Vec<W> { cs.iter().map(|c| c.words()).collect() }

/// First difference between two layouts, for the report.
pub fn diff(want: &Lay, got: &Lay) -> Option<String> {
    for (a, b) in want.secs.iter().zip(got.secs.iter()) {
        if a != b { return Some(format!("section {}: expected {} instruction(s) {:x?}, got {} {:x?}", a.0, a.1.len(), head3(&a.1), b.1.len(), head3(&b.1))); }
    }
    if want.decls != got.decls { return Some(format!("function declarations differ: expected {}, got {}", want.decls.len(), got.decls.len())); }
    if want.defs.len() != got.defs.len() { return Some(format!("function definitions: expected {}, got {}", want.defs.len(), got.defs.len())); }
    for (k, (a, b)) in want.defs.iter().zip(got.defs.iter()).enumerate() {
        if a == b { continue; }
        if a.func != b.func || a.params != b.params { return Some(format!("definition {}: header or parameters differ", k)); }
        for (j, (x, y)) in a.blocks.iter().zip(b.blocks.iter()).enumerate() {
            if x != y { return Some(format!("definition {} block {}: expected {:x?}, got {:x?}", k, j, x, y)); }
        }
        return Some(format!("definition {}: expected {} blocks, got {}", k, a.blocks.len(), b.blocks.len()));
    }
    None
}
fn head3(v: &[W]) -> &[W] { &v[..v.len().min(3)] }
