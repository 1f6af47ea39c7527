//! Executable reference model of the module format: an independent decoder that yields, per instruction,
//! its canonical words (string padding zeroed) and its disassembly, or the set of truthful errors.

use crate::handlers::{self, Call, HSpec, Plan};
use crate::tables::*;
use magmaflow::spv::raw::ReadError;
use magmaflow::spv::types::{OpId, ResultId};
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
pub enum K {
    Id, Res, Lit, Str, OptId, OptStr, Ids, Words, Phis,
    En(&'static EnumTab), OptEn(&'static EnumTab),
    SrcLang, MemAccOpt, FnCtl, LoopCtl, SelCtl, Deco, Mode, WeightsOpt,
    Import, Ext,
}
use K::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sec { Cap, Extn, Imp, MemModel, Entry, Mode, Debug, Anno, Global, Func, Param, End, Label, Code, Merge, Branch, Var }

pub struct OpSpec { pub op: u16, pub name: &'static str, pub ks: &'static [K], pub sec: Sec }

const fn o(op: u16, name: &'static str, sec: Sec, ks: &'static [K]) -> OpSpec { OpSpec { op, name, ks, sec } }
const BIN: &[K] = &[Id, Res, Id, Id];
const UN: &[K] = &[Id, Res, Id];

pub static OPS: &[OpSpec] = &[
    o(0, "OpNop", Sec::Code, &[]),
    o(1, "OpUndef", Sec::Code, &[Id, Res]),
    o(2, "OpSourceContinued", Sec::Debug, &[Str]),
    o(3, "OpSource", Sec::Debug, &[SrcLang, Lit, OptId, OptStr]),
    o(4, "OpSourceExtension", Sec::Debug, &[Str]),
    o(5, "OpName", Sec::Debug, &[Id, Str]),
    o(6, "OpMemberName", Sec::Debug, &[Id, Lit, Str]),
    o(7, "OpString", Sec::Debug, &[Res, Str]),
    o(10, "OpExtension", Sec::Extn, &[Str]),
    o(11, "OpExtInstImport", Sec::Imp, &[Import]),
    o(12, "OpExtInst", Sec::Code, &[Id, Res, Ext]),
    o(14, "OpMemoryModel", Sec::MemModel, &[En(&ADDRESSINGMODEL), En(&MEMORYMODEL)]),
    o(15, "OpEntryPoint", Sec::Entry, &[En(&EXECUTIONMODEL), Id, Str, Ids]),
    o(16, "OpExecutionMode", Sec::Mode, &[Id, Mode]),
    o(17, "OpCapability", Sec::Cap, &[En(&CAPABILITY)]),
    o(19, "OpTypeVoid", Sec::Global, &[Res]),
    o(20, "OpTypeBool", Sec::Global, &[Res]),
    o(21, "OpTypeInt", Sec::Global, &[Res, Lit, En(&SIGNEDNESS)]),
    o(22, "OpTypeFloat", Sec::Global, &[Res, Lit]),
    o(23, "OpTypeVector", Sec::Global, &[Res, Id, Lit]),
    o(24, "OpTypeMatrix", Sec::Global, &[Res, Id, Lit]),
    o(25, "OpTypeImage", Sec::Global, &[Res, Id, En(&DIM), En(&DEPTHSTATUS), En(&ARRAYED), En(&MS), En(&SAMPLEDSTATUS), En(&IMAGEFORMAT), OptEn(&ACCESSQUALIFIER)]),
    o(26, "OpTypeSampler", Sec::Global, &[Res]),
    o(27, "OpTypeSampledImage", Sec::Global, &[Res, Id]),
    o(28, "OpTypeArray", Sec::Global, &[Res, Id, Id]),
    o(29, "OpTypeRuntimeArray", Sec::Global, &[Res, Id]),
    o(30, "OpTypeStruct", Sec::Global, &[Res, Ids]),
    o(31, "OpTypeOpaque", Sec::Global, &[Res, Str]),
    o(32, "OpTypePointer", Sec::Global, &[Res, En(&STORAGECLASS), Id]),
    o(33, "OpTypeFunction", Sec::Global, &[Res, Id, Ids]),
    o(43, "OpConstant", Sec::Global, &[Id, Res, Words]),
    o(44, "OpConstantComposite", Sec::Global, &[Id, Res, Ids]),
    o(54, "OpFunction", Sec::Func, &[Id, Res, FnCtl, Id]),
    o(55, "OpFunctionParameter", Sec::Param, &[Id, Res]),
    o(56, "OpFunctionEnd", Sec::End, &[]),
    o(59, "OpVariable", Sec::Var, &[Id, Res, En(&STORAGECLASS), OptId]),
    o(61, "OpLoad", Sec::Code, &[Id, Res, Id, MemAccOpt]),
    o(62, "OpStore", Sec::Code, &[Id, Id, MemAccOpt]),
    o(65, "OpAccessChain", Sec::Code, &[Id, Res, Id, Ids]),
    o(71, "OpDecorate", Sec::Anno, &[Id, Deco]),
    o(72, "OpMemberDecorate", Sec::Anno, &[Id, Lit, Deco]),
    o(112, "OpConvertUToF", Sec::Code, UN),
    o(124, "OpBitcast", Sec::Code, UN),
    o(128, "OpIAdd", Sec::Code, BIN), o(129, "OpFAdd", Sec::Code, BIN), o(130, "OpISub", Sec::Code, BIN), o(131, "OpFSub", Sec::Code, BIN),
    o(132, "OpIMul", Sec::Code, BIN), o(133, "OpFMul", Sec::Code, BIN), o(134, "OpUDiv", Sec::Code, BIN), o(135, "OpSDiv", Sec::Code, BIN),
    o(136, "OpFDiv", Sec::Code, BIN), o(137, "OpUMod", Sec::Code, BIN), o(138, "OpSRem", Sec::Code, BIN), o(139, "OpSMod", Sec::Code, BIN),
    o(140, "OpFRem", Sec::Code, BIN), o(141, "OpFMod", Sec::Code, BIN),
    o(149, "OpIAddCarry", Sec::Code, BIN), o(150, "OpISubBorrow", Sec::Code, BIN), o(151, "OpUMulExtended", Sec::Code, BIN), o(152, "OpSMulExtended", Sec::Code, BIN),
    o(170, "OpIEqual", Sec::Code, BIN), o(171, "OpINotEqual", Sec::Code, BIN), o(172, "OpUGreaterThan", Sec::Code, BIN), o(173, "OpSGreaterThan", Sec::Code, BIN),
    o(174, "OpUGreaterThanEqual", Sec::Code, BIN), o(175, "OpSGreaterThanEqual", Sec::Code, BIN), o(176, "OpULessThan", Sec::Code, BIN), o(177, "OpSLessThan", Sec::Code, BIN),
    o(178, "OpULessThanEqual", Sec::Code, BIN), o(179, "OpSLessThanEqual", Sec::Code, BIN), o(180, "OpFOrdEqual", Sec::Code, BIN), o(181, "OpFUnordEqual", Sec::Code, BIN),
    o(182, "OpFOrdNotEqual", Sec::Code, BIN), o(183, "OpFUnordNotEqual", Sec::Code, BIN), o(184, "OpFOrdLessThan", Sec::Code, BIN), o(185, "OpFUnordLessThan", Sec::Code, BIN),
    o(186, "OpFOrdGreaterThan", Sec::Code, BIN), o(187, "OpFUnordGreaterThan", Sec::Code, BIN), o(188, "OpFOrdLessThanEqual", Sec::Code, BIN), o(189, "OpFUnordLessThanEqual", Sec::Code, BIN),
    o(190, "OpFOrdGreaterThanEqual", Sec::Code, BIN), o(191, "OpFUnordGreaterThanEqual", Sec::Code, BIN),
    o(197, "OpBitwiseOr", Sec::Code, BIN), o(198, "OpBitwiseXor", Sec::Code, BIN), o(199, "OpBitwiseAnd", Sec::Code, BIN),
    o(245, "OpPhi", Sec::Code, &[Id, Res, Phis]),
    o(246, "OpLoopMerge", Sec::Merge, &[Id, Id, LoopCtl]),
    o(247, "OpSelectionMerge", Sec::Merge, &[Id, SelCtl]),
    o(248, "OpLabel", Sec::Label, &[Res]),
    o(249, "OpBranch", Sec::Branch, &[Id]),
    o(250, "OpBranchConditional", Sec::Branch, &[Id, Id, Id, WeightsOpt]),
    o(253, "OpReturn", Sec::Branch, &[]),
];

/// Instructions the layout pass knows but the reader does not decode (handed over as values).
pub static LAYOUT_ONLY: &[OpSpec] = &[
    o(34, "OpTypeEvent", Sec::Global, &[Res]),
    o(35, "OpTypeDeviceEvent", Sec::Global, &[Res]),
    o(37, "OpTypeQueue", Sec::Global, &[Res]),
    o(38, "OpTypePipe", Sec::Global, &[Res, En(&ACCESSQUALIFIER)]),
    o(39, "OpTypeForwardPointer", Sec::Global, &[Id, En(&STORAGECLASS)]),
];

fn table() -> &'static [Option<&'static OpSpec>; 512] {
    static T: std::sync::OnceLock<[Option<&'static OpSpec>; 512]> = std::sync::OnceLock::new();
    T.get_or_init(|| { let mut t = [None; 512]; for s in OPS { t[s.op as usize] = Some(s); } t })
}
pub fn op_spec(op: u16) -> Option<&'static OpSpec> { if (op as usize) < 512 { table()[op as usize] } else { None } }
pub fn op_named(name: &str) -> &'static OpSpec { OPS.iter().find(|s| s.name == name).expect("op") }
fn unimplemented_name(op: u16) -> Option<&'static str> { UNIMPLEMENTED.iter().find(|x| x.0 == op).map(|x| x.1) }

pub const MAGIC: u32 = 0x0723_0203;

/// Decorations with one literal operand.
pub static DECO_LIT: &[(u32, &str)] = &[
    (1, "SpecId"), (6, "ArrayStride"), (7, "MatrixStride"), (29, "Stream"), (30, "Location"), (31, "Component"), (32, "Index"),
    (33, "Binding"), (34, "DescriptorSet"), (35, "Offset"), (36, "XfbBuffer"), (37, "XfbStride"), (43, "InputAttachmentIndex"), (44, "Alignment"),
];

#[derive(Clone)]
pub struct Decoded {
    pub op: u16,
    pub text: String,
    pub canon: Vec<u32>,
    /// Which handler decoded it (extended instructions).
    pub tag: Option<u32>,
}

pub struct Env<'a> {
    pub handlers: &'a [HSpec],
    pub plan: &'a Plan,
    pub bound: BTreeMap<u32, usize>,
    pub calls: Vec<Call>,
    /// Read the alignment literal that the Aligned memory-access bit carries by specification.
    pub spec_aligned: bool,
}

pub enum Fail { Errs(Vec<ReadError>), Panic(u64) }
impl From<ReadError> for Fail { fn from(e: ReadError) -> Fail { Fail::Errs(vec![e]) } }

struct Cur<'a> { w: &'a [u32], at: usize }
impl<'a> Cur<'a> {
    fn word(&mut self) -> Result<u32, Fail> {
        if self.at < self.w.len() { self.at += 1; Ok(self.w[self.at - 1]) } else { Err(ReadError::UnexpectedEndOfInstruction.into()) }
    }
    fn left(&self) -> usize { self.w.len() - self.at }
}

fn flag_text(v: u32, names: &[(u32, &str)]) -> String {
    let parts: Vec<&str> = names.iter().filter(|n| v & n.0 != 0).map(|n| n.1).collect();
    if parts.is_empty() { "None".into() } else { parts.join(" | ") }
}

fn enum_name(t: &EnumTab, v: u32) -> Result<&'static str, Fail> {
    match t.vals.iter().find(|x| x.0 == v) { Some(x) => Ok(x.1), None => Err((t.err)(v).into()) }
}

pub fn selection_text(v: u32) -> String { flag_text(v, &[(1, "Flatten"), (2, "DontFlatten")]) }
pub fn loop_text(v: u32, len: Option<u32>) -> String {
    let mut parts: Vec<String> = Vec::new();
    for (b, n) in [(1, "Unroll"), (2, "DontUnroll"), (4, "DependencyInfinite")] { if v & b != 0 { parts.push(n.into()); } }
    if let Some(n) = len { parts.push(format!("DependencyLength({})", n)); }
    if parts.is_empty() { "None".into() } else { parts.join(" | ") }
}

/// Reads a string; zeroes what lies behind the terminator in `canon`.
fn string(c: &mut Cur, canon: &mut [u32]) -> Result<String, Fail> {
    let mut bytes = Vec::new();
    loop {
        let w = c.word()?;
        let b = w.to_le_bytes();
        match b.iter().position(|x| *x == 0) {
            Some(p) => {
                bytes.extend_from_slice(&b[..p]);
                canon[c.at] = if p == 0 { 0 } else { w & (u32::MAX >> (32 - 8 * p as u32)) };
                break;
            }
            None => bytes.extend_from_slice(&b),
        }
    }
    String::from_utf8(bytes).map_err(|_| ReadError::InvalidString.into())
}

/// Decode one framed instruction (`w[0]` is its head).
pub fn decode(w: &[u32], env: &mut Env) -> Result<Decoded, Fail> {
    let op = (w[0] & 0xFFFF) as u16;
    let wc = (w[0] >> 16) as u16;
    let spec = match op_spec(op) {
        Some(s) => s,
        None => return Err(match unimplemented_name(op) { Some(n) => ReadError::UnimplementedOp(n), None => ReadError::UnknownOp(op, wc) }.into()),
    };
    let mut canon = w.to_vec();
    let mut c = Cur { w: &w[1..], at: 0 };
    let mut args = String::new();
    let mut result = None;
    let mut tag = None;
    macro_rules! arg { ($($x:tt)*) => {{ args.push(' '); args.push_str(&format!($($x)*)); }} }
    for k in spec.ks {
        match *k {
            Id => arg!("%{}", c.word()?),
            Res => result = Some(c.word()?),
            Lit => arg!("{}", c.word()?),
            Str => { let s = string(&mut c, &mut canon)?; arg!("\"{}\"", s) }
            OptId => if c.left() > 0 { arg!("%{}", c.word()?) },
            OptStr => if c.left() > 0 { let s = string(&mut c, &mut canon)?; arg!("\"{}\"", s) },
            Ids => while c.left() > 0 { arg!("%{}", c.word()?) },
            Words => while c.left() > 0 { arg!("{}", c.word()?) },
            Phis => while c.left() > 0 { let v = c.word()?; let p = c.word()?; arg!("%{} %{}", v, p) },
            En(t) => { let v = c.word()?; arg!("{}", enum_name(t, v)?) }
            OptEn(t) => if c.left() > 0 { let v = c.word()?; arg!("{}", enum_name(t, v)?) },
            SrcLang => {
                let v = c.word()?;
                match v { 0 => arg!("Unknown"), 1 => arg!("ESSL"), 2 => arg!("GLSL"), 3 => arg!("OpenCL_C"), 4 => arg!("OpenCL_CPP"), n => arg!("Unknown({})", n) }
            }
            MemAccOpt => if c.left() > 0 {
                let v = c.word()?;
                if v & !7 != 0 { return Err(ReadError::UnknownMemoryAccess(v).into()); }
                arg!("{}", flag_text(v, &[(1, "Volatile"), (2, "Aligned"), (4, "Nontemporal")]));
                if env.spec_aligned && v & 2 != 0 { arg!("{}", c.word()?) }
            },
            FnCtl => {
                let v = c.word()?;
                if v & !0xF != 0 { return Err(ReadError::UnknownFunctionControl(v).into()); }
                arg!("{}", flag_text(v, &[(1, "Inline"), (2, "DontInline"), (4, "Pure"), (8, "Const")]))
            }
            LoopCtl => {
                let v = c.word()?;
                if v & !0xF != 0 { return Err(ReadError::UnknownLoopControl(v).into()); }
                let len = if v & 8 != 0 { Some(c.word()?) } else { None };
                arg!("{}", loop_text(v, len))
            }
            SelCtl => {
                let v = c.word()?;
                if v & !3 != 0 { return Err(ReadError::UnknownSelectionControl(v).into()); }
                arg!("{}", selection_text(v))
            }
            WeightsOpt => if c.left() > 0 { let t = c.word()?; let f = c.word()?; arg!("{} {}", t, f) },
            Deco => {
                let v = c.word()?;
                if let Some(d) = DECORATION_PLAIN.iter().find(|d| d.0 == v) { arg!("{}", d.1) }
                else if let Some(d) = DECO_LIT.iter().find(|d| d.0 == v) { let n = c.word()?; arg!("{} {}", d.1, n) }
                else {
                    match v {
                        11 => { let b = c.word()?; arg!("BuiltIn {}", enum_name(&BUILTIN, b)?) }
                        38 => { let b = c.word()?; arg!("FuncParamAttr {}", enum_name(&FUNCTIONPARAMETERATTRIBUTE, b)?) }
                        39 => { let b = c.word()?; arg!("FpRoundingMode {}", enum_name(&FPROUNDINGMODE, b)?) }
                        40 => {
                            let b = c.word()?;
                            if b & !0x1F != 0 { return Err(ReadError::UnknownFpFastMathMode(b).into()); }
                            arg!("FpFastMathMode {}", flag_text(b, &[(1, "NotNaN"), (2, "NotInf"), (4, "NSZ"), (8, "AllowRecip"), (16, "Fast")]))
                        }
                        41 => { let s = string(&mut c, &mut canon)?; let l = c.word()?; arg!("LinkageAttributes {} {}", s, enum_name(&LINKAGETYPE, l)?) }
                        n => return Err(ReadError::UnknownDecoration(n).into()),
                    }
                }
            }
            Mode => {
                let v = c.word()?;
                if let Some(d) = EXECMODE_PLAIN.iter().find(|d| d.0 == v) { arg!("{}", d.1) }
                else {
                    match v {
                        0 => { let n = c.word()?; arg!("Invocations {}", n) }
                        17 | 18 => { let (x, y, z) = (c.word()?, c.word()?, c.word()?); arg!("{} {} {} {}", if v == 17 { "LocalSize" } else { "LocalSizeHint" }, x, y, z) }
                        26 => { let n = c.word()?; arg!("OutputVerticies {}", n) }
                        30 => { let n = c.word()?; arg!("VecTypeHint %{}", n) }
                        n => return Err(ReadError::UnknownExecutionMode(n).into()),
                    }
                }
            }
            Import => {
                let id = c.word()?;
                let name = string(&mut c, &mut canon)?;
                result = Some(id);
                let excess = c.left() > 0;
                let mut errs = Vec::new();
                match handlers::find(env.handlers, &name) {
                    Some(h) => {
                        if env.bound.contains_key(&id) { errs.push(ReadError::DuplicateResultId(ResultId(id))); }
                        env.bound.insert(id, h);
                    }
                    None => errs.push(ReadError::UnknownInstSet(name.clone())),
                }
                if !errs.is_empty() {
                    if excess { errs.push(ReadError::InstructionHadExcessData); }
                    return Err(Fail::Errs(errs));
                }
                arg!("\"{}\"", name)
            }
            Ext => {
                let set = c.word()?;
                let inst = c.word()?;
                arg!("%{}", set);
                let h = match env.bound.get(&set) { Some(h) => *h, None => return Err(ReadError::UnknownInstSetId(OpId(set)).into()) };
                let rest = &c.w[c.at..];
                let (used, text) = handlers::model(&env.handlers[h], inst, rest, env.plan, &mut env.calls)?;
                c.at += used;
                tag = Some(env.handlers[h].tag);
                arg!("{}", text)
            }
        }
    }
    if c.left() > 0 { return Err(ReadError::InstructionHadExcessData.into()); }
    let text = match result {
        Some(id) => format!("{:>12} = {}{}", format!("%{}", id), spec.name, args),
        None => format!("{}{}{}", " ".repeat(15), spec.name, args),
    };
    Ok(Decoded { op, text, canon, tag })
}

pub struct RefModule { pub head: [u32; 5], pub insts: Vec<Decoded> }
impl RefModule {
    pub fn text(&self) -> String {
        let mut s = header_text(&self.head);
        for i in &self.insts { s.push_str(&i.text); s.push('\n'); }
        s
    }
}

pub fn header_text(h: &[u32; 5]) -> String {
    let tool = match h[2] >> 16 {
        0 => "Khronos", 1 => "LunarG", 2 => "Valve", 3 => "Codeplay", 4 => "NVIDIA", 5 => "ARM",
        6 => "Khronos LLVM/SPIR-V Translator", 7 => "Khronos SPIR-V Tools Assembler", 8 => "Khronos Glslang Reference Front End",
        9 => "Qualcomm", 10 => "AMD", 11 => "Intel", _ => "Unknown",
    };
    format!("; SPIR-V\n; Version: 1.0\n; Generator: {}; {}\n; Bound: {}\n; Schema: 0\n", tool, h[2] & 0xFFFF, h[3])
}

pub struct RefOut {
    pub out: Result<RefModule, Fail>,
    pub calls: Vec<Call>,
    /// Instructions decoded before the failure, the failing one's index and its words.
    pub good: Vec<Decoded>,
    pub bad_words: Vec<u32>,
    /// Word offset of the first undecodable place.
    pub bad_at: usize,
}

pub fn ref_read(bytes: &[u8], handlers: &[HSpec], plan: &Plan, spec_aligned: bool) -> RefOut {
    let mut env = Env { handlers, plan, bound: BTreeMap::new(), calls: Vec::new(), spec_aligned };
    let mut good = Vec::new();
    let mut bad_words = Vec::new();
    let mut at = 0usize;
    let out = read_inner(bytes, &mut env, &mut good, &mut bad_words, &mut at);
    match out {
        Ok(head) => RefOut { out: Ok(RefModule { head, insts: good.clone() }), calls: env.calls, good, bad_words, bad_at: at },
        Err(e) => RefOut { out: Err(e), calls: env.calls, good, bad_words, bad_at: at },
    }
}

fn read_inner(bytes: &[u8], env: &mut Env, good: &mut Vec<Decoded>, bad: &mut Vec<u32>, at: &mut usize) -> Result<[u32; 5], Fail> {
    let nw = bytes.len() / 4;
    let torn = || -> ReadError { if bytes.len() % 4 != 0 { ReadError::UnexpectedStreamAlignment } else { ReadError::UnexpectedEndOfStream } };
    if nw == 0 { return Err(torn().into()); }
    let le = |i: usize| u32::from_le_bytes([bytes[4 * i], bytes[4 * i + 1], bytes[4 * i + 2], bytes[4 * i + 3]]);
    let first = le(0);
    let swap = if first == MAGIC { false } else if first == MAGIC.swap_bytes() { true } else { return Err(ReadError::BadMagic.into()) };
    let get = |i: usize| if swap { le(i).swap_bytes() } else { le(i) };
    let mut head = [MAGIC; 5];
    for i in 1..5 {
        *at = i;
        if i >= nw { return Err(torn().into()); }
        head[i] = get(i);
        if i == 1 && head[1] != 0x0001_0000 {
            let b = head[1].to_be_bytes();
            return Err(ReadError::UnknownVersionBytes(b[0], b[1], b[2], b[3]).into());
        }
        if i == 4 && head[4] != 0 { return Err(ReadError::UnknownReservedSchema.into()); }
    }
    let mut i = 5;
    loop {
        *at = i;
        if i == nw {
            if bytes.len() % 4 != 0 { return Err(torn().into()); }
            return Ok(head);
        }
        let h = get(i);
        let wc = (h >> 16) as usize;
        let op = (h & 0xFFFF) as u16;
        let odd_op = || match (op_spec(op), unimplemented_name(op)) {
            (None, Some(n)) => Some(ReadError::UnimplementedOp(n)),
            (None, None) => Some(ReadError::UnknownOp(op, wc as u16)),
            _ => None,
        };
        *bad = vec![h];
        if wc == 0 {
            let mut errs = vec![ReadError::WrongWordCountForOp];
            errs.extend(odd_op());
            return Err(Fail::Errs(errs));
        }
        if i + wc > nw {
            let mut errs = vec![torn()];
            errs.extend(odd_op());
            return Err(Fail::Errs(errs));
        }
        let words: Vec<u32> = (i..i + wc).map(get).collect();
        *bad = words.clone();
        good.push(decode(&words, env)?);
        i += wc;
    }
}
