//! Re-encodes what the library hands out (instructions and layout groups) to canonical words, so that
//! decoded values can be compared with stored words without trusting the library's own equality.

use crate::handlers::SimInst;
use crate::tables::*;
use magmaflow::glsl450;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::{Core, RawModule};
use magmaflow::spv::types::*;
use magmaflow::spv::ExtInstBox;

pub trait Enc { fn enc(&self, o: &mut Vec<u32>); }
/// Instructions: full words including the head. None when something is not representable.
pub trait EncOp { fn words(&self) -> Vec<u32>; }

impl Enc for u32 { fn enc(&self, o: &mut Vec<u32>) { o.push(*self) } }
impl Enc for OpId { fn enc(&self, o: &mut Vec<u32>) { o.push(self.0) } }
impl Enc for ResultId { fn enc(&self, o: &mut Vec<u32>) { o.push(self.0) } }
impl Enc for MemberIndex { fn enc(&self, o: &mut Vec<u32>) { o.push(self.0) } }
impl Enc for SourceVersion { fn enc(&self, o: &mut Vec<u32>) { o.push(self.0) } }
impl Enc for String {
    fn enc(&self, o: &mut Vec<u32>) {
        let b = self.as_bytes();
        for i in 0..b.len() / 4 + 1 {
            let mut w = [0u8; 4];
            for k in 0..4 { if 4 * i + k < b.len() { w[k] = b[4 * i + k]; } }
            o.push(u32::from_le_bytes(w));
        }
    }
}
impl<T: Enc> Enc for Option<T> { fn enc(&self, o: &mut Vec<u32>) { if let Some(ref x) = *self { x.enc(o) } } }
impl<T: Enc> Enc for Vec<T> { fn enc(&self, o: &mut Vec<u32>) { for x in self { x.enc(o) } } }
macro_rules! enc_enum { ($($t:ident $f:ident),*) => { $(impl Enc for $t { fn enc(&self, o: &mut Vec<u32>) { o.push($f(self)) } })* } }
enc_enum!(AddressingModel enc_addressingmodel, MemoryModel enc_memorymodel, ExecutionModel enc_executionmodel, Capability enc_capability,
    Signedness enc_signedness, Dim enc_dim, DepthStatus enc_depthstatus, Arrayed enc_arrayed, MS enc_ms, SampledStatus enc_sampledstatus,
    ImageFormat enc_imageformat, AccessQualifier enc_accessqualifier, StorageClass enc_storageclass, BuiltIn enc_builtin,
    FunctionParameterAttribute enc_functionparameterattribute, FpRoundingMode enc_fproundingmode, LinkageType enc_linkagetype);
impl Enc for SourceLanguage {
    fn enc(&self, o: &mut Vec<u32>) {
        #[allow(unreachable_patterns)]
        o.push(match *self {
            SourceLanguage::Unknown => 0, SourceLanguage::Essl => 1, SourceLanguage::Glsl => 2, SourceLanguage::OpenCL_C => 3, SourceLanguage::OpenCL_Cpp => 4,
            // A known language must not hide behind Other.
            SourceLanguage::Other(n) => if n < 5 { 0xFFFF_0000 | n } else { n },
            _ => 0xFFFF_FFFF,
        })
    }
}
fn bits(b: &[bool]) -> u32 { b.iter().enumerate().map(|(i, x)| (*x as u32) << i).sum() }
impl Enc for MemoryAccess { fn enc(&self, o: &mut Vec<u32>) { o.push(bits(&[self.volatile, self.aligned, self.non_temporal])) } }
impl Enc for FunctionControl { fn enc(&self, o: &mut Vec<u32>) { o.push(bits(&[self.inline, self.dont_inline, self.pure_function, self.const_function])) } }
impl Enc for FpFastMathMode { fn enc(&self, o: &mut Vec<u32>) { o.push(bits(&[self.not_nan, self.not_inf, self.nsz, self.allow_recip, self.fast])) } }
impl Enc for SelectionControl { fn enc(&self, o: &mut Vec<u32>) { o.push(bits(&[self.flatten, self.dont_flatten])) } }
impl Enc for LoopControl {
    fn enc(&self, o: &mut Vec<u32>) {
        o.push(bits(&[self.unroll, self.dont_unroll, self.dependency_infinite, self.dependency_length.is_some()]));
        self.dependency_length.enc(o)
    }
}
impl Enc for BranchWeights { fn enc(&self, o: &mut Vec<u32>) { o.push(self.true_weight); o.push(self.false_weight) } }
impl Enc for PhiArg { fn enc(&self, o: &mut Vec<u32>) { self.variable.enc(o); self.parent.enc(o) } }
impl Enc for Decoration {
    fn enc(&self, o: &mut Vec<u32>) {
        if let Some(n) = enc_plain_decoration(self) { o.push(n); return; }
        macro_rules! lit { ($($v:ident $n:expr),*) => { #[allow(unreachable_patterns)] match *self {
            $(Decoration::$v(ref x) => { o.push($n); x.enc(o) })*
            Decoration::LinkageAttributes(ref s, ref l) => { o.push(41); s.enc(o); l.enc(o) }
            _ => o.push(0xFFFF_FFFF),
        } } }
        lit!(SpecId 1, ArrayStride 6, MatrixStride 7, BuiltIn 11, Stream 29, Location 30, Component 31, Index 32, Binding 33, DescriptorSet 34,
            Offset 35, XfbBuffer 36, XfbStride 37, FuncParamAttr 38, FpRoundingMode 39, FpFastMathMode 40, InputAttachmentIndex 43, Alignment 44)
    }
}
impl Enc for ExecutionMode {
    fn enc(&self, o: &mut Vec<u32>) {
        if let Some(n) = enc_plain_executionmode(self) { o.push(n); return; }
        #[allow(unreachable_patterns)]
        match *self {
            ExecutionMode::Invocations(ref n) => { o.push(0); n.enc(o) }
            ExecutionMode::LocalSize(ref x, ref y, ref z) => { o.push(17); x.enc(o); y.enc(o); z.enc(o) }
            ExecutionMode::LocalSizeHint(ref x, ref y, ref z) => { o.push(18); x.enc(o); y.enc(o); z.enc(o) }
            ExecutionMode::OutputVerticies(ref n) => { o.push(26); n.enc(o) }
            ExecutionMode::VecTypeHint(ref n) => { o.push(30); n.enc(o) }
            _ => o.push(0xFFFF_FFFF),
        }
    }
}
impl Enc for ExtInstBox {
    fn enc(&self, o: &mut Vec<u32>) {
        let any = self.as_ref().as_any();
        if let Some(s) = any.downcast_ref::<SimInst>() { o.push(s.inst); s.words.enc(o) }
        else if let Some(g) = any.downcast_ref::<glsl450::Inst>() {
            #[allow(unreachable_patterns)]
            match *g { glsl450::Inst::Sin(ref s) => { o.push(13); s.x.enc(o) } glsl450::Inst::Cos(ref s) => { o.push(14); s.x.enc(o) } _ => o.push(0xFFFF_FFFF) }
        } else { o.push(0xFFFF_FFFF) }
    }
}
/// Tag of the handler that made an extended instruction.
pub fn ext_tag(c: &Core) -> Option<u32> {
    if let Core::OpExtInst(ref op) = *c {
        let any = op.instruction.as_ref().as_any();
        if let Some(s) = any.downcast_ref::<SimInst>() { return Some(s.tag); }
        if any.downcast_ref::<glsl450::Inst>().is_some() { return Some(crate::handlers::GLSL_TAG); }
        return Some(u32::MAX);
    }
    None
}

fn finish(op: u32, mut w: Vec<u32>) -> Vec<u32> { w[0] = ((w.len() as u32) << 16) | op; w }
macro_rules! enc_op {
    ($t:ident, $n:expr $(, $f:ident)*) => {
        impl EncOp for $t { #[allow(unused_mut)] fn words(&self) -> Vec<u32> { let mut w = vec![0]; $(self.$f.enc(&mut w);)* finish($n, w) } }
    };
}
enc_op!(OpNop, 0);
enc_op!(OpUndef, 1, result_type, result_id);
enc_op!(OpSourceContinued, 2, continued_source);
enc_op!(OpSource, 3, language, version, file, source);
enc_op!(OpSourceExtension, 4, extension);
enc_op!(OpName, 5, target, name);
enc_op!(OpMemberName, 6, struct_type, member, name);
enc_op!(OpString, 7, result_id, string);
enc_op!(OpExtension, 10, name);
enc_op!(OpMemoryModel, 14, addressing_model, memory_model);
enc_op!(OpEntryPoint, 15, execution_model, entry_point, name, interface);
enc_op!(OpExecutionMode, 16, entry_point, mode);
enc_op!(OpCapability, 17, capability);
enc_op!(OpTypeVoid, 19, result_id);
enc_op!(OpTypeBool, 20, result_id);
enc_op!(OpTypeInt, 21, result_id, width, signedness);
enc_op!(OpTypeFloat, 22, result_id, width);
enc_op!(OpTypeVector, 23, result_id, component_type, component_count);
enc_op!(OpTypeMatrix, 24, result_id, column_type, column_count);
enc_op!(OpTypeImage, 25, result_id, sampled_type, dim, depth, arrayed, ms, sampled, format, access_qualifier);
enc_op!(OpTypeSampler, 26, result_id);
enc_op!(OpTypeSampledImage, 27, result_id, image_type);
enc_op!(OpTypeArray, 28, result_id, element_type, length);
enc_op!(OpTypeRuntimeArray, 29, result_id, element_type);
enc_op!(OpTypeStruct, 30, result_id, member_types);
enc_op!(OpTypeOpaque, 31, result_id, name);
enc_op!(OpTypePointer, 32, result_id, storage_class, pointed_type);
enc_op!(OpTypeFunction, 33, result_id, return_type, parameter_types);
enc_op!(OpConstant, 43, result_type, result_id, value);
enc_op!(OpConstantComposite, 44, result_type, result_id, constituents);
enc_op!(OpFunction, 54, result_type, result_id, function_control, function_type);
enc_op!(OpFunctionParameter, 55, result_type, result_id);
enc_op!(OpFunctionEnd, 56);
enc_op!(OpVariable, 59, result_type, result_id, storage_class, initializer);
enc_op!(OpLoad, 61, result_type, result_id, pointer, memory_access);
enc_op!(OpStore, 62, pointer, object, memory_access);
enc_op!(OpAccessChain, 65, result_type, result_id, base, indexes);
enc_op!(OpDecorate, 71, target, decoration);
enc_op!(OpMemberDecorate, 72, structure_type, member, decoration);
enc_op!(OpConvertUToF, 112, result_type, result_id, unsigned_value);
enc_op!(OpBitcast, 124, result_type, result_id, operand);
enc_op!(OpIAdd, 128, result_type, result_id, operand1, operand2);
enc_op!(OpFAdd, 129, result_type, result_id, operand1, operand2);
enc_op!(OpISub, 130, result_type, result_id, operand1, operand2);
enc_op!(OpFSub, 131, result_type, result_id, operand1, operand2);
enc_op!(OpIMul, 132, result_type, result_id, operand1, operand2);
enc_op!(OpFMul, 133, result_type, result_id, operand1, operand2);
enc_op!(OpUDiv, 134, result_type, result_id, operand1, operand2);
enc_op!(OpSDiv, 135, result_type, result_id, operand1, operand2);
enc_op!(OpFDiv, 136, result_type, result_id, operand1, operand2);
enc_op!(OpUMod, 137, result_type, result_id, operand1, operand2);
enc_op!(OpSRem, 138, result_type, result_id, operand1, operand2);
enc_op!(OpSMod, 139, result_type, result_id, operand1, operand2);
enc_op!(OpFRem, 140, result_type, result_id, operand1, operand2);
enc_op!(OpFMod, 141, result_type, result_id, operand1, operand2);
enc_op!(OpIAddCarry, 149, result_type, result_id, operand1, operand2);
enc_op!(OpISubBorrow, 150, result_type, result_id, operand1, operand2);
enc_op!(OpUMulExtended, 151, result_type, result_id, operand1, operand2);
enc_op!(OpSMulExtended, 152, result_type, result_id, operand1, operand2);
enc_op!(OpIEqual, 170, result_type, result_id, operand1, operand2);
enc_op!(OpINotEqual, 171, result_type, result_id, operand1, operand2);
enc_op!(OpUGreaterThan, 172, result_type, result_id, operand1, operand2);
enc_op!(OpSGreaterThan, 173, result_type, result_id, operand1, operand2);
enc_op!(OpUGreaterThanEqual, 174, result_type, result_id, operand1, operand2);
enc_op!(OpSGreaterThanEqual, 175, result_type, result_id, operand1, operand2);
enc_op!(OpULessThan, 176, result_type, result_id, operand1, operand2);
enc_op!(OpSLessThan, 177, result_type, result_id, operand1, operand2);
enc_op!(OpULessThanEqual, 178, result_type, result_id, operand1, operand2);
enc_op!(OpSLessThanEqual, 179, result_type, result_id, operand1, operand2);
enc_op!(OpFOrdEqual, 180, result_type, result_id, operand1, operand2);
enc_op!(OpFUnordEqual, 181, result_type, result_id, operand1, operand2);
enc_op!(OpFOrdNotEqual, 182, result_type, result_id, operand1, operand2);
enc_op!(OpFUnordNotEqual, 183, result_type, result_id, operand1, operand2);
enc_op!(OpFOrdLessThan, 184, result_type, result_id, operand1, operand2);
enc_op!(OpFUnordLessThan, 185, result_type, result_id, operand1, operand2);
enc_op!(OpFOrdGreaterThan, 186, result_type, result_id, operand1, operand2);
enc_op!(OpFUnordGreaterThan, 187, result_type, result_id, operand1, operand2);
enc_op!(OpFOrdLessThanEqual, 188, result_type, result_id, operand1, operand2);
enc_op!(OpFUnordLessThanEqual, 189, result_type, result_id, operand1, operand2);
enc_op!(OpFOrdGreaterThanEqual, 190, result_type, result_id, operand1, operand2);
enc_op!(OpFUnordGreaterThanEqual, 191, result_type, result_id, operand1, operand2);
enc_op!(OpBitwiseOr, 197, result_type, result_id, operand1, operand2);
enc_op!(OpBitwiseXor, 198, result_type, result_id, operand1, operand2);
enc_op!(OpBitwiseAnd, 199, result_type, result_id, operand1, operand2);
enc_op!(OpPhi, 245, result_type, result_id, variables);
enc_op!(OpLoopMerge, 246, merge_block, continue_target, loop_control);
enc_op!(OpSelectionMerge, 247, merge_block, selection_control);
enc_op!(OpLabel, 248, result_id);
enc_op!(OpBranch, 249, target_label);
enc_op!(OpBranchConditional, 250, condition, true_label, false_label, weights);
enc_op!(OpReturn, 253);
enc_op!(OpExtInstImport, 11, result_id, name);
enc_op!(OpExtInst, 12, result_type, result_id, set, instruction);
enc_op!(OpTypeEvent, 34, result_id);
enc_op!(OpTypeDeviceEvent, 35, result_id);
enc_op!(OpTypeQueue, 37, result_id);
enc_op!(OpTypePipe, 38, result_id, access_qualifier);
enc_op!(OpTypeForwardPointer, 39, pointer_type, storage_class);

macro_rules! enc_group {
    ($t:ident: $($v:ident)*) => {
        impl EncOp for $t { fn words(&self) -> Vec<u32> { #[allow(unreachable_patterns)] match *self { $($t::$v(ref x) => x.words(),)* _ => vec![0xFFFF_FFFF] } } }
    };
}
enc_group!(Core: OpNop OpUndef OpSourceContinued OpSource OpSourceExtension OpName OpMemberName OpString OpExtension OpExtInstImport OpExtInst OpMemoryModel OpEntryPoint OpExecutionMode OpCapability OpTypeVoid OpTypeBool OpTypeInt OpTypeFloat OpTypeVector OpTypeMatrix OpTypeImage OpTypeSampler OpTypeSampledImage OpTypeArray OpTypeRuntimeArray OpTypeStruct OpTypeOpaque OpTypePointer OpTypeFunction OpTypeEvent OpTypeDeviceEvent OpTypeQueue OpTypePipe OpTypeForwardPointer OpConstant OpConstantComposite OpFunction OpFunctionParameter OpFunctionEnd OpVariable OpLoad OpStore OpAccessChain OpDecorate OpMemberDecorate OpConvertUToF OpBitcast OpIAdd OpFAdd OpISub OpFSub OpIMul OpFMul OpUDiv OpSDiv OpFDiv OpUMod OpSRem OpSMod OpFRem OpFMod OpIAddCarry OpISubBorrow OpUMulExtended OpSMulExtended OpBitwiseOr OpBitwiseXor OpBitwiseAnd OpIEqual OpINotEqual OpUGreaterThan OpSGreaterThan OpUGreaterThanEqual OpSGreaterThanEqual OpULessThan OpSLessThan OpULessThanEqual OpSLessThanEqual OpFOrdEqual OpFUnordEqual OpFOrdNotEqual OpFUnordNotEqual OpFOrdLessThan OpFUnordLessThan OpFOrdGreaterThan OpFUnordGreaterThan OpFOrdLessThanEqual OpFUnordLessThanEqual OpFOrdGreaterThanEqual OpFUnordGreaterThanEqual OpPhi OpLoopMerge OpSelectionMerge OpLabel OpBranch OpBranchConditional OpReturn);
enc_group!(GroupDebug: OpSourceContinued OpSource OpSourceExtension OpName OpMemberName OpString);
enc_group!(GroupAnnotation: OpDecorate OpMemberDecorate);
enc_group!(GroupType: OpTypeVoid OpTypeBool OpTypeInt OpTypeFloat OpTypeVector OpTypeMatrix OpTypeImage OpTypeSampler OpTypeSampledImage OpTypeArray OpTypeRuntimeArray OpTypeStruct OpTypeOpaque OpTypePointer OpTypeFunction OpTypeEvent OpTypeDeviceEvent OpTypeQueue OpTypePipe OpTypeForwardPointer);
enc_group!(GroupConstant: OpConstant OpConstantComposite);
enc_group!(GroupGlobal: GroupType GroupConstant OpVariable);
enc_group!(GroupCode: OpNop OpUndef OpExtInst OpVariable OpLoad OpStore OpAccessChain OpConvertUToF OpBitcast OpIAdd OpFAdd OpISub OpFSub OpIMul OpFMul OpUDiv OpSDiv OpFDiv OpUMod OpSRem OpSMod OpFRem OpFMod OpIAddCarry OpISubBorrow OpUMulExtended OpSMulExtended OpBitwiseOr OpBitwiseXor OpBitwiseAnd OpIEqual OpINotEqual OpUGreaterThan OpSGreaterThan OpUGreaterThanEqual OpSGreaterThanEqual OpULessThan OpSLessThan OpULessThanEqual OpSLessThanEqual OpFOrdEqual OpFUnordEqual OpFOrdNotEqual OpFUnordNotEqual OpFOrdLessThan OpFUnordLessThan OpFOrdGreaterThan OpFUnordGreaterThan OpFOrdLessThanEqual OpFUnordLessThanEqual OpFOrdGreaterThanEqual OpFUnordGreaterThanEqual OpPhi);
enc_group!(GroupMerge: OpLoopMerge OpSelectionMerge);
enc_group!(GroupBranch: OpBranch OpBranchConditional OpReturn);

pub fn header(m: &RawModule) -> [u32; 5] {
    #[allow(unreachable_patterns)]
    let tool = match m.generator.tool {
        Tool::KhronosReserved => 0, Tool::LunarG => 1, Tool::Valve => 2, Tool::Codeplay => 3, Tool::Nvidia => 4, Tool::Arm => 5,
        Tool::KhronosLLvmTranslator => 6, Tool::KhronosAssembler => 7, Tool::KhronosGlslang => 8, Tool::Qualcomm => 9, Tool::Amd => 10, Tool::Intel => 11,
        // A known tool must not hide behind Other.
        Tool::Other(n) => if n < 12 { 0x1_0000 + n as u32 } else { n as u32 },
        _ => 0x1_FFFF,
    };
    [crate::spec::MAGIC, ((m.version.0 as u32) << 16) | ((m.version.1 as u32) << 8), tool.wrapping_shl(16) | m.generator.version as u32 | if tool > 0xFFFF { 0xDEAD } else { 0 }, m.bound, 0]
}
pub fn module_words(m: &RawModule) -> Vec<Vec<u32>> { m.instructions.iter().map(|c| c.words()).collect() }
