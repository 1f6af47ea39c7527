// Frozen vocabulary of SPIR-V 1.0 as modelled by the library (see tools/gen_tables.py).
// Numbers were reviewed against the SPIR-V 1.0 specification; names are the library's spelling.
use magmaflow::spv::raw::ReadError;
use magmaflow::spv::types::*;

pub struct EnumTab { pub name: &'static str, pub vals: &'static [(u32, &'static str)], pub err: fn(u32) -> ReadError }

pub static ADDRESSINGMODEL: EnumTab = EnumTab { name: "AddressingModel", err: ReadError::UnknownAddressingModel, vals: &[
    (0, "Logical"),
    (1, "Physical32"),
    (2, "Physical64"),
] };
pub fn enc_addressingmodel(v: &AddressingModel) -> u32 { match *v {
    AddressingModel::Logical => 0,
    AddressingModel::Physical32 => 1,
    AddressingModel::Physical64 => 2,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static MEMORYMODEL: EnumTab = EnumTab { name: "MemoryModel", err: ReadError::UnknownMemoryModel, vals: &[
    (0, "Simple"),
    (1, "GLSL450"),
    (2, "OpenCL"),
] };
pub fn enc_memorymodel(v: &MemoryModel) -> u32 { match *v {
    MemoryModel::Simple => 0,
    MemoryModel::Glsl450 => 1,
    MemoryModel::OpenCL => 2,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static EXECUTIONMODEL: EnumTab = EnumTab { name: "ExecutionModel", err: ReadError::UnknownExecutionModel, vals: &[
    (0, "Vertex"),
    (1, "TesselationControl"),
    (2, "TesselationEvaluation"),
    (3, "Geometry"),
    (4, "Fragment"),
    (5, "GLCompute"),
    (6, "Kernel"),
] };
pub fn enc_executionmodel(v: &ExecutionModel) -> u32 { match *v {
    ExecutionModel::Vertex => 0,
    ExecutionModel::TesselationControl => 1,
    ExecutionModel::TesselationEvaluation => 2,
    ExecutionModel::Geometry => 3,
    ExecutionModel::Fragment => 4,
    ExecutionModel::GlCompute => 5,
    ExecutionModel::Kernel => 6,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static CAPABILITY: EnumTab = EnumTab { name: "Capability", err: ReadError::UnknownCapability, vals: &[
    (0, "Matrix"),
    (1, "Shader"),
    (2, "Geometry"),
    (3, "Tessellation"),
    (4, "Addresses"),
    (5, "Linkage"),
    (6, "Kernel"),
    (7, "Vector16"),
    (8, "Float16Buffer"),
    (9, "Float16"),
    (10, "Float64"),
    (11, "Int64"),
    (12, "Int64Atomics"),
    (13, "ImageBasic"),
    (14, "ImageReadWrite"),
    (15, "ImageMipmap"),
    (17, "Pipes"),
    (18, "Groups"),
    (19, "DeviceEnqueue"),
    (20, "LiteralSampler"),
    (21, "AtomicStorage"),
    (22, "Int16"),
    (23, "TessellationPointSize"),
    (24, "GeometryPointSize"),
    (25, "ImageGatherExtended"),
    (27, "StorageImageMultisample"),
    (28, "UniformBufferArrayDynamicIndexing"),
    (29, "SampledImageArrayDynamicIndexing"),
    (30, "StorageBufferArrayDynamicIndexing"),
    (31, "StorageImageArrayDynamicIndexing"),
    (32, "ClipDistance"),
    (33, "CullDistance"),
    (34, "ImageCubeArray"),
    (35, "SampleRateShading"),
    (36, "ImageRect"),
    (37, "SampledRect"),
    (38, "GenericPointer"),
    (39, "Int8"),
    (40, "InputAttachment"),
    (41, "SparseResidency"),
    (42, "MinLod"),
    (43, "Sampled1D"),
    (44, "Image1D"),
    (45, "SampledCubeArray"),
    (46, "SampledBuffer"),
    (47, "ImageBuffer"),
    (48, "ImageMSArray"),
    (49, "StorageImageExtendedFormats"),
    (50, "ImageQuery"),
    (51, "DerivativeControl"),
    (52, "InterpolationFunction"),
    (53, "TransformFeedback"),
    (54, "GeometryStreams"),
    (55, "StorageImageReadWithoutFormat"),
    (56, "StorageImageWriteWithoutFormat"),
    (57, "MultiViewport"),
] };
pub fn enc_capability(v: &Capability) -> u32 { match *v {
    Capability::Matrix => 0,
    Capability::Shader => 1,
    Capability::Geometry => 2,
    Capability::Tessellation => 3,
    Capability::Addresses => 4,
    Capability::Linkage => 5,
    Capability::Kernel => 6,
    Capability::Vector16 => 7,
    Capability::Float16Buffer => 8,
    Capability::Float16 => 9,
    Capability::Float64 => 10,
    Capability::Int64 => 11,
    Capability::Int64Atomics => 12,
    Capability::ImageBasic => 13,
    Capability::ImageReadWrite => 14,
    Capability::ImageMipmap => 15,
    Capability::Pipes => 17,
    Capability::Groups => 18,
    Capability::DeviceEnqueue => 19,
    Capability::LiteralSampler => 20,
    Capability::AtomicStorage => 21,
    Capability::Int16 => 22,
    Capability::TessellationPointSize => 23,
    Capability::GeometryPointSize => 24,
    Capability::ImageGatherExtended => 25,
    Capability::StorageImageMultisample => 27,
    Capability::UniformBufferArrayDynamicIndexing => 28,
    Capability::SampledImageArrayDynamicIndexing => 29,
    Capability::StorageBufferArrayDynamicIndexing => 30,
    Capability::StorageImageArrayDynamicIndexing => 31,
    Capability::ClipDistance => 32,
    Capability::CullDistance => 33,
    Capability::ImageCubeArray => 34,
    Capability::SampleRateShading => 35,
    Capability::ImageRect => 36,
    Capability::SampledRect => 37,
    Capability::GenericPointer => 38,
    Capability::Int8 => 39,
    Capability::InputAttachment => 40,
    Capability::SparseResidency => 41,
    Capability::MinLod => 42,
    Capability::Sampled1D => 43,
    Capability::Image1D => 44,
    Capability::SampledCubeArray => 45,
    Capability::SampledBuffer => 46,
    Capability::ImageBuffer => 47,
    Capability::ImageMSArray => 48,
    Capability::StorageImageExtendedFormats => 49,
    Capability::ImageQuery => 50,
    Capability::DerivativeControl => 51,
    Capability::InterpolationFunction => 52,
    Capability::TransformFeedback => 53,
    Capability::GeometryStreams => 54,
    Capability::StorageImageReadWithoutFormat => 55,
    Capability::StorageImageWriteWithoutFormat => 56,
    Capability::MultiViewport => 57,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static SIGNEDNESS: EnumTab = EnumTab { name: "Signedness", err: ReadError::UnknownSignedness, vals: &[
    (0, "0"),
    (1, "1"),
] };
pub fn enc_signedness(v: &Signedness) -> u32 { match *v {
    Signedness::UnsignedOrNone => 0,
    Signedness::Signed => 1,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static DIM: EnumTab = EnumTab { name: "Dim", err: ReadError::UnknownDim, vals: &[
    (0, "1D"),
    (1, "2D"),
    (2, "3D"),
    (3, "Cube"),
    (4, "Rect"),
    (5, "Buffer"),
    (6, "SubpassData"),
] };
pub fn enc_dim(v: &Dim) -> u32 { match *v {
    Dim::Tex1D => 0,
    Dim::Tex2D => 1,
    Dim::Tex3D => 2,
    Dim::Cube => 3,
    Dim::Rect => 4,
    Dim::Buffer => 5,
    Dim::SubpassData => 6,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static DEPTHSTATUS: EnumTab = EnumTab { name: "DepthStatus", err: ReadError::UnknownDepthStatus, vals: &[
    (0, "0"),
    (1, "1"),
    (2, "2"),
] };
pub fn enc_depthstatus(v: &DepthStatus) -> u32 { match *v {
    DepthStatus::NotDepth => 0,
    DepthStatus::Depth => 1,
    DepthStatus::NoIndication => 2,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static ARRAYED: EnumTab = EnumTab { name: "Arrayed", err: ReadError::UnknownArrayed, vals: &[
    (0, "0"),
    (1, "1"),
] };
pub fn enc_arrayed(v: &Arrayed) -> u32 { match *v {
    Arrayed::False => 0,
    Arrayed::True => 1,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static MS: EnumTab = EnumTab { name: "MS", err: ReadError::UnknownMS, vals: &[
    (0, "0"),
    (1, "1"),
] };
pub fn enc_ms(v: &MS) -> u32 { match *v {
    MS::Single => 0,
    MS::Multi => 1,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static SAMPLEDSTATUS: EnumTab = EnumTab { name: "SampledStatus", err: ReadError::UnknownSampledStatus, vals: &[
    (0, "0"),
    (1, "1"),
    (2, "2"),
] };
pub fn enc_sampledstatus(v: &SampledStatus) -> u32 { match *v {
    SampledStatus::RuntimeChoice => 0,
    SampledStatus::WithSampler => 1,
    SampledStatus::WithoutSampler => 2,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static IMAGEFORMAT: EnumTab = EnumTab { name: "ImageFormat", err: ReadError::UnknownImageFormat, vals: &[
    (0, "Unknown"),
    (1, "Rgba32f"),
    (2, "Rgba16f"),
    (3, "R32f"),
    (4, "Rgba8"),
    (5, "Rgba8Snorm"),
    (6, "Rg32f"),
    (7, "Rg16f"),
    (8, "R11fG11fB10f"),
    (9, "R16f"),
    (10, "Rgba16"),
    (11, "Rgb10A2"),
    (12, "Rg16"),
    (13, "Rg8"),
    (14, "R16"),
    (15, "R8"),
    (16, "Rgba16Snorm"),
    (17, "Rg16Snorm"),
    (18, "Rg8Snorm"),
    (19, "R16Snorm"),
    (20, "R8Snorm"),
    (21, "Rgba32i"),
    (22, "Rgba16i"),
    (23, "Rgba8i"),
    (24, "R32i"),
    (25, "Rg32i"),
    (26, "Rg16i"),
    (27, "Rg8i"),
    (28, "R16i"),
    (29, "R8i"),
    (30, "Rgba32ui"),
    (31, "Rgba16ui"),
    (32, "Rgba8ui"),
    (33, "R32ui"),
    (34, "Rgb10a2ui"),
    (35, "Rg32ui"),
    (36, "Rg16ui"),
    (37, "Rg8ui"),
    (38, "R16ui"),
    (39, "R8ui"),
] };
pub fn enc_imageformat(v: &ImageFormat) -> u32 { match *v {
    ImageFormat::Unknown => 0,
    ImageFormat::Rgba32f => 1,
    ImageFormat::Rgba16f => 2,
    ImageFormat::R32f => 3,
    ImageFormat::Rgba8 => 4,
    ImageFormat::Rgba8Snorm => 5,
    ImageFormat::Rg32f => 6,
    ImageFormat::Rg16f => 7,
    ImageFormat::R11fG11fB10f => 8,
    ImageFormat::R16f => 9,
    ImageFormat::Rgba16 => 10,
    ImageFormat::Rgb10A2 => 11,
    ImageFormat::Rg16 => 12,
    ImageFormat::Rg8 => 13,
    ImageFormat::R16 => 14,
    ImageFormat::R8 => 15,
    ImageFormat::Rgba16Snorm => 16,
    ImageFormat::Rg16Snorm => 17,
    ImageFormat::Rg8Snorm => 18,
    ImageFormat::R16Snorm => 19,
    ImageFormat::R8Snorm => 20,
    ImageFormat::Rgba32i => 21,
    ImageFormat::Rgba16i => 22,
    ImageFormat::Rgba8i => 23,
    ImageFormat::R32i => 24,
    ImageFormat::Rg32i => 25,
    ImageFormat::Rg16i => 26,
    ImageFormat::Rg8i => 27,
    ImageFormat::R16i => 28,
    ImageFormat::R8i => 29,
    ImageFormat::Rgba32ui => 30,
    ImageFormat::Rgba16ui => 31,
    ImageFormat::Rgba8ui => 32,
    ImageFormat::R32ui => 33,
    ImageFormat::Rgb10a2ui => 34,
    ImageFormat::Rg32ui => 35,
    ImageFormat::Rg16ui => 36,
    ImageFormat::Rg8ui => 37,
    ImageFormat::R16ui => 38,
    ImageFormat::R8ui => 39,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static ACCESSQUALIFIER: EnumTab = EnumTab { name: "AccessQualifier", err: ReadError::UnknownAccessQualifier, vals: &[
    (0, "ReadOnly"),
    (1, "WriteOnly"),
    (2, "ReadWrite"),
] };
pub fn enc_accessqualifier(v: &AccessQualifier) -> u32 { match *v {
    AccessQualifier::ReadOnly => 0,
    AccessQualifier::WriteOnly => 1,
    AccessQualifier::ReadWrite => 2,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static STORAGECLASS: EnumTab = EnumTab { name: "StorageClass", err: ReadError::UnknownStorageClass, vals: &[
    (0, "UniformConstant"),
    (1, "Input"),
    (2, "Uniform"),
    (3, "Output"),
    (4, "Workgroup"),
    (5, "CrossWorkgroup"),
    (6, "Private"),
    (7, "Function"),
    (8, "Generic"),
    (9, "PushConstant"),
    (10, "AtomicCounter"),
    (11, "Image"),
] };
pub fn enc_storageclass(v: &StorageClass) -> u32 { match *v {
    StorageClass::UniformConstant => 0,
    StorageClass::Input => 1,
    StorageClass::Uniform => 2,
    StorageClass::Output => 3,
    StorageClass::Workgroup => 4,
    StorageClass::CrossWorkgroup => 5,
    StorageClass::Private => 6,
    StorageClass::Function => 7,
    StorageClass::Generic => 8,
    StorageClass::PushConstant => 9,
    StorageClass::AtomicCounter => 10,
    StorageClass::Image => 11,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static BUILTIN: EnumTab = EnumTab { name: "BuiltIn", err: ReadError::UnknownBuiltIn, vals: &[
    (0, "Position"),
    (1, "PointSize"),
    (3, "ClipDistance"),
    (4, "CullDistance"),
    (5, "VertexId"),
    (6, "InstanceId"),
    (7, "PrimitiveId"),
    (8, "InvocationId"),
    (9, "Layer"),
    (10, "ViewportIndex"),
    (11, "TessLevelOuter"),
    (12, "TessLevelInner"),
    (13, "TessCoord"),
    (14, "PatchVerticies"),
    (15, "FragCoord"),
    (16, "PointCoord"),
    (17, "FrontFacing"),
    (18, "SampleId"),
    (19, "SamplePosition"),
    (20, "SampleMask"),
    (22, "FragDepth"),
    (23, "HelperInvocation"),
    (24, "NumWorkgroups"),
    (25, "WorkgroupSize"),
    (26, "WorkgroupId"),
    (27, "LocalInvocationId"),
    (28, "GlobalInvocationId"),
    (29, "LocalInvocationIndex"),
    (30, "WorkDim"),
    (31, "GlobalSize"),
    (32, "EnqueuedWorkgroupSize"),
    (33, "GlobalOffset"),
    (34, "GlobalLinearId"),
    (36, "SubgroupSize"),
    (37, "SubgroupMaxSize"),
    (38, "NumSubgroups"),
    (39, "NumEnqueuedSubgroups"),
    (40, "SubgroupId"),
    (41, "SubgroupLocalInvocationId"),
    (42, "VertexIndex"),
    (43, "InstanceIndex"),
] };
pub fn enc_builtin(v: &BuiltIn) -> u32 { match *v {
    BuiltIn::Position => 0,
    BuiltIn::PointSize => 1,
    BuiltIn::ClipDistance => 3,
    BuiltIn::CullDistance => 4,
    BuiltIn::VertexId => 5,
    BuiltIn::InstanceId => 6,
    BuiltIn::PrimitiveId => 7,
    BuiltIn::InvocationId => 8,
    BuiltIn::Layer => 9,
    BuiltIn::ViewportIndex => 10,
    BuiltIn::TessLevelOuter => 11,
    BuiltIn::TessLevelInner => 12,
    BuiltIn::TessCoord => 13,
    BuiltIn::PatchVerticies => 14,
    BuiltIn::FragCoord => 15,
    BuiltIn::PointCoord => 16,
    BuiltIn::FrontFacing => 17,
    BuiltIn::SampleId => 18,
    BuiltIn::SamplePosition => 19,
    BuiltIn::SampleMask => 20,
    BuiltIn::FragDepth => 22,
    BuiltIn::HelperInvocation => 23,
    BuiltIn::NumWorkgroups => 24,
    BuiltIn::WorkgroupSize => 25,
    BuiltIn::WorkgroupId => 26,
    BuiltIn::LocalInvocationId => 27,
    BuiltIn::GlobalInvocationId => 28,
    BuiltIn::LocalInvocationIndex => 29,
    BuiltIn::WorkDim => 30,
    BuiltIn::GlobalSize => 31,
    BuiltIn::EnqueuedWorkgroupSize => 32,
    BuiltIn::GlobalOffset => 33,
    BuiltIn::GlobalLinearId => 34,
    BuiltIn::SubgroupSize => 36,
    BuiltIn::SubgroupMaxSize => 37,
    BuiltIn::NumSubgroups => 38,
    BuiltIn::NumEnqueuedSubgroups => 39,
    BuiltIn::SubgroupId => 40,
    BuiltIn::SubgroupLocalInvocationId => 41,
    BuiltIn::VertexIndex => 42,
    BuiltIn::InstanceIndex => 43,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static FUNCTIONPARAMETERATTRIBUTE: EnumTab = EnumTab { name: "FunctionParameterAttribute", err: ReadError::UnknownFunctionParameterAttribute, vals: &[
    (0, "Zext"),
    (1, "Sext"),
    (2, "ByVal"),
    (3, "Sret"),
    (4, "NoAlias"),
    (5, "NoCapture"),
    (6, "NoWrite"),
    (7, "NoReadWrite"),
] };
pub fn enc_functionparameterattribute(v: &FunctionParameterAttribute) -> u32 { match *v {
    FunctionParameterAttribute::Zext => 0,
    FunctionParameterAttribute::Sext => 1,
    FunctionParameterAttribute::ByVal => 2,
    FunctionParameterAttribute::Sret => 3,
    FunctionParameterAttribute::NoAlias => 4,
    FunctionParameterAttribute::NoCapture => 5,
    FunctionParameterAttribute::NoWrite => 6,
    FunctionParameterAttribute::NoReadWrite => 7,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static FPROUNDINGMODE: EnumTab = EnumTab { name: "FpRoundingMode", err: ReadError::UnknownFpRoundingMode, vals: &[
    (0, "RTE"),
    (1, "RTZ"),
    (2, "RTP"),
    (3, "RTN"),
] };
pub fn enc_fproundingmode(v: &FpRoundingMode) -> u32 { match *v {
    FpRoundingMode::Rte => 0,
    FpRoundingMode::Rtz => 1,
    FpRoundingMode::Rtp => 2,
    FpRoundingMode::Rtn => 3,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static LINKAGETYPE: EnumTab = EnumTab { name: "LinkageType", err: ReadError::UnknownLinkageType, vals: &[
    (0, "Export"),
    (1, "Import"),
] };
pub fn enc_linkagetype(v: &LinkageType) -> u32 { match *v {
    LinkageType::Export => 0,
    LinkageType::Import => 1,
    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,
} }

pub static DECORATION_PLAIN: &[(u32, &str)] = &[
    (0, "RelaxedPrecision"),
    (2, "Block"),
    (3, "BufferBlock"),
    (4, "RowMajor"),
    (5, "ColMajor"),
    (8, "GLSLShared"),
    (9, "GLSLPacked"),
    (10, "CPacked"),
    (13, "NoPerspective"),
    (14, "Flat"),
    (15, "Patch"),
    (16, "Centroid"),
    (17, "Sample"),
    (18, "Invariant"),
    (19, "Restrict"),
    (20, "Aliased"),
    (21, "Volatile"),
    (22, "Constant"),
    (23, "Coherent"),
    (24, "NonWritable"),
    (25, "NonReadable"),
    (26, "Uniform"),
    (28, "SaturatedConversion"),
    (42, "NoContraction"),
];
pub fn enc_plain_decoration(v: &Decoration) -> Option<u32> { Some(match *v {
    Decoration::RelaxedPrecision => 0,
    Decoration::Block => 2,
    Decoration::BufferBlock => 3,
    Decoration::RowMajor => 4,
    Decoration::ColMajor => 5,
    Decoration::GlslShared => 8,
    Decoration::GlslPacked => 9,
    Decoration::CPacked => 10,
    Decoration::NoPerspective => 13,
    Decoration::Flat => 14,
    Decoration::Patch => 15,
    Decoration::Centroid => 16,
    Decoration::Sample => 17,
    Decoration::Invariant => 18,
    Decoration::Restrict => 19,
    Decoration::Aliased => 20,
    Decoration::Volatile => 21,
    Decoration::Constant => 22,
    Decoration::Coherent => 23,
    Decoration::NonWritable => 24,
    Decoration::NonReadable => 25,
    Decoration::Uniform => 26,
    Decoration::SaturatedConversion => 28,
    Decoration::NoContraction => 42,
    _ => return None,
}) }

pub static EXECMODE_PLAIN: &[(u32, &str)] = &[
    (1, "SpacingEqual"),
    (2, "SpacingFractionalEven"),
    (3, "SpacingFractionalOdd"),
    (4, "VertexOrderCw"),
    (5, "VertexOrderCcw"),
    (6, "PixelCenterInteger"),
    (7, "OriginUpperLeft"),
    (8, "OriginLowerLeft"),
    (9, "EarlyFragmentTests"),
    (10, "PointMode"),
    (11, "Xfb"),
    (12, "DepthReplacing"),
    (14, "DepthGreater"),
    (15, "DepthLess"),
    (16, "DepthUnchanged"),
    (19, "InputPoints"),
    (20, "InputLines"),
    (21, "InputLinesAdjacency"),
    (22, "Triangles"),
    (23, "InputTrianglesAdjacency"),
    (24, "Quads"),
    (25, "Isolines"),
    (27, "OutputPoints"),
    (28, "OutputLineStrip"),
    (29, "OutputTriangleStrip"),
    (31, "ContractionOff"),
];
pub fn enc_plain_executionmode(v: &ExecutionMode) -> Option<u32> { Some(match *v {
    ExecutionMode::SpacingEqual => 1,
    ExecutionMode::SpacingFractionalEven => 2,
    ExecutionMode::SpacingFractionalOdd => 3,
    ExecutionMode::VertexOrderCw => 4,
    ExecutionMode::VertexOrderCcw => 5,
    ExecutionMode::PixelCenterInteger => 6,
    ExecutionMode::OriginUpperLeft => 7,
    ExecutionMode::OriginLowerLeft => 8,
    ExecutionMode::EarlyFragmentTests => 9,
    ExecutionMode::PointMode => 10,
    ExecutionMode::Xfb => 11,
    ExecutionMode::DepthReplacing => 12,
    ExecutionMode::DepthGreater => 14,
    ExecutionMode::DepthLess => 15,
    ExecutionMode::DepthUnchanged => 16,
    ExecutionMode::InputPoints => 19,
    ExecutionMode::InputLines => 20,
    ExecutionMode::InputLinesAdjacency => 21,
    ExecutionMode::Triangles => 22,
    ExecutionMode::InputTrianglesAdjacency => 23,
    ExecutionMode::Quads => 24,
    ExecutionMode::Isolines => 25,
    ExecutionMode::OutputPoints => 27,
    ExecutionMode::OutputLineStrip => 28,
    ExecutionMode::OutputTriangleStrip => 29,
    ExecutionMode::ContractionOff => 31,
    _ => return None,
}) }

pub static UNIMPLEMENTED: &[(u16, &str)] = &[
    (8, "OpLine"),
    (41, "OpConstantTrue"),
    (42, "OpConstantFalse"),
    (45, "OpConstantSampler"),
    (46, "OpConstantNull"),
    (48, "OpSpecConstantTrue"),
    (49, "OpSpecConstantFalse"),
    (50, "OpSpecConstant"),
    (51, "OpSpecConstantComposite"),
    (52, "OpSpecConstantOp"),
    (57, "OpFunctionCall"),
    (60, "OpImageTexelPointer"),
    (63, "OpCopyMemory"),
    (64, "OpCopyMemorySized"),
    (66, "OpInBoundsAccessChain"),
    (67, "OpPtrAccessChain"),
    (68, "OpArrayLength"),
    (69, "OpGenericPtrMemSemantics"),
    (70, "OpInBoundsPtrAccessChain"),
    (77, "OpVectorExtractDynamic"),
    (78, "OpVectorInsertDynamic"),
    (79, "OpVectorShuffle"),
    (80, "OpCompositeConstruct"),
    (81, "OpCompositeExtract"),
    (82, "OpCompositeInsert"),
    (83, "OpCopyObject"),
    (84, "OpTranspose"),
    (86, "OpSampledImage"),
    (87, "OpImageSampleImplicitLod"),
    (88, "OpImageSampleExplicitLod"),
    (89, "OpImageSampleDrefImplicitLod"),
    (90, "OpImageSampleDrefExplicitLod"),
    (91, "OpImageSampleProjImplicitLod"),
    (92, "OpImageSampleProjExplicitLod"),
    (93, "OpImageSampleProjDrefImplicitLod"),
    (94, "OpImageSampleProjDrefExplicitLod"),
    (95, "OpImageFetch"),
    (96, "OpImageGather"),
    (97, "OpImageDrefGather"),
    (98, "OpImageRead"),
    (99, "OpImageWrite"),
    (100, "OpImage"),
    (101, "OpImageQueryFormat"),
    (102, "OpImageQueryOrder"),
    (103, "OpImageQuerySizeLod"),
    (104, "OpImageQuerySize"),
    (105, "OpImageQueryLod"),
    (106, "OpImageQueryLevels"),
    (107, "OpImageQuerySamples"),
    (109, "OpConvertFToU"),
    (110, "OpConvertFToS"),
    (111, "OpConvertSToF"),
    (113, "OpUConvert"),
    (114, "OpSConvert"),
    (115, "OpFConvert"),
    (116, "OpQuantizeToF16"),
    (117, "OpConvertPtrToU"),
    (118, "OpSatConvertSToU"),
    (119, "OpSatConvertUToS"),
    (120, "OpConvertUToPtr"),
    (121, "OpPtrCastToGeneric"),
    (122, "OpGenericCastToPtr"),
    (123, "OpGenericCastToPtrExplicit"),
    (126, "OpSNegate"),
    (127, "OpFNegate"),
    (142, "OpVectorTimesScalar"),
    (143, "OpMatrixTimesScalar"),
    (144, "OpVectorTimesMatrix"),
    (145, "OpMatrixTimesVector"),
    (146, "OpMatrixTimesMatrix"),
    (147, "OpOuterProduct"),
    (148, "OpDot"),
    (154, "OpAny"),
    (155, "OpAll"),
    (156, "OpIsNan"),
    (157, "OpIsInf"),
    (158, "OpIsFinite"),
    (159, "OpIsNormal"),
    (160, "OpSignBitSet"),
    (161, "OpLessOrGreater"),
    (162, "OpOrdered"),
    (163, "OpUnordered"),
    (164, "OpLogicalEqual"),
    (165, "OpLogicalNotEqual"),
    (166, "OpLogicalOr"),
    (167, "OpLogicalAnd"),
    (168, "OpLogicalNot"),
    (169, "OpSelect"),
    (194, "OpShiftRightLogical"),
    (195, "OpShiftRightArithmetic"),
    (196, "OpShiftLeftLogical"),
    (200, "OpNot"),
    (201, "OpBitFieldInsert"),
    (202, "OpBitFieldSExtract"),
    (203, "OpBitFieldUExtract"),
    (204, "OpBitReverse"),
    (205, "OpBitCount"),
    (207, "OpDPdx"),
    (208, "OpDPdy"),
    (209, "OpFwidth"),
    (210, "OpDPdxFine"),
    (211, "OpDPdyFine"),
    (212, "OpFwidthFine"),
    (213, "OpDPdxCoarse"),
    (214, "OpDPdyCoarse"),
    (215, "OpFwidthCoarse"),
    (218, "OpEmitVertex"),
    (219, "OpEndPrimitive"),
    (220, "OpEmitStreamVertex"),
    (221, "OpEndStreamPrimitive"),
    (224, "OpControlBarrier"),
    (225, "OpMemoryBarrier"),
    (227, "OpAtomicLoad"),
    (228, "OpAtomicStore"),
    (229, "OpAtomicExchange"),
    (230, "OpAtomicCompareExchange"),
    (231, "OpAtomicCompareExchangeWeak"),
    (232, "OpAtomicIIncrement"),
    (233, "OpAtomicIDecrement"),
    (234, "OpAtomicIAdd"),
    (235, "OpAtomicISub"),
    (236, "OpAtomicSMin"),
    (237, "OpAtomicUMin"),
    (238, "OpAtomicSMax"),
    (239, "OpAtomicUMax"),
    (240, "OpAtomicAnd"),
    (241, "OpAtomicOr"),
    (242, "OpAtomicXor"),
    (251, "OpSwitch"),
    (252, "OpKill"),
    (254, "OpReturnValue"),
    (255, "OpUnreachable"),
    (256, "OpLifetimeStart"),
    (257, "OpLifetimeStop"),
    (259, "OpGroupAsyncCopy"),
    (260, "OpGroupWaitEvents"),
    (261, "OpGroupAll"),
    (262, "OpGroupAny"),
    (263, "OpGroupBroadcast"),
    (264, "OpGroupIAdd"),
    (265, "OpGroupFAdd"),
    (266, "OpGroupFMin"),
    (267, "OpGroupUMin"),
    (268, "OpGroupSMin"),
    (269, "OpGroupFMax"),
    (270, "OpGroupUMax"),
    (271, "OpGroupSMax"),
    (274, "OpReadPipe"),
    (275, "OpWritePipe"),
    (276, "OpReservedReadPipe"),
    (277, "OpReservedWritePipe"),
    (278, "OpReserveReadPipePackets"),
    (279, "OpReserveWritePipePackets"),
    (280, "OpCommitReadPipe"),
    (281, "OpCommitWritePipe"),
    (282, "OpIsValidReserveId"),
    (283, "OpGetNumPipePackets"),
    (284, "OpGetMaxPipePackets"),
    (285, "OpGroupReserveReadPipePackets"),
    (286, "OpGroupReserveWritePipePackets"),
    (287, "OpGroupCommitReadPipe"),
    (288, "OpGroupCommitWritePipe"),
    (291, "OpEnqueueMarker"),
    (292, "OpEnqueueKernel"),
    (293, "OpGetKernelNDrangeSubGroupCount"),
    (294, "OpGetKernelNDrangeMaxSubGroupSize"),
    (295, "OpGetKernelWorkGroupSize"),
    (296, "OpGetKernelPreferredWorkGroupSizeMultiple"),
    (297, "OpRetainEvent"),
    (298, "OpReleaseEvent"),
    (299, "OpCreateUserEvent"),
    (300, "OpIsValidEvent"),
    (301, "OpSetUserEventStatus"),
    (302, "OpCaptureEventProfilingInfo"),
    (303, "OpGetDefaultQueue"),
    (304, "OpBuildNDRange"),
    (305, "OpImageSparseSampleImplicitLod"),
    (306, "OpImageSparseSampleExplicitLod"),
    (307, "OpImageSparseSampleDrefImplicitLod"),
    (308, "OpImageSparseSampleDrefExplicitLod"),
    (309, "OpImageSparseSampleProjImplicitLod"),
    (310, "OpImageSparseSampleProjExplicitLod"),
    (311, "OpImageSparseSampleProjDrefImplicitLod"),
    (312, "OpImageSparseSampleProjDrefExplicitLod"),
    (313, "OpImageSparseFetch"),
    (314, "OpImageSparseGather"),
    (315, "OpImageSparseDrefGather"),
    (316, "OpImageSparseTexelsResident"),
    (317, "OpNoLine"),
    (318, "OpAtomicFlagTestAndSet"),
    (319, "OpAtomicFlagClear"),
    (320, "OpImageSparseRead"),
];
