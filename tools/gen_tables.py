#!/usr/bin/env python3
"""One-off: froze the vocabulary (numbers <-> names) of the reviewed base tree into sim/src/tables.rs.
NOT run by any check: the reference must not follow the tree it judges."""
import re,sys
raw=open('/repo/src/spv/raw/mod.rs').read(); types=open('/repo/src/spv/types.rs').read(); rd=open('/repo/src/spv/raw/reader.rs').read()
enums={ # enum -> error constructor
 'AddressingModel':'UnknownAddressingModel','MemoryModel':'UnknownMemoryModel','ExecutionModel':'UnknownExecutionModel',
 'Capability':'UnknownCapability','Signedness':'UnknownSignedness','Dim':'UnknownDim','DepthStatus':'UnknownDepthStatus',
 'Arrayed':'UnknownArrayed','MS':'UnknownMS','SampledStatus':'UnknownSampledStatus','ImageFormat':'UnknownImageFormat',
 'AccessQualifier':'UnknownAccessQualifier','StorageClass':'UnknownStorageClass','BuiltIn':'UnknownBuiltIn',
 'FunctionParameterAttribute':'UnknownFunctionParameterAttribute','FpRoundingMode':'UnknownFpRoundingMode','LinkageType':'UnknownLinkageType'}
out=['// Frozen vocabulary of SPIR-V 1.0 as modelled by the library (see tools/gen_tables.py).',
 '// Numbers were reviewed against the SPIR-V 1.0 specification; names are the library\'s spelling.',
 'use magmaflow::spv::raw::ReadError;','use magmaflow::spv::types::*;','',
 'pub struct EnumTab { pub name: &\'static str, pub vals: &\'static [(u32, &\'static str)], pub err: fn(u32) -> ReadError }','']
for e,err in enums.items():
    m=re.search(r'impl MemoryBlockRead for %s \{(.*?)\n\}\n'%e,raw,re.S).group(1)
    vals=re.findall(r'(\d+) => %s::(\w+)'%e,m)
    d=re.search(r'impl Display for %s \{(.*?)\n\}\n'%e,types,re.S).group(1)
    names=dict(re.findall(r'%s::(\w+) => "?([^",]+)"?,'%e,d))
    out.append('pub static %s: EnumTab = EnumTab { name: "%s", err: ReadError::%s, vals: &['%(e.upper(),e,err))
    for v,n in vals: out.append('    (%s, "%s"),'%(v,names[n]))
    out.append('] };')
    out.append('pub fn enc_%s(v: &%s) -> u32 { match *v {'%(e.lower(),e))
    for v,n in vals: out.append('    %s::%s => %s,'%(e,n,v))
    out.append('    #[allow(unreachable_patterns)] _ => 0xFFFF_FFFF,')
    out.append('} }'); out.append('')
# parameterless decorations and execution modes
for e,tab in (('Decoration','DECORATION_PLAIN'),('ExecutionMode','EXECMODE_PLAIN')):
    m=re.search(r'impl MemoryBlockRead for %s \{(.*?)\n\}\n'%e,raw,re.S).group(1)
    vals=re.findall(r'(\d+) => %s::(\w+),'%e,m)
    d=re.search(r'impl Display for %s \{(.*?)\n\}\n'%e,types,re.S).group(1)
    names=dict(re.findall(r'%s::(\w+) => "([^"]+)"'%e,d))
    out.append('pub static %s: &[(u32, &str)] = &['%tab)
    for v,n in vals: out.append('    (%s, "%s"),'%(v,names[n]))
    out.append('];')
    out.append('pub fn enc_plain_%s(v: &%s) -> Option<u32> { Some(match *v {'%(e.lower(),e))
    for v,n in vals: out.append('    %s::%s => %s,'%(e,n,v))
    out.append('    _ => return None,\n}) }'); out.append('')
un=re.findall(r'(\d+) => return Err\(ReadError::UnimplementedOp\("(\w+)"\)\)',rd)
out.append('pub static UNIMPLEMENTED: &[(u16, &str)] = &[')
for v,n in un: out.append('    (%s, "%s"),'%(v,n))
out.append('];')
open('/verif/sim/src/tables.rs','w').write('\n'.join(out)+'\n')
imp=re.findall(r'(\d+) => (\w+)::read_core',rd)
fields=dict((n,[x.strip() for x in f.split('|') if x.strip()]) for n,f in re.findall(r'def_op_read!\((\w+);([^)]*)\)',rd))
for n in re.findall(r'def_op_read_s2!\((\w+)\)',rd): fields[n]=['result_type','result_id','operand1','operand2']
for n in re.findall(r'def_op_read_s1!\((\w+)\)',rd): fields[n]=['result_type','result_id','operand']
for v,n in imp: print(v,n,fields.get(n))
