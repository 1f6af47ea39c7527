#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long lines stay editable)."""
import json, os
R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; P="src/spv/logical/parser/parser.rs"; G="src/spv/logical/parser/mod.rs"
CF="src/spv/logical/control_flow.rs"; D="src/spv/dis.rs"; OP="src/spv/op.rs"; T="src/spv/types.rs"; GL="src/glsl450/mod.rs"; S="src/spv/mod.rs"; L="src/spv/logical/mod.rs"
props=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
p("C01","A torn or truncated module image never yields phantom instructions",
 "When a stored module is cut off at an arbitrary byte, as by a crash or a torn write, reading what is left never produces an instruction that was not completely stored: a cut at an instruction boundary after the header gives exactly the header and the instructions before the cut, and every other cut is refused. The refusal says the stream is misaligned when the remaining length is not a multiple of four bytes, and otherwise that it ended unexpectedly.",
 ["crash_points","inputs"],"every decodable module image, in either byte order, and every cut point in it",
 "The five fixture modules are only ever read whole; no test reads a prefix of anything.",
 [R],[("word stream with end/alignment detection",R+" Stream::read_word, Stream::is_end"),("instruction framing by word count",R+" read_instruction")],
 observe=["result of read_module"])
p("C02","A damaged image that is accepted is decoded faithfully, word for word",
 "Whatever storage faults hit an image (flipped bits; zeroed, stale, swapped, lost or repeated ranges), a read that succeeds returns a header and an instruction list that stand for exactly the stored words: the same instructions in stored order, every operand present with its stored value, nothing dropped, merged or invented. Only the bytes behind a string's terminator within its last word may go unrepresented.",
 ["fault_sequences","inputs"],"every module image and every sequence of storage faults applied to it",
 "The tests decode five undamaged compiler outputs that use about forty of the hundred supported instructions, few enumerants and no unusual operand lengths.",
 [R,M,T,OP,GL],[("opcode dispatch and operand readers",R+" read_instruction, def_op_read!"),("operand, enumerant, flag and string readers",M+" MemoryBlockRead impls"),("header decoding",R+" read_module")],
 observe=["RawModule fields and instruction operands"])
p("C03","Undecodable content is always refused, with a truthful error; sound is accepted",
 "An image is accepted if and only if its header is sound and every instruction has a supported opcode, a non-zero word count that exactly fits its operands, known enumerant values, no reserved flag bits and well-formed UTF-8 strings. When corruption makes it unacceptable, the error returned names a defect really present at the first undecodable place, carrying the offending value where that error carries one.",
 ["fault_sequences","inputs"],"every module image and every sequence of storage faults applied to it",
 "No test reads a malformed image; not one of the forty error values is exercised.",
 [R,M],[("header checks",R+" read_module"),("unknown/unimplemented opcode arms, excess-data check",R+" read_instruction"),("enumerant and mask checks",M+" MemoryBlockRead impls")],
 observe=["ReadError value"])
p("C04","No image, however damaged or large, can crash, hang or bloat the library",
 "For any bytes whatsoever, and for modules of hundreds of thousands of instructions or thousands of blocks, reading, disassembling, laying out, recovering control flow and printing all return normally: no panic, no abort, no stack exhaustion, no endless loop or recursion, and no exponential work: a function whose structure would be excessively deep or repetitive is refused instead. Memory in use while reading and laying out stays within a fixed allowance plus a constant factor of the image size, whatever lengths the image claims, and while recovering control flow within a constant factor of the number of blocks.",
 ["fault_sequences","inputs","programs"],"every byte sequence fed through the whole pipeline, including control-flow graphs damaged into cycles and irreducible shapes",
 "The tests drive the pipeline with five small well-formed shaders; nothing malformed, cyclic, or large.",
 [R,M,P,CF,D],[("bounds-checked word and block readers",R+"; "+M),("section parser",P+" read_many"),("control-flow search",CF+" search_block")],
 observe=["return of each public call, process status, allocator high-water mark"])
p("C05","The producing host's byte order is invisible, also for damaged images",
 "An image stored little-endian and the same words stored big-endian read to the same outcome under the same damage: equal modules with identical disassembly, or the same error. This holds for every word of the image, including packed string characters, truncated tails and extended-instruction operands.",
 ["configurations","fault_sequences","inputs"],"every word sequence, every word-level damage or cut, both byte orders",
 "All fixtures are little-endian; the byte-swapped path is never executed by a test.",
 [R,M],[("endianness switch on the magic number",R+" read_module, Stream::invert_endianness"),("string unpacking from words",M+" LitString reader")],
 observe=["read_module outcome and disassembly for both images"])
p("C06","Extended instructions reach exactly the handler their import bound",
 "Each extended instruction is decoded exactly once, in stream order, by the first registered handler whose name was imported under the set id the instruction refers to, which is given the instruction number and exactly that instruction's operand words. Importing an unregistered name, importing twice under one id, and using an id that no earlier import of the same module bound are refused with an error naming the culprit.",
 ["histories","inputs","configurations"],"every history of imports and extended instructions, any number of handlers, names and ids, either order of registration",
 "The fixtures import one set once; only one handler exists; no second set, rebinding, missing or late import is ever tried.",
 [R,S,GL],[("binding table from id to handler",R+" OpExtInstImport::read_core"),("dispatch through the table",R+" OpExtInst::read_core")],
 state=[dict(name="bound_inst_sets",meaning="id -> handler bound by an import earlier in this module",where=R)],
 observe=["call log of simulated handlers, decoded instructions, ReadError"])
p("C07","A failing or misbehaving extended-instruction handler is contained",
 "If a handler reports an error the read fails with exactly that error and no handler is asked to decode anything further; if it leaves operand words unread the read is refused for excess data, and it can never obtain words beyond its own instruction. If it panics the panic reaches the caller, and after any such failure later reads behave as if the failed one had never happened.",
 ["fault_sequences","histories"],"every handler call as the point of failure, every failure kind, any later history",
 "No test uses a handler other than the built-in one, and none fails.",
 [R,M,S],[("error propagation from handler",R+" OpExtInst::read_core"),("excess-data check",R+" read_instruction"),("per-instruction operand window",M+" MemoryBlock")],
 observe=["handler call log, ReadError, results of later reads"])
p("C08","A failing output sink gets an exact prefix of the disassembly, and an error",
 "Writing a module's disassembly to any output leaves in it a prefix of one fixed text: the header comment lines, then one line per instruction in order with its result, mnemonic and every operand. The write reports success exactly when the output accepted the whole text; once the output refuses a piece, nothing more is sent to it and the failure is reported, and formatting again into a healthy output gives the full text.",
 ["fault_sequences","inputs","schedules"],"every module, every point at which the output fails, fills up, is interrupted or panics",
 "The tests compare full text for five modules using an infallible String; no failing writer, and most instructions and operand kinds never printed.",
 [M,OP,D,T,S,GL],[("module and instruction Display",M+" impl Display; "+D+" def_op_display!"),("error propagation with try!",D+"; "+T)],
 observe=["bytes and calls seen by the sink, fmt::Result"])
p("C09","Printing control flow through a failing sink is prefix-exact and reported",
 "Printing a recovered control-flow structure, alone or together with its function's code, sends to the output a prefix of one fixed text that nests every loop and selection, shows every block in it with all of its instructions and branch, and every break and continue. Success is reported exactly when the whole text was accepted, and nothing is sent after the output first refuses.",
 ["fault_sequences","programs"],"every recoverable function and every point at which the output fails",
 "No test prints a control-flow structure at all, to any sink.",
 [CF,L,OP],[("structure Display",CF+" ControlFlowChain::fmt_indent"),("function printer",CF+" ControlFlowFunctionPrinter")],
 observe=["bytes and calls seen by the sink, fmt::Result"])
p("C10","The layout pass neither loses, duplicates, reorders nor alters instructions",
 "When the layout pass accepts an instruction stream, including one whose records were lost, duplicated or reordered on the way, the logical module holds every instruction exactly once, unaltered and in original order, in the section, function, parameter list and basic block it belongs to; reading the sections in order gives back the stream. Every block holds its label, its code, at most one merge and exactly one branch, and declarations are kept apart from definitions.",
 ["fault_sequences","inputs","programs"],"every instruction stream and every loss, duplication and reordering of its records",
 "The tests only check that five modules are accepted; nothing looks at where the instructions ended up.",
 [P,G,L],[("grouping of instructions by section",G+" From<Core> for OpByBlock"),("phase-by-phase section reader",P+" validate, read_*")],
 observe=["LogicalModule contents"])
p("C11","Out-of-place, missing or extra records are refused at the right position",
 "The layout pass accepts a stream exactly when its records follow the logical layout order with one memory model, and otherwise refuses it: as a missing memory model when that is what is absent, and else with the index of the first instruction that cannot be placed, or the stream length when it ends too early, and with an error kind matching what was expected there.",
 ["fault_sequences","inputs"],"every instruction stream and every loss, duplication and reordering of its records",
 "No test feeds the layout pass a stream it should refuse.",
 [P,G],[("phase results and slots",P+" PhaseResult, OpSlice::get_slot, ValidationError")],
 observe=["ValidationError value"])
p("C12","Recovered control flow executes the same blocks as the function itself",
 "When control-flow recovery returns a structure, then under every sequence of branch outcomes executing the structure visits exactly the same basic blocks in the same order as following the function's own branches, through breaks, continues, loop-backs and nesting, and returns when the function returns. Loop and selection hints and branch weights in the structure are those of the instructions they come from.",
 ["programs","schedules","fault_sequences"],"every function, also ones whose blocks or branch targets were damaged, and every sequence of branch outcomes",
 "The tests only unwrap the result on five functions; no structure is inspected or executed.",
 [CF],[("recursive structural search",CF+" search_block"),("convergence bookkeeping",CF+" FlowList, Converge, Continue")],
 observe=["ControlFlowChain executed against the CFG under the same outcomes"])
p("C13","Structured functions are always recovered; damaged ones are refused truthfully",
 "Every function built from straight-line blocks, two-way selections that rejoin at their merge block, and loops whose body comes back to the header, with conditional exits or continues on the false side, is recovered, in any block order after the entry, as long as no block lies inside more than a hundred constructs or behind more than a hundred such exits of them. A function with no blocks, with a duplicated block label, or whose execution can run into a missing block is never accepted; where it is otherwise structured, the error says so and names a label that is duplicated or missing.",
 ["programs","fault_sequences"],"every structured function and every loss or duplication of its block records",
 "The tests recover five functions with nesting of at most two and never a damaged one.",
 [CF],[("block map construction",CF+" find_control_flow"),("structural search",CF+" search_block")],
 observe=["ControlFlowResult"])
p("C14","Results do not depend on hashing seeds, clocks, threads or earlier calls",
 "For fixed input bytes and handlers, reading, disassembling, laying out, recovering and printing give the same results and byte-identical text every time: whatever the process's hash randomisation and clock readings, on whichever thread, and whatever successful, refused or panicking calls came before.",
 ["schedules","histories","configurations"],"every history of earlier calls, hash seed, clock behaviour and thread",
 "Each test makes one call in one process and compares with nothing.",
 [R,CF,M],[("hash maps used only for lookup",R+" bound_inst_sets; "+CF+" BlockMap"),("no global state","whole crate")],
 observe=["results and text of repeated jobs"])
p("C15","Concurrent and re-entrant callers cannot disturb each other",
 "Any number of callers may read, disassemble, lay out, recover and print at the same time on different threads, or from inside a handler callback or an output sink of another call, and each gets exactly the result it would have got alone.",
 ["schedules","histories"],"every interleaving of callers, down to single memory accesses of the library, and every re-entrant nesting of calls",
 "No test runs two calls concurrently on shared state or re-enters the library.",
 [R,M,CF,S],[("no shared mutable state","whole crate"),("per-call stream, binding table and block map",R+"; "+CF)],
 observe=["results of each caller versus running alone"])
p("C16","Clones stay faithful, and comparison exposes any surviving corruption",
 "Two modules compare equal exactly when their headers and all their instructions denote the same thing, so a damaged image that is still accepted never compares equal to the undamaged one unless only unrepresented padding changed; laid out modules likewise compare equal exactly when all their instructions do. A clone equals its original, prints the same text, and stays intact after the original is gone; extended instructions compare equal only when their handler's instructions do, and never across handlers.",
 ["fault_sequences","inputs","histories"],"every pair of module images related by storage faults, with instructions from any mix of handlers",
 "Equality is used once, on one expected module; inequality and cloning never.",
 [M,OP,T,S,GL],[("derived equality and clone","types in "+M+", "+OP+", "+T),("extended instruction equality and clone",S+" ExtInstBox, ExtInstClone; "+GL+" Inst::eq")],
 observe=["==, clone() and Display of modules"])
p("C17","Mnemonics and enumerant names follow the Khronos SPIR-V 1.0 spelling",
 "Every instruction mnemonic and enumerant name in the disassembly is the one the Khronos SPIR-V 1.0 grammar gives for that value.",
 ["inputs"],"every opcode and enumerant value",
 "The fixtures print only a small part of the vocabulary.",
 [T,OP],[("name tables",T+" Display impls")],observe=["disassembly text"])
p("C18","Every SPIR-V 1.0 instruction is decodable",
 "Every opcode defined by SPIR-V 1.0 is decoded into a typed instruction with all operands the specification gives it.",
 ["inputs"],"every opcode and operand form of the specification",
 "The fixtures use about forty opcodes.",
 [R],[("opcode table",R+" read_instruction")],observe=["read_module result"])
p("C19","Allocation failure is reported to the caller instead of ending the process",
 "When memory for a module cannot be allocated the library reports an error and leaves the process running.",
 ["fault_sequences"],"every allocation as the point of failure",
 "No test injects allocation failure.",
 [R,P],[("none: the standard collections abort on allocation failure","whole crate")],observe=["process status"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in props: f.write(json.dumps(x)+"\n")
