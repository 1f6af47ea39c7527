From 00c7a298d3a573eeffc023d287888a66c982d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 1/9] fix: refuse instructions with a word count of zero

A word count includes the opcode word, so zero is never valid, but it was
read as a count of one: a zeroed range of the file decoded as OpNops.
---
 src/spv/raw/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 994a45b..670c82d 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -129,6 +129,9 @@ fn read_instruction(stream: &mut Stream,
     let head = try!(stream.read_word());
     let id = (head & 0xFFFF) as u16;
     let wc = (head >> 16) as u16;
+    if wc == 0 {
+        return Err(ReadError::WrongWordCountForOp);
+    }
     let mut words = Vec::with_capacity(wc as usize);
     words.push(head);
     for _ in 1..wc {
-- 
2.43.0


From 0bc0ac0cb0e97d28d40329502c87dea05ed9eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 2/9] fix: compare whole version bytes instead of their low
 nibbles

A version word such as 0x00F10000 was accepted as version 1.0.
---
 src/spv/raw/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 670c82d..f1c0cd6 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -26,9 +26,9 @@ pub fn read_module<'a>(data: &'a [u8],
 
     let ver_word = try!(stream.read_word());
     let ver_high = (ver_word >> 24) as u8;
-    let ver_major = ((ver_word >> 16) & 0xF) as u8;
-    let ver_minor = ((ver_word >> 8) & 0xF) as u8;
-    let ver_low = (ver_word & 0xF) as u8;
+    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
+    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
+    let ver_low = (ver_word & 0xFF) as u8;
     let version = match (ver_high, ver_major, ver_minor, ver_low) {
         (0, 1, 0, 0) => Version(ver_major, ver_minor),
         (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
-- 
2.43.0


From 5704272e550b202fc5cb128fcf652b3f5497c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 3/9] fix: reject every reserved bit in operand masks

The checks for reserved bits only looked at the low half of the word (and
missed bit 5 of the fast math mode), so set reserved bits were dropped
silently instead of being reported.
---
 src/spv/raw/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 21a6f01..625278b 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -841,7 +841,7 @@ impl MemoryBlockRead for FunctionControl {
 impl MemoryBlockRead for MemoryAccess {
     fn read(block: MemoryBlock) -> MemoryBlockResult<MemoryAccess> {
         let (block, memory_access_word) = try!(block.read_word());
-        if (memory_access_word & 0xFFF8) != 0 {
+        if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
         let memory_access = MemoryAccess {
@@ -939,7 +939,7 @@ impl MemoryBlockRead for FpRoundingMode {
 impl MemoryBlockRead for FpFastMathMode {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FpFastMathMode> {
         let (block, id) = try!(block.read_word());
-        if (id & 0xFFC0) != 0 {
+        if (id & !0x1F) != 0 {
             return Err(ReadError::UnknownFpFastMathMode(id));
         }
         let fast_math_mode = FpFastMathMode {
@@ -1079,7 +1079,7 @@ impl MemoryBlockRead for Decoration {
 impl MemoryBlockRead for LoopControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<LoopControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFF0 != 0 {
+        if word & !0xF != 0 {
             return Err(ReadError::UnknownLoopControl(word));
         }
         let dependency_length_val = (word & 0x8) != 0;
@@ -1102,7 +1102,7 @@ impl MemoryBlockRead for LoopControl {
 impl MemoryBlockRead for SelectionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<SelectionControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFFC != 0 {
+        if word & !0x3 != 0 {
             return Err(ReadError::UnknownSelectionControl(word));
         }
         let selection_control = SelectionControl {
-- 
2.43.0


From 4ea10241a264b7ad3710a297621c60ec897bb282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 4/9] fix: reject reserved bits in the function control mask

Unlike the other masks it was not checked at all, so reserved bits were
dropped silently.
---
 src/spv/raw/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 625278b..344a0f7 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -288,6 +288,7 @@ pub enum ReadError {
     UnknownLinkageType(u32),
     UnknownSignedness(u32),
     UnknownStorageClass(u32),
+    UnknownFunctionControl(u32),
     UnknownFunctionParameterAttribute(u32),
     UnknownMemoryAccess(u32),
     UnknownDim(u32),
@@ -339,6 +340,7 @@ impl Error for ReadError {
             UnknownLinkageType(_) => "unknown linkage type",
             UnknownSignedness(_) => "unknown signedness",
             UnknownStorageClass(_) => "unknown storage class",
+            UnknownFunctionControl(_) => "unknown function control",
             UnknownFunctionParameterAttribute(_) => "unknown function parameter attribute",
             UnknownMemoryAccess(_) => "unknown memory access",
             UnknownDim(_) => "unknown image dimension",
@@ -828,6 +830,9 @@ impl MemoryBlockRead for StorageClass {
 impl MemoryBlockRead for FunctionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FunctionControl> {
         let (block, value) = try!(block.read_word());
+        if (value & !0xF) != 0 {
+            return Err(ReadError::UnknownFunctionControl(value));
+        }
         let function_control = FunctionControl {
             inline: (value & 0x1) != 0,
             dont_inline: (value & 0x2) != 0,
-- 
2.43.0


From b9df4aac38c2fb47f809fd111c5beba7e3aa553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:44 +0000
Subject: [PATCH 5/9] fix: do not recurse once per instruction in the layout
 pass

A section of several thousand instructions overflowed the stack.
---
 src/spv/logical/parser/parser.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 64ef29e..f813ce8 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -93,23 +93,20 @@ enum PhaseResult<'a, T> {
     Err(ValidationError),
 }
 
-fn read_many<T>(insts: OpSlice,
+fn read_many<T>(mut insts: OpSlice,
                 f: fn(OpSlice) -> PhaseResult<T>)
                 -> ValidationResult<(Vec<T>, OpSlice)> {
-    fn read_rest<T>(insts: OpSlice,
-                    f: fn(OpSlice) -> PhaseResult<T>,
-                    mut output: Vec<T>)
-                    -> ValidationResult<(Vec<T>, OpSlice)> {
+    let mut output = Vec::new();
+    loop {
         match f(insts) {
             PhaseResult::Ok(item, next) => {
                 output.push(item);
-                read_rest(next, f, output)
+                insts = next;
             }
-            PhaseResult::Next(next) => Ok((output, next)),
-            PhaseResult::Err(err) => Err(err),
+            PhaseResult::Next(next) => return Ok((output, next)),
+            PhaseResult::Err(err) => return Err(err),
         }
     }
-    read_rest(insts, f, Vec::new())
 }
 
 fn read_capability(insts: OpSlice) -> PhaseResult<Capability> {
-- 
2.43.0


From d6becb9a4c743adb2c78d395ea272cd3b27b89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:45 +0000
Subject: [PATCH 6/9] fix: report unsupported merge/branch pairs instead of
 panicking

A selection merge before an unconditional branch, or a loop merge before a
conditional one, made control flow recovery panic with 'not implemented'.
---
 src/spv/logical/control_flow.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index af7fe16..cd3b341 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -326,7 +326,7 @@ fn search_block(id: BlockId,
 
                     Ok((chain, next_next))
                 }
-                _ => unimplemented!(),
+                _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
             }
         }
         GroupBranch::OpBranchConditional(ref op) => {
@@ -368,7 +368,9 @@ fn search_block(id: BlockId,
                     }
                 }
                 // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => unimplemented!(),
+                Some(GroupMerge::OpLoopMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
                 None => {
                     let (head, merge) = match flow_list.innermost_loop() {
                         Some(l) => l,
-- 
2.43.0


From ac6f855a13f913b0f43425ceaef50d6e28e6a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 7/9] fix: bound the recursion of control flow recovery by
 nesting depth

The search recursed once per block, overflowing the stack on long functions,
and without end when a branch went back to a block that is not the header
of an enclosing loop. Walk sequences in a loop, and refuse such a back edge.
---
 src/spv/logical/control_flow.rs | 87 +++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index cd3b341..ba76312 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -1,5 +1,5 @@
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::rc::Rc;
 
@@ -176,7 +176,8 @@ pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlF
         None => return Err(ControlFlowError::NoBlocks),
     };
 
-    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
+    let mut path = HashSet::new();
+    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map, &mut path));
 
     match next {
         Continue::Return => Ok(chain),
@@ -269,14 +270,52 @@ impl FlowList {
     }
 }
 
-fn search_block(id: BlockId,
+/// State to parse a sequence of constructs without recursing
+enum Step {
+    /// The sequence goes on with another block
+    Next(BlockId),
+    /// The sequence ends
+    End(Continue),
+}
+
+/// Blocks that lead to the current position. Running into one of them again, when it is not
+/// an enclosing flow control to converge with, means the blocks do not form a structure.
+type BlockPath = HashSet<BlockId>;
+
+fn search_block(start: BlockId,
                 flow_list: &FlowList,
-                block_map: &BlockMap)
+                block_map: &BlockMap,
+                path: &mut BlockPath)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
-
-    if flow_list.merges(&id) {
-        return Ok((ControlFlowChain::block(vec![]), Continue::Next(id)));
+    let mut id = start;
+    let mut chains = Vec::new();
+    let mut passed = Vec::new();
+    let result = loop {
+        if flow_list.merges(&id) {
+            break (ControlFlowChain::Block(chains), Continue::Next(id));
+        }
+        if !path.insert(id) {
+            return Err(ControlFlowError::CouldNotPredictConverge(id));
+        }
+        passed.push(id);
+        let (chain, step) = try!(search_construct(id, flow_list, block_map, path));
+        chains.push(chain);
+        match step {
+            Step::Next(next_id) => id = next_id,
+            Step::End(next) => break (ControlFlowChain::block(chains), next),
+        }
+    };
+    for id in &passed {
+        path.remove(id);
     }
+    Ok(result)
+}
+
+fn search_construct(id: BlockId,
+                    flow_list: &FlowList,
+                    block_map: &BlockMap,
+                    path: &mut BlockPath)
+                    -> ControlFlowResult<(ControlFlowChain, Step)> {
 
     let block = match block_map.get(&id) {
         Some(block) => block,
@@ -302,30 +341,19 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (inner_chain, inner_next) =
-                        try!(search_block(next_id, &inner_fl, block_map));
+                        try!(search_block(next_id, &inner_fl, block_map, path));
 
                     if inner_next == Continue::Next(head) {
                         let inner_box = Box::new(inner_chain);
 
                         let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
 
-                        let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, block_map));
-
-                        let chain = ControlFlowChain::block(vec![ctc, after_chain]);
-
-                        Ok((chain, after_next))
+                        Ok((ctc, Step::Next(after)))
                     } else {
                         Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
                     }
                 }
-                None => {
-                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map));
-
-                    let chain = ControlFlowChain::block(vec![current, next_chain]);
-
-                    Ok((chain, next_next))
-                }
+                None => Ok((current, Step::Next(next_id))),
                 _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
             }
         }
@@ -346,9 +374,9 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (true_chain, true_next) =
-                        try!(search_block(true_block, &inner_fl, block_map));
+                        try!(search_block(true_block, &inner_fl, block_map, path));
                     let (false_chain, false_next) =
-                        try!(search_block(false_block, &inner_fl, block_map));
+                        try!(search_block(false_block, &inner_fl, block_map, path));
 
                     if true_next == false_next && true_next == Continue::Next(merge) {
 
@@ -357,12 +385,7 @@ fn search_block(id: BlockId,
                         let weights = op.weights.clone();
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
 
-                        let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, block_map));
-
-                        let chain = ControlFlowChain::block(vec![ctc, next_chain]);
-
-                        Ok((chain, next_next))
+                        Ok((ctc, Step::Next(merge)))
                     } else {
                         Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id))
                     }
@@ -381,7 +404,7 @@ fn search_block(id: BlockId,
                     if is_break || is_continue {
                         // Break block or Continue block
 
-                        let inner = try!(search_block(true_block, &flow_list, block_map));
+                        let inner = try!(search_block(true_block, &flow_list, block_map, path));
                         let (inner_chain, inner_next) = inner;
 
                         if inner_next == Continue::Next(head) {
@@ -398,7 +421,7 @@ fn search_block(id: BlockId,
                                                                   SelectionControl::default(),
                                                                   weights);
 
-                            Ok((ctc, inner_next))
+                            Ok((ctc, Step::End(inner_next)))
                         } else {
                             Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
                         }
@@ -410,7 +433,7 @@ fn search_block(id: BlockId,
         }
         GroupBranch::OpReturn(_) => {
             // Return block
-            Ok((ControlFlowChain::Atom(id), Continue::Return))
+            Ok((ControlFlowChain::Atom(id), Step::End(Continue::Return)))
         }
     }
 }
-- 
2.43.0


From 26f002013b45007990db72fc30afe6f3765a3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:44 +0000
Subject: [PATCH 8/9] fix: limit the nesting of recovered control flow instead
 of exhausting the stack

Recovery, printing and dropping recurse once per nesting level. A module with a
few hundred nested selections, or a loop with as many conditional exits, ended
the process with a stack overflow. Such functions are now refused.
---
 src/spv/logical/control_flow.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index ba76312..2554c2b 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -176,7 +176,7 @@ pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlF
         None => return Err(ControlFlowError::NoBlocks),
     };
 
-    let mut path = HashSet::new();
+    let mut path = BlockPath::new();
     let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map, &mut path));
 
     match next {
@@ -280,7 +280,23 @@ enum Step {
 
 /// Blocks that lead to the current position. Running into one of them again, when it is not
 /// an enclosing flow control to converge with, means the blocks do not form a structure.
-type BlockPath = HashSet<BlockId>;
+struct BlockPath {
+    blocks: HashSet<BlockId>,
+    depth: usize,
+}
+
+/// Deepest nesting of sequences to recover. The search, and everything that later walks or drops
+/// the structure, recurses once per level, so an unlimited depth would exhaust the stack.
+const MAX_NESTING: usize = 256;
+
+impl BlockPath {
+    fn new() -> BlockPath {
+        BlockPath {
+            blocks: HashSet::new(),
+            depth: 0,
+        }
+    }
+}
 
 fn search_block(start: BlockId,
                 flow_list: &FlowList,
@@ -290,11 +306,15 @@ fn search_block(start: BlockId,
     let mut id = start;
     let mut chains = Vec::new();
     let mut passed = Vec::new();
+    if path.depth == MAX_NESTING {
+        return Err(ControlFlowError::CouldNotPredictConverge(start));
+    }
+    path.depth += 1;
     let result = loop {
         if flow_list.merges(&id) {
             break (ControlFlowChain::Block(chains), Continue::Next(id));
         }
-        if !path.insert(id) {
+        if !path.blocks.insert(id) {
             return Err(ControlFlowError::CouldNotPredictConverge(id));
         }
         passed.push(id);
@@ -306,8 +326,9 @@ fn search_block(start: BlockId,
         }
     };
     for id in &passed {
-        path.remove(id);
+        path.blocks.remove(id);
     }
+    path.depth -= 1;
     Ok(result)
 }
 
-- 
2.43.0


From 0f5167c23088927833669e735c89018410e9da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:03 +0000
Subject: [PATCH 9/9] fix: limit the repetition of shared blocks in recovered
 control flow

A block both sides of a selection lead to is placed on both, so nested selections
with shared sides made recovery take time and memory exponential in their number.
Structures beyond a fixed multiple of the function's size are now refused.
---
 src/spv/logical/control_flow.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index 2554c2b..6d1e829 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -283,17 +283,23 @@ enum Step {
 struct BlockPath {
     blocks: HashSet<BlockId>,
     depth: usize,
+    placed: usize,
 }
 
 /// Deepest nesting of sequences to recover. The search, and everything that later walks or drops
 /// the structure, recurses once per level, so an unlimited depth would exhaust the stack.
 const MAX_NESTING: usize = 256;
 
+/// Largest size of the structure, in blocks placed per block of the function. A block that both
+/// sides of a selection lead to is placed on each of them, and nested selections multiply that.
+const MAX_REPETITION: usize = 64;
+
 impl BlockPath {
     fn new() -> BlockPath {
         BlockPath {
             blocks: HashSet::new(),
             depth: 0,
+            placed: 0,
         }
     }
 }
@@ -314,9 +320,10 @@ fn search_block(start: BlockId,
         if flow_list.merges(&id) {
             break (ControlFlowChain::Block(chains), Continue::Next(id));
         }
-        if !path.blocks.insert(id) {
+        if !path.blocks.insert(id) || path.placed / MAX_REPETITION >= block_map.len() {
             return Err(ControlFlowError::CouldNotPredictConverge(id));
         }
+        path.placed += 1;
         passed.push(id);
         let (chain, step) = try!(search_construct(id, flow_list, block_map, path));
         chains.push(chain);
-- 
2.43.0

