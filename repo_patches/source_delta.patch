From 7b7afc1a5c4db36a884ac5b293b55693e8180437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:38 +0000
Subject: [PATCH 1/8] fix: compare the whole version bytes of the module header

---
 src/spv/raw/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 994a45b..794008a 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -26,9 +26,9 @@ pub fn read_module<'a>(data: &'a [u8],
 
     let ver_word = try!(stream.read_word());
     let ver_high = (ver_word >> 24) as u8;
-    let ver_major = ((ver_word >> 16) & 0xF) as u8;
-    let ver_minor = ((ver_word >> 8) & 0xF) as u8;
-    let ver_low = (ver_word & 0xF) as u8;
+    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
+    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
+    let ver_low = (ver_word & 0xFF) as u8;
     let version = match (ver_high, ver_major, ver_minor, ver_low) {
         (0, 1, 0, 0) => Version(ver_major, ver_minor),
         (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
-- 
2.43.0


From 17f8f3142dd0dc48a58880d72597f2d5fbf12f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:40 +0000
Subject: [PATCH 2/8] fix: reject instructions with a word count of zero

---
 src/spv/raw/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 794008a..f1c0cd6 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -129,6 +129,9 @@ fn read_instruction(stream: &mut Stream,
     let head = try!(stream.read_word());
     let id = (head & 0xFFFF) as u16;
     let wc = (head >> 16) as u16;
+    if wc == 0 {
+        return Err(ReadError::WrongWordCountForOp);
+    }
     let mut words = Vec::with_capacity(wc as usize);
     words.push(head);
     for _ in 1..wc {
-- 
2.43.0


From a05ae0026af25a269bb53cd6c1e9ea83df9096fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:43 +0000
Subject: [PATCH 3/8] fix: reject undefined bits in mask operands instead of
 dropping them

---
 src/spv/raw/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 21a6f01..344a0f7 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -288,6 +288,7 @@ pub enum ReadError {
     UnknownLinkageType(u32),
     UnknownSignedness(u32),
     UnknownStorageClass(u32),
+    UnknownFunctionControl(u32),
     UnknownFunctionParameterAttribute(u32),
     UnknownMemoryAccess(u32),
     UnknownDim(u32),
@@ -339,6 +340,7 @@ impl Error for ReadError {
             UnknownLinkageType(_) => "unknown linkage type",
             UnknownSignedness(_) => "unknown signedness",
             UnknownStorageClass(_) => "unknown storage class",
+            UnknownFunctionControl(_) => "unknown function control",
             UnknownFunctionParameterAttribute(_) => "unknown function parameter attribute",
             UnknownMemoryAccess(_) => "unknown memory access",
             UnknownDim(_) => "unknown image dimension",
@@ -828,6 +830,9 @@ impl MemoryBlockRead for StorageClass {
 impl MemoryBlockRead for FunctionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FunctionControl> {
         let (block, value) = try!(block.read_word());
+        if (value & !0xF) != 0 {
+            return Err(ReadError::UnknownFunctionControl(value));
+        }
         let function_control = FunctionControl {
             inline: (value & 0x1) != 0,
             dont_inline: (value & 0x2) != 0,
@@ -841,7 +846,7 @@ impl MemoryBlockRead for FunctionControl {
 impl MemoryBlockRead for MemoryAccess {
     fn read(block: MemoryBlock) -> MemoryBlockResult<MemoryAccess> {
         let (block, memory_access_word) = try!(block.read_word());
-        if (memory_access_word & 0xFFF8) != 0 {
+        if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
         let memory_access = MemoryAccess {
@@ -939,7 +944,7 @@ impl MemoryBlockRead for FpRoundingMode {
 impl MemoryBlockRead for FpFastMathMode {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FpFastMathMode> {
         let (block, id) = try!(block.read_word());
-        if (id & 0xFFC0) != 0 {
+        if (id & !0x1F) != 0 {
             return Err(ReadError::UnknownFpFastMathMode(id));
         }
         let fast_math_mode = FpFastMathMode {
@@ -1079,7 +1084,7 @@ impl MemoryBlockRead for Decoration {
 impl MemoryBlockRead for LoopControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<LoopControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFF0 != 0 {
+        if word & !0xF != 0 {
             return Err(ReadError::UnknownLoopControl(word));
         }
         let dependency_length_val = (word & 0x8) != 0;
@@ -1102,7 +1107,7 @@ impl MemoryBlockRead for LoopControl {
 impl MemoryBlockRead for SelectionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<SelectionControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFFC != 0 {
+        if word & !0x3 != 0 {
             return Err(ReadError::UnknownSelectionControl(word));
         }
         let selection_control = SelectionControl {
-- 
2.43.0


From dc87523fb80f92aea0b37106e4f529720c13d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:45 +0000
Subject: [PATCH 4/8] fix: do not divide by zero when reading a list of small
 operands

---
 src/spv/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 344a0f7..366e919 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -411,7 +411,7 @@ impl MemoryBlockRead for ResultId {
 
 impl<T: MemoryBlockRead> MemoryBlockRead for Vec<T> {
     fn read(mut block: MemoryBlock) -> MemoryBlockResult<Vec<T>> {
-        let item_word_size = std::cmp::min(1, std::mem::size_of::<T>() / 4);
+        let item_word_size = std::cmp::max(1, std::mem::size_of::<T>() / 4);
         let assumed_size = block.remaining() / item_word_size;
         let mut items = Vec::with_capacity(assumed_size);
         while block.remaining() > 0 {
-- 
2.43.0


From b6cf54fced96be4fc09167b0e8ba46b43254707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:47 +0000
Subject: [PATCH 5/8] fix: do not recurse once per instruction when validating
 a module

---
 src/spv/logical/parser/parser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 64ef29e..c2623a5 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -96,20 +96,18 @@ enum PhaseResult<'a, T> {
 fn read_many<T>(insts: OpSlice,
                 f: fn(OpSlice) -> PhaseResult<T>)
                 -> ValidationResult<(Vec<T>, OpSlice)> {
-    fn read_rest<T>(insts: OpSlice,
-                    f: fn(OpSlice) -> PhaseResult<T>,
-                    mut output: Vec<T>)
-                    -> ValidationResult<(Vec<T>, OpSlice)> {
+    let mut insts = insts;
+    let mut output = Vec::new();
+    loop {
         match f(insts) {
             PhaseResult::Ok(item, next) => {
                 output.push(item);
-                read_rest(next, f, output)
+                insts = next;
             }
-            PhaseResult::Next(next) => Ok((output, next)),
-            PhaseResult::Err(err) => Err(err),
+            PhaseResult::Next(next) => return Ok((output, next)),
+            PhaseResult::Err(err) => return Err(err),
         }
     }
-    read_rest(insts, f, Vec::new())
 }
 
 fn read_capability(insts: OpSlice) -> PhaseResult<Capability> {
-- 
2.43.0


From 8a43ca8b5b064a62fedf59b8f0b53b10bc7af75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:05 +0000
Subject: [PATCH 6/8] fix: report unsupported merge and branch combinations
 instead of panicking

---
 src/spv/logical/control_flow.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index af7fe16..152770e 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -326,7 +326,10 @@ fn search_block(id: BlockId,
 
                     Ok((chain, next_next))
                 }
-                _ => unimplemented!(),
+                // A selection merge must come before a conditional branch
+                Some(GroupMerge::OpSelectionMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
             }
         }
         GroupBranch::OpBranchConditional(ref op) => {
@@ -367,8 +370,10 @@ fn search_block(id: BlockId,
                         Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id))
                     }
                 }
-                // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => unimplemented!(),
+                // Loop construct (not supported with a conditional branch in the header)
+                Some(GroupMerge::OpLoopMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
                 None => {
                     let (head, merge) = match flow_list.innermost_loop() {
                         Some(l) => l,
-- 
2.43.0


From d60a2579d36569e9ad875f0f85a0289a517ce64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:07 +0000
Subject: [PATCH 7/8] fix: report cycles outside of a loop construct instead of
 recursing forever

---
 src/spv/logical/control_flow.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index 152770e..c2344c8 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -176,7 +176,7 @@ pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlF
         None => return Err(ControlFlowError::NoBlocks),
     };
 
-    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
+    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map, 0));
 
     match next {
         Continue::Return => Ok(chain),
@@ -271,7 +271,8 @@ impl FlowList {
 
 fn search_block(id: BlockId,
                 flow_list: &FlowList,
-                block_map: &BlockMap)
+                block_map: &BlockMap,
+                depth: usize)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
 
     if flow_list.merges(&id) {
@@ -283,6 +284,12 @@ fn search_block(id: BlockId,
         None => return Err(ControlFlowError::UnknownBlockId(id)),
     };
 
+    // More nested blocks than the function has means we're following a cycle
+    // that no enclosing loop accounts for
+    if depth >= block_map.len() {
+        return Err(ControlFlowError::CouldNotPredictConverge(id));
+    }
+
     match block.branch {
         GroupBranch::OpBranch(ref op) => {
             let current = ControlFlowChain::Atom(id);
@@ -302,7 +309,7 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (inner_chain, inner_next) =
-                        try!(search_block(next_id, &inner_fl, block_map));
+                        try!(search_block(next_id, &inner_fl, block_map, depth + 1));
 
                     if inner_next == Continue::Next(head) {
                         let inner_box = Box::new(inner_chain);
@@ -310,7 +317,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
 
                         let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, block_map));
+                            try!(search_block(after, flow_list, block_map, depth + 1));
 
                         let chain = ControlFlowChain::block(vec![ctc, after_chain]);
 
@@ -320,7 +327,7 @@ fn search_block(id: BlockId,
                     }
                 }
                 None => {
-                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map));
+                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map, depth + 1));
 
                     let chain = ControlFlowChain::block(vec![current, next_chain]);
 
@@ -349,9 +356,9 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (true_chain, true_next) =
-                        try!(search_block(true_block, &inner_fl, block_map));
+                        try!(search_block(true_block, &inner_fl, block_map, depth + 1));
                     let (false_chain, false_next) =
-                        try!(search_block(false_block, &inner_fl, block_map));
+                        try!(search_block(false_block, &inner_fl, block_map, depth + 1));
 
                     if true_next == false_next && true_next == Continue::Next(merge) {
 
@@ -361,7 +368,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
 
                         let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, block_map));
+                            try!(search_block(merge, flow_list, block_map, depth + 1));
 
                         let chain = ControlFlowChain::block(vec![ctc, next_chain]);
 
@@ -384,7 +391,7 @@ fn search_block(id: BlockId,
                     if is_break || is_continue {
                         // Break block or Continue block
 
-                        let inner = try!(search_block(true_block, &flow_list, block_map));
+                        let inner = try!(search_block(true_block, &flow_list, block_map, depth + 1));
                         let (inner_chain, inner_next) = inner;
 
                         if inner_next == Continue::Next(head) {
-- 
2.43.0


From b6fef5ba3943925f8459bbb87361a16202f7db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:41 +0000
Subject: [PATCH 8/8] fix: quote the linkage name when disassembling a
 decoration

---
 src/spv/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 6723cdf..a86ed9e 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -242,7 +242,7 @@ impl Display for Decoration {
                 return write!(f, "FpFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
-                return write!(f, "LinkageAttributes {} {}", name, lt)
+                return write!(f, "LinkageAttributes \"{}\" {}", name, lt)
             }
             Decoration::NoContraction => "NoContraction",
             Decoration::InputAttachmentIndex(ref n) => {
-- 
2.43.0

