From 4542f260d38c7aaeb5c392bde76c8d46beb529da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 01/15] fix: initialise the tail of a frame when init_pages
 ends in its second to last page

FastMemory::prepare_memory marked the frame as initialised without
clearing its last page when the write covered the frame up to exactly
one page before its end, leaving stale host memory visible to the guest.
---
 src/machine/asm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 2f718cd..5d89cf6 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -229,7 +229,7 @@ impl<'a> FastMemory<'a> {
             // There is some memory space between the ending address of memory to be
             // written, and the end of the last memory frame touched, we will need to
             // initialize the last memory frame.
-            if (aligned_end + RISCV_PAGESIZE as u64) < frame_next_start {
+            if end < frame_next_start {
                 check_memory(self.0, aligned_end >> RISCV_PAGE_SHIFTS);
             }
         }
-- 
2.43.0


From 3d16831ddc36fcbe8089e5fb57e9458fc2ca6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 02/15] fix: remember the last written page only after its
 write check passed

The assembly engine cached the page number before the bounds and W^X
checks. When a store was rejected and the machine was run again, the next
store to the same page skipped the checks and wrote to an executable page,
or outside the host buffer.
---
 src/machine/asm/execute_aarch64.S | 2 +-
 src/machine/asm/execute_x64.S     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/machine/asm/execute_aarch64.S b/src/machine/asm/execute_aarch64.S
index 3cf7b42..8f5bc1a 100644
--- a/src/machine/asm/execute_aarch64.S
+++ b/src/machine/asm/execute_aarch64.S
@@ -234,7 +234,6 @@
   cmp TEMP1, TEMP2 SEP \
   beq 2f SEP \
 3: \
-  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   ldr TEMP2, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE] SEP \
   cmp TEMP1, TEMP2 SEP \
   bhs .exit_out_of_bound SEP \
@@ -244,6 +243,7 @@
   and TEMP3, TEMP3, CKB_VM_ASM_MEMORY_FLAG_WXORX_BIT SEP \
   cmp TEMP3, CKB_VM_ASM_MEMORY_FLAG_WRITABLE SEP \
   bne .exit_invalid_permission SEP \
+  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   orr TEMP2, TEMP2, CKB_VM_ASM_MEMORY_FLAG_DIRTY SEP \
   strb TEMP2w, [TEMP5, TEMP1] SEP \
   mov TEMP2, TEMP1 SEP \
diff --git a/src/machine/asm/execute_x64.S b/src/machine/asm/execute_x64.S
index 1100933..15f4484 100644
--- a/src/machine/asm/execute_x64.S
+++ b/src/machine/asm/execute_x64.S
@@ -272,7 +272,6 @@
   je 2f;\
 3:; \
   movq address_reg, TEMP3; \
-  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   movq CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE(MACHINE), TEMP2; \
   cmp TEMP2, TEMP1; \
   jae .exit_out_of_bound; \
@@ -282,6 +281,7 @@
   and $CKB_VM_ASM_MEMORY_FLAG_WXORX_BIT, temp_regd; \
   cmp $CKB_VM_ASM_MEMORY_FLAG_WRITABLE, temp_regd; \
   jne .exit_invalid_permission; \
+  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   or $CKB_VM_ASM_MEMORY_FLAG_DIRTY, TEMP2b; \
   movb TEMP2b, (TEMP3, TEMP1); \
   movq TEMP1, TEMP2; \
-- 
2.43.0


From 56eeab59487ffac8f6999a5b223fe5123d3bb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 03/15] fix: check the second operand of the first sltu when
 fusing subtract with borrow

rule_sbb compared next_inst.rs2() with itself, so that a sequence whose
first sltu compares with another register was fused and computed a wrong
borrow. Earlier versions keep their behavior.
---
 src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4776392..6784907 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -445,7 +445,9 @@ impl Decoder {
                         if next_inst.rd() == head_inst.rs1()
                             || next_inst.rd() == head_inst.rs2()
                             || next_inst.rs1() != head_inst.rs1()
-                            || next_inst.rs2() != next_inst.rs2()
+                            // Version 0 and 1 never looked at this operand, keep them as they are.
+                            || (decoder.version >= VERSION2
+                                && next_inst.rs2() != head_inst.rs2())
                         {
                             return Ok(None);
                         }
-- 
2.43.0


From d4f6008a19bb57e4816682eb725dcb8c1232efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 04/15] fix: AsmMachine::step maps every return code of the
 assembly loop

A step that overflowed the cycle counter or found the pause flag set was
reported as Error::Asm; run_with_decoder already handles these codes.
---
 src/machine/asm/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 5d89cf6..06f1c3a 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -755,7 +755,9 @@ impl AsmMachine {
             RET_DECODE_TRACE => (),
             RET_ECALL => self.machine.ecall()?,
             RET_EBREAK => self.machine.ebreak()?,
+            RET_DYNAMIC_JUMP => (),
             RET_MAX_CYCLES_EXCEEDED => return Err(Error::CyclesExceeded),
+            RET_CYCLES_OVERFLOW => return Err(Error::CyclesOverflow),
             RET_OUT_OF_BOUND => {
                 return Err(Error::MemOutOfBound(
                     self.machine.inner.error_arg0,
@@ -772,6 +774,10 @@ impl AsmMachine {
                 let instruction = decoder.decode(self.machine.memory_mut(), pc)?;
                 execute_instruction(instruction, &mut self.machine)?;
             }
+            RET_PAUSE => {
+                self.machine.pause.free();
+                return Err(Error::Pause);
+            }
             _ => return Err(Error::Asm(result)),
         }
         Ok(())
-- 
2.43.0


From e130ae03c6b59b50888588961136f5cf86f40228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 05/15] fix: cost of a trace in the assembly engine overflows
 without an error

The summed cost of a decoded trace used unchecked addition: with overflow
checks it panics, without them it wraps and the block is undercharged.
---
 src/machine/asm/traces.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index edcc603..addf7d9 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -57,7 +57,10 @@ pub fn decode_fixed_trace<D: InstDecoder>(
         let instruction = decoder.decode(machine.memory_mut(), current_pc)?;
         let end_instruction = is_basic_block_end_instruction(instruction);
         current_pc += u64::from(instruction_length(instruction));
-        trace.cycles += machine.instruction_cycle_func()(instruction);
+        trace.cycles = trace
+            .cycles
+            .checked_add(machine.instruction_cycle_func()(instruction))
+            .ok_or(Error::CyclesOverflow)?;
         let opcode = extract_opcode(instruction);
         // Here we are calculating the absolute address used in direct threading
         // from label offsets.
@@ -311,6 +314,10 @@ impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
             let instruction = self.decode(machine.memory_mut(), builder.next_pc())?;
             let end_instruction = is_basic_block_end_instruction(instruction);
             let cycles = machine.instruction_cycle_func()(instruction);
+            builder
+                .cycles
+                .checked_add(cycles)
+                .ok_or(Error::CyclesOverflow)?;
             builder.push(instruction, cycles);
             if end_instruction {
                 break;
-- 
2.43.0


From 5606c61608e9d3374dc84d81b28aa07811b73296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 06/15] fix: save whole pages in version-1 snapshots of 32-bit
 machines

make_snapshot read pages with load64 through the register type, which
drops the upper half of every word when registers are 32 bits wide.
---
 src/snapshot.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index ec42379..8bbfab1 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -50,28 +50,13 @@ pub fn make_snapshot<T: CoreMachine>(machine: &mut T) -> Result<Snapshot, Error>
         let flag = machine.memory_mut().fetch_flag(i as u64)?;
         if flag & FLAG_DIRTY != 0 {
             let addr_from = i << RISCV_PAGE_SHIFTS;
-            let addr_to = (i + 1) << RISCV_PAGE_SHIFTS;
-
-            let mut page = vec![0; RISCV_PAGESIZE];
-            for i in (addr_from..addr_to).step_by(8) {
-                let v64 = machine
-                    .memory_mut()
-                    .load64(&T::REG::from_u64(i as u64))?
-                    .to_u64();
-                let j = i - addr_from;
-                page[j] = v64 as u8;
-                page[j + 1] = (v64 >> 8) as u8;
-                page[j + 2] = (v64 >> 16) as u8;
-                page[j + 3] = (v64 >> 24) as u8;
-                page[j + 4] = (v64 >> 32) as u8;
-                page[j + 5] = (v64 >> 40) as u8;
-                page[j + 6] = (v64 >> 48) as u8;
-                page[j + 7] = (v64 >> 56) as u8;
-            }
+            let page = machine
+                .memory_mut()
+                .load_bytes(addr_from as u64, RISCV_PAGESIZE as u64)?;
 
             snap.page_indices.push(i as u64);
             snap.page_flags.push(flag);
-            snap.pages.push(page);
+            snap.pages.push(page.to_vec());
         }
     }
     Ok(snap)
-- 
2.43.0


From c529c917951f1b08e7a5938ba8f98e920836bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 07/15] fix: refuse a version-2 snapshot whose data source is
 too short

Resuming stored whatever the data source returned, so a range that
reaches past the end of the data was silently left unrestored.
---
 src/snapshot2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index f06d25e..f771204 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -76,6 +76,9 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
                     address.wrapping_add(data.len() as u64),
                 ));
             }
+            if data.len() as u64 != *length {
+                return Err(Error::SnapshotDataLoadError);
+            }
             machine.memory_mut().store_bytes(*address, &data)?;
             for i in 0..(data.len() as u64 / PAGE_SIZE) {
                 let page = address / PAGE_SIZE + i;
-- 
2.43.0


From b27bb9e08c4da1ca52b41cacf50391e07ffbb691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 08/15] fix: mark_program forgets what an overlapping segment
 replaced

When a later segment overwrote a page that an earlier segment took from
the data source, the page stayed tracked and a resumed machine got the
earlier segment's bytes back.
---
 src/snapshot2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index f771204..e2201bd 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -232,6 +232,9 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         id: &I,
         offset: u64,
     ) -> Result<(), Error> {
+        // This action replaced everything in its range, including pages that
+        // an earlier, overlapping action took from the data source.
+        self.untrack_pages(machine, action.addr, action.size)?;
         let start = action.addr + action.offset_from_addr;
         let length = min(
             action.source.end - action.source.start,
-- 
2.43.0


From b9e979aa22f4f9ed4c0bdabef33afd639e44673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 09/15] fix: version-2 snapshots keep the current flags of
 pages from a data source

---
 src/snapshot2.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index e2201bd..b088ec3 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -187,17 +187,19 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
             // Some pages might be marked as cached pages from data source, but receives
             // memory writes later(and marked as dirty). We are safely skipping those pages
             // here as they will be gathered as dirty pages.
-            if machine.memory_mut().fetch_flag(page)? & FLAG_DIRTY != 0 {
+            // The flags might have been changed since the page was tracked as well.
+            let flag = machine.memory_mut().fetch_flag(page)?;
+            if flag & FLAG_DIRTY != 0 {
                 continue;
             }
             let address = page * PAGE_SIZE;
-            let (id, offset, flag) = &self.pages[&page];
+            let (id, offset, _) = &self.pages[&page];
             let mut appended_to_last = false;
             if let Some((last_address, last_flag, last_id, last_offset, last_length)) =
                 pages_from_source.last_mut()
             {
                 if *last_address + *last_length == address
-                    && *last_flag == *flag
+                    && *last_flag == flag
                     && *last_id == *id
                     && *last_offset + *last_length == *offset
                 {
@@ -206,7 +208,7 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
                 }
             }
             if !appended_to_last {
-                pages_from_source.push((address, *flag, id.clone(), *offset, PAGE_SIZE));
+                pages_from_source.push((address, flag, id.clone(), *offset, PAGE_SIZE));
             }
         }
         let mut registers = [0u64; RISCV_GENERAL_REGISTER_NUMBER];
-- 
2.43.0


From d7955aad243d35d0484381a188c3fa78d2d1594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 10/15] fix: refuse a stack too small for argc instead of
 leaving it

---
 src/machine/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/machine/mod.rs b/src/machine/mod.rs
index 8babb79..528503d 100644
--- a/src/machine/mod.rs
+++ b/src/machine/mod.rs
@@ -186,8 +186,11 @@ pub trait SupportMachine: CoreMachine {
         if self.version() >= VERSION1 && args.is_empty() {
             let argc_size = u64::from(Self::REG::BITS / 8);
             let origin_sp = stack_start + stack_size;
-            let unaligned_sp_address = origin_sp - argc_size;
-            let aligned_sp_address = unaligned_sp_address & (!15);
+            let aligned_sp_address = origin_sp.saturating_sub(argc_size) & (!15);
+            if origin_sp < argc_size || aligned_sp_address < stack_start {
+                // argc does not fit in the stack
+                return Err(Error::MemOutOfStack);
+            }
             let used_bytes = origin_sp - aligned_sp_address;
             self.set_register(SP, Self::REG::from_u64(aligned_sp_address));
             return Ok(used_bytes);
-- 
2.43.0


From 4d59f170a9be4b32c036071bb60228264e4eadbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 11/15] fix: a reset machine forgets the exit code of the
 previous program

---
 src/machine/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/machine/mod.rs b/src/machine/mod.rs
index 528503d..fd06f84 100644
--- a/src/machine/mod.rs
+++ b/src/machine/mod.rs
@@ -496,7 +496,12 @@ impl<Inner: SupportMachine> SupportMachine for DefaultMachine<Inner> {
     }
 
     fn reset_signal(&mut self) -> bool {
-        self.inner_mut().reset_signal()
+        let reset = self.inner_mut().reset_signal();
+        if reset {
+            // The exit code belongs to the program that was replaced.
+            self.exit_code = 0;
+        }
+        reset
     }
 
     fn running(&self) -> bool {
-- 
2.43.0


From e7cb95b97886c0ff8624fa2c94aa8cdb3a96a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 12/15] fix: release a dynamic trace with the layout it was
 allocated with

---
 src/machine/asm/traces.rs | 42 ++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index addf7d9..5c6c59b 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -17,7 +17,7 @@ use crate::{
     },
     memory::Memory,
 };
-use std::alloc::{alloc, alloc_zeroed, Layout};
+use std::alloc::{alloc_zeroed, Layout};
 use std::collections::HashMap;
 
 pub trait TraceDecoder: InstDecoder {
@@ -207,13 +207,13 @@ impl<D: InstDecoder> InstDecoder for MemoizedFixedTraceDecoder<D> {
 /// The individual fields in this data structure, albeit similar to FixedTrace,
 /// are marked as privates so one cannot directly instantiate a struct of
 /// DynamicTrace. Instead, all constructions of DynamicTrace are done via
-/// DynamicTraceBuilder, which builds `Box<DynamicTrace>`. This is due to the
+/// DynamicTraceBuilder, which builds `DynamicTraceBox`. This is due to the
 /// reasons that we might have a variable number of `threads` allocated at the
 /// end of this data structure. So on the surface, it might appear that a
 /// struct of DynamicTrace is 24 bytes. In reality it is bigger than this:
 /// a struct of DynamicTrace containing 30 opcodes could be
 /// 24 + 30 * 16 + 16 = 520 bytes long(the final 16 bytes are for OP_CUSTOM_TRACE_END).
-/// Using `Box<DynamicTrace>`, together with `DynamicTraceBuilder`, helps us to
+/// Using `DynamicTraceBox`, together with `DynamicTraceBuilder`, helps us to
 /// abstract this details away when we are constructing the types. The underlying
 /// assembly code cannot tell the difference between DynamicTrace and FixedTrace.
 #[repr(C)]
@@ -223,6 +223,19 @@ pub struct DynamicTrace {
     cycles: u64,
 }
 
+/// Owns the memory of a DynamicTrace, including the threads that follow it.
+/// Box<DynamicTrace> cannot be used here, since it would release the memory
+/// as if only DynamicTrace itself had been allocated.
+pub struct DynamicTraceBox {
+    buffer: Box<[u64]>,
+}
+
+impl AsRef<DynamicTrace> for DynamicTraceBox {
+    fn as_ref(&self) -> &DynamicTrace {
+        unsafe { &*(self.buffer.as_ptr() as *const DynamicTrace) }
+    }
+}
+
 pub struct DynamicTraceBuilder {
     start_address: u64,
     length: u32,
@@ -254,29 +267,22 @@ impl DynamicTraceBuilder {
         self.insts.push((inst, label));
     }
 
-    pub fn build(mut self) -> Box<DynamicTrace> {
+    pub fn build(mut self) -> DynamicTraceBox {
         self.insts.push((
             blank_instruction(OP_CUSTOM_TRACE_END),
             label_from_fastpath_opcode(OP_CUSTOM_TRACE_END),
         ));
-        let fixed_size = std::mem::size_of::<DynamicTrace>();
-        let total_size = fixed_size + self.insts.len() * 16;
-        let p = unsafe {
-            let layout = Layout::array::<u8>(total_size).unwrap();
-            alloc(layout)
-        };
-        let threads = unsafe { p.add(fixed_size) } as *mut u64;
+        let header_items = std::mem::size_of::<DynamicTrace>() / std::mem::size_of::<u64>();
+        let mut buffer = vec![0u64; header_items + self.insts.len() * 2].into_boxed_slice();
         for (i, (inst, label)) in self.insts.iter().enumerate() {
-            unsafe {
-                threads.offset(i as isize * 2).write(*label);
-                threads.offset(i as isize * 2 + 1).write(*inst);
-            }
+            buffer[header_items + i * 2] = *label;
+            buffer[header_items + i * 2 + 1] = *inst;
         }
-        let mut trace = unsafe { Box::from_raw(p as *mut DynamicTrace) };
+        let trace = unsafe { &mut *(buffer.as_mut_ptr() as *mut DynamicTrace) };
         trace.address = self.start_address;
         trace.length = self.length;
         trace.cycles = self.cycles;
-        trace
+        DynamicTraceBox { buffer }
     }
 }
 
@@ -285,7 +291,7 @@ impl DynamicTraceBuilder {
 pub struct MemoizedDynamicTraceDecoder<D: InstDecoder> {
     inner: SimpleFixedTraceDecoder<D>,
     fixed_cache: HashMap<u64, FixedTrace>,
-    dynamic_cache: HashMap<u64, Box<DynamicTrace>>,
+    dynamic_cache: HashMap<u64, DynamicTraceBox>,
 }
 
 impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
-- 
2.43.0


From 29a62b4967f3034f2db12948dfdc7510dc8ad643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 13/15] fix: sparse memory lost or aliased pages once 65536 of
 them were in use

The page index was 16 bits wide, and 0xFFFF means not allocated: with memories
above 256 MB the page whose index is 0xFFFF lost what was written to it and
later ones shared the storage of earlier pages.
---
 src/memory/sparse.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index 09cf917..c74c38a 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -7,16 +7,16 @@ use bytes::Bytes;
 use std::cmp::min;
 use std::marker::PhantomData;
 
-const INVALID_PAGE_INDEX: u16 = 0xFFFF;
+const INVALID_PAGE_INDEX: u32 = 0xFFFF_FFFF;
 
 /// A sparse flat memory implementation, it allocates pages only when requested,
 /// but besides that, it does not permission checking.
 pub struct SparseMemory<R> {
     // Stores the indices of each page in pages data structure, if a page hasn't
     // been initialized, the corresponding position will be filled with
-    // INVALID_PAGE_INDEX. Considering u16 takes 2 bytes, this add an additional
-    // of 64KB extra storage cost assuming we have 128MB memory.
-    indices: Vec<u16>,
+    // INVALID_PAGE_INDEX. Considering u32 takes 4 bytes, this add an additional
+    // of 128KB extra storage cost assuming we have 128MB memory.
+    indices: Vec<u32>,
     pages: Vec<Page>,
     flags: Vec<u8>,
     memory_size: usize,
@@ -34,7 +34,7 @@ impl<R: Register> SparseMemory<R> {
         let mut index = self.indices[page as usize];
         if index == INVALID_PAGE_INDEX {
             self.pages.push([0; RISCV_PAGESIZE]);
-            index = (self.pages.len() - 1) as u16;
+            index = (self.pages.len() - 1) as u32;
             self.indices[page as usize] = index;
         }
         Ok(&mut self.pages[index as usize])
-- 
2.43.0


From 44045337882ba2e1f45e7f1c9731ba3c6c33db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 14/15] fix: TraceMachine rejects ISA_MOP on version 0 like the
 other machines

---
 src/machine/trace.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/machine/trace.rs b/src/machine/trace.rs
index 9b500f2..239b33d 100644
--- a/src/machine/trace.rs
+++ b/src/machine/trace.rs
@@ -6,9 +6,9 @@ use super::{
             execute_with_thread, extract_opcode, handle_invalid_op, instruction_length,
             is_basic_block_end_instruction, Instruction, Register, Thread, ThreadFactory,
         },
-        Error,
+        Error, ISA_MOP,
     },
-    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION2,
+    CoreMachine, DefaultMachine, Machine, SupportMachine, VERSION0, VERSION2,
 };
 use bytes::Bytes;
 
@@ -137,6 +137,9 @@ impl<Inner: SupportMachine> TraceMachine<Inner> {
     }
 
     pub fn run_with_decoder<D: InstDecoder>(&mut self, decoder: &mut D) -> Result<i8, Error> {
+        if self.isa() & ISA_MOP != 0 && self.version() == VERSION0 {
+            return Err(Error::InvalidVersion);
+        }
         self.machine.set_running(true);
         // For current trace size this is acceptable, however we might want
         // to tweak the code here if we choose to use a larger trace size or
-- 
2.43.0


From c6103c1c7702c0a2cbc2c3116e8e65511d275cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 15/15] fix: a reset also forgets the next program counter

A call that resets the machine without setting a new program counter went on
after the call on the interpreters, at zero on the assembly machine.
---
 src/machine/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/machine/mod.rs b/src/machine/mod.rs
index fd06f84..be66cf2 100644
--- a/src/machine/mod.rs
+++ b/src/machine/mod.rs
@@ -335,6 +335,7 @@ impl<R: Register, M: Memory<REG = R>> SupportMachine for DefaultCoreMachine<R, M
     fn reset(&mut self, max_cycles: u64) -> Result<(), Error> {
         self.registers = Default::default();
         self.pc = Default::default();
+        self.next_pc = Default::default();
         self.memory.reset_memory()?;
         self.cycles = 0;
         self.max_cycles = max_cycles;
-- 
2.43.0

