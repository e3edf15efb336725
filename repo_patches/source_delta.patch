From 27ad1e99cc2ce68b32f1c4f2d8583da0510da97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 01/17] fix: EORI and ORI to CCR only change the condition
 codes

---
 m68000/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 77a498b..15044f9 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -992,7 +992,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_eoriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr ^= imm;
+        self.regs.sr ^= imm & CCR_MASK;
 
         Ok(CPU::EORICCR)
     }
@@ -1700,7 +1700,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_oriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr |= imm;
+        self.regs.sr |= imm & CCR_MASK;
 
         Ok(CPU::ORICCR)
     }
-- 
2.43.0


From 7cbafa34547a12dc86c3f848719d85a40eabcddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 02/17] fix: DIVS does not overflow on a quotient of -32768

---
 m68000/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 15044f9..5180950 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -860,7 +860,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.
         self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.
-        self.regs.sr.v = quot <= i16::MIN as i32 || quot > i16::MAX as i32;
+        self.regs.sr.v = quot < i16::MIN as i32 || quot > i16::MAX as i32;
 
         if !self.regs.sr.v {
             self.regs.d[reg as usize].0 = (rem as u16 as u32) << 16 | (quot as u16 as u32);
-- 
2.43.0


From b465cdfc4bb2c041c3fc805a8c6e47a3aab8d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 03/17] fix: EXT.W sets N and Z from the word result

---
 m68000/src/interpreter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 5180950..66d804e 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1025,12 +1025,14 @@ impl<CPU: CpuDetails> M68000<CPU> {
         if mode == 0b010 {
             let d = self.regs.d[reg as usize].0 as i8 as u16;
             self.regs.d_word(reg, d);
+            self.regs.sr.n = d & SIGN_BIT_16 != 0;
+            self.regs.sr.z = d == 0;
         } else {
             self.regs.d[reg as usize].0 = self.regs.d[reg as usize].0 as i16 as u32;
+            self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
+            self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         }
 
-        self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
-        self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         self.regs.sr.v = false;
         self.regs.sr.c = false;
 
-- 
2.43.0


From cba696853e6479ce4cc77f4fba4c6acbaceaf639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 04/17] fix: JSR computes its target before pushing the return
 address

---
 m68000/src/interpreter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 66d804e..f97ea0d 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1065,8 +1065,10 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut ea = EffectiveAddress::new(am, None);
 
         let mut exec_time = 0;
+        // The target is computed before the push, it can depend on the stack pointer.
+        let target = self.get_effective_address(&mut ea, &mut exec_time);
         self.push_long(memory, self.regs.pc.0)?;
-        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);
+        self.regs.pc.0 = target;
 
         Ok(match am {
             AddressingMode::Ari(_) => CPU::JSR_ARI,
-- 
2.43.0


From 8ef29fe1fb8c6ab96522b6f135e315b1719370c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 05/17] fix: LINK A7 pushes the decremented stack pointer

---
 m68000/src/interpreter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index f97ea0d..424e947 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1101,7 +1101,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_link<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, reg: u8, disp: i16) -> InterpreterResult {
-        self.push_long(memory, self.regs.a(reg))?;
+        // LINK A7 pushes the stack pointer after it has been decremented.
+        let value = if reg == 7 { self.regs.sp().wrapping_sub(4) } else { self.regs.a(reg) };
+        self.push_long(memory, value)?;
         self.regs.a_mut(reg).0 = self.regs.sp();
         *self.regs.sp_mut() += disp as u32;
 
-- 
2.43.0


From e092cc0c4927678170f8b963d1afe7878785885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 06/17] fix: CHK sets N when it traps

---
 m68000/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 424e947..25e0285 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -687,6 +687,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let data = self.regs.d[reg as usize].0 as i16;
 
         if data < 0 || data > src {
+            self.regs.sr.n = data < 0;
             Err(Vector::ChkInstruction as u8)
         } else {
             Ok(CPU::CHK_NO_TRAP + exec_time)
-- 
2.43.0


From 8e6152ba69c947f0173ad0d1fccdd9193de8ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 07/17] fix: MOVEM with an illegal addressing mode is not an
 instruction

---
 m68000/src/bin/decoder.rs | 6 ++++--
 m68000/src/decoder.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/m68000/src/bin/decoder.rs b/m68000/src/bin/decoder.rs
index 21c1bbc..1883661 100644
--- a/m68000/src/bin/decoder.rs
+++ b/m68000/src/bin/decoder.rs
@@ -219,9 +219,9 @@ fn generate_isa(opcodes: &mut [Isa; 65536]) {
 
     generate_opcodes(opcodes, "010011100110abbb", &[&V0_1, &V0_7], Isa::Moveusp);
 
-    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2__4_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010010001b111ddd", &[&V0_1, &V0_1], Isa::Movem);
-    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_3__5_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010011001b111ddd", &[&V0_1, &V0_3], Isa::Movem);
 
     generate_opcodes(opcodes, "0000aaabbb001ccc", &[&V0_7, &V4_7, &V0_7], Isa::Movep);
@@ -439,6 +439,8 @@ const V0_15: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
 const V1_2: [u8; 2] = [1, 2];
 const V1_3: [u8; 3] = [1, 2, 3];
 const V2_3: [u8; 2] = [2, 3];
+const V2_3__5_6: [u8; 4] = [2, 3, 5, 6];
+const V2__4_6: [u8; 4] = [2, 4, 5, 6];
 const V2__5_6: [u8; 3] = [2, 5, 6];
 const V2_6: [u8; 5] = [2, 3, 4, 5, 6];
 const V2_15: [u8; 14] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
diff --git a/m68000/src/decoder.rs b/m68000/src/decoder.rs
index 2b086a7..8d052b3 100644
--- a/m68000/src/decoder.rs
+++ b/m68000/src/decoder.rs
@@ -1178,11 +1178,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea,
     Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
@@ -1243,11 +1243,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-- 
2.43.0


From 8f0390783f3403008c3dd2a66b8c5020e42decfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 08/17] fix: count the long operand time of a read-modify-write
 once

---
 m68000/src/memory_access.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 28cf90f..0cf22dc 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -162,9 +162,13 @@ impl<CPU: CpuDetails> M68000<CPU> {
             AddressingMode::Drd(reg) => { self.regs.d[reg as usize].0 = value; Ok(()) },
             AddressingMode::Ard(reg) => { self.regs.a_mut(reg).0 = value; Ok(()) },
             _ => {
+                // The effective address time is counted once per operand, it has been by the read of a read-modify-write.
+                let counted = ea.address.is_some();
                 let addr = self.get_effective_address(ea, exec_time).even()?;
                 let r = memory.set_long(addr, value).ok_or(ACCESS_ERROR);
-                *exec_time += 4;
+                if !counted {
+                    *exec_time += 4;
+                }
                 r
             },
         }
-- 
2.43.0


From dc496a66ef7d4a5a8c24b1180c0301b0942c6196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 09/17] fix: illegal and privileged instructions save their own
 address

---
 m68000/src/exception.rs                |  9 +++++++++
 m68000/src/interpreter_disassembler.rs |  9 +++++++--
 m68000/src/interpreter_fast.rs         | 10 ++++++++--
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index f66be65..2ecb19a 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -98,6 +98,15 @@ const fn is_interrupt(vector: u8) -> bool {
     vector >= Vector::Level1OnChipInterrupt as u8 && vector <= Vector::Level7OnChipInterrupt as u8
 }
 
+/// Returns true if the program counter saved by the exception is the address of the instruction that caused it, not the
+/// address of the next instruction (MC68000UM 6.3.6 and 6.3.7).
+pub(super) const fn saves_instruction_address(vector: u8) -> bool {
+    vector == Vector::IllegalInstruction as u8 ||
+    vector == Vector::PrivilegeViolation as u8 ||
+    vector == Vector::LineAEmulator as u8 ||
+    vector == Vector::LineFEmulator as u8
+}
+
 /// M68000 exception, with a vector number and a priority.
 ///
 /// This struct implements `From<u8>` and `From<Vector>`, to create an
diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 865a433..82dcbe8 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{saves_instruction_address, Exception, Vector};
 use crate::instruction::Instruction;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -72,7 +72,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if saves_instruction_address(e) {
+                    self.regs.pc.0 = instruction.pc;
+                }
+                Some(e)
+            },
         };
 
         (instruction.pc, dis, cycle_count, exception)
diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index a8f0672..5236cce 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{saves_instruction_address, Exception, Vector};
 use crate::instruction::*;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -102,6 +102,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             cycle_count += self.process_pending_exceptions(memory);
         }
 
+        let pc = self.regs.pc;
         let opcode = match self.get_next_word(memory) {
             Ok(op) => op,
             Err(e) => return (cycle_count, Some(e)),
@@ -119,7 +120,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if saves_instruction_address(e) {
+                    self.regs.pc = pc;
+                }
+                Some(e)
+            },
         };
 
         (cycle_count, exception)
-- 
2.43.0


From a53d01e3ca3e9d984fd37b57ea3f4616ef53f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 10/17] fix: pending exceptions of the same priority are all
 kept and served by level

---
 m68000/src/exception.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 2ecb19a..3cccdc5 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -83,6 +83,7 @@ const fn get_vector_priority(vector: u8) -> u8 {
         2 => 1, // Access Error.
         9 => 2, // Trace.
         24..=31 => 3, // Interrupt.
+        57..=63 => 3, // On-chip interrupt.
         64..=255 => 3, // User Interrupt.
         4 => 4, // Illegal.
         8 => 5, // Privilege.
@@ -123,6 +124,11 @@ impl Exception {
     pub const fn is_interrupt(&self) -> bool {
         is_interrupt(self.vector)
     }
+
+    /// Returns the interrupt level, 0 if it is not an interrupt.
+    const fn level(&self) -> u8 {
+        if self.is_interrupt() { self.vector & 7 } else { 0 }
+    }
 }
 
 impl From<u8> for Exception {
@@ -146,12 +152,13 @@ impl PartialOrd for Exception {
 
 impl Ord for Exception {
     /// For BTreeSet, compare by actual priority and not by the value itself, so higher number means less priority.
+    ///
+    /// Exceptions of the same priority are ordered by interrupt level, then by vector, so that only the exceptions
+    /// with the same vector are equal.
     fn cmp(&self, other: &Self) -> Ordering {
-        match self.priority.cmp(&other.priority) {
-            Ordering::Greater => Ordering::Less,
-            Ordering::Less => Ordering::Greater,
-            Ordering::Equal => Ordering::Equal,
-        }
+        other.priority.cmp(&self.priority)
+            .then(self.level().cmp(&other.level()))
+            .then(self.vector.cmp(&other.vector))
     }
 }
 
-- 
2.43.0


From 6036fbc1886e95d1fbc298c10ee95bdfad44fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 11/17] fix: an interrupt wakes the processor up if and only if
 the mask lets it through

---
 m68000/src/exception.rs                | 28 +++++++++++++++++---------
 m68000/src/interpreter_disassembler.rs |  1 +
 m68000/src/interpreter_fast.rs         |  1 +
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 3cccdc5..3f030a8 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -166,12 +166,26 @@ impl<CPU: CpuDetails> M68000<CPU> {
     /// Requests the CPU to process the given exception.
     pub fn exception(&mut self, ex: Exception) {
         if ex.vector == Vector::ResetSspPc as u8 ||
-           ex.vector == Vector::Trace as u8 ||
-           ex.is_interrupt() {
+           ex.vector == Vector::Trace as u8 {
             self.stop = false;
         }
 
         self.exceptions.insert(ex);
+        self.wake_up();
+    }
+
+    /// Returns true if the given exception is an interrupt currently inhibited by the interrupt priority mask.
+    fn is_masked(&self, ex: &Exception) -> bool {
+        // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
+        // MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
+        ex.is_interrupt() && ex.level() != 7 && ex.level() <= self.regs.sr.interrupt_mask
+    }
+
+    /// Leaves the stopped state if an interrupt that is not inhibited by the interrupt priority mask is pending.
+    pub(super) fn wake_up(&mut self) {
+        if self.stop && self.exceptions.iter().any(|ex| ex.is_interrupt() && !self.is_masked(ex)) {
+            self.stop = false;
+        }
     }
 
     /// Resets the CPU by fetching the reset vectors.
@@ -192,15 +206,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut to_process = Vec::new();
 
         for ex in &self.exceptions {
-            if ex.is_interrupt() {
-                // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
-                // MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
-                let level = ex.vector & 0x7;
-                if level != 7 && level <= self.regs.sr.interrupt_mask {
-                    continue;
-                }
+            if !self.is_masked(ex) {
+                to_process.push(*ex);
             }
-            to_process.push(*ex);
         }
 
         for ex in &to_process {
diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 82dcbe8..13f50a3 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -43,6 +43,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     ///
     /// See [Self::interpreter_exception] for the potential caveat.
     pub fn disassembler_interpreter_exception<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> (u32, String, usize, Option<u8>) {
+        self.wake_up();
         if self.stop {
             return (0, String::from(""), 0, None);
         }
diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index 5236cce..347b673 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -92,6 +92,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     /// This method may or may not execute any instruction.
     /// For example, if an Access Error occurs during instruction fetch, the exception is returned and no instruction is executed.
     pub fn interpreter_exception<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> (usize, Option<u8>) {
+        self.wake_up();
         if self.stop {
             return (0, None);
         }
-- 
2.43.0


From 079c0a28e83f0c1389b88c9237a7a3bb84f0b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 12/17] fix: the disassembling interpreters advance the PC over
 an unreadable opcode

---
 m68000/src/interpreter_disassembler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 13f50a3..6c2bdc4 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -14,9 +14,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     /// If an error occurs when reading the next instruction, the Err variant contains the exception vector.
     fn get_next_instruction<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> Result<Instruction, u8> {
         let mut iter = self.iter_from_pc(memory);
-        let instruction = Instruction::from_memory(&mut iter)?;
+        let instruction = Instruction::from_memory(&mut iter);
         self.regs.pc.0 = iter.next_addr;
-        Ok(instruction)
+        instruction
     }
 
     /// Runs the interpreter loop once and disassembles the next instruction if any.
-- 
2.43.0


From 059be0f96f8504e44463fc3ef34623a51fa12b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 13/17] fix: cycle returns all the cycles executed when the
 processor stops

---
 m68000/src/interpreter_fast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index 347b673..5aa2772 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -22,7 +22,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             total += self.interpreter(memory);
 
             if self.stop {
-                return cycles;
+                return total.max(cycles);
             }
         }
 
-- 
2.43.0


From f1029b5c27ca3b3d4364eddfa8bc96998e557488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 14/17] fix: a word access at the last byte of a byte slice is
 refused

---
 m68000/src/memory_access.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 0cf22dc..af7cc4b 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -243,12 +243,8 @@ impl MemoryAccess for [u8] {
     }
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
-        let addr = addr as usize;
-        if addr < self.len() {
-            Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
-        } else {
-            None
-        }
+        let bytes = self.get(addr as usize..)?.get(..2)?;
+        Some((bytes[0] as u16) << 8 | bytes[1] as u16)
     }
 
     fn set_byte(&mut self, addr: u32, data: u8) -> Option<()> {
@@ -262,14 +258,10 @@ impl MemoryAccess for [u8] {
     }
 
     fn set_word(&mut self, addr: u32, data: u16) -> Option<()> {
-        let addr = addr as usize;
-        if addr < self.len() {
-            self[addr] = (data >> 8) as u8;
-            self[addr.wrapping_add(1)] = data as u8;
-            Some(())
-        } else {
-            None
-        }
+        let bytes = self.get_mut(addr as usize..)?.get_mut(..2)?;
+        bytes[0] = (data >> 8) as u8;
+        bytes[1] = data as u8;
+        Some(())
     }
 
     fn reset_instruction(&mut self) {}
@@ -286,12 +278,8 @@ impl MemoryAccess for &[u8] {
     }
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
-        let addr = addr as usize;
-        if addr < self.len() {
-            Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
-        } else {
-            None
-        }
+        let bytes = self.get(addr as usize..)?.get(..2)?;
+        Some((bytes[0] as u16) << 8 | bytes[1] as u16)
     }
 
     fn set_byte(&mut self, _: u32, _: u8) -> Option<()> {
-- 
2.43.0


From 36893c8707e40bd74d3bf3edf042ba6ee303e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 15/17] fix: the assembler refuses invalid source registers of
 ADDA, SUBA, CMPA, MOVE and MOVEA

---
 m68000/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/m68000/src/assembler.rs b/m68000/src/assembler.rs
index 99aed82..783000f 100644
--- a/m68000/src/assembler.rs
+++ b/m68000/src/assembler.rs
@@ -302,6 +302,7 @@ pub fn add(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn adda(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "ADDA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1101, reg, size, am)
 }
 
@@ -448,6 +449,7 @@ pub fn cmp(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
 pub fn cmpa(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "CMPA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1011, reg, size, am)
 }
 
@@ -562,12 +564,14 @@ pub fn lsr(count_reg: u16, dir: Direction, size: Size, reg_shift: bool, reg: u16
 pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16> {
     assert!(dst.verify(&MODES_0234567, &[0, 1]), "Invalid destination addressing mode.");
     assert!(!(src.is_ard() && size.is_byte()), "Byte size cannot be used with Address Register Direct source operand.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     size_effective_address_effective_address(size, dst, src)
 }
 
 pub fn movea(size: Size, dst_reg: u8, src: AddressingMode) -> Vec<u16> {
     assert!(dst_reg <= 7, "Invalid address register.");
     assert!(size != Size::Byte, "MOVEA cannot be byte sized.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     size_effective_address_effective_address(size, AddressingMode::Ard(dst_reg), src)
 }
 
@@ -801,6 +805,7 @@ pub fn sub(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn suba(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "SUBA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1001, reg, size, am)
 }
 
-- 
2.43.0


From 144bd48b97ccfbb86bb7eadbeebbffce741d5271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 16/17] fix: the C disassembling interpreters write nothing in
 a buffer of length zero

---
 m68000-ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000-ffi/src/lib.rs b/m68000-ffi/src/lib.rs
index 9b6ade9..af194e8 100644
--- a/m68000-ffi/src/lib.rs
+++ b/m68000-ffi/src/lib.rs
@@ -345,7 +345,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len != 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
@@ -375,7 +375,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len != 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
-- 
2.43.0


From 60fe2dfe87c6480a4019e2e7b7250ed21e76b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 17/17] fix: m68000-ffi.h declares size_t

---
 include/m68000/m68000-ffi.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/m68000/m68000-ffi.h b/include/m68000/m68000-ffi.h
index 6c6396d..82396c4 100644
--- a/include/m68000/m68000-ffi.h
+++ b/include/m68000/m68000-ffi.h
@@ -1,6 +1,7 @@
 #ifndef M68000_FFI_H
 #define M68000_FFI_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include "m68000.h"
 
-- 
2.43.0

