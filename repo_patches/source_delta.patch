From 1a9ec919f438635bf5eaa598a747cfd3911b801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 01/61] fix: set the dirty flag in the entry that lacks it

When the level-1 entry was already dirty, the flag byte of the level-2 entry
was written over the level-1 entry, destroying its permissions.
---
 src/blf4/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2311c6c..948dc1b 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -374,14 +374,15 @@ impl HandlerContext<'_> {
 
         // set dirty bit to any entry that isn't marked as dirty, if the access mode is write
         if matches!(mode, AccessMode::Write) {
-            let dirty_iter = [lvl1_entry_addr, lvl2_entry_addr].into_iter().zip(
-                lvl1_entry
-                    .byte_with_dirty_flag
-                    .into_iter()
-                    .chain(lvl2_entry.byte_with_dirty_flag),
-            );
-
-            for (addr, undirty_byte) in dirty_iter {
+            let entries = [
+                (lvl1_entry_addr, lvl1_entry.byte_with_dirty_flag),
+                (lvl2_entry_addr, lvl2_entry.byte_with_dirty_flag),
+            ];
+
+            for (addr, undirty_byte) in entries {
+                let Some(undirty_byte) = undirty_byte else {
+                    continue;
+                };
                 // set dirty flag
                 let new_dirty_byte = undirty_byte | 0b0001_0000;
                 // convert to byte because the dirty flag is in the first byte
-- 
2.43.0


From 0d240efc58eab324820f8a9d1ec8c65370ec5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 02/61] fix: deliver traps of the opcode fetch to the trap
 handler

A fault while fetching the first byte of an instruction bypassed an installed
handler, unlike a fault on any other byte.
---
 src/blf4/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 948dc1b..e744c8f 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -234,9 +234,12 @@ impl Cpu for Blf4 {
     fn execute_instruction<M: MainMemory>(&mut self, mem: &mut M) -> OpRes<(), Self::TrapMode> {
         let mut ctx = HandlerContext { cpu: self, mem };
 
-        let opcode = ctx.fetch()?;
+        let res = match ctx.fetch() {
+            Ok(opcode) => OP_HANDLERS[opcode as usize](&mut ctx),
+            Err(tm) => Err(tm),
+        };
 
-        match OP_HANDLERS[opcode as usize](&mut ctx) {
+        match res {
             Ok(()) => (),
             Err(tm) => {
                 ctx.cpu.flags.trap = true;
-- 
2.43.0


From 9d36f17157575f438d2522705ef3392008bc2ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 03/61] fix: save program counter and original flags on trap
 entry

reth could not continue the interrupted code: the program counter was not
saved, and the flags were saved after the trap had already switched to
supervisor mode, so a user program resumed with supervisor rights.
---
 src/blf4/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index e744c8f..b5ac502 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -242,12 +242,13 @@ impl Cpu for Blf4 {
         match res {
             Ok(()) => (),
             Err(tm) => {
+                let interrupted_flags = ctx.cpu.flags;
                 ctx.cpu.flags.trap = true;
                 ctx.cpu.flags.user_mode = false;
                 if ctx.cpu.trap_handler == 0 {
                     return Err(tm);
                 } else {
-                    ctx.push_registers()?;
+                    ctx.push_registers(interrupted_flags)?;
                     self.program_counter = self.trap_handler;
                     self.write_wr(R1, tm as u8 as u16)?;
                 }
@@ -540,8 +541,9 @@ impl HandlerContext<'_> {
         Ok(b)
     }
     #[must_use = "error must be handled"]
-    pub fn push_registers(&mut self) -> OpRes<()> {
-        self.pushw(self.cpu.flags.into())?;
+    pub fn push_registers(&mut self, interrupted_flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(interrupted_flags.into())?;
+        self.pushw(self.cpu.program_counter)?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
             self.pushw(w)?;
@@ -555,6 +557,7 @@ impl HandlerContext<'_> {
             let w = self.popw()?;
             self.cpu.write_wr(WideRegister(U4::new(r)), w)?;
         }
+        self.cpu.program_counter = self.popw()?;
         self.cpu.flags = self.popw()?.into();
 
         Ok(())
-- 
2.43.0


From 23eba6955761eb48a7d381f94c84b7177db43880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 04/61] fix: wrap 16-bit address arithmetic of the cpu
 explicitly

Negative offsets, the end of the address space and an empty stack made the
emulator panic in builds with overflow checks.
---
 src/blf4/isa/handlers.rs | 18 +++++++++---------
 src/blf4/mod.rs          | 14 +++++++-------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index d062c2a..28de171 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -428,7 +428,7 @@ fn call(c: &mut HandlerContext) -> OpRes {
 }
 fn ret(c: &mut HandlerContext) -> OpRes {
     let b = arg_imm_byte(c)?;
-    c.cpu.stack += b as u16;
+    c.cpu.stack = c.cpu.stack.wrapping_add(b as u16);
     c.cpu.program_counter = c.cpu.link;
 
     Ok(())
@@ -437,7 +437,7 @@ fn store_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Br)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r2))?;
 
     Ok(())
@@ -450,7 +450,7 @@ fn store_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r3))?;
 
     Ok(())
@@ -459,7 +459,7 @@ fn store_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r2)?)?;
 
     Ok(())
@@ -472,7 +472,7 @@ fn store_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r3)?)?;
 
     Ok(())
@@ -481,7 +481,7 @@ fn load_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Br, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -495,7 +495,7 @@ fn load_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -505,7 +505,7 @@ fn load_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
@@ -519,7 +519,7 @@ fn load_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index b5ac502..ea218de 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -478,7 +478,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
         let addr = self.cpu.program_counter;
-        self.cpu.program_counter += 1;
+        self.cpu.program_counter = addr.wrapping_add(1);
         let addr = self.addr_resolve(addr, AccessMode::Execute)?;
         Ok(self.mem.read(addr))
     }
@@ -496,7 +496,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn read_wide(&mut self, addr: u16) -> OpRes<u16> {
         let lower = self.read(addr)?;
-        let higher = self.read(addr + 1)?;
+        let higher = self.read(addr.wrapping_add(1))?;
 
         Ok(u16::from_le_bytes([lower, higher]))
     }
@@ -505,7 +505,7 @@ impl HandlerContext<'_> {
         let [lower, higher] = val.to_le_bytes();
 
         self.write(addr, lower)?;
-        self.write(addr + 1, higher)?;
+        self.write(addr.wrapping_add(1), higher)?;
 
         Ok(())
     }
@@ -520,24 +520,24 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn pushw(&mut self, w: u16) -> OpRes<()> {
-        self.cpu.stack -= 2;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(2);
         self.write_wide(self.cpu.stack, w)
     }
     #[must_use = "error must be handled"]
     pub fn pushb(&mut self, b: u8) -> OpRes<()> {
-        self.cpu.stack -= 1;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(1);
         self.write(self.cpu.stack, b)
     }
     #[must_use = "error must be handled"]
     pub fn popw(&mut self) -> OpRes<u16> {
         let w = self.read_wide(self.cpu.stack)?;
-        self.cpu.stack += 2;
+        self.cpu.stack = self.cpu.stack.wrapping_add(2);
         Ok(w)
     }
     #[must_use = "error must be handled"]
     pub fn popb(&mut self) -> OpRes<u8> {
         let b = self.read(self.cpu.stack)?;
-        self.cpu.stack += 1;
+        self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
     #[must_use = "error must be handled"]
-- 
2.43.0


From 35c18eb3403447c14f007fced3a53d64eb0a9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 05/61] fix: do not panic on shift counts of the register width
 or more

The count is taken modulo the register width, as release builds already did.
---
 src/blf4/isa/handlers.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 28de171..5d36592 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -270,37 +270,45 @@ fn xor_w(c: &mut HandlerContext) -> OpRes {
     binop_w(c, |x, y| (x ^ y, false), |x, y| (x ^ y, false))
 }
 fn shl_b(c: &mut HandlerContext) -> OpRes {
-    binop_b(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_b(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn shl_w(c: &mut HandlerContext) -> OpRes {
-    binop_w(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_w(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn asr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (((x as i8) >> y) as u8, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i8).wrapping_shr(y as u32) as u8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn asr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (((x as i16) >> y) as u16, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i16).wrapping_shr(y as u32) as u16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn lsr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u8) >> y) as i8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u8).wrapping_shr(y as u32) as i8, false),
     )
 }
 fn lsr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u16) >> y) as i16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u16).wrapping_shr(y as u32) as i16, false),
     )
 }
 fn mul_b(c: &mut HandlerContext) -> OpRes {
-- 
2.43.0


From a7b42ddc3051a49779fc76cfedd1cc2a5d831e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 06/61] fix: give the stack size section its own name

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 09ae058..a3cc3aa 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -85,7 +85,7 @@ impl Section for BinarySegment {
     }
 }
 impl Section for StackSize {
-    const NAME: &'static str = "_heap_size";
+    const NAME: &'static str = "_stack_size";
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buf = [0; 2];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From 5f5624bee88fe3d92c5a8c6c4fe949d369b9e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 07/61] fix: do not count the segment start twice in
 relocations of .wide data

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 3abde82..1e2e311 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -34,7 +34,7 @@ fn main() -> ExitCode {
             lines.push(dls.lines);
         }
 
-        for ((&st, &mut (segment_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
+        for ((&st, &mut (_, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
             for data_line in lines {
                 match data_line {
                     DataLine::Raw(mut bytes) => {
@@ -44,7 +44,7 @@ fn main() -> ExitCode {
                     DataLine::Wide(Wide::Label(id)) => {
                         let lr = LabelRead {
                             segment: st,
-                            position: mem.len() as u16 + segment_start,
+                            position: mem.len() as u16,
                         };
                         label_reads[id].push(lr);
                         let w = labels[id].3;
-- 
2.43.0


From 94f58ab913ac463cd9b77e1f6ef7e5427bbebc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 08/61] fix: accept ROM images shorter than the ROM

---
 src/mem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.rs b/src/mem.rs
index e0626a4..c984f7b 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -83,7 +83,7 @@ impl<P> LazyMain<P> {
     }
     pub fn with_rom(mut self, bytes: &[u8]) -> Self {
         assert!(bytes.len() <= ROM_SIZE, "bytes cannot be bigger than ROM");
-        self.rom = Some(std::array::from_fn(|i| bytes[i]));
+        self.rom = Some(std::array::from_fn(|i| bytes.get(i).copied().unwrap_or(0)));
         self
     }
 }
-- 
2.43.0


From f6cdc178d4d8198b43ea4514e975a305d4302cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 09/61] fix: show all four registers of mul and div in the
 disassembly

---
 src/disassemble.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 47c4ec3..0887b5c 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -198,10 +198,10 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
         ASR_W => binop("asr", WideRegister, &mut c, f)?,
         LSR_B => binop("lsr", ByteRegister, &mut c, f)?,
         LSR_W => binop("lsr", WideRegister, &mut c, f)?,
-        DIV_B => binop("div", ByteRegister, &mut c, f)?,
-        DIV_W => binop("div", WideRegister, &mut c, f)?,
-        MUL_B => binop("mul", ByteRegister, &mut c, f)?,
-        MUL_W => binop("mul", WideRegister, &mut c, f)?,
+        DIV_B => four_registers("div", ByteRegister, &mut c, f)?,
+        DIV_W => four_registers("div", WideRegister, &mut c, f)?,
+        MUL_B => four_registers("mul", ByteRegister, &mut c, f)?,
+        MUL_W => four_registers("mul", WideRegister, &mut c, f)?,
         b => {
             write!(f, "0x{b:02x}").unwrap();
             ends_block = true;
@@ -262,6 +262,19 @@ fn binop<T: Display, RF: Fn(U4) -> T>(
     Ok(())
 }
 
+fn four_registers<T: Display, RF: Fn(U4) -> T>(
+    name: &str,
+    rf: RF,
+    c: &mut HandlerContext,
+    f: &mut String,
+) -> Result<(), TrapMode> {
+    let (r1, r2) = arg_pair(c, &rf, &rf)?;
+    let (r3, r4) = arg_pair(c, &rf, &rf)?;
+    write!(f, "{name} {r1}, {r2}, {r3}, {r4}").unwrap();
+
+    Ok(())
+}
+
 enum Operand<'a> {
     Byte(u8),
     Wide(u16),
-- 
2.43.0


From f65c10c99179c8a5784e7e1a43f413ffb5ef4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 10/61] fix: disassemble instructions that reach the top of the
 address space

---
 src/disassemble.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 0887b5c..e94744b 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -214,13 +214,14 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     write!(&mut annotated_source, "  {addr:04x}: ").unwrap();
 
     c.cpu.program_counter = addr;
-    for _ in addr..next_instruction_location {
+    let length = next_instruction_location.wrapping_sub(addr);
+    for _ in 0..length {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
     // restore rpc
     c.cpu.program_counter = addr;
 
-    for _ in 0..(4 - (next_instruction_location - addr)) {
+    for _ in 0..(4 - length) {
         write!(&mut annotated_source, "   ").unwrap();
     }
     write!(&mut annotated_source, "    {op}").unwrap();
-- 
2.43.0


From 2db7a227051a19bbfe5468e63aa64bbf1450a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 11/61] fix: restore the program counter when disassembling
 faults

---
 src/disassemble.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index e94744b..ded88cc 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -40,6 +40,17 @@ pub struct DisassembledInstruction {
 pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
     machine: &mut Machine<M, Blf4>,
     label_lookup: F,
+) -> Result<DisassembledInstruction, TrapMode> {
+    let addr = machine.cpu.program_counter;
+    let res = disassemble_at_program_counter(machine, label_lookup);
+    // restore rpc, also if some byte could not be fetched
+    machine.cpu.program_counter = addr;
+    res
+}
+
+fn disassemble_at_program_counter<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
+    machine: &mut Machine<M, Blf4>,
+    label_lookup: F,
 ) -> Result<DisassembledInstruction, TrapMode> {
     use crate::blf4::isa::*;
     let m = &mut StrictMemory {
@@ -218,9 +229,6 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     for _ in 0..length {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
-    // restore rpc
-    c.cpu.program_counter = addr;
-
     for _ in 0..(4 - length) {
         write!(&mut annotated_source, "   ").unwrap();
     }
-- 
2.43.0


From f88ceb1b4e627e0a9db50ff8760b56383f5d0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 12/61] fix: report unreadable inputs in the exit status of
 tobjdump

---
 src/bin/tobjdump.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 06b2617..96e8cbd 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -91,9 +91,9 @@ fn main() -> ExitCode {
         if disassemble {
             disassembly(&obj, &dissasemble_from, show_relocations);
         }
-    } 
+    }
 
-    ExitCode::SUCCESS
+    ret
 }
 
 fn symbols(obj: &Object) {
-- 
2.43.0


From 425d027809dab8a74f79cc483d73d187451bacea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 13/61] fix: reject incomplete and malformed hex escapes

---
 src/source/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index f3a368d..06c1c48 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -315,11 +315,17 @@ fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
             b'\\' => (b'\\', &s[2..]),
             b'\'' => (b'\'', &s[2..]),
             b'\"' => (b'\"', &s[2..]),
-            b'x' => (
-                u8::from_str_radix(String::from_utf8_lossy(&s[2..4]).as_ref(), 16)
-                    .map_err(|_| InvalidEscapeSequence)?,
-                &s[4..],
-            ),
+            b'x' => {
+                let digits = s.get(2..4).ok_or(InvalidEscapeSequence)?;
+                if !digits.iter().all(u8::is_ascii_hexdigit) {
+                    return Err(InvalidEscapeSequence);
+                }
+                (
+                    u8::from_str_radix(String::from_utf8_lossy(digits).as_ref(), 16)
+                        .map_err(|_| InvalidEscapeSequence)?,
+                    &s[4..],
+                )
+            }
             c => return Err(InvalidEscapeCharacter(*c)),
         },
         &c => (c, &s[1..]),
-- 
2.43.0


From 0e9563044d50e4b374a8929fae9413d3ffb95874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 14/61] fix: refuse to write sections longer than the format
 can represent

---
 src/aalv/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 8db48e2..93ea3ab 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -207,9 +207,15 @@ impl<F: Write + Seek> AalvWriter<F> {
 
         segment.write(&mut w)?;
         let CountedWriter { writer: _, length } = w;
+        let section_length = u16::try_from(length).map_err(|_| {
+            io::Error::new(
+                ErrorKind::InvalidInput,
+                format!("section {} is too big to be written", S::NAME),
+            )
+        })?;
 
         self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
-        self.file.write_all(&(length as u16).to_le_bytes())?;
+        self.file.write_all(&section_length.to_le_bytes())?;
         self.file.seek(SeekFrom::Current(length as i64))?;
 
         Ok(())
-- 
2.43.0


From a6388e0d47cd425d5a434b32e774707e87110824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 15/61] fix: read global symbols without a name

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index a3cc3aa..7efa1b7 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -118,7 +118,7 @@ impl Section for SymbolTable {
 
             let segment_type = segment_type_from_u8(stype)?;
 
-            let is_global = namebuf[0] != b' ';
+            let is_global = namebuf.first() != Some(&b' ');
             let name = if is_global {
                 String::from_utf8_lossy(&namebuf).into()
             } else {
-- 
2.43.0


From 22274219b151a6e203fb1934ff76536bce186308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 16/61] fix: refuse objects with unexpected reserved sections
 without crashing

---
 src/aalv/obj.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index abc0a71..a0dc4a5 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -60,7 +60,10 @@ impl Object {
         };
 
         if aalvur.remaing_sections().any(|s| s.starts_with('_')) {
-            unimplemented!("error unexpected sections")
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "unexpected reserved section",
+            ))
         } else {
             Ok(obj)
         }
-- 
2.43.0


From 7c569fa40b68e0caff39d4f03aa224499e83f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 17/61] fix: refuse relocation tables that end in an incomplete
 entry

---
 src/aalv/obj/sec_impl.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 7efa1b7..5f4558b 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -159,16 +159,16 @@ impl Section for RelocationTable {
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut entries = Vec::new();
 
-        loop {
-            let mut buf = [0; 5];
-            match reader.read_exact(&mut buf) {
-                Ok(()) => (),
-                Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
-                    break;
-                }
-                Err(e) => return Err(e),
-            }
-            let [stype, ol1, oh1, ol2, oh2] = buf;
+        let mut bytes = Vec::new();
+        reader.read_to_end(&mut bytes)?;
+
+        for entry in bytes.chunks(5) {
+            let &[stype, ol1, oh1, ol2, oh2] = entry else {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "incomplete relocation entry",
+                ));
+            };
 
             let reference_segment = segment_type_from_u8(stype)?;
             let reference_location = u16::from_le_bytes([ol1, oh1]);
-- 
2.43.0


From 79fcbf1fee7781aa7d587a52880e73497ee862de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 18/61] fix: report errors of the last buffered writes of an
 object

---
 src/aalv/mod.rs | 28 ++++++++++++++++++++++++----
 src/aalv/obj.rs |  2 +-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 93ea3ab..f050b5b 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -176,11 +176,15 @@ impl<R: Read> Read for ReadWindow<R> {
 
 pub struct AalvWriter<F: Write> {
     file: F,
+    finished: bool,
 }
 
 impl<F: Write + Seek> AalvWriter<F> {
     pub fn new(file: F, file_offset: u64) -> Result<Self> {
-        let mut new = AalvWriter { file };
+        let mut new = AalvWriter {
+            file,
+            finished: false,
+        };
 
         new.file.seek(SeekFrom::Start(file_offset))?;
         new.write_magic()?;
@@ -222,11 +226,27 @@ impl<F: Write + Seek> AalvWriter<F> {
     }
 }
 
+impl<F: Write> AalvWriter<F> {
+    /// Writes the final zero byte and everything that is still buffered
+    ///
+    /// Dropping the writer does this as well, but cannot report errors
+    pub fn finish(mut self) -> Result<()> {
+        self.inner_finish()
+    }
+
+    fn inner_finish(&mut self) -> Result<()> {
+        if !self.finished {
+            self.finished = true;
+            self.file.write_all(&[0])?;
+            self.file.flush()?;
+        }
+        Ok(())
+    }
+}
+
 impl<F: Write> Drop for AalvWriter<F> {
     fn drop(&mut self) {
-        self.file
-            .write_all(&[0])
-            .expect("writing of final álvur zero byte failed");
+        let _ = self.inner_finish();
     }
 }
 
diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index a0dc4a5..819d336 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -121,7 +121,7 @@ impl Object {
             aalvur.write_section(relocation_table)?;
         }
 
-        Ok(())
+        aalvur.finish()
     }
 
     #[deprecated = "Load segmented instead"]
-- 
2.43.0


From 6e45835d8847378812f05a87db4a294d17ff3991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 19/61] fix: find the magic directly after bytes that look like
 its beginning

---
 src/aalv/mod.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index f050b5b..c85bff1 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -77,21 +77,20 @@ impl<F: BufRead + Seek> AalvReader<F> {
     }
 
     fn read_magic(&mut self) -> Result<()> {
-        // Find magic
-        loop {
-            let first_magic_byte = AALV_MAGIC.as_bytes()[0];
-            let mut magic_buf = [0; AALV_MAGIC.len()];
-
-            while first_magic_byte != magic_buf[0] {
-                self.file.read_exact(&mut magic_buf[..1])?;
-            }
-            self.file_offset = self.file.stream_position()? - 1;
-
-            self.file.read_exact(&mut magic_buf[1..])?;
-            if magic_buf == AALV_MAGIC.as_bytes() {
-                break;
+        // Find magic, its first byte does not occur anywhere else in it
+        let magic = AALV_MAGIC.as_bytes();
+        let mut matched = 0;
+        while matched < magic.len() {
+            let mut byte = [0];
+            self.file.read_exact(&mut byte)?;
+
+            if byte[0] == magic[matched] {
+                matched += 1;
+            } else {
+                matched = (byte[0] == magic[0]) as usize;
             }
         }
+        self.file_offset = self.file.stream_position()? - magic.len() as u64;
 
         Ok(())
     }
-- 
2.43.0


From ea991e860bab6a39446bc729f570c9812676ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 20/61] fix: load segments that end at the top of the address
 space

---
 src/blf4/std_kernel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index be554ec..f402987 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -140,8 +140,10 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         // let mut bytes = bytes;
         // map all pages the segment overlaps with
         let start_vpage = align_start(offset, PAGE_SIZE);
-        let range = start_vpage..offset + bytes.len() as u16;
+        // in 32 bits because a segment may end at the very top of the address space
+        let range = start_vpage as u32..offset as u32 + bytes.len() as u32;
         for vaddr in range.step_by(PAGE_SIZE as usize) {
+            let vaddr = vaddr as u16;
             let paddr = self.map(vaddr, perm_bits);
 
             // write page to memory
-- 
2.43.0


From 53dc4df8255082dbdec61e472398835b262e4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 21/61] fix: map the whole heap, also when its initial content
 is big or unaligned

---
 src/blf4/std_kernel/load_user_binary.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 9f86c6a..87e99f5 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -1,6 +1,6 @@
 use crate::{
     aalv::obj::{Flags, Object, SegmentType},
-    align_end, align_start,
+    align_start,
     machine::Machine,
     mem::MainMemory,
     PAGE_SIZE,
@@ -47,8 +47,9 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let heap = align_end(offset, PAGE_SIZE);
-                let size = heap_size - bytes.len() as u16;
+                // the whole heap is mapped, including the pages its initial bytes are on
+                let heap = align_start(offset, PAGE_SIZE);
+                let size = heap_size.saturating_add(offset - heap);
                 mmbuilder.map_wr_pages(heap, size);
             }
         }
-- 
2.43.0


From 3dafd05452754218fed0133d02fe4a13e5df7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 22/61] fix: do not overflow the stack or slow down when
 reporting many errors

---
 src/source/err.rs | 29 ++++++++++++-----------------
 src/source/mod.rs |  3 +--
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/source/err.rs b/src/source/err.rs
index 4bbbaf2..a47f75e 100644
--- a/src/source/err.rs
+++ b/src/source/err.rs
@@ -28,7 +28,8 @@ pub struct Error {
     source: Box<str>,
     ln: LineNumber,
     error: ErrorType,
-    next: Option<Box<Self>>,
+    /// Further errors, which have no further ones themselves
+    next: Vec<Self>,
 }
 
 impl Error {
@@ -37,19 +38,15 @@ impl Error {
             source: s.into(),
             ln,
             error,
-            next: None,
+            next: Vec::new(),
         }
     }
-    pub fn chain(mut self, second: Self) -> Self {
-        self.chain_mut(second);
+    pub fn chain(mut self, mut second: Self) -> Self {
+        let mut rest = std::mem::take(&mut second.next);
+        self.next.push(second);
+        self.next.append(&mut rest);
         self
     }
-    fn chain_mut(&mut self, second: Self) {
-        match &mut self.next {
-            Some(first) => first.chain_mut(second),
-            a @ None => *a = Some(Box::new(second)),
-        }
-    }
     // pub(super) fn set_line_number(self, ln: LineNumber) -> Self {
     //     Self { ln, .. self }
     // }
@@ -69,14 +66,14 @@ impl ErrorTrait for Error {
 
 impl Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let mut cur = Some(self);
+        let mut errors = std::iter::once(self).chain(&self.next).peekable();
 
-        while let Some(e) = cur {
+        while let Some(e) = errors.next() {
             let Self {
                 source,
                 ln,
                 error,
-                next,
+                next: _,
             } = e;
 
             if *ln == 0 {
@@ -100,11 +97,9 @@ impl Display for Error {
                 ErrorType::IncorrectOperands(s) => write!(f, "incorrect operands, expected {s}"),
                 ErrorType::Other(s) => write!(f, "{s}"),
             }?;
-            if next.is_some() {
+            if errors.peek().is_some() {
                 writeln!(f)?;
             }
-
-            cur = next.as_ref().map(|e| &**e);
         }
 
         Ok(())
@@ -117,7 +112,7 @@ impl From<IoError> for Error {
             ln: 0,
             source: "".to_owned().into_boxed_str(),
             error: ErrorType::IoError(e),
-            next: None,
+            next: Vec::new(),
         }
     }
 }
diff --git a/src/source/mod.rs b/src/source/mod.rs
index 06c1c48..e80ef0e 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -450,8 +450,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
                             .map(|SourceLocation { source, line_number }| Error::new(source, line_number, ErrorType::Other(
                                     format!("non-global label `{l}' was never defined, but used here").into_boxed_str()
                                 )))
-                            // Reversed order to make it faster (since it's a linked list)
-                            .reduce(|accum, item| item.chain(accum))
+                            .reduce(|accum, item| accum.chain(item))
                             .expect("ghost label, expected at least one use location")
                             ;
                         add_error_opt(&mut errors, e);
-- 
2.43.0


From d88be06c88b23eef2d6975a46f751f4b342283ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 23/61] fix: do not take quadratic time for many labels

---
 src/source/symbols.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/source/symbols.rs b/src/source/symbols.rs
index 5a9e087..0ba01e6 100644
--- a/src/source/symbols.rs
+++ b/src/source/symbols.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashMap,
     fmt::{self, Display},
     iter, mem,
 };
@@ -50,6 +51,7 @@ impl SymbolType {
 
 pub(super) struct Symbols {
     labels: Vec<Box<str>>,
+    ids: HashMap<Box<str>, usize>,
     id_to_pos: Vec<Result<Address, Vec<SourceLocation>>>,
     symbol_types: Vec<SymbolType>,
 }
@@ -58,16 +60,18 @@ impl Symbols {
     pub fn new() -> Self {
         Self {
             labels: Vec::new(),
+            ids: HashMap::new(),
             symbol_types: Vec::new(),
             id_to_pos: Vec::new(),
         }
     }
     fn find_id(&mut self, lbl: &str) -> usize {
-        if let Some(i) = self.labels.iter().position(|l| &**l == lbl) {
+        if let Some(&i) = self.ids.get(lbl) {
             i
         } else {
             let i = self.labels.len();
             self.labels.push(lbl.to_owned().into_boxed_str());
+            self.ids.insert(lbl.to_owned().into_boxed_str(), i);
             self.id_to_pos.push(Err(Vec::new()));
             i
         }
-- 
2.43.0


From a7bbe5c650d5aa49d8ae775f1050d6d89fb1f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 24/61] fix: locate read errors and do not retry reading a
 directory forever

---
 src/source/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index e80ef0e..d608dbd 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -142,6 +142,19 @@ impl<B: BufRead> SourceLines<B> {
         loop {
             let line = self.lines.next()?;
             self.ln += 1;
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => {
+                    // Only the line is bad if it's not text, otherwise nothing more can be read
+                    let unreadable = e.kind() != std::io::ErrorKind::InvalidData;
+                    let error = Error::new(self.source.clone(), self.ln, ErrorType::IoError(e));
+                    self.add_error(error);
+                    if unreadable {
+                        return None;
+                    }
+                    continue;
+                }
+            };
             match self.inner_parse_line(line) {
                 Ok(sl) => break Some((self.ln, sl)),
                 Err(e) => {
@@ -150,9 +163,8 @@ impl<B: BufRead> SourceLines<B> {
             }
         }
     }
-    fn inner_parse_line(&mut self, line: StdResult<String, IoError>) -> Result<SourceLine> {
+    fn inner_parse_line(&mut self, line: String) -> Result<SourceLine> {
         Ok({
-            let line = line?;
             let line = line.trim();
 
             if line.is_empty()
-- 
2.43.0


From 4eb5201bd96782d1c62932a87b8345ac1c82325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 25/61] fix: ignore additional spaces before directive names

---
 src/source/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index d608dbd..0bfa98e 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -193,7 +193,7 @@ impl<B: BufRead> SourceLines<B> {
                     }),
                     "byte" => {
                         let b;
-                        match parse_number(arg)
+                        match parse_number(arg.trim())
                             .map_err(|et| Error::new(self.source.clone(), self.ln, et))?
                         {
                             SourceOperand::Byte(n) => b = n,
@@ -220,7 +220,7 @@ impl<B: BufRead> SourceLines<B> {
                     }
                     "wide" | "word" => {
                         let w;
-                        match parse_number(arg)
+                        match parse_number(arg.trim())
                             .map_err(|et| Error::new(self.source.clone(), self.ln, et))?
                         {
                             SourceOperand::Wide(n) => w = Ok(n),
@@ -246,10 +246,10 @@ impl<B: BufRead> SourceLines<B> {
                         }
                         SourceLine::DirWide(w)
                     }
-                    "include" => SourceLine::DirInclude(arg.to_string()),
-                    "global" | "globl" => SourceLine::DirGlobal(arg.to_string()),
-                    "ref" | "reference" => SourceLine::DirReference(arg.to_string()),
-                    "seg" => SourceLine::DirSeg(arg.to_string()),
+                    "include" => SourceLine::DirInclude(arg.trim().to_string()),
+                    "global" | "globl" => SourceLine::DirGlobal(arg.trim().to_string()),
+                    "ref" | "reference" => SourceLine::DirReference(arg.trim().to_string()),
+                    "seg" => SourceLine::DirSeg(arg.trim().to_string()),
                     "entry" => SourceLine::DirEntry,
                     s => {
                         return Err(Error::new(
-- 
2.43.0


From d426bc42292ef2f114d8c773903c8beb3b87d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 26/61] fix: reject instructions with surplus operands

---
 src/source/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 0bfa98e..1c621eb 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -980,6 +980,7 @@ impl DataOperand {
     fn parse_byte_imm<'a>(mut ops: impl Iterator<Item = &'a SourceOperand>) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ByteImm(
             Self::byte(reg1)?,
             Self::imm_byte(imm)?,
@@ -992,6 +993,7 @@ impl DataOperand {
     ) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImm(
             Self::wide(reg1)?,
             Self::imm_wide(imm, sym, sl)?,
@@ -1003,6 +1005,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1015,6 +1018,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
@@ -1029,6 +1033,7 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::byte(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmByte(reg1, imm, reg2))
     }
     fn parse_wide_imm_wide<'a>(
@@ -1039,47 +1044,56 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::wide(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmWide(reg1, imm, reg2))
     }
     fn parse_two_wide_one_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideOneByte(
+        let ret = Some(DataOperand::TwoWideOneByte(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::byte(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteWideImm(
+        let ret = Some(DataOperand::ByteWideImm(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_two_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideImm(
+        let ret = Some(DataOperand::TwoWideImm(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_two_wide<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteTwoWide(
+        let ret = Some(DataOperand::ByteTwoWide(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_four_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1088,7 +1102,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1103,7 +1117,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
-- 
2.43.0


From 690e4eccd338fd6d232a304068cb48e518f4a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 27/61] fix: do not overflow when aligning an aligned address
 on the last page

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d949a8d..4a1b64e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,13 +18,12 @@ pub const fn align_start(addr: u16, alignment: u16) -> u16 {
 }
 pub const fn align_end(addr: u16, alignment: u16) -> u16 {
     let mask = alignment - 1;
-    let next_aligned = (addr + alignment) & !mask;
 
     // If the current end is already aligned, do nothing
     if addr & mask == 0 {
         addr
     } else {
-        next_aligned
+        (addr & !mask) + alignment
     }
 }
 
-- 
2.43.0


From 1ade1b9606d83e4339cdf968723888a4cf6b7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 28/61] fix: report content that does not fit in the address
 space

---
 src/source/mod.rs | 52 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 1c621eb..bd19665 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -394,10 +394,32 @@ impl ProcessState {
     fn get_size(&self, st: SegmentType) -> u16 {
         self.dls.get(&st).map(|dls| dls.size).unwrap_or(0)
     }
-    fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
+    /// Fails without adding the line if the segments would no longer fit in the address space
+    fn add_line(
+        &mut self,
+        st: SegmentType,
+        line: DataLine,
+        size: usize,
+    ) -> StdResult<(), ErrorType> {
+        self.dls.entry(st).or_default();
+
+        let mut end = PAGE_SIZE as usize;
+        for (&other, dls) in &self.dls {
+            end = end.next_multiple_of(PAGE_SIZE as usize) + dls.size as usize;
+            if other == st {
+                end += size;
+            }
+        }
+        if end > u16::MAX as usize {
+            return Err(ErrorType::Other(
+                "content does not fit in the address space".into(),
+            ));
+        }
+
         let dls = self.dls.entry(st).or_default();
         dls.lines.push(line);
-        dls.size += size;
+        dls.size += size as u16;
+        Ok(())
     }
     fn unknown_defined(&self) -> bool {
         self.dls.contains_key(&SegmentType::Unknown)
@@ -535,25 +557,33 @@ fn inner_process<B: BufRead>(
                         ErrorType::UnknownInstruction(s.into_boxed_str()),
                     ));
                 };
-                state.add_line(
-                    *current_segment,
-                    DataLine::Ins(opcode, dat_op),
-                    1 + dat_op.size(),
-                );
+                state
+                    .add_line(
+                        *current_segment,
+                        DataLine::Ins(opcode, dat_op),
+                        1 + dat_op.size() as usize,
+                    )
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirByte(b) => {
-                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
+                state
+                    .add_line(*current_segment, DataLine::Raw(vec![b]), 1)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirWide(w) => {
                 let wide = match w {
                     Ok(w) => Wide::Number(w),
                     Err(l) => Wide::Label(symbols.get_label(&l, SourceLocation::new(src, ln))),
                 };
-                state.add_line(*current_segment, DataLine::Wide(wide), 2);
+                state
+                    .add_line(*current_segment, DataLine::Wide(wide), 2)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirString(s) => {
-                let size = s.len() as u16;
-                state.add_line(*current_segment, DataLine::Raw(s), size);
+                let size = s.len();
+                state
+                    .add_line(*current_segment, DataLine::Raw(s), size)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirInclude(path) => {
                 let pth_buf;
-- 
2.43.0


From f85b3e5107f7a8701381f26e33595a1887a28d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 29/61] fix: reject labels and entry points outside of segments

---
 src/source/mod.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index bd19665..4d517d1 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -421,9 +421,6 @@ impl ProcessState {
         dls.size += size as u16;
         Ok(())
     }
-    fn unknown_defined(&self) -> bool {
-        self.dls.contains_key(&SegmentType::Unknown)
-    }
 }
 
 pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
@@ -524,6 +521,23 @@ fn inner_process<B: BufRead>(
         state: &mut ProcessState,
         symbols: &mut Symbols,
     ) -> Result<()> {
+        let needs_segment = matches!(
+            line,
+            SourceLine::Label(_)
+                | SourceLine::Ins(_, _)
+                | SourceLine::DirString(_)
+                | SourceLine::DirByte(_)
+                | SourceLine::DirWide(_)
+                | SourceLine::DirEntry
+        );
+        if needs_segment && *current_segment == SegmentType::Unknown {
+            return Err(Error::new(
+                src,
+                ln,
+                ErrorType::Other("no segment was started".to_string().into_boxed_str()),
+            ));
+        }
+
         match line {
             SourceLine::DirSeg(seg) => {
                 let new_seg = match &*seg {
@@ -611,14 +625,6 @@ fn inner_process<B: BufRead>(
             SourceLine::Comment => (),
         }
 
-        if state.unknown_defined() {
-            return Err(Error::new(
-                src,
-                ln,
-                ErrorType::Other("no segment was started".to_string().into_boxed_str()),
-            ));
-        }
-
         Ok(())
     }
 
-- 
2.43.0


From 021fd3d6124d536b5725307305ed6203ff22eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 30/61] fix: reject circular includes and name the line of a
 failing include

---
 src/source/mod.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 4d517d1..6758767 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -2,7 +2,7 @@ use std::{
     collections::BTreeMap,
     fs::File,
     io::{BufRead, BufReader, Lines},
-    path::Path,
+    path::{Path, PathBuf},
     slice::Iter,
 };
 
@@ -380,6 +380,8 @@ pub struct DataLineSegment {
 }
 
 struct ProcessState {
+    /// The source file and those between it and the one being processed, to find circular includes
+    open_sources: Vec<PathBuf>,
     dls: BTreeMap<SegmentType, DataLineSegment>,
     pub entry: Option<Address>,
 }
@@ -387,6 +389,7 @@ struct ProcessState {
 impl ProcessState {
     fn new() -> Self {
         Self {
+            open_sources: Vec::new(),
             dls: BTreeMap::new(),
             entry: None,
         }
@@ -428,10 +431,11 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
     let mut state = ProcessState::new();
 
     let src = lines.source.clone();
+    state.open_sources.extend(Path::new(&*src).canonicalize());
 
     let mut errors = inner_process(lines, &mut state, &mut symbols);
 
-    let ProcessState { mut dls, entry } = state;
+    let ProcessState { mut dls, entry, .. } = state;
 
     let mut last_end = PAGE_SIZE;
     for s in dls.values_mut() {
@@ -609,8 +613,23 @@ fn inner_process<B: BufRead>(
                     &pth_buf
                 };
 
-                let lines = SourceLines::new(path)?;
-                if let Some(e) = inner_process(lines, state, symbols) {
+                let located =
+                    |e| Error::new(src, ln, ErrorType::Other(format!("cannot include: {e}").into()));
+
+                let lines = SourceLines::new(path).map_err(located)?;
+                let canonical_path = path.canonicalize().map_err(|e| located(e.into()))?;
+                if state.open_sources.contains(&canonical_path) {
+                    return Err(Error::new(
+                        src,
+                        ln,
+                        ErrorType::Other("circular include".into()),
+                    ));
+                }
+
+                state.open_sources.push(canonical_path);
+                let errors = inner_process(lines, state, symbols);
+                state.open_sources.pop();
+                if let Some(e) = errors {
                     return Err(e);
                 }
             }
-- 
2.43.0


From 676078e3598a5ed39894668f30e4c31610596bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 31/61] fix: refuse to link segments that do not fit in the
 address space

---
 src/bin/tl.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 25e2222..53857bb 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -8,7 +8,7 @@ use telda2::{
     aalv::{obj::{
         Entry, Object, RelocationEntry, RelocationTable, SegmentType, SymbolDefinition, SymbolTable,
     }, read_archive},
-    align_end, PAGE_SIZE,
+    PAGE_SIZE,
 };
 
 fn one_one(s: &str) -> Result<u16, &'static str> {
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
                 Error::InvalidEntryPointFormat(e) => eprintln!("invalid entry point format: {e}"),
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
+                Error::TooBig => eprintln!("segments do not fit in the address space"),
                 Error::ObjectFailure => (),
             }
 
@@ -96,6 +97,7 @@ enum Error {
     ObjectFailure,
     NoEntryPoint,
     ReferenceToNonExistantSegment,
+    TooBig,
 }
 
 fn tl_main() -> Result<(), Error> {
@@ -132,16 +134,20 @@ fn tl_main() -> Result<(), Error> {
 
         for (_, obj) in &objects {
             for (&stype, &(_start, ref v)) in &obj.segs {
-                *lengths.entry(stype).or_insert(0) += v.len() as u16;
+                *lengths.entry(stype).or_insert(0) += v.len();
             }
         }
         let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
-        last_end = last_end.max(PAGE_SIZE);
+        last_end = last_end.max(PAGE_SIZE as usize);
 
         for (st, size) in lengths {
-            let start = align_end(last_end, segment_alignment);
-            segs_out.insert(st, (start, Vec::with_capacity(size as usize)));
+            let start = last_end.next_multiple_of(segment_alignment as usize);
             last_end = start + size;
+            if last_end > u16::MAX as usize {
+                return Err(Error::TooBig);
+            }
+            let start = start as u16;
+            segs_out.insert(st, (start, Vec::with_capacity(size)));
 
             if verbose {
                 println!("segment {st} @ 0x{start:04x} w/ {} bytes (0x{0:02x})", size);
-- 
2.43.0


From c00dc32781d4d8f7b179c0924b5bc33410b97253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 32/61] fix: link objects with a zero segment or an entry point
 outside their segments

---
 src/bin/tl.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 53857bb..14bdf5c 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -137,7 +137,11 @@ fn tl_main() -> Result<(), Error> {
                 *lengths.entry(stype).or_insert(0) += v.len();
             }
         }
-        let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
+        let mut last_end = 0;
+        if let Some(size) = lengths.remove(&SegmentType::Zero) {
+            segs_out.insert(SegmentType::Zero, (0, Vec::with_capacity(size)));
+            last_end = size;
+        }
         last_end = last_end.max(PAGE_SIZE as usize);
 
         for (st, size) in lengths {
@@ -174,7 +178,11 @@ fn tl_main() -> Result<(), Error> {
     for (input_file, mut obj) in objects {
         entry_point = entry_point.or_else(|| {
             obj.entry
-                .map(|Entry(st, ep)| Entry(st, ep - obj.segs[&st].0 + segs[&st].0))
+                .map(|Entry(st, ep)| match obj.segs.get(&st) {
+                    Some(&(start, _)) => Entry(st, ep - start + segs[&st].0),
+                    // not in any content that is moved
+                    None => Entry(st, ep),
+                })
         });
 
         let mut file_symbol_to_out_symbol = Vec::new();
-- 
2.43.0


From 7216e454e5691d4785633fbf233b5f96703f11b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 33/61] fix: refuse an undefined symbol as entry point

---
 src/bin/tl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 14bdf5c..0cf4dcd 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -310,8 +310,11 @@ fn tl_main() -> Result<(), Error> {
                     SegmentType::Zero,
                     u16::from_str_radix(entry, 16).map_err(Error::InvalidEntryPointFormat)?,
                 )
-            } else if let Some(&pos) = global_symbols.get(&*entry) {
-                let sym = &symbols_out[pos];
+            } else if let Some(sym) = global_symbols
+                .get(&*entry)
+                .map(|&pos| &symbols_out[pos])
+                .filter(|sym| sym.segment_type != SegmentType::Unknown)
+            {
                 Entry(sym.segment_type, sym.location)
             } else {
                 eprintln!("Start symbol {entry} was not found. Perhaps it is not global?");
-- 
2.43.0


From 7df3ebc245ca21d58949d2e678eb335a138fa19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 34/61] fix: refuse malformed relocations instead of crashing

---
 src/bin/tl.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 0cf4dcd..1bcf7bb 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
                 Error::InvalidEntryPointFormat(e) => eprintln!("invalid entry point format: {e}"),
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
+                Error::MalformedRelocation => eprintln!("relocation entry refers to a place or symbol that does not exist"),
                 Error::TooBig => eprintln!("segments do not fit in the address space"),
                 Error::ObjectFailure => (),
             }
@@ -97,6 +98,7 @@ enum Error {
     ObjectFailure,
     NoEntryPoint,
     ReferenceToNonExistantSegment,
+    MalformedRelocation,
     TooBig,
 }
 
@@ -179,7 +181,9 @@ fn tl_main() -> Result<(), Error> {
         entry_point = entry_point.or_else(|| {
             obj.entry
                 .map(|Entry(st, ep)| match obj.segs.get(&st) {
-                    Some(&(start, _)) => Entry(st, ep - start + segs[&st].0),
+                    Some(&(start, _)) => {
+                        Entry(st, ep.wrapping_sub(start).wrapping_add(segs[&st].0))
+                    }
                     // not in any content that is moved
                     None => Entry(st, ep),
                 })
@@ -192,8 +196,11 @@ fn tl_main() -> Result<(), Error> {
                 let next_id = symbols_out.len();
                 let mut id_in_fstos = None;
 
-                symdef.location -= obj.segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0);
-                symdef.location += segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0);
+                // relative to its own segment first, wrapping because nothing ensures that it is in there
+                symdef.location = symdef
+                    .location
+                    .wrapping_sub(obj.segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0))
+                    .wrapping_add(segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0));
 
                 if symdef.is_global {
                     match global_symbols.get(&symdef.name) {
@@ -241,16 +248,20 @@ fn tl_main() -> Result<(), Error> {
             symbol_index,
         } in reloc
         {
-            let symbol_index = file_symbol_to_out_symbol[symbol_index as usize];
-
-            let location_in_file = reference_location - obj.segs[&reference_segment].0;
-            let reference_location = location_in_file + segs[&reference_segment].0;
+            let &symbol_index = file_symbol_to_out_symbol
+                .get(symbol_index as usize)
+                .ok_or(Error::MalformedRelocation)?;
 
-            let bytes = &mut obj
+            let (seg_start, bytes) = obj
                 .segs
                 .get_mut(&reference_segment)
-                .ok_or(Error::ReferenceToNonExistantSegment)?
-                .1;
+                .ok_or(Error::ReferenceToNonExistantSegment)?;
+
+            let location_in_file = reference_location
+                .checked_sub(*seg_start)
+                .filter(|&l| (l as usize + 2) <= bytes.len())
+                .ok_or(Error::MalformedRelocation)?;
+            let reference_location = location_in_file + segs[&reference_segment].0;
 
             let symdef = &symbols_out[symbol_index];
             let undefined = matches!(symdef.segment_type, SegmentType::Unknown);
-- 
2.43.0


From b54befecbd747ca3a61373b5047769c26363fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 35/61] fix: do not include archived objects for symbols that
 an included one already defines

---
 src/bin/tl.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 1bcf7bb..a07fbb3 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeMap, HashMap}, fs::{self, File}, io::{self, Seek, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
+    collections::{BTreeMap, HashMap, HashSet}, fs::{self, File}, io::{self, Seek, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -434,6 +434,8 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
     }
 
     let mut cur_globals = input_globals;
+    // Symbols defined by included objects, which need no second definition
+    let mut included_definitions = HashSet::new();
     let mut objs = Vec::new();
 
     loop {
@@ -444,7 +446,9 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
                 // - a defined symbol that is referenced by any input objects or recently included objects
                 // - an undefined symbol defined by the input objects (but NOT by included objects)
                 // that is the definedness of the symbol differs between the current objects and the library object
-                if cur_globals.is(sym, !defined_in_aobj) {
+                if cur_globals.is(sym, !defined_in_aobj)
+                    && !(defined_in_aobj && included_definitions.contains(sym))
+                {
                     if verbose {
                         println!("including {oname} because {sym} {}", if defined_in_aobj { "is defined in archive" } else { "is defined in inputs objects"});
                     }
@@ -459,6 +463,11 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
         };
         let (oname, obj, glbs) = a_objs.remove(i);
 
+        included_definitions.extend(
+            glbs.iter()
+                .filter(|&(_, defined)| defined)
+                .map(|(sym, _)| Box::<str>::from(sym)),
+        );
         // Add undefined references from this newly included object to the current map
         cur_globals.extend_undefineds(glbs);
         objs.push((oname, obj));
-- 
2.43.0


From 534abac5fc832494890fea127b11c2525e91c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 36/61] fix: show relocations of instructions at the top of the
 address space

---
 src/bin/tobjdump.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 96e8cbd..7ed2c28 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -250,7 +250,11 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             };
 
             if show_relocations {
-                for (&loc, &sym) in relocs.range(location..next_instruction_location) {
+                let length = next_instruction_location.wrapping_sub(location);
+                for loc in (0..length).map(|i| location.wrapping_add(i)) {
+                    let Some(&sym) = relocs.get(&loc) else {
+                        continue;
+                    };
                     println!("    RELOC: {} @ 0x{loc:02x}", get_name(sym));
                 }
             }
-- 
2.43.0


From 80b34da310162a902d2b8d4c032df6659db9b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 37/61] fix: quit the debugger at the end of its input instead
 of spinning or crashing

---
 src/bin/tdbg.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index a626247..7eff20d 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -1,8 +1,8 @@
 use std::{
     collections::{HashMap, VecDeque},
-    io::{stdin, stdout, Write},
+    io::{stdin, stdout, BufRead, Write},
     path::PathBuf,
-    process::ExitCode,
+    process::{exit, ExitCode},
 };
 
 use telda2::{
@@ -35,13 +35,18 @@ impl Io for DbgIo {
         if self.in_buf.is_empty() {
             print!("STDIN requested: ");
             stdout().flush().expect("stdin failed");
-            let mut buf = String::new();
-            std::io::stdin().read_line(&mut buf).expect("stdin failed");
-            self.in_buf.extend(buf.into_bytes());
+            let mut buf = Vec::new();
+            std::io::stdin()
+                .lock()
+                .read_until(b'\n', &mut buf)
+                .expect("stdin failed");
+            self.in_buf.extend(buf);
         }
-        self.in_buf
-            .pop_front()
-            .expect("in_buf has just been filled, this should be impossible")
+        self.in_buf.pop_front().unwrap_or_else(|| {
+            println!();
+            eprintln!("input ended but the program needs more");
+            exit(1)
+        })
     }
 }
 
@@ -144,7 +149,7 @@ fn main() -> ExitCode {
 
 fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap<u16, Box<str>>) {
     let stdin = stdin();
-    let mut input = String::new();
+    let mut input_bytes = Vec::new();
     let mut target_nesting = 0;
     let mut current_nesting = 0;
 
@@ -183,8 +188,17 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             print!("+tdgb> ");
             stdout().flush().expect("stdout failed");
 
-            input.clear();
-            stdin.read_line(&mut input).expect("stdin failed");
+            input_bytes.clear();
+            let read_n = stdin
+                .lock()
+                .read_until(b'\n', &mut input_bytes)
+                .expect("stdin failed");
+            if read_n == 0 {
+                // no more commands
+                println!();
+                break 'disassemble_loop;
+            }
+            let input = String::from_utf8_lossy(&input_bytes);
 
             match input.trim() {
                 "q" | "quit" => break 'disassemble_loop,
-- 
2.43.0


From 23a76f92deba71c1920c62b4ece0dcf8916b31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 38/61] fix: do not crash the debugger on memory that cannot be
 read or executed

---
 src/bin/tdbg.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 7eff20d..bea8a35 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -8,7 +8,7 @@ use std::{
 use telda2::{
     aalv::obj::{Object, SymbolDefinition},
     blf4::*,
-    disassemble::disassemble_instruction,
+    disassemble::{disassemble_instruction, DisassembledInstruction},
     machine::Machine,
     mem::{Io, LazyMain},
 };
@@ -155,7 +155,13 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
 
     'disassemble_loop: loop {
         let dins =
-            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s)).unwrap();
+            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s))
+                .unwrap_or_else(|tm| DisassembledInstruction {
+                    annotated_source: format!("  {:04x}:  <{tm:?}>", machine.cpu.program_counter),
+                    ends_block: true,
+                    nesting_difference: 0,
+                    next_instruction_location: machine.cpu.program_counter,
+                });
 
         if false && todo!("is trapping") {
             println!("handled trap encountered!");
@@ -221,11 +227,11 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
                         }
                     };
                     let mut c = machine.cpu.context(&mut machine.memory);
-                    println!(
-                        " = 0x{:02x} 0x{:02x} ...",
-                        c.read(addr).unwrap(),
-                        c.read(addr + 1).unwrap()
-                    );
+                    match (c.read(addr), c.read(addr.wrapping_add(1))) {
+                        (Ok(b1), Ok(b2)) => println!(" = 0x{b1:02x} 0x{b2:02x} ..."),
+                        (Ok(b1), Err(e)) => println!(" = 0x{b1:02x} <{e:?}> ..."),
+                        (Err(e), _) => println!(" = <{e:?}> ..."),
+                    }
                 }
                 "r0b" => print_byte_register("r0b", R0B, &machine.cpu),
                 "r1l" => print_byte_register("r1l", R1L, &machine.cpu),
-- 
2.43.0


From 5b3389c1cf56461038f6553c3b9a886516f1dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 39/61] fix: document ja, jb, syscall and mul as they are
 implemented

---
 README.md | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/README.md b/README.md
index 9929999..0739703 100644
--- a/README.md
+++ b/README.md
@@ -186,7 +186,7 @@ null                   | 00     | invalid instruction, triggers invalid opcode t
 ...                    | 01-09  | ...
 halt                   | 0a     | triggers halt trap
 ctf                    | 0b     | clear trap flag
-...                    | 0c     | ...
+syscall                | 0c     | triggers system call trap
 reth                   | 0d     | returns from trap handler, pops all registers, clears trap flag
 ...                    | 0e-0f  |
 usr                    | 10     | Enter user mode
@@ -218,9 +218,9 @@ jge w                  | 33     | Conditional jump to w if sign flag is equal to
 jnz w                  | 34     | Conditional jump to w if zero flag is not set
 jo  w                  | 35     | Conditional jump to w if overflow flag is set
 jno w                  | 36     | Conditional jump to w if overflow flag is not set
-jb,jc w                | 37     | Conditional jump to w if carry flag is set
+ja  w                  | 37     | Conditional jump to w if carry flag and zero flag are both not set
 jae,jnc w              | 38     | Conditional jump to w if carry flag is not set
-ja  w                  | 39     | Conditional jump to w if carry flag and zero flag are both not set
+jb,jc w                | 39     | Conditional jump to w if carry flag is set
 jbe w                  | 3a     | Conditional jump to w if carry flag OR zero flag are set
 ...                    | 3b-3e  | reserved
 ldi br, b              | 3f     | load immediate value into register
@@ -245,8 +245,8 @@ lsr br1, br2, br3      | 4f     | br1 = br2 >> br3 (logical)
 lsr wr1, wr2, wr3      | 50     | wr1 = wr2 >> wr3 (logical)
 div br1, br2, br3, br4 | 51     | br1 = br3 / br4; br2 = br3 % br4
 div wr1, wr2, wr3, wr4 | 52     | wr1 = wr3 / wr4; wr2 = wr3 % wr4
-mul br1, br2, br3, br4 | 53     | br2, br1 = br3 * br4 (br2 has the upper bytes)
-mul wr1, wr2, wr3, wr4 | 54     | wr2, wr1 = wr3 * wr4 (wr2 has the upper bytes)
+mul br1, br2, br3, br4 | 53     | br1, br2 = br3 * br4 (br1 has the upper bytes)
+mul wr1, wr2, wr3, wr4 | 54     | wr1, wr2 = wr3 * wr4 (wr1 has the upper bytes)
 ```
 
 ## Missing documentation
-- 
2.43.0


From 4298d3f52b028eee2c3130f95d8a0b8dff0893d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 40/61] fix: refuse to write symbol names that would be read
 back differently

---
 src/aalv/obj/sec_impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 5f4558b..0866b10 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -144,6 +144,12 @@ impl Section for SymbolTable {
             location,
         } in &self.0
         {
+            if name.contains('\0') || (is_global && name.starts_with(' ')) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "symbol name cannot be represented",
+                ));
+            }
             write!(writer, "{}{name}\0", if is_global { "" } else { " " })?;
             writer.write_all(&[segment_type as u8])?;
             writer.write_all(&location.to_le_bytes())?;
-- 
2.43.0


From 184feeb103ba47dfb7f9b5c813459840959aa0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 41/61] fix: a failed write no longer leaves a file that reads
 as a whole object

---
 src/aalv/mod.rs | 50 ++++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index c85bff1..ac94a2c 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -176,6 +176,7 @@ impl<R: Read> Read for ReadWindow<R> {
 pub struct AalvWriter<F: Write> {
     file: F,
     finished: bool,
+    incomplete: bool,
 }
 
 impl<F: Write + Seek> AalvWriter<F> {
@@ -183,6 +184,7 @@ impl<F: Write + Seek> AalvWriter<F> {
         let mut new = AalvWriter {
             file,
             finished: false,
+            incomplete: false,
         };
 
         new.file.seek(SeekFrom::Start(file_offset))?;
@@ -201,26 +203,23 @@ impl<F: Write + Seek> AalvWriter<F> {
         );
         assert_ne!(!S::NAME.len(), 0, "section name may not be empty");
 
-        write!(self.file, "{}\0\0\0", S::NAME)?;
+        // If this fails, what was written must not be made to look like a whole object
+        self.incomplete = true;
 
-        let mut w = CountedWriter {
-            writer: &mut self.file,
-            length: 0,
-        };
-
-        segment.write(&mut w)?;
-        let CountedWriter { writer: _, length } = w;
-        let section_length = u16::try_from(length).map_err(|_| {
+        let mut contents = Vec::new();
+        segment.write(&mut contents)?;
+        let section_length = u16::try_from(contents.len()).map_err(|_| {
             io::Error::new(
                 ErrorKind::InvalidInput,
                 format!("section {} is too big to be written", S::NAME),
             )
         })?;
 
-        self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
+        write!(self.file, "{}\0", S::NAME)?;
         self.file.write_all(&section_length.to_le_bytes())?;
-        self.file.seek(SeekFrom::Current(length as i64))?;
+        self.file.write_all(&contents)?;
 
+        self.incomplete = false;
         Ok(())
     }
 }
@@ -228,12 +227,19 @@ impl<F: Write + Seek> AalvWriter<F> {
 impl<F: Write> AalvWriter<F> {
     /// Writes the final zero byte and everything that is still buffered
     ///
-    /// Dropping the writer does this as well, but cannot report errors
+    /// Dropping the writer does this as well, but cannot report errors.
+    /// It is not done if a section could not be written.
     pub fn finish(mut self) -> Result<()> {
         self.inner_finish()
     }
 
     fn inner_finish(&mut self) -> Result<()> {
+        if self.incomplete {
+            return Err(io::Error::new(
+                ErrorKind::Other,
+                "a section could not be written",
+            ));
+        }
         if !self.finished {
             self.finished = true;
             self.file.write_all(&[0])?;
@@ -249,26 +255,6 @@ impl<F: Write> Drop for AalvWriter<F> {
     }
 }
 
-struct CountedWriter<W: Write> {
-    writer: W,
-    length: usize,
-}
-
-impl<R: Write> Write for CountedWriter<R> {
-    fn flush(&mut self) -> Result<()> {
-        self.writer.flush()
-    }
-    fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let n = self.writer.write(buf)?;
-        self.length += n;
-        Ok(n)
-    }
-    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
-        self.length += buf.len();
-        self.writer.write_all(buf)
-    }
-}
-
 pub trait Section: Sized {
     const NAME: &'static str;
     fn read<R: Read>(reader: R) -> Result<Self>;
-- 
2.43.0


From 343f5784991300855db681c6f421de067ab9e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 42/61] fix: crash when a line that starts a segment does not
 fit any more

---
 src/source/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 6758767..3f40db1 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -404,14 +404,16 @@ impl ProcessState {
         line: DataLine,
         size: usize,
     ) -> StdResult<(), ErrorType> {
-        self.dls.entry(st).or_default();
+        let mut sizes: BTreeMap<_, _> = self
+            .dls
+            .iter()
+            .map(|(&other, dls)| (other, dls.size as usize))
+            .collect();
+        *sizes.entry(st).or_insert(0) += size;
 
         let mut end = PAGE_SIZE as usize;
-        for (&other, dls) in &self.dls {
-            end = end.next_multiple_of(PAGE_SIZE as usize) + dls.size as usize;
-            if other == st {
-                end += size;
-            }
+        for size in sizes.into_values() {
+            end = end.next_multiple_of(PAGE_SIZE as usize) + size;
         }
         if end > u16::MAX as usize {
             return Err(ErrorType::Other(
-- 
2.43.0


From deda6b041df8bf86b1dad996bef42ca9208f9684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 43/61] fix: show output that does not end with a line end in
 the debugger

---
 src/bin/tdbg.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index bea8a35..414e56d 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -18,15 +18,30 @@ struct DbgIo {
     out_buf: Vec<u8>,
 }
 
+impl DbgIo {
+    fn show_line(&mut self) {
+        print!("STDOUT line: ");
+        std::io::stdout()
+            .write_all(&self.out_buf)
+            .expect("stdout failed");
+        println!();
+        self.out_buf.clear();
+    }
+}
+
+impl Drop for DbgIo {
+    fn drop(&mut self) {
+        // the last line of output may not have been ended
+        if !self.out_buf.is_empty() {
+            self.show_line();
+        }
+    }
+}
+
 impl Io for DbgIo {
     fn write(&mut self, _addr: u8, val: u8) {
         if val == b'\n' {
-            print!("STDOUT line: ");
-            std::io::stdout()
-                .write_all(&self.out_buf)
-                .expect("stdout failed");
-            println!();
-            self.out_buf.clear();
+            self.show_line();
         } else {
             self.out_buf.push(val);
         }
@@ -44,6 +59,9 @@ impl Io for DbgIo {
         }
         self.in_buf.pop_front().unwrap_or_else(|| {
             println!();
+            if !self.out_buf.is_empty() {
+                self.show_line();
+            }
             eprintln!("input ended but the program needs more");
             exit(1)
         })
-- 
2.43.0


From bff451c45be63b6238de44c7f6b4d970d1560dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 44/61] fix: dump what there is when some object does not have
 a requested symbol

---
 src/bin/tobjdump.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 7ed2c28..d5a2c4f 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -132,10 +132,12 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
         symbols = start_symbol
             .split(',')
             .map(|s| s.trim())
-            .map(|name| {
-                syms.iter()
-                    .position(|s| &*s.name == name)
-                    .expect("start symbol did not exist in symbol table")
+            .filter_map(|name| {
+                let id = syms.iter().position(|s| &*s.name == name);
+                if id.is_none() {
+                    eprintln!("start symbol {name} does not exist in symbol table");
+                }
+                id
             })
             .collect();
     } else {
-- 
2.43.0


From e0fd522569fd9b5b5ccaece25aed0e3c56cb3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 45/61] fix: dump relocations of symbols that do not exist

---
 src/bin/tobjdump.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index d5a2c4f..eb311fa 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -186,7 +186,8 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             return Cow::Borrowed(".entry");
         }
 
-        let name = &*syms[id].name;
+        // Relocations can be of symbols that do not exist
+        let name = syms.get(id).map_or("", |s| &*s.name);
         if name.is_empty() {
             Cow::Owned(format!("@L{id}"))
         } else {
-- 
2.43.0


From a82fb7748b0fcb5325d4469b71add877037f44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:13 +0000
Subject: [PATCH 46/61] fix: show addresses of stripped symbols in tdbg instead
 of their empty names

---
 src/bin/tdbg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 414e56d..8961428 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -150,6 +150,10 @@ fn main() -> ExitCode {
             ..
         } in obj.symbols.into_iter()
         {
+            if name.is_empty() {
+                // stripped, there is no name to show instead of the address
+                continue;
+            }
             if is_global {
                 labels.insert(name.clone(), location);
                 pos_to_labels.insert(location, name);
-- 
2.43.0


From af9234bedf455b1e0b6cafe2e4b3820bef1f9eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:12 +0000
Subject: [PATCH 47/61] fix: move an entry point without content of its own to
 where the segment goes on

---
 src/bin/tl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index a07fbb3..37bc80a 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -184,8 +184,8 @@ fn tl_main() -> Result<(), Error> {
                     Some(&(start, _)) => {
                         Entry(st, ep.wrapping_sub(start).wrapping_add(segs[&st].0))
                     }
-                    // not in any content that is moved
-                    None => Entry(st, ep),
+                    // at the next content of the segment, like a symbol would be
+                    None => Entry(st, ep.wrapping_add(segs.get(&st).map(|s| s.0).unwrap_or(0))),
                 })
         });
 
-- 
2.43.0


From cf856cb9b7846846ce5426bb483be8a6e5ddfb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 48/61] fix: do not load what a segment has beyond the top of
 the address space

---
 src/blf4/std_kernel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index f402987..9878e61 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -141,6 +141,8 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         // map all pages the segment overlaps with
         let start_vpage = align_start(offset, PAGE_SIZE);
         // in 32 bits because a segment may end at the very top of the address space
+        // and what is beyond the top has no address
+        let bytes = &bytes[..bytes.len().min(0x1_0000 - offset as usize)];
         let range = start_vpage as u32..offset as u32 + bytes.len() as u32;
         for vaddr in range.step_by(PAGE_SIZE as usize) {
             let vaddr = vaddr as u16;
-- 
2.43.0


From 11799b1ebac750efe937cc87e1a11da71fcf2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 49/61] fix: t reports images that do not fit in ROM instead of
 panicking

---
 src/bin/t.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index ebb66ce..8704945 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -11,7 +11,7 @@ use telda2::{
     aalv::obj::{Object, SymbolDefinition, SymbolTable},
     blf4::{Blf4, TrapMode},
     machine::Machine,
-    mem::{LazyMain, StdIo},
+    mem::{LazyMain, StdIo, ROM_SIZE},
 };
 
 #[derive(Parser)]
@@ -36,6 +36,7 @@ struct Cli {
 
 enum Error {
     NoEntry,
+    TooBig,
     Trap(TrapMode),
     IoError(io::Error),
 }
@@ -46,6 +47,7 @@ pub fn main() -> ExitCode {
         Err(e) => {
             match e {
                 Error::NoEntry => eprintln!("no entry point in binary"),
+                Error::TooBig => eprintln!("binary does not fit in ROM"),
                 Error::Trap(tm) => eprintln!("trapped with {tm:?}"),
                 Error::IoError(e) => eprintln!("unexpected io error occured: {e}"),
             }
@@ -70,6 +72,9 @@ fn t_main() -> Result<(), Error> {
         file.read_to_end(&mut raw_binary_data)
             .map_err(Error::IoError)?;
 
+        if raw_binary_data.len() > ROM_SIZE {
+            return Err(Error::TooBig);
+        }
         machine.memory = machine.memory.with_rom(&raw_binary_data);
     } else {
         let mut obj = Object::from_file(binary).map_err(Error::IoError)?;
-- 
2.43.0


From ed8767536a564e809711b1118c89812cd6486309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 50/61] fix: tobjdump ends when code goes around the address
 space

---
 src/bin/tobjdump.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index eb311fa..ac84788 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -212,7 +212,13 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             syms[label_to_print].location
         };
 
+        // Code can go around the address space without ending or reaching a label
+        let mut printed_locations = HashSet::new();
+
         'labelled_block: loop {
+            if !printed_locations.insert(location) {
+                break 'labelled_block;
+            }
             let mut label_name = Cow::Borrowed("");
             machine.cpu.program_counter = location;
             let res = disassemble_instruction(&mut machine, |p| {
-- 
2.43.0


From 53d0637da123f8a5566afd284994e26cf2c1a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:44 +0000
Subject: [PATCH 51/61] fix: tl refuses zero segments that do not fit in the
 address space instead of panicking

---
 src/bin/tl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 37bc80a..df3caac 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -141,6 +141,9 @@ fn tl_main() -> Result<(), Error> {
         }
         let mut last_end = 0;
         if let Some(size) = lengths.remove(&SegmentType::Zero) {
+            if size > u16::MAX as usize {
+                return Err(Error::TooBig);
+            }
             segs_out.insert(SegmentType::Zero, (0, Vec::with_capacity(size)));
             last_end = size;
         }
-- 
2.43.0


From 46af889f057640380cb4418c515f5ab291a6bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:48 +0000
Subject: [PATCH 52/61] fix: loading a program on a machine that was used
 before leaves nothing of what ran there

---
 src/blf4/std_kernel.rs                  | 4 ++++
 src/blf4/std_kernel/load_user_binary.rs | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index 9878e61..f1d573b 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -56,6 +56,10 @@ impl EKernel {
             // TODO: check if this overflows indicating that the bumper is empty
             // on debug mode it'll panic rn, but release mode will wrap around which would lead to weird behaviour
             self.page_bumper += PAGE_SIZE_P;
+
+            // the machine may have been used before
+            write_n(mem, ret, &[0; 128]);
+
             ret
         }
     }
diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 87e99f5..9c3737b 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -60,6 +60,9 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
         self.cpu.flags.virtual_mode = true;
         self.cpu.flags.user_mode = true;
+        // these are left over if the machine ran something before
+        self.cpu.flags.trap = false;
+        self.cpu.trap_handler = 0;
         self.cpu.stack = 0xffff;
         self.cpu.frame = 0xffff;
         if let Some(entry) = obj.entry {
-- 
2.43.0


From 50fea0d5def4d6850c0f9e3e5a933504fb4b5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:48 +0000
Subject: [PATCH 53/61] fix: tar reads its inputs before it writes, so that the
 output can be one of them

---
 src/bin/tar.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bin/tar.rs b/src/bin/tar.rs
index 6cdca34..d272fb1 100644
--- a/src/bin/tar.rs
+++ b/src/bin/tar.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::File, io::{self, Write}, path::PathBuf, process::ExitCode
+    fs::{self, File}, io::{self, Write}, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -34,12 +34,17 @@ fn tar_main() -> Result<(), io::Error> {
         output_file,
     } = Cli::parse();
 
+    // All are read first, because the output may be one of them
+    let mut inputs = Vec::new();
+    for input_file in input_files {
+        inputs.push(fs::read(input_file)?);
+    }
+
     let mut out = File::create(output_file)?;
     out.write_all("álvasavn\n".as_bytes())?;
 
-    for input_file in input_files {
-        let mut input = File::open(input_file)?;
-        io::copy(&mut input, &mut out)?;
+    for input in inputs {
+        out.write_all(&input)?;
     }
     out.sync_all()?;
 
-- 
2.43.0


From 91a464afaa7f685e4cd29aed9e55a2382ce46d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:48 +0000
Subject: [PATCH 54/61] fix: t names symbols at address 0 at the termination
 point, and not undefined ones

---
 src/bin/t.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index 8704945..704ce26 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -8,7 +8,7 @@ use std::{
 
 use clap::Parser;
 use telda2::{
-    aalv::obj::{Object, SymbolDefinition, SymbolTable},
+    aalv::obj::{Object, SegmentType, SymbolDefinition, SymbolTable},
     blf4::{Blf4, TrapMode},
     machine::Machine,
     mem::{LazyMain, StdIo, ROM_SIZE},
@@ -90,14 +90,16 @@ fn t_main() -> Result<(), Error> {
     if termination_point {
         let pc = machine.cpu.program_counter;
         let mut diff = pc;
-        let mut closest = "".into();
-        for SymbolDefinition { name, location, .. } in symbols {
-            if name.is_empty() {
+        let mut closest: Box<str> = "".into();
+        for SymbolDefinition { name, location, segment_type, .. } in symbols {
+            // undefined symbols are not anywhere
+            if name.is_empty() || segment_type == SegmentType::Unknown {
                 continue;
             }
             if pc >= location {
                 let new_diff = pc - location;
-                if new_diff < diff {
+                // a symbol can be at address 0, which is as near as no symbol at all
+                if new_diff < diff || closest.is_empty() && new_diff == diff {
                     diff = new_diff;
                     closest = name;
                 }
-- 
2.43.0


From 6876d423dc7134955b3973260bafa3fd4121bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:48 +0000
Subject: [PATCH 55/61] fix: tc takes source names that are not UTF-8 instead
 of panicking

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 1e2e311..cedfe17 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -1,4 +1,4 @@
-use std::{collections::BTreeMap, env::args, path::Path, process::ExitCode};
+use std::{collections::BTreeMap, env::args_os, path::Path, process::ExitCode};
 
 use telda2::{
     aalv::obj::{
@@ -13,7 +13,7 @@ use telda2::{
 
 fn main() -> ExitCode {
     let mut ret = ExitCode::SUCCESS;
-    for arg in args().skip(1) {
+    for arg in args_os().skip(1) {
         let p = Path::new(&arg);
         let ProcessedSource { labels, dls, entry } = match SourceLines::new(p).and_then(process) {
             Ok(s) => s,
-- 
2.43.0


From efd77ad124476ccb4f415d54db4f5bc8cb17046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:28 +0000
Subject: [PATCH 56/61] fix: tc refuses includes nested too deeply instead of
 overflowing its stack

---
 src/source/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 3f40db1..ffdbc6d 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -379,6 +379,9 @@ pub struct DataLineSegment {
     pub start: u16,
 }
 
+/// Each nested include takes some of the stack, this many are well within it
+const MAX_INCLUDE_DEPTH: usize = 500;
+
 struct ProcessState {
     /// The source file and those between it and the one being processed, to find circular includes
     open_sources: Vec<PathBuf>,
@@ -628,6 +631,14 @@ fn inner_process<B: BufRead>(
                     ));
                 }
 
+                if state.open_sources.len() > MAX_INCLUDE_DEPTH {
+                    return Err(Error::new(
+                        src,
+                        ln,
+                        ErrorType::Other("includes are nested too deeply".into()),
+                    ));
+                }
+
                 state.open_sources.push(canonical_path);
                 let errors = inner_process(lines, state, symbols);
                 state.open_sources.pop();
-- 
2.43.0


From cf3e1311a615c5f87c7244af408ae6f81deb1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:37 +0000
Subject: [PATCH 57/61] fix: an object that cannot be represented no longer
 overwrites the output file

---
 src/aalv/obj.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index 819d336..0e6d72d 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -1,11 +1,11 @@
 use std::{
     collections::BTreeMap,
     fmt::{self, Display},
-    io::{self, BufRead, Seek},
+    io::{self, BufRead, Seek, Write},
     path::Path,
 };
 
-use super::{read_aalv_file, write_aalv_file_with_offset, AalvReader, Section};
+use super::{read_aalv_file, write_aalv_file_with_offset, AalvReader, AalvWriter, Section};
 
 mod sec_impl;
 
@@ -82,8 +82,17 @@ impl Object {
         }
     }
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> io::Result<()> {
+        // Nothing may be overwritten by an object that cannot be represented
+        self.write_sections(&mut AalvWriter::new(io::Cursor::new(Vec::new()), 0)?)?;
+
+        let mut aalvur = write_aalv_file_with_offset(path, self.file_offset)?;
+        self.write_sections(&mut aalvur)?;
+
+        aalvur.finish()
+    }
+    fn write_sections<F: Write + Seek>(&self, aalvur: &mut AalvWriter<F>) -> io::Result<()> {
         let Object {
-            file_offset,
+            file_offset: _,
             entry,
             flags,
             stack_size,
@@ -93,8 +102,6 @@ impl Object {
             relocation_table,
         } = self;
 
-        let mut aalvur = write_aalv_file_with_offset(path, *file_offset)?;
-
         if let Some(entry) = entry {
             aalvur.write_section(entry)?;
         }
@@ -121,7 +128,7 @@ impl Object {
             aalvur.write_section(relocation_table)?;
         }
 
-        aalvur.finish()
+        Ok(())
     }
 
     #[deprecated = "Load segmented instead"]
-- 
2.43.0


From a6f776a700e1e240e7047d04d82f7d4823789b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:49 +0000
Subject: [PATCH 58/61] fix: tc names the lines of labels with zero bytes,
 which no object can hold

---
 src/source/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index ffdbc6d..24180e0 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -84,6 +84,14 @@ impl SourceLines<BufReader<File>> {
     }
 }
 
+/// Names end in a zero byte in symbol tables
+fn label_name(name: &str) -> StdResult<String, ErrorType> {
+    if name.contains('\0') {
+        return Err(ErrorType::Other("zero byte in label".into()));
+    }
+    Ok(name.to_owned())
+}
+
 fn parse_number(arg: &str) -> StdResult<SourceOperand, ErrorType> {
     let so;
     let mut radix = 10;
@@ -125,7 +133,7 @@ fn parse_number(arg: &str) -> StdResult<SourceOperand, ErrorType> {
     Ok(if let Some(so) = so {
         so
     } else {
-        SourceOperand::Label(arg.to_owned())
+        SourceOperand::Label(label_name(arg)?)
     })
 }
 
@@ -164,6 +172,10 @@ impl<B: BufRead> SourceLines<B> {
         }
     }
     fn inner_parse_line(&mut self, line: String) -> Result<SourceLine> {
+        let located_label = |name| {
+            label_name(name).map_err(|et| Error::new(self.source.clone(), self.ln, et))
+        };
+
         Ok({
             let line = line.trim();
 
@@ -247,8 +259,8 @@ impl<B: BufRead> SourceLines<B> {
                         SourceLine::DirWide(w)
                     }
                     "include" => SourceLine::DirInclude(arg.trim().to_string()),
-                    "global" | "globl" => SourceLine::DirGlobal(arg.trim().to_string()),
-                    "ref" | "reference" => SourceLine::DirReference(arg.trim().to_string()),
+                    "global" | "globl" => SourceLine::DirGlobal(located_label(arg.trim())?),
+                    "ref" | "reference" => SourceLine::DirReference(located_label(arg.trim())?),
                     "seg" => SourceLine::DirSeg(arg.trim().to_string()),
                     "entry" => SourceLine::DirEntry,
                     s => {
@@ -260,7 +272,7 @@ impl<B: BufRead> SourceLines<B> {
                     }
                 }
             } else if let Some(line) = line.strip_suffix(':') {
-                SourceLine::Label(line.to_owned())
+                SourceLine::Label(located_label(line)?)
             } else if let Some(i) = line.find(' ') {
                 let (ins, args) = line.split_at(i);
                 let mut sos = Vec::new();
-- 
2.43.0


From 36fdb42b8f097b94f24b834a50753949f0250ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:28 +0000
Subject: [PATCH 59/61] fix: tl no longer overwrites its output with an
 executable that cannot be represented

---
 src/bin/tl.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index df3caac..166b810 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeMap, HashMap, HashSet}, fs::{self, File}, io::{self, Seek, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
+    collections::{BTreeMap, HashMap, HashSet}, fs::{self, File}, io::{self, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -358,13 +358,15 @@ fn tl_main() -> Result<(), Error> {
 
         let mut obj = obj;
         {
-            let mut file = File::create(&out).map_err(Error::Io)?;
-            writeln!(file, "#!/bin/env t").map_err(Error::Io)?;
+            let interpreter_line = b"#!/bin/env t\n";
 
-            obj.file_offset = file.stream_position().map_err(Error::Io)?;
-        }
+            // the object first, because nothing must be overwritten if it cannot be represented
+            obj.file_offset = interpreter_line.len() as u64;
+            obj.write_to_file(&out).map_err(Error::Io)?;
 
-        obj.write_to_file(&out).map_err(Error::Io)?;
+            let mut file = File::options().write(true).open(&out).map_err(Error::Io)?;
+            file.write_all(interpreter_line).map_err(Error::Io)?;
+        }
 
         let mut perms = fs::metadata(&out).map_err(Error::Io)?.permissions();
         perms.set_mode(perms.mode() | 0o111);
-- 
2.43.0


From 4e1a2d72c088748ba7b3cc6dc82ed5708ecf274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:58 +0000
Subject: [PATCH 60/61] fix: t fails if an unfinished last line of output
 cannot be written

---
 src/bin/t.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index 704ce26..8c8fd73 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -1,6 +1,6 @@
 use std::{
     fs::File,
-    io::{self, Read},
+    io::{self, Read, Write},
     mem::replace,
     path::PathBuf,
     process::ExitCode,
@@ -86,6 +86,8 @@ fn t_main() -> Result<(), Error> {
     let symbols = symbols.into_iter();
 
     let tm = machine.run_until_abort();
+    // an unfinished last line is still buffered, and nothing reports it if it cannot be written later
+    io::stdout().flush().map_err(Error::IoError)?;
 
     if termination_point {
         let pc = machine.cpu.program_counter;
-- 
2.43.0


From 8c5ca98d9b0415a5f55fa1cd76afe6bd72cb0cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:51 +0000
Subject: [PATCH 61/61] fix: tobjdump no longer takes an archive that cannot be
 read for its first member

---
 src/bin/tobjdump.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index ac84788..fced726 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -1,5 +1,5 @@
 use std::{
-    borrow::Cow, collections::{BTreeMap, HashMap, HashSet, VecDeque}, path::PathBuf, process::ExitCode
+    borrow::Cow, collections::{BTreeMap, HashMap, HashSet, VecDeque}, io::ErrorKind, path::PathBuf, process::ExitCode
 };
 
 use clap::{ArgGroup, Parser};
@@ -44,7 +44,13 @@ struct Cli {
 
 fn read_objs(ret: &mut ExitCode, input_file: PathBuf) -> impl Iterator<Item=(String, Object)> {
     let e = 'miav: {
-        if let Ok(mut ar) = read_archive(&input_file) {
+        let archive = match read_archive(&input_file) {
+            Ok(ar) => Some(ar),
+            Err(e) if matches!(e.kind(), ErrorKind::InvalidData | ErrorKind::UnexpectedEof) => None,
+            // It may be an archive, which must not be taken for its first member
+            Err(e) => break 'miav e,
+        };
+        if let Some(mut ar) = archive {
             let mut objs = Vec::new();
             let mut i = 0;
 
-- 
2.43.0

