From 16ba211d53cb82fd019a4c183319c2a29b974376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 01/22] fix: instruction memory reports an error only for the
 address being fetched

The error output was never cleared, so a wrong-path fetch outside the memory
turned the following correct-path fetch into an address exception; the bound
check overflowed for addresses near 2^64 and rejected valid instructions in
the last nine bytes of the memory.
---
 sim/src/architectures/hardware_pipe.rs | 10 ++++++----
 sim/src/architectures/hardware_seq.rs  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 980fc67..5c81d26 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -34,14 +34,16 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
+        *error = pc >= MEM_SIZE as u64;
+        if !*error {
             let pc = pc as usize;
             let icode_ifun = binary[pc];
             *icode = icode_ifun >> 4;
             *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
+            // bytes beyond the end of the memory are read as zero
+            let end = MEM_SIZE.min(pc + 10);
+            *align = [0; 9];
+            align[..end - pc - 1].copy_from_slice(&binary[pc + 1..end]);
         }
 
         if *icode == inst_code::CALL {
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 47467d6..a5aec4b 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -31,14 +31,16 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
+        *error = pc >= MEM_SIZE as u64;
+        if !*error {
             let pc = pc as usize;
             let icode_ifun = binary[pc];
             *icode = icode_ifun >> 4;
             *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
+            // bytes beyond the end of the memory are read as zero
+            let end = MEM_SIZE.min(pc + 10);
+            *align = [0; 9];
+            align[..end - pc - 1].copy_from_slice(&binary[pc + 1..end]);
         }
 
         if *icode == inst_code::CALL {
-- 
2.43.0


From 394e61972a59abb162e0416382cd55717330a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 02/22] fix: data memory bound check overflows and rejects the
 last word

---
 sim/src/architectures/hardware_pipe.rs | 2 +-
 sim/src/architectures/hardware_seq.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 5c81d26..f644990 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -167,7 +167,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > MEM_SIZE as u64 - 8 {
             *dataout = 0;
             *error = true;
             return
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index a5aec4b..f247996 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -154,7 +154,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > MEM_SIZE as u64 - 8 {
             *dataout = 0;
             *error = true;
             return
-- 
2.43.0


From 90464fe6de9ad4b63877bd8811f895f5ac3eb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 03/22] fix: PC increment panics when the fetched address is
 2^64-1

---
 sim/src/architectures/hardware_pipe.rs | 2 +-
 sim/src/architectures/hardware_seq.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index f644990..ab84c95 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -82,7 +82,7 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
+        let mut x = old_pc.wrapping_add(1);
         if need_regids { x += 1; }
         if need_valC { x += 8; }
         *new_pc = x;
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index f247996..a2e626e 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -79,7 +79,7 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
+        let mut x = old_pc.wrapping_add(1);
         if need_regids { x += 1; }
         if need_valC { x += 8; }
         *new_pc = x;
-- 
2.43.0


From 5239703549a724628c74a52871ea339088da7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 04/22] fix: ISA simulator panics on out-of-range addresses
 instead of reporting them

---
 sim/src/isa.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index cb8d718..f997e94 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -231,7 +231,18 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     #[inline]
     fn checked_add_pc(pc: usize, n: usize) -> anyhow::Result<usize> {
-        pc.checked_add(n).ok_or(anyhow::anyhow!("pc overflow"))
+        pc.checked_add(n)
+            .filter(|end| *end <= BIN_SIZE)
+            .ok_or(anyhow::anyhow!("pc overflow"))
+    }
+
+    /// Ensure that an 8-byte word at `addr` lies in the memory.
+    #[inline]
+    fn ensure_addr(addr: u64) -> anyhow::Result<usize> {
+        if addr > BIN_SIZE as u64 - 8 {
+            anyhow::bail!("invalid memory address: {:#x}", addr);
+        }
+        Ok(addr as usize)
     }
 
     #[inline]
@@ -257,6 +268,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     loop {
         n_insts += 1;
+        checked_add_pc(pc, 1)?;
         let icode = bin[pc] >> 4;
         let ifun = bin[pc] & 0xf;
 
@@ -348,10 +360,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = ensure_addr(reg_file[rb].wrapping_add(v))?;
                 put_u64(&mut bin[addr..(addr + 8)], reg_file[ra]);
 
                 nex_pc
@@ -365,10 +374,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = ensure_addr(reg_file[rb].wrapping_add(v))?;
                 reg_file[ra] = get_u64(&bin[addr..(addr + 8)]);
 
                 nex_pc
@@ -402,6 +408,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 }
             }
             inst_code::CALL => {
+                let nex_pc = checked_add_pc(pc, 9)?;
                 check_ifun_zero(inst_code::CALL, ifun)?;
 
                 let v = get_u64(&bin[(pc + 1)..(pc + 9)]);
@@ -409,10 +416,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                put_u64(
-                    &mut bin[(*rsp as usize)..(*rsp as usize + 8)],
-                    pc as u64 + 9,
-                );
+                let addr = ensure_addr(*rsp)?;
+                put_u64(&mut bin[addr..(addr + 8)], nex_pc as u64);
 
                 v as usize
             }
@@ -421,7 +426,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 printi!(inst, end);
 
                 let rsp = get_rsp(&mut reg_file);
-                let v = get_u64(&bin[(*rsp as usize)..(*rsp as usize + 8)]);
+                let addr = ensure_addr(*rsp)?;
+                let v = get_u64(&bin[addr..(addr + 8)]);
 
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
 
@@ -437,7 +443,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                let new_rsp = *rsp as usize;
+                let new_rsp = ensure_addr(*rsp)?;
                 put_u64(&mut bin[new_rsp..(new_rsp + 8)], va);
 
                 nex_pc
@@ -450,7 +456,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
 
                 let rsp = get_rsp(&mut reg_file);
-                let old_rsp = *rsp as usize;
+                let old_rsp = ensure_addr(*rsp)?;
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
                 reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
-- 
2.43.0


From 71e85052b82fa3912b8b4b3a6680a3ae5b02b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 05/22] fix: negative hexadecimal literals are not recognised

---
 sim/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 6d90d67..a64805d 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -14,12 +14,12 @@ pub const B: Style = Style::new().bold();
 /// For decimal number, it should be a valid i64.
 /// For hexadecimal number, it should be prefixed with "0x" and in range of u64.
 pub fn parse_literal(s: &str) -> Option<u64> {
-    let (sign, s) = s.strip_suffix("-").map(|s| (-1, s)).unwrap_or((1, s));
     if let Ok(r) = s.parse::<i64>() {
-        return Some((r * sign) as u64);
+        return Some(r as u64);
     }
+    let (neg, s) = s.strip_prefix('-').map_or((false, s), |s| (true, s));
     if let Ok(r) = u64::from_str_radix(s.strip_prefix("0x")?, 16) {
-        return Some((r as i64 * sign) as u64);
+        return Some(if neg { r.wrapping_neg() } else { r });
     }
     None
 }
-- 
2.43.0


From 0f58c9ee116ff1400523ae1015bf7423d8eba59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 06/22] fix: iopq is encoded by its operand when a label
 contains an instruction name

---
 sim/src/asm/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 78c100d..8340472 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -121,13 +121,15 @@ impl From<&str> for CondFn {
 
 impl OpFn {
     fn from_instname(value: &str) -> Self {
-        if value.contains("andq") {
+        // the operands may contain an instruction name too
+        let name = value.strip_prefix('i').unwrap_or(value);
+        if name.starts_with("andq") {
             Self::AND
-        } else if value.contains("addq") {
+        } else if name.starts_with("addq") {
             Self::ADD
-        } else if value.contains("subq") {
+        } else if name.starts_with("subq") {
             Self::SUB
-        } else if value.contains("xorq") {
+        } else if name.starts_with("xorq") {
             Self::XOR
         } else {
             panic!("invalid")
-- 
2.43.0


From a0f664b46f9518825dd429316348c317eac54034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 07/22] fix: assembler panics on a numeric literal out of range

---
 sim/src/asm/mod.rs | 56 ++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 8340472..07af8ab 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -137,23 +137,30 @@ impl OpFn {
     }
 }
 
+/// Parse numeric literal, which can be out of range.
+fn parse_num(s: &str) -> Result<u64> {
+    utils::parse_literal(s).with_context(|| format!("numeric literal out of range: {s}"))
+}
+
 /// Address mode expression with optional displacement
 #[derive(Debug, Clone, Copy)]
 pub struct Addr(pub Option<u64>, pub Reg);
 
-impl From<ParseInput<'_>> for Addr {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Addr {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         let mut it = value.into_iter();
         let num_or_reg = it.next().expect("expect number or register");
         if num_or_reg.as_rule() == Rule::reg {
             // no displacement
             let reg = Reg::from(num_or_reg.pair);
-            Self(None, reg)
+            Ok(Self(None, reg))
         } else {
             let s = num_or_reg.as_str();
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
+            let num = parse_num(s)?;
             let reg = it.next_reg();
-            Self(Some(num as u64), reg)
+            Ok(Self(Some(num), reg))
         }
     }
 }
@@ -165,16 +172,17 @@ pub enum Imm {
     Label(String),
 }
 
-impl From<ParseInput<'_>> for Imm {
-    fn from(value: ParseInput<'_>) -> Self {
-        if value.as_rule() == Rule::label {
+impl TryFrom<ParseInput<'_>> for Imm {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
+        Ok(if value.as_rule() == Rule::label {
             Self::Label(value.as_str().to_string())
         } else {
             let s = value.as_str();
             let s = s.strip_prefix('$').unwrap_or(s);
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
-            Self::Num(num)
-        }
+            Self::Num(parse_num(s)? as i64)
+        })
     }
 }
 
@@ -299,13 +307,13 @@ impl<'a> ParseInputs<'a> {
     }
 
     /// Parse next token as address
-    fn next_addr(&mut self) -> Addr {
-        Addr::from(self.next().expect("expect address token"))
+    fn next_addr(&mut self) -> Result<Addr> {
+        Addr::try_from(self.next().expect("expect address token"))
     }
 
     /// Parse next token as immediate
-    fn next_imm(&mut self) -> Imm {
-        Imm::from(self.next().expect("expect immediate number token"))
+    fn next_imm(&mut self) -> Result<Imm> {
+        Imm::try_from(self.next().expect("expect immediate number token"))
     }
 }
 
@@ -368,19 +376,19 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_mrmovq => {
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::MRMOVQ(addr, reg));
                     cur_addr += 10
                 }
                 Rule::i_rmmovq => {
                     let reg = it.next_reg();
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     src_info.inst = Some(Inst::RMMOVQ(reg, addr));
                     cur_addr += 10
                 }
                 Rule::i_irmovq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::IRMOVQ(reg, imm));
                     cur_addr += 10
@@ -393,7 +401,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_iopq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::IOPQ(op_fn, imm, reg));
@@ -401,12 +409,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::i_jx => {
                     let cond_fn = CondFn::from(it.next_str());
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::JX(cond_fn, imm));
                     cur_addr += 9
                 }
                 Rule::i_call => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::CALL(imm));
                     cur_addr += 9
                 }
@@ -422,12 +430,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_pos => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_num(s)?;
                     cur_addr = num;
                     src_info.addr = Some(cur_addr) // override
                 }
                 Rule::d_data => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     if tok2.as_str().starts_with(".quad") {
                         src_info.data = Some((8, imm));
                         cur_addr += 8;
@@ -446,7 +454,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_align => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_num(s)?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
                         cur_addr = cur_addr / num * num + num // ceil
-- 
2.43.0


From 964a6ebf0fcf9f3cc975dcdf94f7c4045856b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 08/22] fix: assembler panics when code or data is placed
 outside the memory

---
 sim/src/asm/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 07af8ab..01ef3fc 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -5,7 +5,7 @@ use pest_derive::Parser;
 
 use crate::{
     isa::{self, reg_code},
-    object::{LineInfo, Object, ObjectExt},
+    object::{LineInfo, Object, ObjectExt, BIN_SIZE},
     utils, SourceInfo,
 };
 
@@ -464,6 +464,11 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 _ => unimplemented!(),
             }
         }
+        anyhow::ensure!(
+            cur_addr <= BIN_SIZE as u64,
+            "address out of memory: {:#x}",
+            cur_addr
+        );
         verbo!(&src_info);
         src_infos.push(src_info);
     }
-- 
2.43.0


From 0572b79e1ddeb5da4e91eea796b464a64f7ba1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 09/22] fix: evaluation order of hardware units differs from
 run to run

---
 sim/src/framework/propagate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 99dc5e1..0bf774b 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{BTreeSet, HashMap, HashSet, VecDeque},
     fmt::{Debug, Write},
     hash::Hash,
 };
@@ -95,7 +95,8 @@ pub struct PropOrderBuilder {
     runnable_nodes_set: HashSet<String>,
     /// Runnable nodes includes units and intermediate signals.
     runnable_nodes: NameList,
-    nodes: HashSet<String>,
+    /// Ordered, so that the evaluation order is the same in each run.
+    nodes: BTreeSet<String>,
     edges: Vec<(String, String)>,
 }
 
-- 
2.43.0


From b1b30728c7d4eba504fda392ace16e6455288613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 10/22] fix: breakpoint is never hit when an earlier line has
 the same address

A label-only line (or a directive) shares its address with the following
instruction, and only the first of these lines was compared.
---
 debugger/src/server.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index d4e3b6c..9d9955b 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -479,14 +479,8 @@ impl<R: Read, W: Write> DebugServer<R, W> {
 
             let pc = sim.program_counter();
 
-            if let Some(bp) = self.breakpoints.iter().find(|bp| {
-                let Some(bp_ln) = bp.line else { return false };
-                inner
-                    .source_info
-                    .get_line_number_by_addr(pc)
-                    .map(|ln| ln == bp_ln)
-                    .unwrap_or(false)
-            }) {
+            // the id of a breakpoint is its address
+            if let Some(bp) = self.breakpoints.iter().find(|bp| bp.id == Some(pc as i64)) {
                 let bp_id = bp.id.ok_or(anyhow::anyhow!("breakpoint id not set"))?;
                 tracing::trace!("hit breakpoint: line = {:?}", bp.line);
                 self.server
-- 
2.43.0


From 408017ba545f3894e0c17a6243d7f747a094f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 11/22] fix: debug session dies on a breakpoint at a line that
 does not exist

---
 debugger/src/server.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 9d9955b..1ed7bf8 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -196,13 +196,13 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                     .iter()
                     .map(|b| {
                         let verified = true;
-                        let ln = inner
-                            .source_info
-                            .get_line(b.line)
-                            .expect("invalid breakpoint line");
-                        let message = ln.addr.map(|a| format!("addr: {:#x}", a));
+                        let addr = (b.line > 0)
+                            .then(|| inner.source_info.get_line(b.line))
+                            .flatten()
+                            .and_then(|ln| ln.addr);
+                        let message = addr.map(|a| format!("addr: {:#x}", a));
 
-                        let Some(addr) = ln.addr else {
+                        let Some(addr) = addr else {
                             return types::Breakpoint::default();
                         };
 
-- 
2.43.0


From 7ba37ae9afa285b71e1260eb41a1c7365f85ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 12/22] fix: debug session dies when asked to run before a
 program is launched

---
 debugger/src/server.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 1ed7bf8..f8b81c2 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -171,10 +171,13 @@ impl<R: Read, W: Write> DebugServer<R, W> {
             Command::Disconnect(_) => {
                 bail!("can not handle disconnect command in the handler");
             }
-            Command::ConfigurationDone => Ok((
-                req.success(ResponseBody::ConfigurationDone),
-                ServerStatus::RunProg(RunProgKind::InitialRun),
-            )),
+            Command::ConfigurationDone => {
+                self.inner()?;
+                Ok((
+                    req.success(ResponseBody::ConfigurationDone),
+                    ServerStatus::RunProg(RunProgKind::InitialRun),
+                ))
+            }
             Command::SetBreakpoints(args) => {
                 let Some(breakpoints) = &args.breakpoints else {
                     bail!("missing breakpoints");
@@ -349,6 +352,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 // we do not care about the granularity
                 Ok((
                     req.success(ResponseBody::Next),
@@ -359,6 +363,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 Ok((
                     req.success(ResponseBody::Continue(responses::ContinueResponse {
                         // we have exactly one thread
-- 
2.43.0


From ab8eca119be32b456ab3821d88be6fc275eac425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 13/22] fix: an instruction reaching beyond the end of the
 memory is an address exception

Only the bytes of the instruction itself must lie in the memory; one that
does not fit must not be executed with its missing bytes taken as zero.
---
 sim/src/architectures/hardware_pipe.rs | 9 ++++++++-
 sim/src/architectures/hardware_seq.rs  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index ab84c95..27ba9f9 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -40,10 +40,17 @@ define_units! {
             let icode_ifun = binary[pc];
             *icode = icode_ifun >> 4;
             *ifun = icode_ifun & 0xf;
-            // bytes beyond the end of the memory are read as zero
             let end = MEM_SIZE.min(pc + 10);
             *align = [0; 9];
             align[..end - pc - 1].copy_from_slice(&binary[pc + 1..end]);
+            // the whole instruction must lie in the memory
+            let len = match *icode {
+                inst_code::CMOVX | inst_code::OPQ | inst_code::PUSHQ | inst_code::POPQ => 2,
+                inst_code::JX | inst_code::CALL => 9,
+                inst_code::IRMOVQ | inst_code::RMMOVQ | inst_code::MRMOVQ => 10,
+                _ => 1,
+            };
+            *error = pc + len > MEM_SIZE;
         }
 
         if *icode == inst_code::CALL {
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index a2e626e..5f198cc 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -37,10 +37,17 @@ define_units! {
             let icode_ifun = binary[pc];
             *icode = icode_ifun >> 4;
             *ifun = icode_ifun & 0xf;
-            // bytes beyond the end of the memory are read as zero
             let end = MEM_SIZE.min(pc + 10);
             *align = [0; 9];
             align[..end - pc - 1].copy_from_slice(&binary[pc + 1..end]);
+            // the whole instruction must lie in the memory
+            let len = match *icode {
+                inst_code::CMOVX | inst_code::OPQ | inst_code::PUSHQ | inst_code::POPQ => 2,
+                inst_code::JX | inst_code::CALL => 9,
+                inst_code::IRMOVQ | inst_code::RMMOVQ | inst_code::MRMOVQ => 10,
+                _ => 1,
+            };
+            *error = pc + len > MEM_SIZE;
         }
 
         if *icode == inst_code::CALL {
-- 
2.43.0


From 0d2915a13a48a8afe9e1a1e3968893b985db001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 14/22] fix: a unit without inputs and outputs is part of the
 evaluation order

Such a unit (e.g. one that only counts cycles) was never executed.
---
 sim/src/framework/propagate.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 0bf774b..423747a 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -128,6 +128,7 @@ impl PropOrderBuilder {
             panic!("duplicate unit name: {}", unit_name)
         }
         self.runnable_nodes.push((true, unit_name));
+        self.nodes.insert(unit_name.to_string());
     }
 
     pub fn add_unit_input(&mut self, unit_name: &'static str, field_name: &'static str) {
-- 
2.43.0


From 43b17151089321a60828e3c77b0b76a2d7ac218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:26 +0000
Subject: [PATCH 15/22] fix: a signal reading a field of another signal may be
 evaluated before it

---
 sim_macro/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sim_macro/src/lib.rs b/sim_macro/src/lib.rs
index 18038e6..a2dfcea 100644
--- a/sim_macro/src/lib.rs
+++ b/sim_macro/src/lib.rs
@@ -366,11 +366,20 @@ impl HclData {
                     .source
                     .lvalues()
                     .into_iter()
-                    .filter(|lv| {
+                    .filter_map(|lv| {
                         // is intermediate signal or unit port
                         // previous stage fields are not included
-                        lv.0.len() == 1 && inter_names.iter().any(|n| &lv.0[0] == *n)
-                            || lv.0.len() == 2 && stage_alias.iter().all(|(_, pre)| &lv.0[0] != pre)
+                        let len = if inter_names.iter().any(|n| &lv.0[0] == *n) {
+                            1
+                        } else if lv.0.len() >= 2
+                            && stage_alias.iter().all(|(_, pre)| &lv.0[0] != pre)
+                        {
+                            2
+                        } else {
+                            return None;
+                        };
+                        // fields of a signal (e.g. `cc.zf`) depend on the whole signal
+                        Some(LValue(lv.0.into_iter().take(len).collect()))
                     })
                     .map(|lv| quote! {
                         g.add_edge(stringify!(#lv).to_string(), stringify!(#name).to_string());
-- 
2.43.0


From 0396c33ef0d0cbc9cad3026887c02f516763817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 16/22] fix: name the launched program as the source of the
 registers scope

---
 debugger/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index f8b81c2..510fe46 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -123,7 +123,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 presentation_hint: Some(types::ScopePresentationhint::Registers),
                 variables_reference: REG_SCOPE_VAR_REF,
                 expensive: false,
-                source: Some(self.main_source()),
+                source: Some(main_source.clone()),
                 ..Default::default()
             },
         );
-- 
2.43.0


From 4e11b2856a5e3b374aba5db5333da108299a072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 17/22] fix: refuse the smallest variables reference instead of
 ending the session

---
 debugger/src/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 510fe46..91512bb 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -322,10 +322,10 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         .collect()
                 } else {
                     // scopes of each stage
-                    let index = args.variables_reference - 2;
-                    if index < 0 {
-                        bail!("invalid variables reference {index}");
+                    if args.variables_reference < 2 {
+                        bail!("invalid variables reference {}", args.variables_reference);
                     }
+                    let index = args.variables_reference - 2;
                     let stage = inner
                         .stage_info
                         .get(index as usize)
-- 
2.43.0


From b720bf27ece72aea1a5b1c5057384f66754aabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 18/22] fix: data memory output keeps the last value read when
 nothing is read

---
 sim/src/architectures/hardware_pipe.rs | 2 ++
 sim/src/architectures/hardware_seq.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 27ba9f9..7725615 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -187,6 +187,8 @@ define_units! {
             *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
+        } else {
+            *dataout = 0;
         }
     }
 }
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 5f198cc..91efa7a 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -174,6 +174,8 @@ define_units! {
             *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
+        } else {
+            *dataout = 0;
         }
     }
 }
-- 
2.43.0


From 92c37da063ce927a7a74c48910ddd32ab469a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:19 +0000
Subject: [PATCH 19/22] fix: a message announcing an absurd length aborted the
 debug server and all its sessions

---
 debugger/src/server.rs | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 91512bb..d70450f 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{BufReader, BufWriter, Read, Write},
+    io::{BufRead, BufReader, BufWriter, Empty, Read, Write},
     path::PathBuf,
 };
 
@@ -41,8 +41,9 @@ pub struct DebugServer<R: Read, W: Write> {
     inner: Option<Inner>,
     /// Lines of breakpoints
     breakpoints: Vec<types::Breakpoint>,
-    /// Path of the source file (this debugger only supports single source file)
-    server: dap::server::Server<R, W>,
+    input: BufReader<R>,
+    /// Sends responses and events (requests are read from `input`)
+    server: dap::server::Server<Empty, W>,
     status: ServerStatus,
     sim_opt: SimOption,
 }
@@ -67,7 +68,11 @@ impl<R: Read, W: Write> DebugServer<R, W> {
     pub fn new(input: R, output: W, option: SimOption) -> Self {
         Self {
             inner: None,
-            server: dap::server::Server::new(BufReader::new(input), BufWriter::new(output)),
+            input: BufReader::new(input),
+            server: dap::server::Server::new(
+                BufReader::new(std::io::empty()),
+                BufWriter::new(output),
+            ),
             breakpoints: Vec::new(),
             status: ServerStatus::ServeReq,
             sim_opt: option,
@@ -378,13 +383,29 @@ impl<R: Read, W: Write> DebugServer<R, W> {
         }
     }
 
+    /// Read the content of the next message.
+    fn poll_message(&mut self) -> anyhow::Result<Vec<u8>> {
+        let mut length: Option<u64> = None;
+        let length = loop {
+            let mut line = String::new();
+            ensure!(self.input.read_line(&mut line)? > 0, "no request");
+            match (line.trim_end().split_once(':'), length) {
+                (Some(("Content-Length", n)), None) => length = Some(n.trim().parse()?),
+                (None, Some(n)) if line.trim_end().is_empty() => break n,
+                _ => bail!("invalid header line {line:?}"),
+            }
+        };
+        // the announced length may be anything: memory is only taken for what arrives
+        let mut content = Vec::new();
+        (&mut self.input).take(length).read_to_end(&mut content)?;
+        ensure!(content.len() as u64 == length, "incomplete request");
+        Ok(content)
+    }
+
     fn init(&mut self) -> anyhow::Result<()> {
         tracing::trace!("waiting for init request");
 
-        let req = match self.server.poll_request()? {
-            Some(req) => req,
-            None => bail!("no request"),
-        };
+        let req: Request = serde_json::from_slice(&self.poll_message()?)?;
         let Command::Initialize(_) = req.command else {
             bail!("expected initialize command to be the first request");
         };
@@ -403,10 +424,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
     }
 
     fn serve_req(&mut self) -> anyhow::Result<()> {
-        let req = match self.server.poll_request()? {
-            Some(req) => req,
-            None => bail!("no request"),
-        };
+        let req: Request = serde_json::from_slice(&self.poll_message()?)?;
 
         if let Command::Disconnect(_) = req.command {
             bail!("disconnect command received");
-- 
2.43.0


From 8a02e52c3b0d6f0f25ffa48a50f604868639cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 20/22] fix: a request with an unknown command or unusable
 arguments ended the debug session without a response

---
 debugger/src/server.rs | 43 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index d70450f..69bff5d 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -59,6 +59,27 @@ const VAR_PRESENTATION_HINT: types::VariablePresentationHint = types::VariablePr
     lazy: Some(false),
 };
 
+/// What is needed of a request to answer it
+#[derive(Deserialize)]
+struct RequestSeq {
+    seq: i64,
+}
+
+/// Optional arguments may be left out or empty, whichever of the two the
+/// command is declared with.
+fn decode_request(content: &[u8]) -> serde_json::Result<Request> {
+    serde_json::from_slice(content).or_else(|e| {
+        let mut req: serde_json::Map<String, serde_json::Value> = serde_json::from_slice(content)?;
+        let empty = serde_json::json!({});
+        match req.remove("arguments") {
+            None => req.insert("arguments".to_string(), empty),
+            Some(args) if args == empty => None,
+            Some(_) => return Err(e),
+        };
+        serde_json::from_value(req.into()).map_err(|_| e)
+    })
+}
+
 #[derive(Deserialize)]
 struct LaunchOption {
     program: String,
@@ -405,7 +426,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
     fn init(&mut self) -> anyhow::Result<()> {
         tracing::trace!("waiting for init request");
 
-        let req: Request = serde_json::from_slice(&self.poll_message()?)?;
+        let req = decode_request(&self.poll_message()?)?;
         let Command::Initialize(_) = req.command else {
             bail!("expected initialize command to be the first request");
         };
@@ -424,15 +445,21 @@ impl<R: Read, W: Write> DebugServer<R, W> {
     }
 
     fn serve_req(&mut self) -> anyhow::Result<()> {
-        let req: Request = serde_json::from_slice(&self.poll_message()?)?;
+        let content = self.poll_message()?;
+        let RequestSeq { seq } = serde_json::from_slice(&content)?;
 
-        if let Command::Disconnect(_) = req.command {
-            bail!("disconnect command received");
-        }
-
-        let seq = req.seq;
+        let result = match decode_request(&content) {
+            Ok(req) => {
+                if let Command::Disconnect(_) = req.command {
+                    bail!("disconnect command received");
+                }
+                self.handle_request(req)
+            }
+            // unknown command or unusable arguments
+            Err(e) => Err(e.into()),
+        };
 
-        let rsp = match self.handle_request(req) {
+        let rsp = match result {
             Ok((rsp, next_status)) => {
                 self.status = next_status;
                 rsp
-- 
2.43.0


From efb2e33f80dbce9c936c32eca0131a3b3ed1d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 21/22] fix: a failure to accept a connection ended the debug
 server and all its sessions

---
 debugger/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/debugger/src/lib.rs b/debugger/src/lib.rs
index f1cdd38..fbad661 100644
--- a/debugger/src/lib.rs
+++ b/debugger/src/lib.rs
@@ -29,7 +29,7 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
         match s {
             Ok(s) => {
                 tracing::trace!("accepted connection");
-                std::thread::Builder::new()
+                let r = std::thread::Builder::new()
                     .stack_size(32 << 20)
                     .spawn(move || {
                         let server = server::DebugServer::new(
@@ -39,11 +39,15 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
                         );
                         let r = server.start();
                         tracing::trace!("connection closed, result: {:?}", r);
-                    })?;
+                    });
+                if let Err(e) = r {
+                    tracing::error!("failed to start a session: {:?}", e);
+                }
             }
             Err(e) => {
+                // e.g. too many connections: the sessions must go on
                 tracing::error!("failed to accept connection: {:?}", e);
-                break;
+                std::thread::sleep(std::time::Duration::from_millis(100));
             }
         }
     }
-- 
2.43.0


From f025db33a81aea713604637a40876c97e9ece9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 22/22] fix: yis takes a plus sign for a digit in bytes and
 addresses of a listing

---
 sim/src/utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index a64805d..3d240cf 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -14,6 +14,10 @@ pub const B: Style = Style::new().bold();
 /// For decimal number, it should be a valid i64.
 /// For hexadecimal number, it should be prefixed with "0x" and in range of u64.
 pub fn parse_literal(s: &str) -> Option<u64> {
+    // the parsing functions of the standard library take a plus sign, the language does not
+    if s.contains('+') {
+        return None;
+    }
     if let Ok(r) = s.parse::<i64>() {
         return Some(r as u64);
     }
@@ -40,10 +44,14 @@ pub fn put_u64(binary: &mut [u8], val: u64) {
 }
 
 /// Decode hexadecimal string to byte array.
-pub fn decode_hex(s: &str) -> Result<Vec<u8>, std::num::ParseIntError> {
+pub fn decode_hex(s: &str) -> anyhow::Result<Vec<u8>> {
+    anyhow::ensure!(
+        s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit()),
+        "invalid hexadecimal bytes: {s}"
+    );
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| Ok(u8::from_str_radix(&s[i..i + 2], 16)?))
         .collect()
 }
 
-- 
2.43.0

