From 10a4c1c7c0801aa12532813bf587966232314b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:05 +0000
Subject: [PATCH 1/4] fix: rendering lr.w panicked on its missing immediate

lr.w has no immediate, but its format was rendered together with the load
formats, which print one.  Render it like lr.d.
---
 src/instruction.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index e96591b..bddca2a 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -57,7 +57,7 @@ impl Display for Instruction {
                     reg2str(self.rs2.unwrap())
                 )
             }
-            InstFormat::AFormat => match self.opc {
+            InstFormat::AFormat | InstFormat::ALrFormat => match self.opc {
                 OpcodeKind::A(AOpcode::LR_W | AOpcode::LR_D) => write!(
                     f,
                     "{} {}, {}",
@@ -83,7 +83,7 @@ impl Display for Instruction {
                     reg2str(self.rs1.unwrap()),
                 )
             }
-            InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
+            InstFormat::ClFormat | InstFormat::IFormat => write!(
                 f,
                 "{} {}, {}, {}",
                 self.opc,
-- 
2.43.0


From 2d233b175862abf0d7bea81b84a7eb354193bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:05 +0000
Subject: [PATCH 2/4] fix: rendering sspopchk panicked on its missing rs2

sspush carries its operand in rs2 and sspopchk in rs1; their formats were
swapped, so sspopchk was rendered from a field it does not have.
---
 src/instruction.rs                   | 4 ++--
 src/instruction/zicfiss_extension.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index bddca2a..c25a078 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -417,13 +417,13 @@ pub enum InstFormat {
 
     /// Only rs1 name
     /// ```ignore
-    /// sspush ra
+    /// sspopchk t0
     /// ```
     OnlyRs1,
 
     /// Only rs2 name
     /// ```ignore
-    /// sspopchk t0
+    /// sspush ra
     /// ```
     OnlyRs2,
 }
diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index b3ccb51..c3ce341 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -40,8 +40,8 @@ impl Display for ZicfissOpcode {
 impl Opcode for ZicfissOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
             ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
             ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
-- 
2.43.0


From 835917c52652a8479d0409a3d6fb4314af2ff436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:05 +0000
Subject: [PATCH 3/4] fix: rendering c.sspush and c.sspopchk panicked

Both are decoded with the no-operand format, but its rendering did not list them.
---
 src/instruction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index c25a078..2e6f89b 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -217,7 +217,10 @@ impl Display for Instruction {
                 | OpcodeKind::C(COpcode::NOP | COpcode::EBREAK)
                 | OpcodeKind::Priv(
                     PrivOpcode::MRET | PrivOpcode::SRET | PrivOpcode::WFI | PrivOpcode::SFENCE_VMA,
-                ) => write!(f, "{}", self.opc),
+                )
+                | OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                    write!(f, "{}", self.opc)
+                }
                 _ => unreachable!(),
             },
         }
-- 
2.43.0


From 7a5aed17089b27d186fc128df24eddde6c13dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:05 +0000
Subject: [PATCH 4/4] fix: rendering sfence.vma panicked on its missing rd

sfence.vma has only source registers.
---
 src/instruction.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/instruction.rs b/src/instruction.rs
index 2e6f89b..f6f926d 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -47,6 +47,15 @@ impl Display for Instruction {
     #[allow(clippy::too_many_lines)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self.inst_format {
+            InstFormat::RFormat if self.opc == OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => {
+                write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rs1.unwrap()),
+                    reg2str(self.rs2.unwrap())
+                )
+            }
             InstFormat::RFormat | InstFormat::MFormat => {
                 write!(
                     f,
-- 
2.43.0

