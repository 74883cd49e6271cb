From f196e7b612bbd828f4635f899045ff2c7540687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 001/102] fix: riscv64 as: c.sw immediate bits 2 and 6 were
 encoded as c.sd's

---
 src/as/arch/riscv64/riscv64_code.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index f640c5f..cd9622b 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -144,7 +144,7 @@
 #define C_SRAI(rd, imm)           MAKE_CODE16(inst, code, 0x8401 | (IMM(imm, 5, 5) << 12) | (to_rvc_reg(rd) << 7) | (IMM(imm, 4, 0) << 2))
 #define C_LW(rd, imm, rs)         MAKE_CODE16(inst, code, 0x4000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (IMM(imm, 2, 2) << 6) | (IMM(imm, 6, 6) << 5) | (to_rvc_reg(rd) << 2))
 #define C_LD(rd, imm, rs)         MAKE_CODE16(inst, code, 0x6000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rd) << 2))
-#define C_SW(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xc000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
+#define C_SW(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xc000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 2, 2) << 6) | (IMM(imm, 6, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_SD(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xe000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_LDSP(rd, imm)           MAKE_CODE16(inst, code, 0x6002 | (IMM(imm, 5, 5) << 12) | ((rd) << 7) | (IMM(imm, 4, 3) << 5) | (IMM(imm, 8, 6) << 2))
 #define C_SDSP(rs, imm)           MAKE_CODE16(inst, code, 0xe002 | (IMM(imm, 5, 3) << 10) | (IMM(imm, 8, 6) << 7) | ((rs) << 2))
-- 
2.43.0


From 75883bf28819e7e221fa7cfbf62cd57bbdd40f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 002/102] fix: riscv64 as: reject srliw/sraiw shift amounts of
 32..63

---
 src/as/arch/riscv64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index ecbb1a4..c43bae4 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -181,7 +181,7 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
   case SRLIW:
   case SRAI:
   case SRAIW:
-    if (imm >= 64 || (inst->op == SLLIW && imm >= 32) || imm < 0)
+    if (imm >= 64 || ((inst->op == SLLIW || inst->op == SRLIW || inst->op == SRAIW) && imm >= 32) || imm < 0)
       return NULL;
     switch (inst->op) {
     case SLLI:   W_SLLI(rd, rs, imm); break;
-- 
2.43.0


From 7f5ec7674756c32b6f6699bd6eb8911586a28762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 003/102] fix: riscv64 as: reject load/store offsets that do
 not fit in 12 bits

---
 src/as/arch/riscv64/asm_code.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index c43bae4..f7fe398 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -291,14 +291,14 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs = inst->opr[1].indirect.reg.no;
     switch (inst->op) {
     case LB:
-      // TODO: Check offset range.
       W_LB(rd, ofs, rs);
       return code->buf;
     case LH:
-      // TODO: Check offset range.
       W_LH(rd, ofs, rs);
       return code->buf;
     case LW:
@@ -306,7 +306,6 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
         C_LW(rd, ofs, rs);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_LW(rd, ofs, rs);
       return code->buf;
     case LD:
@@ -318,19 +317,15 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
         C_LD(rd, ofs, rs);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_LD(rd, ofs, rs);
       return code->buf;
     case LBU:
-      // TODO: Check offset range.
       W_LBU(rd, ofs, rs);
       return code->buf;
     case LHU:
-      // TODO: Check offset range.
       W_LHU(rd, ofs, rs);
       return code->buf;
     case LWU:
-      // TODO: Check offset range.
       W_LWU(rd, ofs, rs);
       return code->buf;
     default: break;
@@ -343,15 +338,15 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs2 = inst->opr[0].reg.no;
     int rs1 = inst->opr[1].indirect.reg.no;
     switch (inst->op) {
     case SB:
-      // TODO: Check offset range.
       W_SB(rs2, ofs, rs1);
       return code->buf;
     case SH:
-      // TODO: Check offset range.
       W_SH(rs2, ofs, rs1);
       return code->buf;
     case SW:
@@ -359,7 +354,6 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
         C_SW(rs2, ofs, rs1);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_SW(rs2, ofs, rs1);
       return code->buf;
     case SD:
@@ -371,7 +365,6 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
         C_SD(rs2, ofs, rs1);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_SD(rs2, ofs, rs1);
       return code->buf;
     default: break;
@@ -510,6 +503,8 @@ static unsigned char *asm_fld(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs = inst->opr[1].indirect.reg.no;
     if (inst->op == FLD) {
       if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP) {
@@ -521,7 +516,6 @@ static unsigned char *asm_fld(Inst *inst, Code *code) {
         return code->buf;
       }
     }
-    // TODO: Check offset range.
     switch (inst->op) {
     case FLD:  W_FLD(rd, ofs, rs); break;
     case FLW:  W_FLW(rd, ofs, rs); break;
@@ -536,6 +530,8 @@ static unsigned char *asm_fsd(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs2 = inst->opr[0].freg;
     int rs1 = inst->opr[1].indirect.reg.no;
     if (inst->op == FSD) {
@@ -548,7 +544,6 @@ static unsigned char *asm_fsd(Inst *inst, Code *code) {
         return code->buf;
       }
     }
-    // TODO: Check offset range.
     switch (inst->op) {
     case FSD:  W_FSD(rs2, ofs, rs1); break;
     case FSW:  W_FSW(rs2, ofs, rs1); break;
-- 
2.43.0


From ae564c4dd9927062f2f0503f720391bf888cb924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 004/102] fix: riscv64 as: add with x0 must not be compressed
 (c.jalr, c.ebreak)

---
 src/as/arch/riscv64/asm_code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index f7fe398..0d4bd24 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -80,9 +80,9 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
 
   switch (inst->op) {
   case ADD:
-    if (rd == rs1)
+    if (rd == rs1 && rd != ZERO && rs2 != ZERO)
       C_ADD(rd, rs2);
-    else if (rd == rs2)
+    else if (rd == rs2 && rd != ZERO && rs1 != ZERO)
       C_ADD(rd, rs1);
     else
       W_ADD(rd, rs1, rs2);
-- 
2.43.0


From 987d3bcfc6726ae81842c12eecef1cebf79bb1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 005/102] fix: riscv64 as: addiw to x0 must not be compressed
 (reserved)

---
 src/as/arch/riscv64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 0d4bd24..8350529 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -134,7 +134,7 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
     if (is_im6(imm)) {
       switch (inst->op) {
       case ADDI:   if (imm != 0) { C_ADDI(rd, imm); return code->buf; } break;
-      case ADDIW:  C_ADDIW(rd, imm); return code->buf;
+      case ADDIW:  if (rd != ZERO) { C_ADDIW(rd, imm); return code->buf; } break;
       case ANDI:   if (is_rvc_reg(rd)) { C_ANDI(rd, imm); return code->buf; } break;
       default: break;
       }
-- 
2.43.0


From 5a0d25037b126d91bf4d94fb0844ff86dc5b1cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 006/102] fix: riscv64 as: sext.w to x0 must not be compressed
 (reserved)

---
 src/as/arch/riscv64/riscv64_code.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index cd9622b..2256e4f 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -166,7 +166,7 @@
 #define P_NOT(rd, rs)             W_XORI(rd, rs, -1)
 #define P_SEXT_B(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 56); else W_SLLI(rd, rs, 56); if (is_rvc_reg(rd)) C_SRAI(rd, 56); else W_SRAI(rd, rd, 56); } while (0)
 #define P_SEXT_H(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 48); else W_SLLI(rd, rs, 48); if (is_rvc_reg(rd)) C_SRAI(rd, 48); else W_SRAI(rd, rd, 48); } while (0)
-#define P_SEXT_W(rd, rs)          do { if ((rd) == (rs)) C_ADDIW(rd, 0); else W_ADDIW(rd, rs, 0); } while (0)
+#define P_SEXT_W(rd, rs)          do { if ((rd) == (rs) && (rd) != ZERO) C_ADDIW(rd, 0); else W_ADDIW(rd, rs, 0); } while (0)
 #define P_ZEXT_B(rd, rs)          W_ANDI(rd, rs, 0xff)
 #define P_ZEXT_H(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 48); else W_SLLI(rd, rs, 48); if (is_rvc_reg(rd)) C_SRLI(rd, 48); else W_SRLI(rd, rd, 48); } while (0)
 #define P_ZEXT_W(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 32); else W_SLLI(rd, rs, 32); if (is_rvc_reg(rd)) C_SRLI(rd, 32); else W_SRLI(rd, rd, 32); } while (0)
-- 
2.43.0


From 9af2974e7ac2c1a2872def9beaba7081e0a6fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 007/102] fix: riscv64 as: ld x0, ofs(sp) must not be
 compressed (reserved)

---
 src/as/arch/riscv64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 8350529..eaf0bbb 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -309,7 +309,7 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
       W_LW(rd, ofs, rs);
       return code->buf;
     case LD:
-      if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP) {
+      if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP && rd != ZERO) {
         C_LDSP(rd, ofs);
         return code->buf;
       }
-- 
2.43.0


From 6e5f0a8fd8e28fb977dcd1be3718d29a7b8b7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:26 +0000
Subject: [PATCH 008/102] fix: riscv64 as: li to sp (c.addi16sp) and to x0
 (reserved) must not be compressed

---
 src/as/arch/riscv64/asm_code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index eaf0bbb..cb8e694 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -250,11 +250,11 @@ static void li_sub(Inst *inst, Code *code, int64_t imm) {
       l = l - 0x1000;
       imm += 1 << 12;
     }
-    if (is_im6(imm >> 12))
+    if (is_im6(imm >> 12) && rd != ZERO && rd != SP)
       C_LUI(rd, imm);
     else
       W_LUI(rd, imm);
-    if (is_im6(l))
+    if (is_im6(l) && rd != ZERO)
       C_ADDIW(rd, l);
     else
       W_ADDIW(rd, rd, l);
-- 
2.43.0


From 9f861cfae38aa00aa6d6188d49b5eb7617a139dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 009/102] fix: riscv64 as: jr/jalr x0 must not be compressed
 (reserved, c.ebreak)

---
 src/as/arch/riscv64/asm_code.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index cb8e694..af4b42f 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -381,13 +381,19 @@ static unsigned char *asm_j(Inst *inst, Code *code) {
 
 static unsigned char *asm_jr(Inst *inst, Code *code) {
   int rs = inst->opr[0].reg.no;
-  C_JR(rs);
+  if (rs != ZERO)
+    C_JR(rs);
+  else
+    W_JALR(ZERO, rs, 0);
   return code->buf;
 }
 
 static unsigned char *asm_jalr(Inst *inst, Code *code) {
   int rs = inst->opr[0].reg.no;
-  C_JALR(rs);
+  if (rs != ZERO)
+    C_JALR(rs);
+  else
+    W_JALR(RA, rs, 0);
   return code->buf;
 }
 
-- 
2.43.0


From da6e17416603f956b6c5de14e325cbc802d85e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 010/102] fix: x64 as: neg/not of an 8-bit register were
 encoded as 32-bit

---
 src/as/arch/x64/asm_code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 33ca14d..98e6fec 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -1038,14 +1038,14 @@ static unsigned char *asm_idiv_r(Inst *inst, Code *code) {
 static unsigned char *asm_neg_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_rex1(p, inst->opr[0].reg.size,
-               0xd8, opr_regno(&inst->opr[0].reg), 0xf7);
+               0xd8, opr_regno(&inst->opr[0].reg), inst->opr[0].reg.size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
 static unsigned char *asm_not_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_rex1(p, inst->opr[0].reg.size,
-               0xd0, opr_regno(&inst->opr[0].reg), 0xf7);
+               0xd0, opr_regno(&inst->opr[0].reg), inst->opr[0].reg.size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
-- 
2.43.0


From d25f8ed0c0397a9bbbdcf076b22e6dc1df3a7fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 011/102] fix: x64 as: subq with an offset was encoded as addq

---
 src/as/arch/x64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 98e6fec..0deedd5 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -966,7 +966,7 @@ static unsigned char *asm_subq_imi(Inst *inst, Code *code) {
       long offset = inst->opr[1].indirect.offset.expr->fixnum;
       unsigned char sno = 0;
       unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x28 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
+      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x28 : is_im8(offset) ? (unsigned char)0x68 : (unsigned char)0xa8;
       short buf[] = {
         (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
         (is_im8(value) ? 0x83 : 0x81),
-- 
2.43.0


From ed767a8a6433bf8ac8b6d29c54f2f0db7e90758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 012/102] fix: x64 as: lea/add/sub/inc/dec through r12 or r13
 lacked the SIB or displacement byte

---
 src/as/arch/x64/asm_code.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 0deedd5..235b4ba 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -78,8 +78,8 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
 #define MAKE_REX_INDIRECT(size, reg, indirect_reg, opcode, op2, offset) \
   MAKE_REX0(size, reg, indirect_reg, \
             (size) == REG8 ? opcode : (unsigned char)((opcode) + 1)), \
-  (((offset) == 0 && indirect_reg != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
-  indirect_reg == RSP - RAX ? 0x24 : -1
+  (((offset) == 0 && (indirect_reg & 7) != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
+  (indirect_reg & 7) == RSP - RAX ? 0x24 : -1
 
 #define MAKE_OFFSET(offset, no) \
   ((offset) == 0 && no) ? -1 : (offset) & 0xff, \
-- 
2.43.0


From a6114f604cf3f2133a1464edc4503a36cb8e9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 013/102] fix: x64 as: ah..bh were encoded as spl..dil

---
 src/as/arch/x64/asm_code.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 235b4ba..0116570 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -35,7 +35,7 @@ static inline char opr_regno(const Reg *reg) {
 
 static inline bool opr_reg8(const Reg *reg) {
   assert(reg->size == REG8);
-  return opr_regno(reg) < 4;
+  return opr_regno(reg) < 8;  // spl..dil (x=2), r8b.. need REX prefix.
 }
 
 static inline bool assemble_error(ParseInfo *info, const char *message) {
@@ -56,7 +56,6 @@ static unsigned char *put_rex0(unsigned char *p, enum RegSize size, int sno, int
 #define MAKE_REX0(size, sno, dno, opcode) \
   (size) == REG16 ? 0x66 : -1, \
   ((sno) >= 8 || (dno) >= 8 || \
-      ((size) == REG8 && ((sno) >= 4 || (dno) >= 4)) || \
       (size) == REG64) \
     ? (0x40 | (((dno) & 8) >> 3) | (((sno) & 8) >> 1) | ((size) != REG64 ? 0 : 8)) : -1, \
   opcode
-- 
2.43.0


From 59f428916140c3eb869c7f6bbb631ef3c8d9f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 014/102] fix: x64 as: reject ah..bh in an instruction which
 requires REX prefix

---
 src/as/arch/x64/asm_code.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 0116570..c146256 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -1631,10 +1631,38 @@ static const AsmInstFunc table[] = {
   [ENDBR64] = asm_endbr64,
 };
 
+// ah..bh cannot be used in an instruction which requires REX prefix.
+static bool is_high_byte_conflict(Inst *inst) {
+  bool high = false, rex = false;
+  for (int i = 0; i < 2; ++i) {
+    const Operand *opr = &inst->opr[i];
+    switch (opr->type) {
+    case REG:
+      high |= opr->reg.size == REG8 && opr->reg.x == 0 && opr->reg.no >= 4;
+      rex |= opr->reg.size == REG64 || opr->reg.x != 0;
+      break;
+    case INDIRECT:
+      rex |= opr->indirect.reg.x != 0;
+      break;
+    case INDIRECT_WITH_INDEX:
+      rex |= opr->indirect_with_index.base_reg.x != 0 || opr->indirect_with_index.index_reg.x != 0;
+      break;
+    default:
+      break;
+    }
+  }
+  return high && rex;
+}
+
 void assemble_inst(Inst *inst, ParseInfo *info, Code *code) {
   code->flag = 0;
   code->len = 0;
 
+  if (is_high_byte_conflict(inst)) {
+    assemble_error(info, "Illegal operand");
+    return;
+  }
+
   const AsmInstFunc *func = NULL;
   if (inst->op < (enum Opcode)ARRAY_SIZE(table)) {
     func = &table[inst->op];
-- 
2.43.0


From 3a97f669c5f4b3c959922128211ad55c4c8ae4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 015/102] fix: x64 as: reject displacements and immediates that
 do not fit in their fields

---
 src/as/arch/x64/asm_code.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index c146256..f09aed2 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -134,6 +134,8 @@ static unsigned char *asm_mov_ir(Inst *inst, Code *code) {
   if (inst->opr[0].indirect.reg.no != RIP) {
     if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM) {
       long offset = inst->opr[0].indirect.offset.expr->fixnum;
+      if (!is_im32(offset))
+        return NULL;
       enum RegSize size = inst->opr[1].reg.size;
       int sno = opr_regno(&inst->opr[0].indirect.reg);
       int dno = opr_regno(&inst->opr[1].reg);
@@ -173,7 +175,7 @@ static unsigned char *asm_mov_ri(Inst *inst, Code *code) {
   if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
     long offset = inst->opr[1].indirect.offset.expr->fixnum;
     enum RegSize size = inst->opr[0].reg.size;
-    if (inst->opr[1].indirect.reg.no != RIP) {
+    if (inst->opr[1].indirect.reg.no != RIP && is_im32(offset)) {
       int sno = opr_regno(&inst->opr[0].reg);
       int dno = opr_regno(&inst->opr[1].indirect.reg);
       bool ofszero = offset == 0 && ((dno & 7) != RBP - RAX);
@@ -296,7 +298,11 @@ static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_movbwlq_imi(Inst *inst, Code *code) {
+  if (inst->opr[1].indirect.offset.expr->kind != EX_FIXNUM || inst->opr[1].indirect.reg.no == RIP)
+    return NULL;
   long offset = inst->opr[1].indirect.offset.expr->fixnum;
+  if (!is_im32(offset) || (inst->op == MOVQ_IMI && !is_im32(inst->opr[0].immediate)))
+    return NULL;
   unsigned char sno = 0;
   unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
   unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x00 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
@@ -336,6 +342,8 @@ static unsigned char *asm_movbwlq_imd(Inst *inst, Code *code) {
   assert(inst->opr[1].direct.expr->kind == EX_FIXNUM);
   int64_t dst = inst->opr[1].direct.expr->fixnum;
   assert(is_im32(dst));
+  if (inst->op == MOVQ_IMD && !is_im32(inst->opr[0].immediate))
+    return NULL;
 
   short buf[] = {
     inst->op == MOVW_IMD ? 0x66 : -1,
@@ -698,6 +706,8 @@ static unsigned char *asm_lea_ir(Inst *inst, Code *code) {
   if (inst->opr[0].indirect.reg.no != RIP) {
     if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM) {
       long offset = inst->opr[0].indirect.offset.expr->fixnum;
+      if (!is_im32(offset))
+        return NULL;
       enum RegSize size = inst->opr[1].reg.size;
       short buf[] = {
         MAKE_REX_INDIRECT(
@@ -800,6 +810,8 @@ static unsigned char *asm_add_imr(Inst *inst, Code *code) {
 static unsigned char *asm_add_ir(Inst *inst, Code *code) {
   if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
     long offset = inst->opr[0].indirect.offset.expr->fixnum;
+    if (!is_im32(offset))
+      return NULL;
     enum RegSize size = inst->opr[1].reg.size;
     unsigned char *p = code->buf;
     short buf[] = {
@@ -841,9 +853,9 @@ static unsigned char *asm_add_iir(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_addq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
+  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[1].indirect.reg.no != RIP) {
     long value = inst->opr[0].immediate;
-    if (is_im32(value)) {
+    if (is_im32(value) && is_im32(inst->opr[1].indirect.offset.expr->fixnum)) {
       long offset = inst->opr[1].indirect.offset.expr->fixnum;
       unsigned char sno = 0;
       unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
@@ -918,6 +930,8 @@ static unsigned char *asm_sub_imr(Inst *inst, Code *code) {
 static unsigned char *asm_sub_ir(Inst *inst, Code *code) {
   if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
     long offset = inst->opr[0].indirect.offset.expr->fixnum;
+    if (!is_im32(offset))
+      return NULL;
     enum RegSize size = inst->opr[1].reg.size;
     unsigned char *p = code->buf;
     short buf[] = {
@@ -959,9 +973,9 @@ static unsigned char *asm_sub_iir(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_subq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
+  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[1].indirect.reg.no != RIP) {
     long value = inst->opr[0].immediate;
-    if (is_im32(value)) {
+    if (is_im32(value) && is_im32(inst->opr[1].indirect.offset.expr->fixnum)) {
       long offset = inst->opr[1].indirect.offset.expr->fixnum;
       unsigned char sno = 0;
       unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
@@ -1057,9 +1071,11 @@ static unsigned char *asm_inc_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_incbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
+  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
     enum RegSize size = inst->op + (REG8 - INCB);
     long offset = inst->opr[0].indirect.offset.expr->fixnum;
+    if (!is_im32(offset))
+      return NULL;
     unsigned char *p = code->buf;
     short buf[] = {
       MAKE_REX_INDIRECT(
@@ -1083,9 +1099,11 @@ static unsigned char *asm_dec_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_decbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
+  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
     enum RegSize size = inst->op + (REG8 - DECB);
     long offset = inst->opr[0].indirect.offset.expr->fixnum;
+    if (!is_im32(offset))
+      return NULL;
     unsigned char *p = code->buf;
     short buf[] = {
       MAKE_REX_INDIRECT(
@@ -1516,6 +1534,8 @@ static unsigned char *asm_ret(Inst *inst, Code *code) {
 
 static unsigned char *asm_int_im(Inst *inst, Code *code) {
   long value = inst->opr[0].immediate;
+  if (value < 0 || value > 255)
+    return NULL;
   MAKE_CODE(inst, code, 0xcd, IM8(value));
   return code->buf;
 }
-- 
2.43.0


From 7f6256f6716086835270da146f9afeeb0f081183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 016/102] fix: x64 as: 8/16/32-bit mov from label(%rip) was
 encoded as 64-bit

---
 src/as/arch/x64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index f09aed2..f1e86a9 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -161,7 +161,7 @@ static unsigned char *asm_mov_ir(Inst *inst, Code *code) {
       return p;
     }
   } else {
-    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
+    if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM && inst->opr[1].reg.size == REG64) {
       int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
       int d = inst->opr[1].reg.no;
       MAKE_CODE(inst, code, pre, 0x8b, 0x05 | (d << 3), IM32(0));
-- 
2.43.0


From d614c2e7d7a6518afc7fcafe8e12c7cb2a785ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:44 +0000
Subject: [PATCH 017/102] fix: x64 as: indexed mov: operand size, REX prefix
 and rbp/r13 base

---
 src/as/arch/x64/asm_code.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index f1e86a9..b9cf2a2 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -207,10 +207,11 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
   if (inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM) {
     long offset = inst->opr[0].indirect_with_index.offset->fixnum;
     assert(is_im32(offset));
-    short offset_bit = offset == 0 ? 0x04 : is_im8(offset) ? 0x44 : 0x84;
     enum RegSize size = inst->opr[1].reg.size;
     assert(inst->opr[0].indirect_with_index.base_reg.no != RIP);
     int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
+    bool noofs = offset == 0 && (bno & 7) != RBP - RAX;
+    short offset_bit = noofs ? 0x04 : is_im8(offset) ? 0x44 : 0x84;
     int ino = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
     int dno = opr_regno(&inst->opr[1].reg);
     Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
@@ -219,10 +220,10 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
       scale_bit = most_significant_bit(scale_expr->fixnum);
       assert(IS_POWER_OF_2(scale_expr->fixnum) && scale_bit < 4);
     }
-    short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1);
-    short prefix = size == REG16 ? 0x66 : size == REG64 || x != 0 ? 0x48 | x : -1;
+    short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1) | (size == REG64 ? 8 : 0);
     short buf[] = {
-      prefix,
+      size == REG16 ? 0x66 : -1,
+      x != 0 || dno >= 8 ? 0x40 | x : -1,
       size == REG8 ? 0x8a : 0x8b,
       ((dno & 7) << 3) | offset_bit,
       (scale_bit << 6) | ((ino & 7) << 3) | (bno & 7),
@@ -230,7 +231,7 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
     unsigned char *p = code->buf;
     p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
 
-    if (offset != 0) {
+    if (!noofs) {
       if (is_im8(offset)) {
         *p++ = IM8(offset);
       } else {
-- 
2.43.0


From 1e55687237d73a1cf1205284f02683cf688f42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:44 +0000
Subject: [PATCH 018/102] fix: x64 as: indexed add/sub: operand size, scale and
 rbp/r13 base

---
 src/as/arch/x64/asm_code.c | 48 ++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index b9cf2a2..c2e2b2d 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -834,19 +834,25 @@ static unsigned char *asm_add_iir(Inst *inst, Code *code) {
   unsigned char scale = 0;
   if (inst->opr[0].indirect_with_index.scale != NULL) {
     assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
+    long s = inst->opr[0].indirect_with_index.scale->fixnum;
+    if (s < 1 || s > 8 || !IS_POWER_OF_2(s))
+      return NULL;
     scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
   }
 
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
+  enum RegSize size = inst->opr[1].reg.size;
+  int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
+  int ino = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
+  int dno = opr_regno(&inst->opr[1].reg);
+  bool noofs = (bno & 7) != RBP - RAX;
+  short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1) | (size == REG64 ? 8 : 0);
   short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x03,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
+    size == REG16 ? 0x66 : -1,
+    x != 0 || dno >= 8 ? 0x40 | x : -1,
+    size == REG8 ? 0x02 : 0x03,
+    (noofs ? 0x04 : 0x44) | ((dno & 7) << 3),
+    (bno & 7) | ((ino & 7) << 3) | (scale << 6),
+    noofs ? -1 : 0x00,
   };
   unsigned char *p = code->buf;
   p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
@@ -954,19 +960,25 @@ static unsigned char *asm_sub_iir(Inst *inst, Code *code) {
   unsigned char scale = 0;
   if (inst->opr[0].indirect_with_index.scale != NULL) {
     assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
+    long s = inst->opr[0].indirect_with_index.scale->fixnum;
+    if (s < 1 || s > 8 || !IS_POWER_OF_2(s))
+      return NULL;
     scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
   }
 
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
+  enum RegSize size = inst->opr[1].reg.size;
+  int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
+  int ino = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
+  int dno = opr_regno(&inst->opr[1].reg);
+  bool noofs = (bno & 7) != RBP - RAX;
+  short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1) | (size == REG64 ? 8 : 0);
   short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x2b,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
+    size == REG16 ? 0x66 : -1,
+    x != 0 || dno >= 8 ? 0x40 | x : -1,
+    size == REG8 ? 0x2a : 0x2b,
+    (noofs ? 0x04 : 0x44) | ((dno & 7) << 3),
+    (bno & 7) | ((ino & 7) << 3) | (scale << 6),
+    noofs ? -1 : 0x00,
   };
   unsigned char *p = code->buf;
   p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-- 
2.43.0


From 61649169da19d23aae2d6ce009dc260e0b16c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:44 +0000
Subject: [PATCH 019/102] fix: x64 as: indexed lea: stray byte for rsp base,
 missing displacement for r13 base

---
 src/as/arch/x64/asm_code.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index c2e2b2d..12d9afa 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -743,7 +743,7 @@ static unsigned char *asm_lea_iir(Inst *inst, Code *code) {
       int breg = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
       int ireg = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
       int dreg = opr_regno(&inst->opr[1].reg);
-      bool noofs = offset == 0 && breg != RBP - RAX;
+      bool noofs = offset == 0 && (breg & 7) != RBP - RAX;
       int pow = most_significant_bit(scale);
       assert(IS_POWER_OF_2(scale) && pow < 4);
       short buf[] = {
@@ -751,7 +751,6 @@ static unsigned char *asm_lea_iir(Inst *inst, Code *code) {
         0x8d,
         (noofs ? 0x00 : is_im8(offset) ? 0x40 : 0x80) | ((dreg & 7) << 3) | 0x04,
         (breg & 7) | ((ireg & 7) << 3) | (pow << 6),
-        breg == RSP - RAX ? 0x24 : -1,
       };
 
       unsigned char *p = code->buf;
-- 
2.43.0


From 2f16f0d3774c72025297f10eddfd4b02292d0660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:44 +0000
Subject: [PATCH 020/102] fix: x64 as: indirect jmp through rsp/r12 or rbp/r13
 lacked the SIB or displacement byte

---
 src/as/arch/x64/asm_code.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 12d9afa..9d88faa 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -1461,15 +1461,17 @@ static unsigned char *asm_jmp_dei(Inst *inst, Code *code) {
   if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM)) {
     long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
     if (is_im32(offset)) {
-      short offset_bit = offset == 0 ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
       short b = inst->opr[0].indirect.reg.no;
+      bool noofs = offset == 0 && b != RBP - RAX;
+      short offset_bit = noofs ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
       short buf[] = {
         inst->opr[0].indirect.reg.x ? 0x41 : -1,
         0xff, offset_bit | b,
+        b == RSP - RAX ? 0x24 : -1,
       };
       unsigned char *p = code->buf;
       p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset != 0) {
+      if (!noofs) {
         if (is_im8(offset)) {
           *p++ = IM8(offset);
         } else {
-- 
2.43.0


From 438240b0122120d7f859155fc31d0c20e8dcc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:44 +0000
Subject: [PATCH 021/102] fix: x64 as: mov with an absolute address ignored the
 address and the extended registers

---
 src/as/arch/x64/asm_code.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 9d88faa..579ef32 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -245,11 +245,14 @@ static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
+  Expr *expr = inst->opr[0].direct.expr;
+  if (expr->kind != EX_FIXNUM || !is_im32(expr->fixnum))
+    return NULL;
   enum RegSize size = inst->opr[1].reg.size;
   int dno = opr_regno(&inst->opr[1].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
   short buf[] = {
-    prefix,
+    size == REG16 ? 0x66 : -1,
+    size == REG64 || dno >= 8 ? 0x40 | (size == REG64 ? 8 : 0) | ((dno & 8) >> 1) : -1,
     size == REG8 ? 0x8a : 0x8b,
     ((dno & 7) << 3) | 0x04,
     0x25,
@@ -257,17 +260,20 @@ static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
 
-  PUT_CODE(p, IM32(0));
+  PUT_CODE(p, IM32(expr->fixnum));
   p += 4;
   return p;
 }
 
 static unsigned char *asm_mov_rd(Inst *inst, Code *code) {
+  Expr *expr = inst->opr[1].direct.expr;
+  if (expr->kind != EX_FIXNUM || !is_im32(expr->fixnum))
+    return NULL;
   enum RegSize size = inst->opr[0].reg.size;
   int sno = opr_regno(&inst->opr[0].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
   short buf[] = {
-    prefix,
+    size == REG16 ? 0x66 : -1,
+    size == REG64 || sno >= 8 ? 0x40 | (size == REG64 ? 8 : 0) | ((sno & 8) >> 1) : -1,
     size == REG8 ? 0x88 : 0x89,
     ((sno & 7) << 3) | 0x04,
     0x25,
@@ -275,7 +281,7 @@ static unsigned char *asm_mov_rd(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
 
-  PUT_CODE(p, IM32(0));
+  PUT_CODE(p, IM32(expr->fixnum));
   p += 4;
   return p;
 }
-- 
2.43.0


From 746ea85ee1d1b088cf466bd434deeac39a5507da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:44 +0000
Subject: [PATCH 022/102] fix: x64 as: mov from a segment ignored the
 destination register

---
 src/as/arch/x64/asm_code.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 579ef32..a635cdf 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -290,9 +290,12 @@ static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
   if (inst->opr[0].segment.reg == FS && inst->opr[1].reg.size == REG64) {
     Expr *offset = inst->opr[0].segment.offset;
     if (offset == NULL || offset->kind == EX_FIXNUM) {
-      uint64_t value = offset == NULL ? 0 : offset->fixnum;
+      int64_t value = offset == NULL ? 0 : offset->fixnum;
+      if (!is_im32(value))
+        return NULL;
+      int dno = opr_regno(&inst->opr[1].reg);
       short buf[] = {
-        0x64, 0x48, 0x8b, 0x04, 0x25,
+        0x64, 0x48 | ((dno & 8) >> 1), 0x8b, 0x04 | ((dno & 7) << 3), 0x25,
       };
       unsigned char *p = code->buf;
       p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-- 
2.43.0


From 2a44f118c5dab53b2bc38bf0560e87065923e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:34 +0000
Subject: [PATCH 023/102] fix: x64 as: %rsp cannot be an index register

---
 src/as/arch/x64/parse_x64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/x64/parse_x64.c b/src/as/arch/x64/parse_x64.c
index 4b3043a..50a0d68 100644
--- a/src/as/arch/x64/parse_x64.c
+++ b/src/as/arch/x64/parse_x64.c
@@ -300,7 +300,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, ExprWithFlag *offse
   if (*info->p == ',') {
     info->p = skip_whitespaces(info->p + 1);
     if (*info->p != '%' ||
-        (++info->p, index_reg = find_register(&info->p), !is_reg64(index_reg)))
+        (++info->p, index_reg = find_register(&info->p), !is_reg64(index_reg) || index_reg == RSP))
       parse_error(info, "Register expected");
     info->p = skip_whitespaces(info->p);
     if (*info->p == ',') {
@@ -381,7 +381,7 @@ static unsigned int parse_deref_indirect(ParseInfo *info, Operand *operand) {
   if (*info->p == ',') {
     info->p = skip_whitespaces(info->p + 1);
     if (*info->p != '%' ||
-        (++info->p, index_reg = find_register(&info->p), !is_reg64(index_reg)))
+        (++info->p, index_reg = find_register(&info->p), !is_reg64(index_reg) || index_reg == RSP))
       parse_error(info, "Register expected");
     info->p = skip_whitespaces(info->p);
     if (*info->p == ',') {
-- 
2.43.0


From a5ab6516f6b12b66cff412b3a0fbe1ad04a3fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 024/102] fix: aarch64 as: mov between sp and xzr was encoded
 as mov sp, sp

---
 src/as/arch/aarch64/asm_code.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 6e64a82..d055fb4 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -34,6 +34,11 @@ static inline bool assemble_error(ParseInfo *info, const char *message) {
 
 static const uint32_t kPrePost[] = { 2, 3, 1 };
 
+// Register 31 is the stack pointer, not the zero register, in some operands.
+static inline bool is_zero_reg(Reg *reg) {
+  return reg->no == ZERO && !reg->sp;
+}
+
 static unsigned char *asm_noop(Inst *inst, Code *code) {
   UNUSED(inst);
   unsigned char *p = code->buf;
@@ -48,10 +53,13 @@ static unsigned char *asm_mov(Inst *inst, Code *code) {
     {
       assert(opr1->reg.size == opr2->reg.size);
       uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
-      if (opr1->reg.sp || opr2->reg.sp)
+      if (opr1->reg.sp || opr2->reg.sp) {
+        if (is_zero_reg(&opr1->reg) || is_zero_reg(&opr2->reg))
+          return NULL;
         P_MOV_SP(sz, opr1->reg.no, opr2->reg.no);
-      else
+      } else {
         P_MOV(sz, opr1->reg.no, opr2->reg.no);
+      }
     }
     return code->buf;
   case IMMEDIATE:
-- 
2.43.0


From ef9623f013bf6b23408f40168772998b76f1e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 025/102] fix: aarch64 as: mov and movk truncated immediates to
 16 bits

---
 src/as/arch/aarch64/asm_code.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index d055fb4..9baeee8 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -66,6 +66,8 @@ static unsigned char *asm_mov(Inst *inst, Code *code) {
     {
       uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
       int64_t imm = opr2->immediate;
+      if (imm < -(1 << 16) || imm >= (1 << 16))
+        return NULL;
       if (imm >= 0)
         W_MOVZ(sz, opr1->reg.no, imm, 0);
       else
@@ -83,6 +85,8 @@ static unsigned char *asm_movk(Inst *inst, Code *code) {
   Operand *opr3 = &inst->opr[2];
   assert(opr3->type == SHIFT && (opr3->immediate & 15) == 0);
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  if (opr2->immediate < 0 || opr2->immediate >= (1 << 16) || opr3->immediate >= (sz ? 64 : 32))
+    return NULL;
   W_MOVK(sz, opr1->reg.no, opr2->immediate, opr3->immediate >> 4);
   return code->buf;
 }
-- 
2.43.0


From 82c1acf75503c55350f8fd9fa132099b1d7fa468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 026/102] fix: aarch64 as: shift and extend amounts of add/sub
 were not checked

---
 src/as/arch/aarch64/asm_code.c      | 17 +++++++++++++++--
 src/as/arch/aarch64/parse_aarch64.c |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 9baeee8..42439b5 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -91,6 +91,13 @@ static unsigned char *asm_movk(Inst *inst, Code *code) {
   return code->buf;
 }
 
+static bool is_valid_extend(Operand *ext, Operand *opr1, Operand *opr2) {
+  int imm = ext->extend.imm;
+  if (ext->extend.option < 8)  // extend
+    return imm >= 0 && imm <= 4 && !is_zero_reg(&opr1->reg) && !is_zero_reg(&opr2->reg);
+  return imm >= 0 && imm < (opr1->reg.size == REG64 ? 64 : 32);
+}
+
 static unsigned char *asm_3r(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
@@ -105,14 +112,17 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
       if (!opr1->reg.sp && !opr2->reg.sp) {
         W_ADD_S(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, 0, 0);
       } else {
+        if (is_zero_reg(&opr1->reg) || is_zero_reg(&opr2->reg))
+          return NULL;
         const uint32_t option = 3;  // LSL 0
         W_ADD_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, 0);
       }
     } else {
       Operand *ext = &inst->opr[3];
       assert(ext->type == EXTEND);
-      // TODO: Range check for imm.
       int option = ext->extend.option;
+      if (!is_valid_extend(ext, opr1, opr2))
+        return NULL;
       if (option < 8)  // extend
         W_ADD_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, ext->extend.imm);
       else
@@ -124,14 +134,17 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
       if (!opr1->reg.sp && !opr2->reg.sp) {
         W_SUB_S(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, 0, 0);
       } else {
+        if (is_zero_reg(&opr1->reg) || is_zero_reg(&opr2->reg))
+          return NULL;
         const uint32_t option = 3;  // LSL 0
         W_SUB_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, 0);
       }
     } else {
       Operand *ext = &inst->opr[3];
       assert(ext->type == EXTEND);
-      // TODO: Range check for imm.
       int option = ext->extend.option;
+      if (!is_valid_extend(ext, opr1, opr2))
+        return NULL;
       if (option < 8)  // extend
         W_SUB_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, ext->extend.imm);
       else
diff --git a/src/as/arch/aarch64/parse_aarch64.c b/src/as/arch/aarch64/parse_aarch64.c
index 9a18bf6..e0bfd36 100644
--- a/src/as/arch/aarch64/parse_aarch64.c
+++ b/src/as/arch/aarch64/parse_aarch64.c
@@ -436,6 +436,8 @@ static bool parse_extend(ParseInfo *info, Operand *operand) {
       } else if (i >= 8) {
         parse_error(info, "immediate value for shift expected");
       }
+      if (imm < 0 || imm > 63)
+        parse_error(info, "illegal shift amount");
       operand->extend.imm = imm;
       info->p = p;
       return true;
-- 
2.43.0


From 0203d8ee62778fd9515ffebf161b66d2aa113fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 027/102] fix: aarch64 as: immediates of add/sub/shifts were
 masked, xzr was encoded as sp

---
 src/as/arch/aarch64/asm_code.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 42439b5..06ce8f2 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -175,15 +175,19 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
   int64_t imm = 0;
   if (opr3->type == IMMEDIATE) {
     imm = opr3->immediate;
-    if (imm < -(1 << 12) || imm >= (1 << 12)) {
-      switch (inst->op) {
-      case LSL_I:  case LSR_I: case ASR_I:
-        imm &= 63;
-        break;
-      default:
-        return NULL;
-      }
-    }
+  } else if (opr3->type == DIRECT && opr3->direct.expr.expr->kind == EX_FIXNUM) {
+    imm = opr3->direct.expr.expr->fixnum;
+  }
+
+  switch (inst->op) {
+  case ADD_I: case SUB_I:
+    if (imm <= -(1 << 12) || imm >= (1 << 12) || is_zero_reg(&opr1->reg) || is_zero_reg(&opr2->reg))
+      return NULL;
+    break;
+  default:
+    if (imm < 0 || imm >= (sz ? 64 : 32))
+      return NULL;
+    break;
   }
 
   switch (inst->op) {
@@ -247,6 +251,8 @@ static unsigned char *asm_ri(Inst *inst, Code *code) {
       return NULL;
     imm = opr2->immediate;
   }
+  if (is_zero_reg(&opr1->reg))
+    return NULL;
 
   switch (inst->op) {
   case CMP_I:  P_CMP_I(sz, opr1->reg.no, imm); break;
-- 
2.43.0


From 716fb3e45e684eaf4aa9f83484c94ab60ff784c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 028/102] fix: aarch64 as: check the operands of cset and svc

---
 src/as/arch/aarch64/asm_code.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 06ce8f2..6bb3e00 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -416,6 +416,8 @@ static unsigned char *asm_cset(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  if (opr2->cond >= AL)  // No inverted condition.
+    return NULL;
   P_CSET(sz, opr1->reg.no, opr2->cond);
   return code->buf;
 }
@@ -461,6 +463,8 @@ static unsigned char *asm_ret(Inst *inst, Code *code) {
 
 static unsigned char *asm_svc(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
+  if (opr1->immediate < 0 || opr1->immediate >= (1 << 16))
+    return NULL;
   W_SVC(opr1->immediate);
   return code->buf;
 }
-- 
2.43.0


From e9d4647189086d6cbefa2a2b6d90ca0655ab8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:50 +0000
Subject: [PATCH 029/102] fix: aarch64 as: wrong access size, offset or scaling
 in ldr/str variants

---
 src/as/arch/aarch64/aarch64_code.h |  24 ++--
 src/as/arch/aarch64/asm_code.c     | 221 ++++++++++++-----------------
 2 files changed, 95 insertions(+), 150 deletions(-)

diff --git a/src/as/arch/aarch64/aarch64_code.h b/src/as/arch/aarch64/aarch64_code.h
index 7bafad5..73b706d 100644
--- a/src/as/arch/aarch64/aarch64_code.h
+++ b/src/as/arch/aarch64/aarch64_code.h
@@ -32,17 +32,13 @@
 #define W_SBFM(sz, rd, sn, rn, immr, imms)         MAKE_CODE32(inst, code, 0x13000000U | ((sz) << 31) | ((sn) << 22) | ((immr) << 16) | ((imms) << 10) | ((rn) << 5) | (rd))
 #define W_UBFM(sz, rd, sn, rn, immr, imms)         MAKE_CODE32(inst, code, 0x53000000U | ((sz) << 31) | ((sn) << 22) | ((immr) << 16) | ((imms) << 10) | ((rn) << 5) | (rd))
 
-#define W_LDUR(b, s, rt, ofs, base)                MAKE_CODE32(inst, code, 0x38400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define W_LDR_UIMM(b, s, rt, ofs, base)            MAKE_CODE32(inst, code, 0x39400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define W_LDR(b, s, rt, ofs, base, prepost)        MAKE_CODE32(inst, code, 0x38400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define W_STUR(b, rt, ofs, base)                   MAKE_CODE32(inst, code, 0x38000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define W_STR_UIMM(b, rt, ofs, base)               MAKE_CODE32(inst, code, 0x39000000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define W_STR(b, rt, ofs, base, prepost)           MAKE_CODE32(inst, code, 0x38000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
+#define W_LDST_UNSCALED(size, opc, rt, ofs, base)          MAKE_CODE32(inst, code, 0x38000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 9) - 1)) << 12) | ((base) << 5) | (rt))
+#define W_LDST_UIMM(size, opc, rt, ofs, base)              MAKE_CODE32(inst, code, 0x39000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 12) - 1)) << 10) | ((base) << 5) | (rt))
+#define W_LDST_PREPOST(size, opc, rt, ofs, base, prepost)  MAKE_CODE32(inst, code, 0x38000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 9) - 1)) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
+#define W_LDST_R(size, opc, rt, base, rm, scaled, option)  MAKE_CODE32(inst, code, 0x38200800U | ((size) << 30) | ((opc) << 22) | ((rm) << 16) | ((option) << 13) | ((scaled) << 12) | ((base) << 5) | (rt))
 #define W_LDP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28400000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
 #define W_STP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28000000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
 
-#define W_LDR_R(sz, rt, base, rm, s, s2, option)   MAKE_CODE32(inst, code, 0x38600800U | ((sz) << 30) | ((s) << 23) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
-#define W_STR_R(sz, rt, base, rm, s2, option)      MAKE_CODE32(inst, code, 0x38200800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
 
 #define W_ADRP(rd, imm)                            MAKE_CODE32(inst, code, 0x90000000U | (IMM(imm, 31, 30) << 29) | (IMM(imm, 29, 12) << 5) | (rd))
 
@@ -71,17 +67,13 @@
 
 // FP instructions.
 
-#define F_LDUR(b, s, rt, ofs, base)                MAKE_CODE32(inst, code, 0xbc400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define F_LDR_UIMM(b, s, rt, ofs, base)            MAKE_CODE32(inst, code, 0xbd400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define F_LDR(b, s, rt, ofs, base, prepost)        MAKE_CODE32(inst, code, 0xbc400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define F_STUR(b, rt, ofs, base)                   MAKE_CODE32(inst, code, 0xbc000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define F_STR_UIMM(b, rt, ofs, base)               MAKE_CODE32(inst, code, 0xbd000000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define F_STR(b, rt, ofs, base, prepost)           MAKE_CODE32(inst, code, 0xbc000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
+#define F_LDST_UNSCALED(size, opc, rt, ofs, base)          MAKE_CODE32(inst, code, 0x3c000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 9) - 1)) << 12) | ((base) << 5) | (rt))
+#define F_LDST_UIMM(size, opc, rt, ofs, base)              MAKE_CODE32(inst, code, 0x3d000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 12) - 1)) << 10) | ((base) << 5) | (rt))
+#define F_LDST_PREPOST(size, opc, rt, ofs, base, prepost)  MAKE_CODE32(inst, code, 0x3c000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 9) - 1)) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
+#define F_LDST_R(size, opc, rt, base, rm, scaled, option)  MAKE_CODE32(inst, code, 0x3c200800U | ((size) << 30) | ((opc) << 22) | ((rm) << 16) | ((option) << 13) | ((scaled) << 12) | ((base) << 5) | (rt))
 #define F_LDP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c400000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
 #define F_STP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c000000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
 
-#define F_LDR_R(sz, rt, base, rm, s, s2, option)   MAKE_CODE32(inst, code, 0xbc700800U | ((sz) << 30) | ((s) << 23) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
-#define F_STR_R(sz, rt, base, rm, s2, option)      MAKE_CODE32(inst, code, 0xbc300800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
 
 #define FMOV(sz, rd, rn)                           MAKE_CODE32(inst, code, 0x1e204000U | ((sz) << 22) | ((rn) << 5) | (rd))
 #define FADD(sz, rd, rn, rm)                       MAKE_CODE32(inst, code, 0x1e202800U | ((sz) << 22) | ((rm) << 16) | ((rn) << 5) | (rd))
diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 6bb3e00..a71e6a6 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -280,107 +280,87 @@ static unsigned char *asm_4r(Inst *inst, Code *code) {
   return code->buf;
 }
 
+// Access size (log2) and `opc' field of load/store instructions.
+static void get_ldst_size(enum Opcode op, uint32_t sz, uint32_t *psize, uint32_t *popc) {
+  switch (op) {
+  case LDRB:   *psize = 0; *popc = 1; break;
+  case LDRH:   *psize = 1; *popc = 1; break;
+  case LDRSB:  *psize = 0; *popc = 3 - sz; break;
+  case LDRSH:  *psize = 1; *popc = 3 - sz; break;
+  case LDR:    *psize = 2 + sz; *popc = 1; break;
+  case STRB:   *psize = 0; *popc = 0; break;
+  case STRH:   *psize = 1; *popc = 0; break;
+  case STR:    *psize = 2 + sz; *popc = 0; break;
+  case F_LDR:  *psize = 2 + sz; *popc = 1; break;
+  case F_STR:  *psize = 2 + sz; *popc = 0; break;
+  default: assert(false); *psize = *popc = 0; break;
+  }
+}
+
+static inline bool is_simm9(int64_t offset) {
+  return offset >= -(1 << 8) && offset < (1 << 8);
+}
+
+// Whether the offset fits the unsigned 12-bit field scaled by the access size.
+static inline bool is_scaled_uimm12(int64_t offset, uint32_t size) {
+  return offset >= 0 && offset < ((int64_t)1 << (12 + size)) && (offset & ((1 << size) - 1)) == 0;
+}
+
+static inline int64_t get_indirect_offset(Operand *opr) {
+  Expr *expr = opr->indirect.offset.expr;
+  return expr != NULL && expr->kind == EX_FIXNUM ? expr->fixnum : 0;
+}
+
+// `option' and `S' fields of the register offset addressing.
+static bool get_register_offset(Operand *opr, uint32_t size, uint32_t *popt, uint32_t *pscaled) {
+  static const uint32_t opts[] = {3, 6, 2, 3, 3};
+  int extend = opr->register_offset.extend;
+  uint32_t opt = opts[extend];
+  if (opr->register_offset.index_reg.size == REG32 && opt == 3)
+    return false;
+
+  uint32_t scaled = 0;
+  Expr *scale = opr->register_offset.scale;
+  if (scale != NULL) {
+    assert(scale->kind == EX_FIXNUM);
+    int64_t n = scale->fixnum;
+    if (!(n == 0 || n == (int64_t)size))
+      return false;
+    scaled = n == (int64_t)size;
+  }
+  *popt = opt;
+  *pscaled = scaled;
+  return true;
+}
+
 static unsigned char *asm_ldrstr(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
   Operand *opr2 = &inst->opr[1];
+  uint32_t size, opc;
+  get_ldst_size(inst->op, sz, &size, &opc);
   if (opr2->type == INDIRECT) {
     assert(opr2->indirect.reg.size == REG64);
-    // assert(opr2->indirect.offset == NULL || opr2->indirect.offset->kind == EX_FIXNUM);
-    ExprWithFlag *offset_expr = &opr2->indirect.offset;
-    int64_t offset = offset_expr->expr != NULL && offset_expr->expr->kind == EX_FIXNUM ? offset_expr->expr->fixnum : 0;
-    assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+    int64_t offset = get_indirect_offset(opr2);
     uint32_t base = opr2->indirect.reg.no;
-    uint32_t prepost = kPrePost[opr2->indirect.prepost];
-    switch (inst->op) {
-    case LDRB: case LDRH: case LDR:
-    case LDRSB: case LDRSH:
-      {
-        uint32_t b = inst->op - LDRB, s = 0;
-        if (b >= 3) {
-          b -= 3;
-          s = 1;
-        }
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            W_LDR_UIMM(b | sz, s, opr1->reg.no, offset >> (b + (inst->op == LDR ? sz : 0)), base);
-          else
-            W_LDUR(b | sz, s, opr1->reg.no, offset, base);
-        } else {
-          W_LDR(b | sz, s, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    case STRB: case STRH: case STR:
-      {
-        uint32_t b = inst->op - STRB;
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            W_STR_UIMM(b | sz, opr1->reg.no, offset >> (b + (inst->op == STR ? sz : 0)), base);
-          else
-            W_STUR(b | sz, opr1->reg.no, offset, base);
-        } else {
-          W_STR(b | sz, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    default: assert(false); break;
+    if (opr2->indirect.prepost == 0 && is_scaled_uimm12(offset, size)) {
+      W_LDST_UIMM(size, opc, opr1->reg.no, offset >> size, base);
+    } else {
+      if (!is_simm9(offset))
+        return NULL;
+      if (opr2->indirect.prepost == 0)
+        W_LDST_UNSCALED(size, opc, opr1->reg.no, offset, base);
+      else
+        W_LDST_PREPOST(size, opc, opr1->reg.no, offset, base, kPrePost[opr2->indirect.prepost]);
     }
-    return code->buf;
   } else {
     assert(opr2->type == REGISTER_OFFSET);
-    assert(opr2->register_offset.scale == NULL || opr2->register_offset.scale->kind == EX_FIXNUM);
-
-    static const uint32_t opts[] = {3, 6, 2, 3, 3};
-    uint32_t opt = opts[opr2->register_offset.extend];
-
-    switch (inst->op) {
-    case LDRB: case LDRH: case LDR:
-    case LDRSB: case LDRSH:
-      {
-        uint32_t b = inst->op - LDRB, s = 0;
-        if (b >= 3) {
-          b -= 3;
-          s = 1;
-        }
-        b |= sz;
-
-        uint32_t s2 = 0;
-        Expr *scale = opr2->register_offset.scale;
-        if (scale != NULL) {
-          assert(scale->kind == EX_FIXNUM);
-          int64_t n = scale->fixnum;
-          if (!(n == 0 || n == b)) {
-            // TODO: Error message.
-            return NULL;
-          }
-          s2 = n == b;
-        }
-        W_LDR_R(b, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s, s2, opt);
-      }
-      break;
-    case STRB: case STRH: case STR:
-      {
-        uint32_t b = (inst->op - STRB) | sz;
-
-        uint32_t s2 = 0;
-        Expr *scale = opr2->register_offset.scale;
-        if (scale != NULL) {
-          assert(scale->kind == EX_FIXNUM);
-          int64_t n = scale->fixnum;
-          if (!(n == 0 || n == b)) {
-            // TODO: Error message.
-            return NULL;
-          }
-          s2 = n == b;
-        }
-        W_STR_R(b, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s2, opt);
-      }
-      break;
-    default: assert(false); break;
-    }
-    return code->buf;
+    uint32_t opt, scaled;
+    if (!get_register_offset(opr2, size, &opt, &scaled))
+      return NULL;
+    W_LDST_R(size, opc, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, scaled, opt);
   }
+  return code->buf;
 }
 
 static unsigned char *asm_ldpstp(Inst *inst, Code *code) {
@@ -475,57 +455,30 @@ static unsigned char *asm_f_ldrstr(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  uint32_t size, opc;
+  get_ldst_size(inst->op, sz, &size, &opc);
   if (opr2->type == INDIRECT) {
     assert(opr2->indirect.reg.size == REG64);
-    // assert(opr2->indirect.offset == NULL || opr2->indirect.offset->kind == EX_FIXNUM);
-    ExprWithFlag *offset_expr = &opr2->indirect.offset;
-    int64_t offset = offset_expr->expr != NULL && offset_expr->expr->kind == EX_FIXNUM ? offset_expr->expr->fixnum : 0;
-    assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+    int64_t offset = get_indirect_offset(opr2);
     uint32_t base = opr2->indirect.reg.no;
-    uint32_t prepost = kPrePost[opr2->indirect.prepost];
-
-    switch (inst->op) {
-    case F_LDR:
-      {
-        uint32_t s = 0;
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            F_LDR_UIMM(sz, s, opr1->reg.no, offset >> (2 + sz), base);
-          else
-            F_LDUR(sz, s, opr1->reg.no, offset, base);
-        } else {
-          F_LDR(sz, s, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    case F_STR:
-      if (opr2->indirect.prepost == 0) {
-        if (offset >= 0)
-          F_STR_UIMM((inst->op - STRB) | sz, opr1->reg.no, 0, base);
-        else
-          F_STUR((inst->op - STRB) | sz, opr1->reg.no, offset, base);
-      } else {
-        F_STR((inst->op - STRB) | sz, opr1->reg.no, offset, base, prepost);
-      }
-      break;
-    default: assert(false); break;
+    if (opr2->indirect.prepost == 0 && is_scaled_uimm12(offset, size)) {
+      F_LDST_UIMM(size, opc, opr1->reg.no, offset >> size, base);
+    } else {
+      if (!is_simm9(offset))
+        return NULL;
+      if (opr2->indirect.prepost == 0)
+        F_LDST_UNSCALED(size, opc, opr1->reg.no, offset, base);
+      else
+        F_LDST_PREPOST(size, opc, opr1->reg.no, offset, base, kPrePost[opr2->indirect.prepost]);
     }
-    return code->buf;
   } else {
     assert(opr2->type == REGISTER_OFFSET);
-    assert(opr2->register_offset.scale == NULL || opr2->register_offset.scale->kind == EX_FIXNUM);
-
-    static const uint32_t opts[] = {3, 6, 2, 3, 3};
-    uint32_t opt = opts[opr2->register_offset.extend];
-    uint32_t s = opr2->register_offset.extend > 0 ? 1 : 0;
-
-    switch (inst->op) {
-    case F_LDR:  F_LDR_R(sz, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, 0, s, opt); break;
-    case F_STR:  F_STR_R(sz, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s, opt); break;
-    default: assert(false); break;
-    }
-    return code->buf;
+    uint32_t opt, scaled;
+    if (!get_register_offset(opr2, size, &opt, &scaled))
+      return NULL;
+    F_LDST_R(size, opc, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, scaled, opt);
   }
+  return code->buf;
 }
 
 static unsigned char *asm_f_ldpstp(Inst *inst, Code *code) {
-- 
2.43.0


From da90a7b70e9fa0ea9ff0c0b0253079dddd769c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:16 +0000
Subject: [PATCH 030/102] fix: aarch64 as: ldp/stp offsets of 32-bit registers
 were scaled by 8, and not checked

---
 src/as/arch/aarch64/aarch64_code.h |  8 ++++----
 src/as/arch/aarch64/asm_code.c     | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/as/arch/aarch64/aarch64_code.h b/src/as/arch/aarch64/aarch64_code.h
index 73b706d..4db58b2 100644
--- a/src/as/arch/aarch64/aarch64_code.h
+++ b/src/as/arch/aarch64/aarch64_code.h
@@ -36,8 +36,8 @@
 #define W_LDST_UIMM(size, opc, rt, ofs, base)              MAKE_CODE32(inst, code, 0x39000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 12) - 1)) << 10) | ((base) << 5) | (rt))
 #define W_LDST_PREPOST(size, opc, rt, ofs, base, prepost)  MAKE_CODE32(inst, code, 0x38000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 9) - 1)) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
 #define W_LDST_R(size, opc, rt, base, rm, scaled, option)  MAKE_CODE32(inst, code, 0x38200800U | ((size) << 30) | ((opc) << 22) | ((rm) << 16) | ((option) << 13) | ((scaled) << 12) | ((base) << 5) | (rt))
-#define W_LDP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28400000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
-#define W_STP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28000000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
+#define W_LDP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28400000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> (2 + (sz))) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
+#define W_STP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28000000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> (2 + (sz))) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
 
 
 #define W_ADRP(rd, imm)                            MAKE_CODE32(inst, code, 0x90000000U | (IMM(imm, 31, 30) << 29) | (IMM(imm, 29, 12) << 5) | (rd))
@@ -71,8 +71,8 @@
 #define F_LDST_UIMM(size, opc, rt, ofs, base)              MAKE_CODE32(inst, code, 0x3d000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 12) - 1)) << 10) | ((base) << 5) | (rt))
 #define F_LDST_PREPOST(size, opc, rt, ofs, base, prepost)  MAKE_CODE32(inst, code, 0x3c000000U | ((size) << 30) | ((opc) << 22) | (((ofs) & ((1U << 9) - 1)) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
 #define F_LDST_R(size, opc, rt, base, rm, scaled, option)  MAKE_CODE32(inst, code, 0x3c200800U | ((size) << 30) | ((opc) << 22) | ((rm) << 16) | ((option) << 13) | ((scaled) << 12) | ((base) << 5) | (rt))
-#define F_LDP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c400000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
-#define F_STP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c000000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
+#define F_LDP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c400000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) >> (2 + (b))) & ((1U << 7) - 1)) << 15) | ((ru) << 10) | ((base) << 5) | (rt))
+#define F_STP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c000000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) >> (2 + (b))) & ((1U << 7) - 1)) << 15) | ((ru) << 10) | ((base) << 5) | (rt))
 
 
 #define FMOV(sz, rd, rn)                           MAKE_CODE32(inst, code, 0x1e204000U | ((sz) << 22) | ((rn) << 5) | (rd))
diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index a71e6a6..f45dfd7 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -306,6 +306,10 @@ static inline bool is_scaled_uimm12(int64_t offset, uint32_t size) {
   return offset >= 0 && offset < ((int64_t)1 << (12 + size)) && (offset & ((1 << size) - 1)) == 0;
 }
 
+static inline bool is_scaled_simm7(int64_t offset, uint32_t size) {
+  return offset >= -(64 << size) && offset < (64 << size) && (offset & ((1 << size) - 1)) == 0;
+}
+
 static inline int64_t get_indirect_offset(Operand *opr) {
   Expr *expr = opr->indirect.offset.expr;
   return expr != NULL && expr->kind == EX_FIXNUM ? expr->fixnum : 0;
@@ -370,9 +374,11 @@ static unsigned char *asm_ldpstp(Inst *inst, Code *code) {
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
   Operand *opr3 = &inst->opr[2];
   assert(opr3->indirect.reg.size == REG64);
-  assert(opr3->indirect.offset.expr == NULL || opr3->indirect.offset.expr->kind == EX_FIXNUM);
+  if (opr3->indirect.offset.expr != NULL && opr3->indirect.offset.expr->kind != EX_FIXNUM)
+    return NULL;
   int64_t offset = opr3->indirect.offset.expr != NULL ? opr3->indirect.offset.expr->fixnum : 0;
-  assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+  if (!is_scaled_simm7(offset, 2 + sz))
+    return NULL;
   uint32_t base = opr3->indirect.reg.no;
   uint32_t prepost = kPrePost[opr3->indirect.prepost];
   switch (inst->op) {
@@ -487,9 +493,11 @@ static unsigned char *asm_f_ldpstp(Inst *inst, Code *code) {
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
   Operand *opr3 = &inst->opr[2];
   assert(opr3->indirect.reg.size == REG64);
-  assert(opr3->indirect.offset.expr == NULL || opr3->indirect.offset.expr->kind == EX_FIXNUM);
+  if (opr3->indirect.offset.expr != NULL && opr3->indirect.offset.expr->kind != EX_FIXNUM)
+    return NULL;
   int64_t offset = opr3->indirect.offset.expr != NULL ? opr3->indirect.offset.expr->fixnum : 0;
-  assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+  if (!is_scaled_simm7(offset, 2 + sz))
+    return NULL;
   uint32_t base = opr3->indirect.reg.no;
   uint32_t prepost = kPrePost[opr3->indirect.prepost];
   switch (inst->op) {
-- 
2.43.0


From 90c73e175e12e2891c21ef0b5be248327562b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:16 +0000
Subject: [PATCH 031/102] fix: aarch64 as: sp as a base or an index of a
 register offset

---
 src/as/arch/aarch64/parse_aarch64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/aarch64/parse_aarch64.c b/src/as/arch/aarch64/parse_aarch64.c
index e0bfd36..a17f34b 100644
--- a/src/as/arch/aarch64/parse_aarch64.c
+++ b/src/as/arch/aarch64/parse_aarch64.c
@@ -321,7 +321,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, Operand *operand) {
       }
     } else {
       reg2 = find_register(&p, R32 | R64);
-      if (reg2 == NOREG)
+      if (reg2 == NOREG || reg2 == SP)
         return 0;  // Error
 
       p = skip_whitespaces(p);
@@ -389,7 +389,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, Operand *operand) {
   } else {
     operand->type = REGISTER_OFFSET;
     operand->register_offset.base_reg.size = REG64;
-    operand->register_offset.base_reg.no = reg - X0;
+    operand->register_offset.base_reg.no = reg == SP ? 31 : reg - X0;
     if (is_reg64(reg2)) {
       operand->register_offset.index_reg.size = REG64;
       operand->register_offset.index_reg.no = reg2 - X0;
-- 
2.43.0


From 1e402dd52b5ce5eab9230b444310e9a31ef2dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:37 +0000
Subject: [PATCH 032/102] fix: ld x64: report 32-bit PC-relative relocation
 overflow

---
 src/ld/ld.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2397ac9..ca133df 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -250,7 +250,15 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
         break;
       case R_X86_64_PC32:
       case R_X86_64_PLT32:
-        *(uint32_t*)p = address - pc;
+        {
+          int64_t offset = address - pc;
+          if (!is_im32(offset)) {
+            fprintf(stderr, "Relocation out of range: type=%d, offset=%" PRIx64 "\n", (int)ELF64_R_TYPE(rela->r_info), offset);
+            ++error_count;
+            break;
+          }
+          *(uint32_t*)p = offset;
+        }
         break;
 
 #elif XCC_TARGET_ARCH == XCC_ARCH_AARCH64
-- 
2.43.0


From ad682fc1b1e0f138e92133389851d6e1400d8a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:37 +0000
Subject: [PATCH 033/102] fix: ld aarch64: report adrp and bl relocation
 overflow

---
 src/ld/ld.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index ca133df..66944c1 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -269,7 +269,12 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
         {
           const int PAGE = 12;
           const uint32_t MASK = ~0x60ffffe0;
-          uint32_t d = (address >> PAGE) - (pc >> PAGE);
+          int64_t d = (address >> PAGE) - (pc >> PAGE);
+          if (d < -(1L << 20) || d >= (1L << 20)) {
+            fprintf(stderr, "Relocation out of range: type=%d, offset=%" PRIx64 "\n", (int)ELF64_R_TYPE(rela->r_info), d);
+            ++error_count;
+            break;
+          }
           *(uint32_t*)p = (*(uint32_t*)p & MASK) | ((d & 0x03) << 29) | ((d & 0x1ffffc) << 3);
         }
         break;
@@ -282,7 +287,13 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
       case R_AARCH64_CALL26:  // S+A-P
         {
           const uint32_t MASK = -(1U << 26);
-          *(uint32_t*)p = (*(uint32_t*)p & MASK) | (((address - pc) >> 2) & ~MASK);
+          int64_t offset = address - pc;
+          if (offset < -(1L << 27) || offset >= (1L << 27)) {
+            fprintf(stderr, "Relocation out of range: type=%d, offset=%" PRIx64 "\n", (int)ELF64_R_TYPE(rela->r_info), offset);
+            ++error_count;
+            break;
+          }
+          *(uint32_t*)p = (*(uint32_t*)p & MASK) | ((offset >> 2) & ~MASK);
         }
         break;
 
-- 
2.43.0


From 3efcf1f058d2917bb2c09e4918e281a9a0c7452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:37 +0000
Subject: [PATCH 034/102] fix: ld riscv64: keep rd of jal when relocating

---
 src/ld/ld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 66944c1..c38fe63 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -382,7 +382,7 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
 
           uint32_t *q = (uint32_t*)p;
           assert((*q & 0x0000007f) == 0x6f);  // jal
-          *q = (*q & 0x0000007f) | SWIZZLE_JAL(offset);
+          *q = (*q & 0x00000fff) | SWIZZLE_JAL(offset);
         }
         break;
       case R_RISCV_BRANCH:
-- 
2.43.0


From 94881f67bb45674f2bd9abce6babe92f3df75bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:37 +0000
Subject: [PATCH 035/102] fix: ld riscv64: conditional branches reach +-4KiB
 only

---
 src/ld/ld.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index c38fe63..7790038 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -397,7 +397,7 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
             assert((*q & 0xc003) == 0xc001);  // c.beqz or c.bnez
             *q = (*q & 0xe383) | SWIZZLE_C_BXX(offset);
           } else {
-            assert(offset < (1 << 13) && offset >= -(1 << 13));
+            assert(offset < (1 << 12) && offset >= -(1 << 12));
             uint32_t *q = (uint32_t*)p;
             *q = (*q & 0x01fff07f) | SWIZZLE_BXX(offset);
           }
-- 
2.43.0


From 85d08069335cd85a8b8491c8dfd5dda78fab3fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:37 +0000
Subject: [PATCH 036/102] fix: ld riscv64: detect HI20 overflow caused by
 rounding

---
 src/ld/ld.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 7790038..2aaaea9 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -340,6 +340,7 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
           const uint32_t MASK12 = (1U << 12) - 1;
           if ((offset & MASK12) >= (1U << 11))
             offset += 1U << 12;
+          assert(offset < (1L << 31));
           *(uint32_t*)p = (*(uint32_t*)p & MASK12) | ((uint32_t)offset & ~MASK12);
         }
         break;
-- 
2.43.0


From da4c8995cbb2b34cb181661bdb5b068e4e3176b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:57 +0000
Subject: [PATCH 037/102] fix: ld: count alignment padding of .bss in the size
 of the data segment

---
 src/ld/ld.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2aaaea9..f01379f 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -605,6 +605,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
 
     SectionGroup *secgroup = &section_groups[secno];
     secgroup->start_address = address = ALIGN(address, secgroup->align);
+    uint64_t load_end = address;  // End of the contents stored in the file.
     for (int i = 0; i < v->len; ++i) {
       LinkElem *elem = v->data[i];
       switch (elem->kind) {
@@ -624,7 +625,9 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
               secgroup->align = align;
 
             if (p->shdr->sh_type == SHT_NOBITS)
-              secgroup->bss_size += size;
+              secgroup->bss_size = address - load_end;  // Including alignment paddings.
+            else
+              load_end = address;
           }
         }
         break;
@@ -632,7 +635,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
         elem->symbol.address = address;
         break;
       case LEK_ALIGN:
-        address = ALIGN(address, elem->align);
+        load_end = address = ALIGN(address, elem->align);
         break;
       }
     }
-- 
2.43.0


From 6ebbeb387dceacc735555a36a87fc4659f942bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:57 +0000
Subject: [PATCH 038/102] fix: ld: file offsets in program headers follow
 section alignment

---
 src/ld/ld.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index f01379f..5ca3bdf 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -718,13 +718,14 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
   const int flags = 0;
 #endif
   out_elf_header(fp, entry_address, phnum, 0, flags, 0);
-  out_program_header(fp, 0, PROG_START, section_groups[SEC_TEXT].start_address, code_rodata_sz,
+  const uint64_t text_offset = ALIGN(PROG_START, section_groups[SEC_TEXT].align);
+  out_program_header(fp, 0, text_offset, section_groups[SEC_TEXT].start_address, code_rodata_sz,
                      code_rodata_sz);
   if (phnum > 1) {
     size_t datamemsz = section_groups[SEC_DATA].ds->len + section_groups[SEC_DATA].bss_size;
-    uint64_t offset = PROG_START + code_rodata_sz;
+    uint64_t offset = text_offset + code_rodata_sz;
     if (section_groups[SEC_DATA].ds->len > 0)
-      offset = ALIGN(offset, DATA_ALIGN);
+      offset = ALIGN(offset, section_groups[SEC_DATA].align);
     out_program_header(fp, 1, offset, section_groups[SEC_DATA].start_address,
                        section_groups[SEC_DATA].ds->len, datamemsz);
   }
-- 
2.43.0


From 03c69bc88ca3be32013d470f14870df28c0f4868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:40 +0000
Subject: [PATCH 039/102] fix: as: constant subtraction and division in
 expressions

---
 src/as/parse_asm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3f9d160..d6228bd 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -509,7 +509,13 @@ static Expr *parse_mul(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_MUL:  lhs->fixnum *= rhs->fixnum; break;
-      case TK_DIV:  lhs->fixnum += rhs->fixnum; break;
+      case TK_DIV:
+        if (rhs->fixnum == 0) {
+          parse_error(info, "Division by zero");
+          break;
+        }
+        lhs->fixnum /= rhs->fixnum;
+        break;
       default:  assert(false); break;
       }
     } else {
@@ -539,7 +545,7 @@ static Expr *parse_add(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_ADD:  lhs->fixnum += rhs->fixnum; break;
-      case TK_SUB:  lhs->fixnum += rhs->fixnum; break;
+      case TK_SUB:  lhs->fixnum -= rhs->fixnum; break;
       default:  assert(false); break;
       }
     } else {
-- 
2.43.0


From da57afc016ecd7c7caf62e5491371c685e9dd31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:40 +0000
Subject: [PATCH 040/102] fix: as: accept label - offset

---
 src/as/parse_asm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index d6228bd..682ef4e 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -1112,11 +1112,14 @@ Value calc_expr(Table *label_table, const Expr *expr) {
         return (Value){.label = rhs.label, .offset = lhs.offset + rhs.offset};
       }
       if (lhs.label != NULL) {
-        if (expr->kind != EX_ADD) {
+        switch (expr->kind) {
+        case EX_ADD:  // label + offset
+          return (Value){.label = lhs.label, .offset = lhs.offset + rhs.offset};
+        case EX_SUB:  // label - offset
+          return (Value){.label = lhs.label, .offset = lhs.offset - rhs.offset};
+        default:
           error("Illegal expression");
         }
-        // label + offset
-        return (Value){.label = lhs.label, .offset = lhs.offset + rhs.offset};
       }
 
       assert(lhs.label == NULL && rhs.label == NULL);
-- 
2.43.0


From f3b76dde0b665b1c7a50bcb646a00d86eea4a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:40 +0000
Subject: [PATCH 041/102] fix: as: report operands that match no form instead
 of dropping the instruction

---
 src/as/parse_asm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 682ef4e..f1e9a31 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -633,7 +633,8 @@ void parse_inst(ParseInfo *info, Line *line) {
         if (*info->p != ',') {
           if (candidates[0]->opr_flags[i] == 0)
             break;
-          return;  // Error
+          parse_error(info, "Operand expected");
+          return;
         }
         info->p = skip_whitespaces(info->p + 1);
       }
@@ -643,7 +644,8 @@ void parse_inst(ParseInfo *info, Line *line) {
       unsigned int result = parse_operand(info, opr_flags, opr);
       if (result == 0) {
         info->p = before;
-        return;  // Error
+        parse_error(info, "Illegal operand");
+        return;
       }
 
       for (int j = 0; j < n; ++j) {
@@ -659,6 +661,8 @@ void parse_inst(ParseInfo *info, Line *line) {
 
     if (n > 0) {
       inst->op = candidates[0]->op;
+    } else {
+      parse_error(info, "Illegal combination of operands");
     }
   }
 }
-- 
2.43.0


From 8e57a3683125d847b9d4e8f45dd390579caedead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:40 +0000
Subject: [PATCH 042/102] fix: as: keep 64-bit addends

---
 src/as/ir_asm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/ir_asm.h b/src/as/ir_asm.h
index 365e401..760a6b8 100644
--- a/src/as/ir_asm.h
+++ b/src/as/ir_asm.h
@@ -43,7 +43,7 @@ typedef struct {
   const Name *label;
   uintptr_t offset;
   SectionInfo *src_section;
-  int add;
+  int64_t add;
   enum UnresolvedKind kind;
 } UnresolvedInfo;
 
-- 
2.43.0


From ccbe7555a08f32c05c70398ab332935891f2ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:12 +0000
Subject: [PATCH 043/102] fix: as: division by zero in deferred expressions

---
 src/as/parse_asm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index f1e9a31..b05e978 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -1131,7 +1131,11 @@ Value calc_expr(Table *label_table, const Expr *expr) {
       case EX_ADD:  lhs.offset += rhs.offset; break;
       case EX_SUB:  lhs.offset -= rhs.offset; break;
       case EX_MUL:  lhs.offset *= rhs.offset; break;
-      case EX_DIV:  lhs.offset /= rhs.offset; break;
+      case EX_DIV:
+        if (rhs.offset == 0)
+          error("Division by zero");
+        lhs.offset /= rhs.offset;
+        break;
       default: assert(false); break;
       }
       return lhs;
-- 
2.43.0


From 97e7420130d2edd083de139722fcbd24b4db1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:12 +0000
Subject: [PATCH 044/102] fix: as x64: relocate jumps to labels outside the
 section

---
 src/as/arch/x64/ir_asm_x64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index 1f0a20d..4b8ae2f 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -181,7 +181,8 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               Value value = calc_expr(label_table, inst->opr[0].direct.expr);
               if (value.label != NULL) {
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
+                if (label_info == NULL || !(label_info->flag & LF_DEFINED) ||
+                    label_info->section != section) {
                   // Make unresolved label jmp to long.
                   size_upgraded |= make_jmp_long(ir);
 
-- 
2.43.0


From f40aa96fbae9b4c7c661a647d70412b51a8ab51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:12 +0000
Subject: [PATCH 045/102] fix: as x64: relocation offset of conditional jumps

---
 src/as/arch/x64/ir_asm_x64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index 4b8ae2f..48f1a43 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -190,7 +190,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                   info->kind = UNRES_EXTERN;
                   info->label = value.label;
                   info->src_section = section;
-                  info->offset = address + 1 - start_address;
+                  info->offset = address + (inst->op == JMP_D ? 1 : 2) - start_address;
                   info->add = value.offset - 4;
                   vec_push(unresolved, info);
                   break;
-- 
2.43.0


From 07f7287c83424b2bbe002dae6ac267b00457d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:12 +0000
Subject: [PATCH 046/102] fix: as x64: relocate rip-relative loads

---
 src/as/arch/x64/ir_asm_x64.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index 48f1a43..4a9b52b 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -137,12 +137,20 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               Value value = calc_expr(label_table, inst->opr[0].indirect.offset.expr);
               if (value.label != NULL) {
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
+#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
+                enum UnresolvedKind kind = UNRES_X64_GOT_LOAD;
+                bool reloc = label_info == NULL;
+#else
+                enum UnresolvedKind kind = UNRES_EXTERN_PC32;
+                bool reloc = true;
+                UNUSED(label_info);
+#endif
+                if (reloc) {
                   UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                  info->kind = UNRES_X64_GOT_LOAD;
+                  info->kind = kind;
                   info->label = value.label;
                   info->src_section = section;
-                  info->offset = address + 3 - start_address;
+                  info->offset = address + ir->code.len - 4 - start_address;
                   info->add = value.offset - 4;
                   vec_push(unresolved, info);
                   break;
-- 
2.43.0


From 129403c4e6218820f3c9bc6e8ce26e896dd5fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:37 +0000
Subject: [PATCH 047/102] fix: as: refuse labels in data narrower than an
 address

---
 src/as/arch/aarch64/ir_asm_aarch64.c | 3 ++-
 src/as/arch/riscv64/ir_asm_riscv64.c | 3 ++-
 src/as/arch/x64/ir_asm_x64.c         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/as/arch/aarch64/ir_asm_aarch64.c b/src/as/arch/aarch64/ir_asm_aarch64.c
index 4f28143..be884f6 100644
--- a/src/as/arch/aarch64/ir_asm_aarch64.c
+++ b/src/as/arch/aarch64/ir_asm_aarch64.c
@@ -252,7 +252,8 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_EXPR_QUAD:
         {
           Value value = calc_expr(label_table, ir->expr.expr);
-          assert(value.label != NULL);
+          if (value.label == NULL || ir->kind != IR_EXPR_QUAD)
+            error("Illegal label expression in data");
           UnresolvedInfo *info = malloc_or_die(sizeof(*info));
           info->kind = UNRES_ABS64;  // TODO:
           info->label = value.label;
diff --git a/src/as/arch/riscv64/ir_asm_riscv64.c b/src/as/arch/riscv64/ir_asm_riscv64.c
index 83ca624..3265a9d 100644
--- a/src/as/arch/riscv64/ir_asm_riscv64.c
+++ b/src/as/arch/riscv64/ir_asm_riscv64.c
@@ -383,7 +383,8 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_EXPR_QUAD:
         {
           Value value = calc_expr(label_table, ir->expr.expr);
-          assert(value.label != NULL);
+          if (value.label == NULL || ir->kind != IR_EXPR_QUAD)
+            error("Illegal label expression in data");
           UnresolvedInfo *info = malloc_or_die(sizeof(*info));
           info->kind = UNRES_ABS64;  // TODO:
           info->label = value.label;
diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index 4a9b52b..9c57db4 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -252,7 +252,8 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_EXPR_QUAD:
         {
           Value value = calc_expr(label_table, ir->expr.expr);
-          assert(value.label != NULL);
+          if (value.label == NULL || ir->kind != IR_EXPR_QUAD)
+            error("Illegal label expression in data");
           UnresolvedInfo *info = malloc_or_die(sizeof(*info));
           info->kind = UNRES_ABS64;  // TODO:
           info->label = value.label;
-- 
2.43.0


From 46c02d67ecde3243138357148727ae24063ea6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:37 +0000
Subject: [PATCH 048/102] fix: as: symbols declared but not defined are
 undefined symbols

---
 src/as/emit_elf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index 5e28cdd..08e8b63 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -106,10 +106,12 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
   const Name *name;
   LabelInfo *info;
   for (int it = 0; (it = table_iterate(label_table, it, &name, (void**)&info)) != -1; ) {
+    if (!(info->flag & (LF_DEFINED | LF_REFERRED)))
+      continue;  // Only declared.
     int bind;
     if (info->flag & LF_WEAK) {
       bind = STB_WEAK;
-    } else if (info->flag & LF_GLOBAL) {
+    } else if (info->flag & LF_GLOBAL || !(info->flag & LF_DEFINED)) {
       bind = STB_GLOBAL;
     } else if (info->flag & LF_REFERRED || info->kind == LK_FUNC) {
       bind = STB_LOCAL;
@@ -129,7 +131,7 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
     sym->st_size = info->size;
     assert(info->section == NULL || info->section->index > 0);
     Elf64_Section shndx = SHN_UNDEF;
-    if (info->section != NULL) {
+    if (info->flag & LF_DEFINED) {
       if ((info->flag & (LF_COMM | LF_GLOBAL)) == (LF_COMM | LF_GLOBAL))
         shndx = SHN_COMMON;
       else
-- 
2.43.0


From cc75fab7e1822d59dc41e56954a37b088b3b2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:31 +0000
Subject: [PATCH 049/102] fix: as riscv64: low part of la refers to a label on
 its auipc

---
 src/as/arch/riscv64/ir_asm_riscv64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/ir_asm_riscv64.c b/src/as/arch/riscv64/ir_asm_riscv64.c
index 3265a9d..eb28950 100644
--- a/src/as/arch/riscv64/ir_asm_riscv64.c
+++ b/src/as/arch/riscv64/ir_asm_riscv64.c
@@ -168,12 +168,16 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
             if (inst->opr[1].type == DIRECT) {
               Value value = calc_expr(label_table, inst->opr[1].direct.expr);
               if (value.label != NULL) {
-                if (last_label == NULL) {
+                if (i == 0 || ((IR*)irs->data[i - 1])->kind != IR_LABEL) {
                   const Name *label = alloc_dummy_label();
                   IR *ir = new_ir_label(label);
+                  ir->address = address;
                   vec_insert(irs, i++, ir);
                   ++len;
                   last_label = label;
+                  LabelInfo *label_info = add_label_table(label_table, label, section, true, false);
+                  assert(label_info != NULL);
+                  label_info->address = address;
                 }
 
                 uint64_t offset = address - start_address;
-- 
2.43.0


From 1e78243fb6783128b03c527bc6edd075f7f4cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:31 +0000
Subject: [PATCH 050/102] fix: as riscv64: jumps to labels outside the section
 are long, and relocated by their actual length

---
 src/as/arch/riscv64/ir_asm_riscv64.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/as/arch/riscv64/ir_asm_riscv64.c b/src/as/arch/riscv64/ir_asm_riscv64.c
index eb28950..b07007f 100644
--- a/src/as/arch/riscv64/ir_asm_riscv64.c
+++ b/src/as/arch/riscv64/ir_asm_riscv64.c
@@ -224,6 +224,12 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               uint64_t target_address = 0;
               Value value = calc_expr(label_table, inst->opr[0].direct.expr);
               if (value.label != NULL) {
+                LabelInfo *label_info = table_get(label_table, value.label);
+                if (label_info != NULL && (label_info->flag & LF_DEFINED) && label_info->section == section)
+                  target_address = label_info->address + value.offset;
+                else
+                  size_upgraded |= make_jmp_long(ir);  // Distance is unknown.
+
                 // Put rela even if the label is defined in the same object file.
                 UnresolvedInfo *info;
                 info = calloc_or_die(sizeof(*info));
@@ -233,10 +239,6 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                 info->offset = address - start_address;
                 info->add = value.offset;
                 vec_push(unresolved, info);
-
-                LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info != NULL)
-                  target_address = label_info->address + value.offset;
               }
 
               if (target_address != 0) {
@@ -269,24 +271,20 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
             break;
           case BEQ: case BNE: case BLT: case BGE: case BLTU: case BGEU:
             if (inst->opr[2].type == DIRECT) {
-              bool comp = false;
               uint64_t target_address = 0;
               Value value = calc_expr(label_table, inst->opr[2].direct.expr);
               if (value.label != NULL) {
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info != NULL)
+                if (label_info != NULL && (label_info->flag & LF_DEFINED) && label_info->section == section)
                   target_address = label_info->address + value.offset;
-
-                int64_t offset = target_address - address;
-                comp = inst->opr[1].reg.no == 0 && is_rvc_reg(inst->opr[0].reg.no) &&
-                  (inst->op == BEQ || inst->op == BNE) &&
-                  offset < (1 << 8) && offset >= -(1 << 8);
+                else
+                  size_upgraded |= make_bxx_long(ir);  // Distance is unknown.
 
                 assert(inst->opr[1].type == REG);
                 // Put rela even if the label is defined in the same object file.
                 UnresolvedInfo *info;
                 info = calloc_or_die(sizeof(*info));
-                info->kind = comp ? UNRES_RISCV_RVC_BRANCH : UNRES_RISCV_BRANCH;
+                info->kind = (ir->code.flag & INST_LONG_OFFSET) ? UNRES_RISCV_BRANCH : UNRES_RISCV_RVC_BRANCH;
                 info->label = value.label;
                 info->src_section = section;
                 info->offset = address - start_address;
-- 
2.43.0


From 729ed70928ea1899883cae74ab59fd6b2367d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:31 +0000
Subject: [PATCH 051/102] fix: as aarch64: relocate branches to labels outside
 the section

---
 src/as/arch/aarch64/ir_asm_aarch64.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/as/arch/aarch64/ir_asm_aarch64.c b/src/as/arch/aarch64/ir_asm_aarch64.c
index be884f6..27e3519 100644
--- a/src/as/arch/aarch64/ir_asm_aarch64.c
+++ b/src/as/arch/aarch64/ir_asm_aarch64.c
@@ -193,16 +193,18 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               Value value = calc_expr(label_table, inst->opr[0].direct.expr.expr);
               if (value.label != NULL) {
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
-                  /*UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                  info->kind = UNRES_EXTERN;
+                if (label_info == NULL || !(label_info->flag & LF_DEFINED) ||
+                    label_info->section != section) {
+                  if (inst->op != B)
+                    error("Conditional branch to a label outside the section: %.*s", NAMES(value.label));
+                  UnresolvedInfo *info = malloc_or_die(sizeof(*info));
+                  info->kind = UNRES_CALL;
                   info->label = value.label;
                   info->src_section = section;
                   info->offset = address - start_address;
-                  info->add = value.offset - 4;
+                  info->add = value.offset;
                   vec_push(unresolved, info);
-                  break;*/
-                  assert(false);
+                  break;
                 } else {
                   value.offset += label_info->address;
                 }
-- 
2.43.0


From 27f7c7ac60d360c7b7b64c45499818a49ded8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:11 +0000
Subject: [PATCH 052/102] fix: as aarch64: refuse label references that have no
 relocation

---
 src/as/arch/aarch64/asm_code.c       | 11 +++++++++++
 src/as/arch/aarch64/ir_asm_aarch64.c |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index f45dfd7..594f257 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -177,6 +177,8 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
     imm = opr3->immediate;
   } else if (opr3->type == DIRECT && opr3->direct.expr.expr->kind == EX_FIXNUM) {
     imm = opr3->direct.expr.expr->fixnum;
+  } else if (inst->op != ADD_I || !(opr3->direct.expr.flag & LF_PAGEOFF)) {
+    return NULL;  // No relocation for it.
   }
 
   switch (inst->op) {
@@ -315,6 +317,11 @@ static inline int64_t get_indirect_offset(Operand *opr) {
   return expr != NULL && expr->kind == EX_FIXNUM ? expr->fixnum : 0;
 }
 
+static inline bool is_indirect_label(Operand *opr) {
+  Expr *expr = opr->indirect.offset.expr;
+  return expr != NULL && expr->kind != EX_FIXNUM;
+}
+
 // `option' and `S' fields of the register offset addressing.
 static bool get_register_offset(Operand *opr, uint32_t size, uint32_t *popt, uint32_t *pscaled) {
   static const uint32_t opts[] = {3, 6, 2, 3, 3};
@@ -345,6 +352,8 @@ static unsigned char *asm_ldrstr(Inst *inst, Code *code) {
   get_ldst_size(inst->op, sz, &size, &opc);
   if (opr2->type == INDIRECT) {
     assert(opr2->indirect.reg.size == REG64);
+    if (is_indirect_label(opr2) && inst->op != LDR && inst->op != STR)
+      return NULL;  // No relocation for it.
     int64_t offset = get_indirect_offset(opr2);
     uint32_t base = opr2->indirect.reg.no;
     if (opr2->indirect.prepost == 0 && is_scaled_uimm12(offset, size)) {
@@ -465,6 +474,8 @@ static unsigned char *asm_f_ldrstr(Inst *inst, Code *code) {
   get_ldst_size(inst->op, sz, &size, &opc);
   if (opr2->type == INDIRECT) {
     assert(opr2->indirect.reg.size == REG64);
+    if (is_indirect_label(opr2))
+      return NULL;  // No relocation for it.
     int64_t offset = get_indirect_offset(opr2);
     uint32_t base = opr2->indirect.reg.no;
     if (opr2->indirect.prepost == 0 && is_scaled_uimm12(offset, size)) {
diff --git a/src/as/arch/aarch64/ir_asm_aarch64.c b/src/as/arch/aarch64/ir_asm_aarch64.c
index 27e3519..17a17fc 100644
--- a/src/as/arch/aarch64/ir_asm_aarch64.c
+++ b/src/as/arch/aarch64/ir_asm_aarch64.c
@@ -142,7 +142,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                     break;
                 }
                 if (i >= ARRAY_SIZE(table)) {
-                  break;
+                  error("Illegal label reference: %.*s", NAMES(value.label));
                 }
 
                 UnresolvedInfo *info = malloc_or_die(sizeof(*info));
@@ -171,7 +171,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                     break;
                 }
                 if (i >= ARRAY_SIZE(table)) {
-                  break;
+                  error("Illegal label reference: %.*s", NAMES(value.label));
                 }
 
                 UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-- 
2.43.0


From 0a0c61d3e80881bb58757e53033b48899dc937e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:26 +0000
Subject: [PATCH 053/102] fix: as: refuse directives without a symbol name

---
 src/as/parse_asm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index b05e978..875c48e 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -243,6 +243,8 @@ const Name *unquote_label(const char *p, const char *q) {
 
 static const Name *parse_label(ParseInfo *info) {
   const char *start = info->p;
+  if (*start == '\0')
+    return NULL;
   const char *p = get_label_end(info);
   if (p == start)
     return NULL;
-- 
2.43.0


From 7c8517eea555f81243f45b13c6ee8980409a160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:46 +0000
Subject: [PATCH 054/102] fix: x64: print a negative constant address as a
 signed number

---
 src/cc/arch/x64/ir_x64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 257d166..286fa21 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -3,6 +3,7 @@
 #include "ir.h"
 
 #include <assert.h>
+#include <inttypes.h>
 #include <stdlib.h>  // malloc
 #include <string.h>
 
@@ -257,7 +258,7 @@ static void ei_load(IR *ir) {
   const char *src;
   if (ir->kind == IR_LOAD) {
     if (ir->opr1->flag & VRF_CONST) {
-      src = fmt("0x%x", ir->opr1->fixnum);
+      src = fmt("%" PRId64, ir->opr1->fixnum);
     } else {
       assert(!(ir->opr1->flag & VRF_SPILLED));
       src = INDIRECT(kReg64s[ir->opr1->phys], NULL, 1);
@@ -287,7 +288,7 @@ static void ei_store(IR *ir) {
   const char *target;
   if (ir->kind == IR_STORE) {
     if (ir->opr2->flag & VRF_CONST) {
-      target = fmt("0x%x", ir->opr2->fixnum);
+      target = fmt("%" PRId64, ir->opr2->fixnum);
     } else {
       assert(!(ir->opr2->flag & VRF_SPILLED));
       target = INDIRECT(kReg64s[ir->opr2->phys], NULL, 1);
-- 
2.43.0


From 1541f185f98d86a0c9b4021b70511ffe0f42fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:46 +0000
Subject: [PATCH 055/102] fix: x64: access a float at a constant address
 through a register

---
 src/cc/arch/x64/ir_x64.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 286fa21..8fe7dd2 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -1167,6 +1167,15 @@ void tweak_irs(FuncBackend *fnbe) {
           ir->opr2 = tmp;
         }
         break;
+      case IR_LOAD:
+        // movss/movsd with an absolute address is not available.
+        if ((ir->dst->flag & VRF_FLONUM) && (ir->opr1->flag & VRF_CONST))
+          insert_tmp_mov(&ir->opr1, irs, j++);
+        break;
+      case IR_STORE:
+        if ((ir->opr1->flag & VRF_FLONUM) && (ir->opr2->flag & VRF_CONST))
+          insert_tmp_mov(&ir->opr2, irs, j++);
+        break;
       case IR_CALL:
         if (ir->opr1 != NULL && (ir->opr1->flag & VRF_CONST)) {
           insert_tmp_mov(&ir->opr1, irs, j++);
-- 
2.43.0


From 1de2d3c7e7d537ecfafeb8ab090fde268a7f0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:46 +0000
Subject: [PATCH 056/102] fix: x64: clear the upper half before converting
 unsigned int to floating point

---
 src/cc/arch/x64/ir_x64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 8fe7dd2..2142296 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -684,6 +684,7 @@ static void ei_cast(IR *ir) {
         }
       } else if (pows < 3) {
         const char *s64 = kReg64s[ir->opr1->phys];
+        MOV(s, s);  // Clear upper 32bit.
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(s64, d); break;
         case SZ_DOUBLE:  CVTSI2SD(s64, d); break;
-- 
2.43.0


From b1a91bf6b9bdf289ab397d55b4df935c06b7b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:46 +0000
Subject: [PATCH 057/102] fix: x64: round correctly when converting unsigned
 long to floating point

---
 src/cc/arch/x64/ir_x64.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 2142296..2a09488 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -691,8 +691,8 @@ static void ei_cast(IR *ir) {
         default: assert(false); break;
         }
       } else {
-        // x64 support signed 64bit-signed-int to double only, so pass half value
-        // (precision is lost anyway).
+        // x64 support signed 64bit-signed-int to double only, so pass half value,
+        // keeping the lowest bit as a sticky bit to be rounded correctly.
         const Name *neglabel = alloc_label();
         const Name *skiplabel = alloc_label();
         TEST(s, s);
@@ -704,15 +704,20 @@ static void ei_cast(IR *ir) {
         }
         JMP(fmt_name(skiplabel));
         EMIT_LABEL(fmt_name(neglabel));
-        PUSH(RAX);  // Push %rax to avoid Break
-        MOV(s, RAX);
-        SHR(IM(1), RAX);
+        const char *tmp = ir->opr1->phys == GET_AREG_INDEX() ? RDI : RAX;
+        PUSH(tmp);
+        PUSH(s);
+        MOV(s, tmp);
+        AND(IM(1), tmp);
+        SHR(IM(1), s);
+        OR(s, tmp);
         switch (ir->dst->vsize) {
-        case SZ_FLOAT:   CVTSI2SS(RAX, d); ADDSS(d, d); break;
-        case SZ_DOUBLE:  CVTSI2SD(RAX, d); ADDSD(d, d); break;
+        case SZ_FLOAT:   CVTSI2SS(tmp, d); ADDSS(d, d); break;
+        case SZ_DOUBLE:  CVTSI2SD(tmp, d); ADDSD(d, d); break;
         default: assert(false); break;
         }
-        POP(RAX);  // Pop %rax
+        POP(s);
+        POP(tmp);
         EMIT_LABEL(fmt_name(skiplabel));
       }
     }
-- 
2.43.0


From b4c060e439c5e24fd6c642b722469570cda07e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 058/102] fix: x64: convert floating point numbers beyond the
 signed range to unsigned integers

---
 src/cc/arch/x64/ir_x64.c | 20 ++++++++++++++++++++
 src/cc/arch/x64/x64.h    |  1 +
 2 files changed, 21 insertions(+)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 2a09488..353e53b 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -727,11 +727,31 @@ static void ei_cast(IR *ir) {
     int powd = ir->dst->vsize;
     if (powd < 2)
       powd = 2;
+    if (ir->flag & IRF_UNSIGNED)
+      powd = 3;  // There are no unsigned conversions, so use wider one.
     switch (ir->opr1->vsize) {
     case SZ_FLOAT:   CVTTSS2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
     case SZ_DOUBLE:  CVTTSD2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
     default: assert(false); break;
     }
+    if ((ir->flag & IRF_UNSIGNED) && ir->dst->vsize >= VRegSize8) {
+      // 2^63 or above: the conversion results 0x8000000000000000, and the rest is taken from the mantissa.
+      const char *s = kFReg64s[ir->opr1->phys], *d = kReg64s[ir->dst->phys];
+      const char *tmp = ir->dst->phys == GET_AREG_INDEX() ? RDI : RAX;
+      const Name *skiplabel = alloc_label();
+      CMP(IM(1), d);
+      JNO(fmt_name(skiplabel));
+      PUSH(tmp);
+      PUSH(tmp);  // Make room.
+      switch (ir->opr1->vsize) {
+      case SZ_FLOAT:   MOVSS(s, INDIRECT(RSP, NULL, 1)); POP(tmp); SHL(IM(40), tmp); break;
+      case SZ_DOUBLE:  MOVSD(s, INDIRECT(RSP, NULL, 1)); POP(tmp); SHL(IM(11), tmp); break;
+      default: assert(false); break;
+      }
+      OR(tmp, d);
+      POP(tmp);
+      EMIT_LABEL(fmt_name(skiplabel));
+    }
   } else {
     // fix->fix
     assert(ir->dst->vsize != ir->opr1->vsize);
diff --git a/src/cc/arch/x64/x64.h b/src/cc/arch/x64/x64.h
index 108710b..1178dba 100644
--- a/src/cc/arch/x64/x64.h
+++ b/src/cc/arch/x64/x64.h
@@ -160,6 +160,7 @@
 #define JBE(o1)        EMIT_ASM("jbe", o1)
 #define JAE(o1)        EMIT_ASM("jae", o1)
 #define JP(o1)         EMIT_ASM("jp", o1)
+#define JNO(o1)        EMIT_ASM("jno", o1)
 #define JNP(o1)        EMIT_ASM("jnp", o1)
 #define JS(o1)         EMIT_ASM("js", o1)
 #define CALL(o1)       EMIT_ASM("call", o1)
-- 
2.43.0


From 12b2e14b4b78b12ad0ae4516b8c8e0a3608a8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 059/102] fix: riscv64: keep loaded unsigned int sign-extended
 in its register

---
 src/cc/arch/riscv64/ir_riscv64.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 65e527d..240d959 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -273,8 +273,7 @@ static void ei_load(IR *ir) {
       else                         LH(dst, src);
       break;
     case 2:
-      if (ir->flag & IRF_UNSIGNED) LWU(dst, src);
-      else                         LW(dst, src);
+      LW(dst, src);  // 32bit values are kept sign-extended, regardless of signedness.
       break;
     case 3:
       LD(dst, src);
-- 
2.43.0


From 4ecc7a8b5166148e67eae885069dd386310ed075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 060/102] fix: riscv64: multiply unsigned int in 32 bits

---
 src/cc/arch/riscv64/ir_riscv64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 240d959..c467ad5 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -398,7 +398,7 @@ static void ei_mul(IR *ir) {
     }
   } else {
     assert(!(ir->opr1->flag & VRF_CONST) && !(ir->opr2->flag & VRF_CONST));
-    if (ir->dst->vsize <= 2 && !(ir->flag & IRF_UNSIGNED)) {
+    if (ir->dst->vsize <= 2) {
       MULW(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
     } else {
       MUL(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
-- 
2.43.0


From 55f4b0390761dbfd37378352aab4600f7195d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 061/102] fix: riscv64: negate 32bit value in 32 bits

---
 src/cc/arch/riscv64/ir_riscv64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index c467ad5..2631cd6 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -531,7 +531,10 @@ static void ei_neg(IR *ir) {
     case SZ_DOUBLE:  FNEG_D(kFReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
     }
   } else {
-    NEG(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys]);
+    if (ir->dst->vsize <= 2)
+      SUBW(kReg64s[ir->dst->phys], ZERO, kReg64s[ir->opr1->phys]);
+    else
+      NEG(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys]);
   }
 }
 
-- 
2.43.0


From 3b23f5724a786330351cd5f70e4752e6394a3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 062/102] fix: riscv64: keep long narrowed to unsigned int
 sign-extended in its register

---
 src/cc/arch/riscv64/ir_riscv64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 2631cd6..9553bc0 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -630,7 +630,8 @@ static void ei_cast(IR *ir) {
     int pow = MIN(powd, pows);
     const char *dst = kReg64s[ir->dst->phys], *src = kReg64s[ir->opr1->phys];
 
-    if (ir->flag & IRF_UNSIGNED) {
+    // 32bit values are kept sign-extended, so zero extension is used only for widening.
+    if ((ir->flag & IRF_UNSIGNED) && (pow < 2 || powd > pow)) {
       switch (pow) {
       case 0:  ZEXT_B(dst, src); break;
       case 1:  ZEXT_H(dst, src); break;
-- 
2.43.0


From 0397bc0f5ef37ce4c4de4d45428a47309461e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 063/102] fix: riscv64: load unsigned int constants
 sign-extended

---
 src/cc/arch/riscv64/ir_riscv64.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 9553bc0..5bc1eb0 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -649,6 +649,12 @@ static void ei_cast(IR *ir) {
   }
 }
 
+// 32bit values are kept sign-extended, regardless of signedness.
+static int64_t const_value(VReg *vreg) {
+  assert(vreg->flag & VRF_CONST);
+  return vreg->vsize <= VRegSize4 ? (int32_t)vreg->fixnum : vreg->fixnum;
+}
+
 static void emit_mov(int dstphys, VReg *opr1) {
   if (opr1->flag & VRF_FLONUM) {
     assert(!(opr1->flag & VRF_CONST));
@@ -664,7 +670,7 @@ static void emit_mov(int dstphys, VReg *opr1) {
   } else {
     const char *dst = kReg64s[dstphys];
     if (opr1->flag & VRF_CONST) {
-      LI(dst, IM(opr1->fixnum));
+      LI(dst, IM(const_value(opr1)));
     } else {
       if (opr1->phys != dstphys) {
         MV(dst, kReg64s[opr1->phys]);
@@ -893,7 +899,7 @@ static void ei_pusharg(IR *ir) {
     // Assume parameter registers are arranged from index 0.
     const char *dst = kReg64s[ir->pusharg.index];
     if (ir->opr1->flag & VRF_CONST)
-      LI(dst, IM(ir->opr1->fixnum));
+      LI(dst, IM(const_value(ir->opr1)));
     else if (ir->pusharg.index != ir->opr1->phys)
       MV(dst, kReg64s[ir->opr1->phys]);
   }
-- 
2.43.0


From 37ca38bd6551a130208645e0f23eda99b1cce5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 064/102] fix: riscv64: use the right signedness when
 converting floating point numbers to 32bit or narrower integers

---
 src/cc/arch/riscv64/ir_riscv64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 5bc1eb0..a2152b9 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -594,14 +594,14 @@ static void ei_cast(IR *ir) {
       assert(!(ir->opr1->flag & VRF_CONST));
       if (ir->flag & IRF_UNSIGNED) {
         switch (ir->opr1->vsize) {
-        case SZ_FLOAT:   FCVT_W_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
-        case SZ_DOUBLE:  FCVT_W_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
+        case SZ_FLOAT:   FCVT_WU_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
+        case SZ_DOUBLE:  FCVT_WU_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
         default: assert(false); break;
         }
       } else {
         switch (ir->opr1->vsize) {
-        case SZ_FLOAT:   FCVT_WU_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
-        case SZ_DOUBLE:  FCVT_WU_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
+        case SZ_FLOAT:   FCVT_W_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
+        case SZ_DOUBLE:  FCVT_W_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
         default: assert(false); break;
         }
       }
-- 
2.43.0


From 720936d4917bfbfa4454978fe1bfcbad33e14107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 065/102] fix: riscv64: extend narrow integers before
 converting them to floating point

---
 src/cc/arch/riscv64/ir_riscv64.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index a2152b9..23b830d 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -562,6 +562,17 @@ static void ei_cast(IR *ir) {
       assert(0 <= pows && pows < 4);
 
       const char *src = kReg64s[ir->opr1->phys];
+      switch (pows) {  // The upper part of narrow values is undefined.
+      case 0:
+        if (ir->flag & IRF_UNSIGNED)  ZEXT_B(src, src);
+        else                          SEXT_B(src, src);
+        break;
+      case 1:
+        if (ir->flag & IRF_UNSIGNED)  ZEXT_H(src, src);
+        else                          SEXT_H(src, src);
+        break;
+      default: break;
+      }
       if (ir->opr1->vsize < VRegSize8) {
         switch (ir->dst->vsize) {
         case SZ_FLOAT:
-- 
2.43.0


From d24f91a02dd2c09e3d8ed9ee52f9c59c1d8ffe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 066/102] fix: riscv64: move the stack pointer by more than 12
 bits

---
 src/cc/arch/riscv64/ir_riscv64.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 23b830d..53358b0 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -949,10 +949,13 @@ static void ei_call(IR *ir) {
 static void ei_subsp(IR *ir) {
   if (ir->opr1->flag & VRF_CONST) {
     // assert(ir->opr1->fixnum % 16 == 0);
-    if (ir->opr1->fixnum > 0)
-      ADDI(SP, SP, IM(-ir->opr1->fixnum));
-    else if (ir->opr1->fixnum < 0)
-      ADDI(SP, SP, IM(-ir->opr1->fixnum));
+    if (is_im12(-ir->opr1->fixnum)) {
+      if (ir->opr1->fixnum != 0)
+        ADDI(SP, SP, IM(-ir->opr1->fixnum));
+    } else {
+      LI(kTmpReg, IM(-ir->opr1->fixnum));
+      ADD(SP, SP, kTmpReg);
+    }
   } else {
     SUB(SP, SP, kReg64s[ir->opr1->phys]);
   }
-- 
2.43.0


From a7fdb9472626a877fdf5d2fa4b506e45616defda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:04 +0000
Subject: [PATCH 067/102] fix: aarch64: load negative 64bit constants correctly
 for unsigned long

---
 src/cc/arch/aarch64/ir_aarch64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index 20f789e..a0c9c76 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -249,6 +249,7 @@ static inline bool is_im48(int64_t x) {
 }
 
 void mov_immediate(const char *dst, int64_t value, bool b64, bool is_unsigned) {
+  UNUSED(is_unsigned);
   // TODO: Investigate available immediate value range.
   // It looks the architecture can take more than 16-bit immediate.
 
@@ -257,7 +258,7 @@ void mov_immediate(const char *dst, int64_t value, bool b64, bool is_unsigned) {
   } else if (is_im16(value)) {
     MOV(dst, IM(value));
   } else {
-    int32_t l = !is_unsigned && value < 0
+    int32_t l = value < 0  // `MOV` fills the upper bits, so the sign has to be kept regardless of the type.
         ? (int16_t)value == 0 ? (int32_t)0xffff0000  // This bit patten can be represented in MOV.
                               : (int32_t)-((uint16_t)(-(int)value))
         : (int32_t)(uint16_t)value;
-- 
2.43.0


From 1731527d5acb01ad978d273f6df4c3de306733e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:04 +0000
Subject: [PATCH 068/102] fix: aarch64: extend narrow integers before
 converting them to floating point

---
 src/cc/arch/aarch64/ir_aarch64.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index a0c9c76..37247b6 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -682,6 +682,17 @@ static void ei_cast(IR *ir) {
       default: assert(false); break;
       }
       const char *src = kRegSizeTable[pows][ir->opr1->phys];
+      switch (pows) {  // The upper part of narrow values is undefined.
+      case 0:
+        if (ir->flag & IRF_UNSIGNED)  UXTB(src, src);
+        else                          SXTB(src, src);
+        break;
+      case 1:
+        if (ir->flag & IRF_UNSIGNED)  UXTH(src, src);
+        else                          SXTH(src, src);
+        break;
+      default: break;
+      }
       if (ir->flag & IRF_UNSIGNED)  UCVTF(dst, src);
       else                          SCVTF(dst, src);
     }
-- 
2.43.0


From b33ed3ba3dedd517a064d8d035aeacdbdd0b9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:04 +0000
Subject: [PATCH 069/102] fix: aarch64: SP cannot be the second source register
 of ADD

---
 src/cc/arch/aarch64/ir_aarch64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index 37247b6..a27f041 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -355,7 +355,7 @@ static void ei_sofs(IR *ir) {
     ADD(dst, SP, IM(ofs));
   } else {
     mov_immediate(dst, ofs, true, false);
-    ADD(dst, dst, SP);
+    ADD(dst, SP, dst);
   }
 }
 
-- 
2.43.0


From 40a92d5966321874d039a65a5d55d3bc07c386ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:04 +0000
Subject: [PATCH 070/102] fix: aarch64: move the stack pointer by more than 12
 bits

---
 src/cc/arch/aarch64/ir_aarch64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index a27f041..077da0f 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -948,7 +948,11 @@ static void ei_call(IR *ir) {
 static void ei_subsp(IR *ir) {
   if (ir->opr1->flag & VRF_CONST) {
     assert(ir->opr1->fixnum % 16 == 0);
-    if (ir->opr1->fixnum > 0)
+    if (!is_im13_addsubimm(ir->opr1->fixnum)) {
+      const char *tmp = kTmpRegTable[3];
+      mov_immediate(tmp, ir->opr1->fixnum, true, false);
+      SUB(SP, SP, tmp);
+    } else if (ir->opr1->fixnum > 0)
       SUB(SP, SP, IM(ir->opr1->fixnum));
     else if (ir->opr1->fixnum < 0)
       ADD(SP, SP, IM(-ir->opr1->fixnum));
-- 
2.43.0


From a2c8f779b02b75a43d29694410da41c47642b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:39 +0000
Subject: [PATCH 071/102] fix: convert integer constants by their own type,
 also to floating types

---
 src/cc/backend/codegen_expr.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 3849bcd..26d35fc 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -189,19 +189,17 @@ static VReg *gen_cast(Expr *expr) {
   size_t dst_size = type_size(dst_type);
   if (vreg->flag & VRF_CONST) {
     assert(!(vreg->flag & VRF_FLONUM));  // No const vreg for flonum.
-    Fixnum value = vreg->fixnum;
-    if (dst_size < (1U << vreg->vsize) && dst_size < sizeof(Fixnum)) {
-      // Assume that integer is represented in Two's complement
-      size_t bit = dst_size * TARGET_CHAR_BIT;
-      UFixnum mask = (-1UL) << bit;
-      if (!is_unsigned(dst_type) && (value & ((Fixnum)1 << (bit - 1))))    // signed && negative
-        value |= mask;
-      else
-        value &= ~mask;
+    bool src_unsigned = is_unsigned(src->type);
+    Fixnum value = wrap_value(vreg->fixnum, 1 << vreg->vsize, src_unsigned);
+#ifndef __NO_FLONUM
+    if (is_flonum(dst_type)) {
+      Flonum flonum = src_unsigned ? (Flonum)(UFixnum)value : (Flonum)value;
+      return gen_expr(new_expr_flolit(dst_type, src->token, flonum));
     }
+#endif
 
     enum VRegSize vsize = to_vsize(dst_type);
-    return new_const_vreg(value, vsize);
+    return new_const_vreg(wrap_value(value, dst_size, is_unsigned(dst_type)), vsize);
   }
 
   size_t src_size = 1U << vreg->vsize;
-- 
2.43.0


From 14c6e480549fb842c1f1a3b315fce5ecd18f0b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:09 +0000
Subject: [PATCH 072/102] fix: interpret integer constants by size and
 signedness in constant folding

---
 src/cc/backend/optimize.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index a6580df..20eece1 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -248,6 +248,10 @@ static int replace_register_in_bb(BB *bb, VReg *target, VReg *alternation, int s
   return first;
 }
 
+static int64_t const_value(VReg *vreg, bool is_unsigned) {
+  return wrap_value(vreg->fixnum, 1 << vreg->vsize, is_unsigned);
+}
+
 static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   assert(opr1->flag & VRF_CONST);
   assert(opr2->flag & VRF_CONST);
@@ -268,8 +272,9 @@ static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   } else
 #endif
   {
-    int64_t n1 = opr1->fixnum;
-    int64_t n2 = opr2->fixnum;
+    bool is_unsigned = (cond & COND_UNSIGNED) != 0;
+    int64_t n1 = const_value(opr1, is_unsigned);
+    int64_t n2 = const_value(opr2, is_unsigned);
     switch ((int)cond) {
     case COND_EQ | COND_UNSIGNED:  // Fallthrough
     case COND_EQ:  return n1 == n2;
@@ -355,13 +360,16 @@ static int64_t calc_const_expr(IR *ir) {
 
   int64_t value = 0;
   if (ir->flag & IRF_UNSIGNED) {
-    uint64_t opr1 = ir->opr1->fixnum;
-    uint64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    uint64_t opr1 = const_value(ir->opr1, true);
+    uint64_t opr2 = ir->opr2 != NULL ? const_value(ir->opr2, true) : 0;
     CALC_CONST(ir->kind);
   } else {
-    int64_t opr1 = ir->opr1->fixnum;
-    int64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
-    CALC_CONST(ir->kind);
+    int64_t opr1 = const_value(ir->opr1, false);
+    int64_t opr2 = ir->opr2 != NULL ? const_value(ir->opr2, false) : 0;
+    if (opr2 == -1 && (ir->kind == IR_DIV || ir->kind == IR_MOD))  // Avoid overflow.
+      value = ir->kind == IR_DIV ? (int64_t)(0 - (uint64_t)opr1) : 0;
+    else
+      CALC_CONST(ir->kind);
   }
 #undef CALC
 
@@ -444,7 +452,11 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       if (ir->dst->flag & VRF_FLONUM) {
         double value;
         if (!(ir->opr1->flag & VRF_FLONUM)) {
-          value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)ir->opr1->fixnum : (double)ir->opr1->fixnum;
+          int64_t fixnum = const_value(ir->opr1, ir->flag & IRF_UNSIGNED);
+          if (ir->dst->vsize == VRegSize4)
+            value = (ir->flag & IRF_UNSIGNED) ? (float)(uint64_t)fixnum : (float)fixnum;
+          else
+            value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)fixnum : (double)fixnum;
         } else {
           value = ir->opr1->flonum.value;
         }
@@ -463,9 +475,8 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
         } else
 #endif
         {
-          value = ir->opr1->fixnum;
-          if (ir->dst->vsize > ir->opr1->vsize)
-            value = wrap_value(value, 1 << ir->opr1->vsize, ir->flag & IRF_UNSIGNED);
+          value = const_value(ir->opr1, ir->flag & IRF_UNSIGNED);
+          value = wrap_value(value, 1 << ir->dst->vsize, ir->flag & IRF_UNSIGNED);
         }
         // Replace to MOV.
         ir->kind = IR_MOV;
-- 
2.43.0


From a7ff680d1c7e715bfc95e7bb9e73e3a37155c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:09 +0000
Subject: [PATCH 073/102] fix: round single precision constants to float

---
 src/cc/backend/regalloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/backend/regalloc.c b/src/cc/backend/regalloc.c
index 488762c..349543f 100644
--- a/src/cc/backend/regalloc.c
+++ b/src/cc/backend/regalloc.c
@@ -71,6 +71,8 @@ VReg *reg_alloc_spawn_const(RegAlloc *ra, int64_t value, enum VRegSize vsize) {
 
 #ifndef __NO_FLONUM
 VReg *reg_alloc_spawn_fconst(RegAlloc *ra, double value, enum VRegSize vsize) {
+  if (vsize == VRegSize4)
+    value = (float)value;
   union { double d; uint64_t q; } u1, u2;
   u1.d = value;
   for (int i = 0; i < ra->consts->len; ++i) {
-- 
2.43.0


From 6c63424941c8f43e10119948c0f83b919cbd1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 074/102] fix: round floating constants to the precision of
 their type

---
 src/cc/frontend/ast.c     | 3 ++-
 src/cc/frontend/fe_misc.c | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index d71075a..3eae1c2 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -100,7 +100,8 @@ Expr *new_expr_fixlit(Type *type, const Token *token, Fixnum fixnum) {
 Expr *new_expr_flolit(Type *type, const Token *token, Flonum flonum) {
   assert(type->kind == TY_FLONUM);
   Expr *expr = new_expr(EX_FLONUM, type, token);
-  expr->flonum = flonum;
+  // Round to the precision of the type.
+  expr->flonum = type->flonum.kind == FL_FLOAT ? (float)flonum : (double)flonum;
   return expr;
 }
 #endif
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b97f692..35d508a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -363,8 +363,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       assert(type->kind == TY_FLONUM);
-      sub->type = type;
-      return sub;
+      return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
         Flonum flonum = (sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned)
-- 
2.43.0


From c77b210a30b6a19e1ee7c3843c4fa1a360207112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 075/102] fix: convert floating constants above INT64_MAX to
 unsigned integers

---
 src/cc/frontend/fe_misc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 35d508a..003548b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -359,7 +359,9 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         if (is_bool(type))
           fixnum = sub->flonum != 0;
         else
-          fixnum = wrap_value(sub->flonum, type_size(type), type->fixnum.is_unsigned);
+          fixnum = wrap_value(sub->flonum >= (Flonum)INT64_MAX ? (Fixnum)(UFixnum)sub->flonum
+                                                               : (Fixnum)sub->flonum,
+                              type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       assert(type->kind == TY_FLONUM);
-- 
2.43.0


From d342bb0813ea1de420669d172ed279037c7dd92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 076/102] fix: apply the usual arithmetic conversions when
 adding constants

---
 src/cc/frontend/fe_misc.c | 47 +++++++++++----------------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 003548b..86469f3 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -926,12 +926,15 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
   assert(ltype != NULL);
   assert(rtype != NULL);
   if (is_number(ltype) && is_number(rtype)) {
+    cast_numbers(&lhs, &rhs, true);
+    type = lhs->type;
     if (is_const(lhs) && is_const(rhs)) {
 #ifndef __NO_FLONUM
-      if (is_flonum(lhs->type) || is_flonum(rhs->type)) {
-        Flonum lval = is_flonum(lhs->type) ? lhs->flonum : lhs->fixnum;
-        Flonum rval = is_flonum(rhs->type) ? rhs->flonum : rhs->fixnum;
-        Flonum value;
+      if (is_flonum(type)) {
+        // Evaluate in double, not in the wider host type, to avoid double rounding.
+        double lval = lhs->flonum;
+        double rval = rhs->flonum;
+        double value;
         switch (kind) {
         case EX_ADD:     value = lval + rval; break;
         case EX_SUB:     value = lval - rval; break;
@@ -940,30 +943,11 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
           value = -1;  // Dummy
           break;
         }
-        Type *type = lhs->type;
-        if (is_flonum(rhs->type))
-          type = rhs->type;
-        if (is_flonum(type)) {
-          return new_expr_flolit(type, lhs->token, value);
-        } else {
-          Fixnum fixnum = value;
-          return new_expr_fixlit(type, lhs->token, fixnum);
-        }
+        return new_expr_flolit(type, lhs->token, value);
       }
 #endif
-      enum FixnumKind lnt = ltype->fixnum.kind;
-      enum FixnumKind rnt = rtype->fixnum.kind;
-      if (lnt >= FX_ENUM) {
-        ltype = &tyInt;
-        lnt = FX_INT;
-      }
-      if (rnt >= FX_ENUM) {
-        rtype = &tyInt;
-        rnt = FX_INT;
-      }
-
-      Fixnum lval = lhs->fixnum;
-      Fixnum rval = rhs->fixnum;
+      UFixnum lval = lhs->fixnum;
+      UFixnum rval = rhs->fixnum;
       Fixnum value;
       switch (kind) {
       case EX_ADD: value = lval + rval; break;
@@ -973,15 +957,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
         value = -1;
         break;
       }
-      Type *type = lnt >= rnt ? ltype : rtype;
-      if (type->fixnum.kind < FX_INT)
-        type = &tyInt;
       return new_expr_fixlit(type, lhs->token,
                              wrap_value(value, type_size(type), type->fixnum.is_unsigned));
     }
-
-    cast_numbers(&lhs, &rhs, true);
-    type = lhs->type;
   } else if (ptr_or_array(ltype)) {
     if (is_fixnum(rtype->kind)) {
       type = ltype;
@@ -1013,8 +991,9 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
       if (is_const(lhs) && is_const(rhs)) {
         assert(lhs->kind == EX_FIXNUM);
         assert(rhs->kind == EX_FIXNUM);
-        return new_expr_fixlit(&tySize, tok,
-                               (lhs->fixnum - rhs->fixnum) / type_size(ltype->pa.ptrof));
+        return new_expr_fixlit(&tySSize, tok,
+                               (lhs->fixnum - rhs->fixnum) /
+                                   (Fixnum)type_size(ltype->pa.ptrof));
       }
       return new_expr_bop(EX_DIV, &tySSize, tok,
                           make_cast(&tySSize, tok,
-- 
2.43.0


From c5562226136f62b298c738348e7544af2bde8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 077/102] fix: evaluate floating constants in double

---
 src/cc/frontend/fe_misc.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 86469f3..29924f2 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -755,9 +755,10 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
 #ifndef __NO_FLONUM
         if (is_flonum(lhs->type)) {
           assert(is_flonum(rhs->type));
-          Flonum lval = lhs->flonum;
-          Flonum rval = rhs->flonum;
-          Flonum value;
+          // Evaluate in double, not in the wider host type, to avoid double rounding.
+          double lval = lhs->flonum;
+          double rval = rhs->flonum;
+          double value;
           switch (kind) {
           case EX_MUL:     value = lval * rval; break;
           case EX_DIV:     value = lval / rval; break;
@@ -766,15 +767,7 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
             value = -1;  // Dummy
             break;
           }
-          Type *type = lhs->type;
-          if (is_flonum(rhs->type))
-            type = rhs->type;
-          if (is_flonum(type)) {
-            return new_expr_flolit(type, lhs->token, value);
-          } else {
-            Fixnum fixnum = value;
-            return new_expr_fixlit(type, lhs->token, fixnum);
-          }
+          return new_expr_flolit(lhs->type, lhs->token, value);
         }
 #endif
 
-- 
2.43.0


From 3866461c510315c64bcefaeb572d1eb12acd1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 078/102] fix: do not crash on dividing the minimum integer by
 -1 in constants

---
 src/cc/backend/ir.c       | 4 ++++
 src/cc/frontend/fe_misc.c | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cc/backend/ir.c b/src/cc/backend/ir.c
index 907be7c..c44ab68 100644
--- a/src/cc/backend/ir.c
+++ b/src/cc/backend/ir.c
@@ -97,12 +97,16 @@ VReg *new_ir_bop(enum IrKind kind, VReg *opr1, VReg *opr2, enum VRegSize vsize,
         case IR_DIV:
           if (flag & IRF_UNSIGNED)
             value = (uint64_t)lval / (uint64_t)rval;
+          else if (rval == -1)  // Avoid overflow.
+            value = 0 - (uint64_t)lval;
           else
             value = lval / rval;
           break;
         case IR_MOD:
           if (flag & IRF_UNSIGNED)
             value = (uint64_t)lval % (uint64_t)rval;
+          else if (rval == -1)  // Avoid overflow.
+            value = 0;
           else
             value = lval % rval;
           break;
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 29924f2..a3f5adf 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -793,7 +793,10 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
         } else {
           Fixnum lval = lhs->fixnum;
           Fixnum rval = rhs->fixnum;
-          CALC(kind, lval, rval, value)
+          if (rval == -1 && (kind == EX_DIV || kind == EX_MOD))  // Avoid overflow.
+            value = kind == EX_DIV ? (Fixnum)(0 - (UFixnum)lval) : 0;
+          else
+            CALC(kind, lval, rval, value)
         }
 #undef CALC
         Type *type = lhs->type->fixnum.kind >= rhs->type->fixnum.kind ? lhs->type : rhs->type;
-- 
2.43.0


From 3c77510b36d6a2cd7943cd6c7efd9cd995a1d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 079/102] fix: interpret constant operands by the signedness of
 the operation

---
 src/cc/backend/ir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/ir.c b/src/cc/backend/ir.c
index c44ab68..e524af9 100644
--- a/src/cc/backend/ir.c
+++ b/src/cc/backend/ir.c
@@ -86,9 +86,9 @@ VReg *new_ir_bop(enum IrKind kind, VReg *opr1, VReg *opr2, enum VRegSize vsize,
     }
 
     if ((opr1->flag & (VRF_FLONUM | VRF_CONST)) == VRF_CONST) {
-      int64_t lval = opr1->fixnum;
+      int64_t lval = wrap_value(opr1->fixnum, 1 << opr1->vsize, (flag & IRF_UNSIGNED) != 0);
       if ((opr2->flag & (VRF_FLONUM | VRF_CONST)) == VRF_CONST) {
-        int64_t rval = opr2->fixnum;
+        int64_t rval = wrap_value(opr2->fixnum, 1 << opr2->vsize, (flag & IRF_UNSIGNED) != 0);
         int64_t value = 0;
         switch (kind) {
         case IR_ADD:     value = lval + rval; break;
-- 
2.43.0


From 6038f00b28f473e6845c2a50e2e7d51f747b40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 080/102] fix: do not fold a floating multiplication by zero

---
 src/cc/frontend/fe_misc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index a3f5adf..3d7974a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -811,8 +811,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum rval = rhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (rval == 0.0)
-              return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);  // 0.0
             if (rval == -1.0)
               return new_expr_unary(EX_NEG, lhs->type, lhs->token, lhs);  // -lhs
             // Fallthrough.
@@ -857,8 +855,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum lval = lhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (lval == 0.0)
-              return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0.0
             if (lval == 1.0)
               return rhs;  // no effect.
             if (lval == -1.0)
-- 
2.43.0


From 6030bd2ab816ea36151622f3ee9d0f604867d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 081/102] fix: examine the left operand when simplifying a
 constant left operand

---
 src/cc/frontend/fe_misc.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 3d7974a..bc96964 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -865,15 +865,13 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           break;
         }
 #endif
-        Fixnum lval = rhs->fixnum;
+        Fixnum lval = lhs->fixnum;
         switch (kind) {
         case EX_MUL:
           if (lval == 0)
             return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0
           if (lval == -1)
             return new_expr_unary(EX_NEG, rhs->type, rhs->token, rhs);  // -rhs
-          // Fallthrough.
-        case EX_DIV:
           if (lval == 1)
             return rhs;  // no effect.
           break;
-- 
2.43.0


From 3b70b4dbe4b8313b1abd2befbf99cbe6489a0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:59 +0000
Subject: [PATCH 082/102] fix: do not invert a floating comparison

---
 src/cc/frontend/fe_misc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index bc96964..56cd470 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1307,6 +1307,10 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
           p->kind = (EX_EQ + EX_NE) - p->kind;  // EQ <-> NE
         return p;
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
+#ifndef __NO_FLONUM
+        if (k == EX_EQ && is_flonum(p->bop.lhs->type))
+          break;  // Cannot invert, because both are false for NaN.
+#endif
         if (k == EX_EQ)
           p->kind = EX_LT + ((p->kind - EX_LT) ^ 2);  // LT <-> GE, LE <-> GT
         return p;
-- 
2.43.0


From 7a47aa30188f857b3d982e94fd44ddaaaeb84a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:38 +0000
Subject: [PATCH 083/102] fix: apply the usual arithmetic conversions to the
 conditional operator

---
 src/cc/frontend/fe_misc.c     | 38 +++++++++++++++++++----------------
 src/cc/frontend/parser_expr.c |  1 +
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 56cd470..a0114cd 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1512,6 +1512,24 @@ static Type *apply_ptr_qualifier(Type *type, Type *ptype) {
   return type;
 }
 
+// Usual arithmetic conversions.
+static Type *arithmetic_type(Type *ltype, Type *rtype) {
+  if (is_flonum(ltype) || is_flonum(rtype)) {
+    if (!is_flonum(ltype))
+      return rtype;
+    if (!is_flonum(rtype))
+      return ltype;
+    return ltype->flonum.kind >= rtype->flonum.kind ? ltype : rtype;
+  }
+  if (ltype->fixnum.kind < FX_INT || ltype->fixnum.kind >= FX_ENUM)
+    ltype = &tyInt;
+  if (rtype->fixnum.kind < FX_INT || rtype->fixnum.kind >= FX_ENUM)
+    rtype = &tyInt;
+  int l = (type_size(ltype) << 1) | (ltype->fixnum.is_unsigned ? 1 : 0);
+  int r = (type_size(rtype) << 1) | (rtype->fixnum.is_unsigned ? 1 : 0);
+  return l >= r ? ltype : rtype;
+}
+
 Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   Type *ttype = tval->type;
   Type *ftype = fval->type;
@@ -1519,6 +1537,9 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
   if (ttype->kind == TY_VOID || ftype->kind == TY_VOID)
     return &tyVoid;
 
+  if (is_number(ttype) && is_number(ftype))
+    return arithmetic_type(ttype, ftype);
+
   ttype = to_ptr_type(ttype);
   ftype = to_ptr_type(ftype);
 
@@ -1544,23 +1565,6 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
     }
   } else if (ftype->kind == TY_PTR) {
     return choose_ternary_result_type(fval, tval);  // Make ttype to pointer, and check again.
-  } else if (is_number(ttype) && is_number(ftype)) {
-    if (is_flonum(ttype)) {
-      // TODO: Choose lager one.
-      // if (is_flonum(ftype)) {
-      //   return ttype;
-      // }
-      return ttype;
-    } else if (is_flonum(ftype)) {
-      return ftype;
-    }
-    assert(is_fixnum(ttype->kind));
-    assert(is_fixnum(ftype->kind));
-    if (ttype->fixnum.kind >= FX_ENUM)
-      ttype = &tyInt;
-    if (ftype->fixnum.kind >= FX_ENUM)
-      ftype = &tyInt;
-    return ttype->fixnum.kind > ftype->fixnum.kind ? ttype : ftype;
   }
   return NULL;
 }
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 7e23cf1..6ed0b1d 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -2,6 +2,7 @@
 #include "parser.h"
 
 #include <assert.h>
+#include <limits.h>  // CHAR_BIT
 #include <stdbool.h>
 
 #include "ast.h"
-- 
2.43.0


From 76ed06f42f2dc93208188f12eab204a36ad26134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 084/102] fix: literals which need all 64 bits are long, not
 long long

---
 src/cc/frontend/parser_expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 6ed0b1d..85b4d85 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -285,10 +285,10 @@ static Expr *literal(Token *tok) {
         while (fx < FX_LLONG) {
           Type *type = get_fixnum_type(fx, u, 0);
           int bits = type_size(type) * TARGET_CHAR_BIT - (u ? 0 : 1);
-          if ((value <= (((UFixnum)1U << bits) - 1U)) &&
-              (u || (Fixnum)value >= -((Fixnum)1 << (bits - 1))))
+          UFixnum max = ~(UFixnum)0 >> (sizeof(UFixnum) * CHAR_BIT - bits);
+          if (value <= max)
             break;
-          if (!u && value <= ((UFixnum)1U << (bits + 1)) - 1U &&
+          if (!u && value <= max * 2 + 1 &&
               (tok->fixnum.flag & TKF_KIND_MASK) != 0) {
             u = true;
             break;
-- 
2.43.0


From 9f6e264025e61381805715d7f58363e1ebcf3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 085/102] fix: promote the operand of a shift assignment

---
 src/cc/frontend/fe_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index a0114cd..780f62a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1588,7 +1588,8 @@ static Expr *calc_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
       if (!is_fixnum(ltype->kind) || !is_fixnum(rtype->kind))
         parse_error(PE_FATAL, tok, "Cannot use `%.*s' except numbers.",
                     (int)(tok->end - tok->begin), tok->begin);
-      return new_expr_bop(kind, ltype, tok, lhs, rhs);
+      lhs = promote_to_int(lhs);
+      return new_expr_bop(kind, lhs->type, tok, lhs, rhs);
     }
   }
 }
-- 
2.43.0


From 7357107e537eeeae0d5ae7cabd8c0774aee372ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 086/102] fix: increment of a bit-field located above bit 31

---
 src/cc/frontend/fe_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 780f62a..9c693cb 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1131,7 +1131,7 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
   } else {
     Expr *tmp = extract_bitfield_value(
         new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, src,
-                     new_expr_fixlit(type, NULL, 1 << minfo->bitfield.position)),
+                     new_expr_fixlit(type, NULL, (Fixnum)1 << minfo->bitfield.position)),
         minfo);
     val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, tmp);
     after = val;
-- 
2.43.0


From 61471b2cbe9220ecbebc2fb7a07c8a8e3a67cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 087/102] fix: promote the controlling expression of switch

---
 src/cc/frontend/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 8430c04..00e6b3e 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -344,6 +344,8 @@ static Stmt *parse_switch(const Token *tok) {
   Expr *value = parse_expr();
   mark_var_used(value);
   not_void(value->type, value->token);
+  if (is_fixnum(value->type->kind))
+    value = promote_to_int(value);
   consume(TK_RPAR, "`)' expected");
 
   Stmt *stmt = new_stmt_switch(tok, value);
-- 
2.43.0


From 322fabae416aea11cfff3806d5a4a188121cd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 088/102] fix: sort case values by the signedness of the
 controlling expression

---
 src/cc/backend/codegen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 5e26fe7..81b05b4 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -391,8 +391,12 @@ static int compare_cases(const void *pa, const void *pb) {
     return 1;
   if (cb->case_.value == NULL)
     return -1;
-  Fixnum d = ca->case_.value->fixnum - cb->case_.value->fixnum;
-  return d > 0 ? 1 : d < 0 ? -1 : 0;
+  Fixnum va = ca->case_.value->fixnum;
+  Fixnum vb = cb->case_.value->fixnum;
+  if (va == vb)
+    return 0;
+  bool less = is_unsigned(ca->case_.value->type) ? (UFixnum)va < (UFixnum)vb : va < vb;
+  return less ? -1 : 1;
 }
 
 static void gen_switch_cond_table_jump(Stmt *swtch, VReg *vreg, Stmt **cases, int len, int cond_flag) {
-- 
2.43.0


From e4e8378ad19ece77d4cff08526adb0b8aa20a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 089/102] fix: wcc: encode the step of a pointer increment as a
 signed number

---
 src/wcc/gen_wasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 10efbb4..60be45a 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -760,7 +760,7 @@ static void gen_incdec(Expr *expr, bool needval) {
         int i1 = wtype == WT_I32 ? 0 : 1;
         int i2 = IS_DEC(expr) ? 2 : 0;
         ADD_CODE(CONST_OP[i1]);
-        ADD_ULEB128(addend);
+        ADD_LEB128(addend);
         ADD_CODE(ADDSUB_OP[i1 | i2]);
 
         if (type_size(type) < type_size(&tyInt))
-- 
2.43.0


From d4b95802224a6dae2b6b5d2f67a5062ba14a4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 090/102] fix: increment and decrement of _Bool

---
 src/cc/backend/codegen_expr.c | 5 ++++-
 src/wcc/gen_wasm.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 26d35fc..17c2258 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -694,7 +694,10 @@ static VReg *gen_expr_incdec(Expr *expr) {
       is_flonum(target->type) ? gen_flonum(new_expr_flolit(target->type, NULL, 1)) :
 #endif
       new_const_vreg(expr->type->kind == TY_PTR ? type_size(expr->type->pa.ptrof) : 1, vsize);
-  VReg *after = new_ir_bop(kOpAddSub[IS_DEC(expr)], val, addend, vsize, flag);
+  enum IrKind op = !is_bool(expr->type) ? kOpAddSub[IS_DEC(expr)]
+                   : IS_DEC(expr)       ? IR_BITXOR   // Decrement toggles.
+                                        : IR_BITOR;  // Increment makes 1.
+  VReg *after = new_ir_bop(op, val, addend, vsize, flag);
   if (varinfo != NULL)  new_ir_mov(varinfo->local.vreg, after, flag);
   else                  new_ir_store(lval, after, flag);
   return before != NULL ? before : after;
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 60be45a..c4ea160 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -761,7 +761,10 @@ static void gen_incdec(Expr *expr, bool needval) {
         int i2 = IS_DEC(expr) ? 2 : 0;
         ADD_CODE(CONST_OP[i1]);
         ADD_LEB128(addend);
-        ADD_CODE(ADDSUB_OP[i1 | i2]);
+        if (is_bool(type))  // Increment makes 1, decrement toggles.
+          ADD_CODE(IS_DEC(expr) ? OP_I32_XOR : OP_I32_OR);
+        else
+          ADD_CODE(ADDSUB_OP[i1 | i2]);
 
         if (type_size(type) < type_size(&tyInt))
           gen_cast_to(target->type, &tyInt);
-- 
2.43.0


From c4189f94ae334355e962cc68bb1ed20b9ad65d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:20 +0000
Subject: [PATCH 091/102] fix: Initialize a floating-point global from an
 unsigned constant above LONG_MAX correctly

---
 src/cc/frontend/initializer.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c2260f3..60e0019 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -635,10 +635,7 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
     if (init->kind == IK_SINGLE) {
       switch (init->single->kind) {
       case EX_FIXNUM:
-        {
-          Fixnum fixnum = init->single->fixnum;
-          init->single = new_expr_flolit(type, init->single->token, fixnum);
-        }
+        init->single = make_cast(type, init->single->token, init->single, false);
         // Fallthrough
       case EX_FLONUM:
         return init;
-- 
2.43.0


From 4ba693587c3b1073fb5c394068803af202b2fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:27 +0000
Subject: [PATCH 092/102] fix: A character constant has the type int

---
 src/cc/frontend/parser_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 85b4d85..72de95f 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -304,7 +304,9 @@ static Expr *literal(Token *tok) {
         }
       }
       Type *type = get_fixnum_type(fx, u, 0);
-      return new_expr_fixlit(type, tok, tok->fixnum.value);
+      Expr *literal = new_expr_fixlit(type, tok, tok->fixnum.value);
+      // A character constant has the type int.
+      return (flag & TKF_CHAR) ? promote_to_int(literal) : literal;
     }
 #ifndef __NO_FLONUM
   case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
-- 
2.43.0


From 83da4cc8344380df38ed782458e2321b20154efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 093/102] fix: riscv64: extend char and short arguments and
 results as the ABI requires

---
 src/cc/arch/riscv64/ir_riscv64.c | 26 ++++++++++++++++++++------
 src/cc/backend/codegen_expr.c    |  5 ++---
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 53358b0..58cd271 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -694,9 +694,27 @@ static void ei_mov(IR *ir) {
   emit_mov(ir->dst->phys, ir->opr1);
 }
 
+// Arguments and results must be extended according to their type.
+static void emit_mov_extended(int dstphys, VReg *opr1, int flag) {
+  if ((opr1->flag & (VRF_FLONUM | VRF_CONST)) || opr1->vsize >= VRegSize4) {
+    emit_mov(dstphys, opr1);
+    return;
+  }
+
+  const char *dst = kReg64s[dstphys];
+  const char *src = kReg64s[opr1->phys];
+  if (opr1->vsize == VRegSize1) {
+    if (flag & IRF_UNSIGNED)  ZEXT_B(dst, src);
+    else                      SEXT_B(dst, src);
+  } else {
+    if (flag & IRF_UNSIGNED)  ZEXT_H(dst, src);
+    else                      SEXT_H(dst, src);
+  }
+}
+
 static void ei_result(IR *ir) {
   int dstphys = (ir->opr1->flag & VRF_FLONUM) ? GET_FA0_INDEX() : GET_A0_INDEX();
-  emit_mov(dstphys, ir->opr1);
+  emit_mov_extended(dstphys, ir->opr1, ir->flag);
 }
 
 static void ei_cond(IR *ir) {
@@ -908,11 +926,7 @@ static void ei_pusharg(IR *ir) {
     }
   } else {
     // Assume parameter registers are arranged from index 0.
-    const char *dst = kReg64s[ir->pusharg.index];
-    if (ir->opr1->flag & VRF_CONST)
-      LI(dst, IM(const_value(ir->opr1)));
-    else if (ir->pusharg.index != ir->opr1->phys)
-      MV(dst, kReg64s[ir->opr1->phys]);
+    emit_mov_extended(ir->pusharg.index, ir->opr1, ir->flag);
   }
 }
 
diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 17c2258..085de7f 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -446,9 +446,8 @@ static VReg *gen_funcall(Expr *expr) {
           int index = reg_arg_count - iregarg + arg_start;
           assert(index < MAX_REG_ARGS);
           IR *ir = new_ir_pusharg(vreg, index);
-#if !VAARG_FP_AS_GP
-          UNUSED(ir);
-#else
+          ir->flag = is_unsigned(arg->type) ? IRF_UNSIGNED : 0;
+#if VAARG_FP_AS_GP
           if (p->fp_as_gp)
             ir->pusharg.fp_as_gp = true;
 #endif
-- 
2.43.0


From 910685bacd1b632642971802eb834d2a793e64df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 094/102] fix: riscv64: save fs8 when it is used

---
 src/cc/arch/riscv64/ir_riscv64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 58cd271..e9bd4c4 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -45,7 +45,7 @@ const char *kFReg64s[PHYSICAL_FREG_MAX] = {
 #define GET_FA0_INDEX()   0
 
 #define CALLEE_SAVE_FREG_COUNT  ((int)ARRAY_SIZE(kCalleeSaveFRegs))
-static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19};
+static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};
 
 #define CALLER_SAVE_FREG_COUNT  ((int)ARRAY_SIZE(kCallerSaveFRegs))
 static const int kCallerSaveFRegs[] = {20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31};
@@ -80,7 +80,7 @@ static int enum_callee_save_regs(unsigned long bit, int n, const int *indices, c
   int count = 0;
   for (int i = 0; i < n; ++i) {
     int ireg = indices[i];
-    if (bit & (1 << ireg))
+    if (bit & (1UL << ireg))
       saves[count++] = regs[ireg];
   }
   return count;
-- 
2.43.0


From 3cb8129503e7065f36dcd3a5db0845ea6c3a9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 095/102] fix: riscv64: do not break s1, which the callee must
 preserve

---
 src/cc/arch/riscv64/arch_config.h |  2 +-
 src/cc/arch/riscv64/ir_riscv64.c  | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cc/arch/riscv64/arch_config.h b/src/cc/arch/riscv64/arch_config.h
index 5429d93..116e7c9 100644
--- a/src/cc/arch/riscv64/arch_config.h
+++ b/src/cc/arch/riscv64/arch_config.h
@@ -10,4 +10,4 @@
 #define PHYSICAL_FREG_TEMPORARY  (8)
 #define PHYSICAL_FREG_MAX        (PHYSICAL_FREG_TEMPORARY + 24)
 
-#define GET_FPREG_INDEX()  18
+#define GET_FPREG_INDEX()  19
diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index e9bd4c4..b251d91 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -17,21 +17,21 @@
 
 const char *kReg64s[PHYSICAL_REG_MAX] = {
   A0, A1, A2, A3, A4, A5, A6, A7,                         // Temporary
-  S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, FP,           // Callee save
-  T0, T1, T2, T3, T4, T5, T6};                            // Caller save
+  S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, FP,       // Callee save
+  T0, T1, T2, T3, T4, T5};                                // Caller save
 
 #define GET_A0_INDEX()   0
 
 #define CALLEE_SAVE_REG_COUNT  ((int)ARRAY_SIZE(kCalleeSaveRegs))
-static const int kCalleeSaveRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18};
+static const int kCalleeSaveRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};
 
 #define CALLER_SAVE_REG_COUNT  ((int)ARRAY_SIZE(kCallerSaveRegs))
-static const int kCallerSaveRegs[] = {19, 20, 21, 22, 23, 24, 25};
+static const int kCallerSaveRegs[] = {20, 21, 22, 23, 24, 25};
 
 const int ArchRegParamMapping[] = {0, 1, 2, 3, 4, 5, 6, 7};
 
-// Break s1 in store, mod and tjmp
-static const char *kTmpReg = S1;
+// Break t6 in store, mod and tjmp
+static const char *kTmpReg = T6;
 
 #define SZ_FLOAT   VRegSize4
 #define SZ_DOUBLE  VRegSize8
-- 
2.43.0


From 49b9cc58b790aaf0b5e18c978b43878ebcfb4c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 096/102] fix: riscv64: extend constant char and short
 arguments and results, too

---
 src/cc/arch/riscv64/ir_riscv64.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index b251d91..602ea87 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -696,12 +696,17 @@ static void ei_mov(IR *ir) {
 
 // Arguments and results must be extended according to their type.
 static void emit_mov_extended(int dstphys, VReg *opr1, int flag) {
-  if ((opr1->flag & (VRF_FLONUM | VRF_CONST)) || opr1->vsize >= VRegSize4) {
+  if ((opr1->flag & VRF_FLONUM) || opr1->vsize >= VRegSize4) {
     emit_mov(dstphys, opr1);
     return;
   }
 
   const char *dst = kReg64s[dstphys];
+  if (opr1->flag & VRF_CONST) {
+    LI(dst, IM(wrap_value(opr1->fixnum, 1 << opr1->vsize, flag & IRF_UNSIGNED)));
+    return;
+  }
+
   const char *src = kReg64s[opr1->phys];
   if (opr1->vsize == VRegSize1) {
     if (flag & IRF_UNSIGNED)  ZEXT_B(dst, src);
-- 
2.43.0


From c29befd490ec26338f9e9b3c747ac1d82f08218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:17 +0000
Subject: [PATCH 097/102] fix: the value of an assignment to a bit-field is the
 value of the field

---
 src/cc/frontend/fe_misc.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 9c693cb..715047d 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1077,7 +1077,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
 }
 
 Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInfo *minfo) {
-  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), val)
+  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), (*ptr >> bitpos) & mask)
 
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned, 0);
 
@@ -1092,9 +1092,11 @@ Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInf
 
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
   Expr *assign = assign_bitfield_member(tok, dst, dst, val, minfo);
-  return new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
-                      new_expr_bop(EX_COMMA, vtype, tok, val_assign,
-                                   new_expr_bop(EX_COMMA, vtype, tok, assign, val)));
+  // The value is the one which the field has after the assignment.
+  Expr *result = extract_bitfield_value(dst, minfo);
+  return new_expr_bop(EX_COMMA, result->type, tok, ptr_assign,
+                      new_expr_bop(EX_COMMA, result->type, tok, val_assign,
+                                   new_expr_bop(EX_COMMA, result->type, tok, assign, result)));
 }
 
 static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, const Token *tok,
@@ -1613,10 +1615,10 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
   Expr *tmp = extract_bitfield_value(src, minfo);
-  tmp = calc_assign_with(tok, tmp, rhs);
+  tmp = make_cast(minfo->type, tok, calc_assign_with(tok, tmp, rhs), false);
   Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
 
-  Type *vtype = rhs->type;
+  Type *vtype = minfo->type;
   return new_expr_bop(EX_COMMA, vtype, tok,
                       new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                                    new_expr_bop(EX_COMMA, vtype, tok, src_assign, store)),
-- 
2.43.0


From c5e50c2bf11ce1180e78ded76c6f69f4c0499d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:26 +0000
Subject: [PATCH 098/102] fix: mask of a 64-bit wide bit-field

---
 src/cc/frontend/cc_misc.c | 3 ++-
 src/cc/frontend/fe_misc.c | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index f0be4f0..1f4f35b 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -86,7 +86,8 @@ static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initial
       continue;  // 0
     assert(mem_init->kind == IK_SINGLE && mem_init->single->kind == EX_FIXNUM);
 
-    Fixnum mask = (1LL << member->bitfield.width) - 1;
+    Fixnum mask = member->bitfield.width < (int)sizeof(Fixnum) * TARGET_CHAR_BIT
+                      ? (Fixnum)(((UFixnum)1 << member->bitfield.width) - 1) : (Fixnum)-1;
     x |= (mem_init->single->fixnum & mask) << member->bitfield.position;
   }
   *pi = i - 1;
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 715047d..33e66d7 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1033,6 +1033,11 @@ void not_bitfield_member(Expr *expr) {
   }
 }
 
+static UFixnum bitfield_mask(const MemberInfo *minfo) {
+  size_t width = minfo->bitfield.width;
+  return width < sizeof(UFixnum) * TARGET_CHAR_BIT ? ((UFixnum)1 << width) - 1 : ~(UFixnum)0;
+}
+
 Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
   Expr *tmp = src;
   Type *type = src->type;
@@ -1041,7 +1046,7 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
     if (minfo->bitfield.position > 0)
       tmp = new_expr_bop(EX_RSHIFT, tmp->type, tmp->token, tmp,
                          new_expr_fixlit(tmp->type, tmp->token, minfo->bitfield.position));
-    UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+    UFixnum mask = bitfield_mask(minfo);
     tmp = new_expr_bop(EX_BITAND, tmp->type, tmp->token, tmp,
                        new_expr_fixlit(tmp->type, tmp->token, mask));
   } else {
@@ -1063,7 +1068,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
   Type *type = dst->type;
   Type *vtype = val->type;
 
-  UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+  UFixnum mask = bitfield_mask(minfo);
   Expr *val_masked = new_expr_bop(EX_BITAND, vtype, tok, val, new_expr_fixlit(vtype, tok, mask));
   val_masked = make_cast(type, tok, val_masked, false);
   if (minfo->bitfield.position > 0)
-- 
2.43.0


From 5362fb3a04ecfafb409c620c527c444fbb28ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:40 +0000
Subject: [PATCH 099/102] fix: bool and enum bit-fields: keep them in an int

---
 src/cc/frontend/fe_misc.c | 11 +++++++++--
 src/cc/frontend/type.c    | 11 +++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 33e66d7..561e223 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1133,14 +1133,21 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
   Expr *val_assign, *after;
   if (post) {
     Expr *before = extract_bitfield_value(src, minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, before);
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, before);
     after = new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, before, new_expr_fixlit(type, NULL, 1));
+    if (is_bool(vtype))
+      after = make_cast(vtype, tok, after, false);
+  } else if (is_bool(vtype)) {
+    Expr *before = extract_bitfield_value(src, minfo);
+    Expr *tmp = new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, before, new_expr_fixlit(type, NULL, 1));
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, make_cast(vtype, tok, tmp, false));
+    after = val;
   } else {
     Expr *tmp = extract_bitfield_value(
         new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, src,
                      new_expr_fixlit(type, NULL, (Fixnum)1 << minfo->bitfield.position)),
         minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, tmp);
+    val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, tmp);
     after = val;
   }
   Expr *store = assign_bitfield_member(tok, dst, src, after, minfo);
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 912887f..28ad78e 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -52,6 +52,11 @@ void set_fixnum_size(enum FixnumKind kind, size_t size, int align) {
 }
 
 #ifndef __NO_BITFIELD
+static enum FixnumKind bitfield_base_kind(const Type *type) {
+  enum FixnumKind kind = type->fixnum.kind;
+  return kind <= FX_LLONG ? kind : FX_INT;  // enum and bool are held in int.
+}
+
 static size_t calc_bitfield_size(StructInfo *sinfo, int *pi, size_t size, size_t *palign) {
   // Detect initial fixnum kind.
   int i = *pi;
@@ -65,9 +70,7 @@ static size_t calc_bitfield_size(StructInfo *sinfo, int *pi, size_t size, size_t
     size_t align = align_size(minfo->type);
     size_t remain = size % align;
     if (remain == 0) {
-      kind = minfo->type->fixnum.kind;
-      if (kind == FX_ENUM)
-        kind = FX_INT;
+      kind = bitfield_base_kind(minfo->type);
     } else {
       // Detect LSB.
       ssize_t s;
@@ -166,7 +169,7 @@ static void calc_struct_size(StructInfo *sinfo) {
 #ifndef __NO_BITFIELD
       if (minfo->bitfield.width > 0) {
         minfo->bitfield.position = 0;
-        minfo->bitfield.base_kind = minfo->type->fixnum.kind;
+        minfo->bitfield.base_kind = bitfield_base_kind(minfo->type);
       } else
 #endif
       {
-- 
2.43.0


From 7320e32b1db10a947d31152c6f4f019dd1b68a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:19 +0000
Subject: [PATCH 100/102] fix: riscv64: store parameters to their own place in
 the frame

---
 src/cc/arch/riscv64/emit_riscv64.c | 32 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/cc/arch/riscv64/emit_riscv64.c b/src/cc/arch/riscv64/emit_riscv64.c
index 0bfd16d..d436bbf 100644
--- a/src/cc/arch/riscv64/emit_riscv64.c
+++ b/src/cc/arch/riscv64/emit_riscv64.c
@@ -59,6 +59,18 @@ static int put_vaarg_params(Function *func) {
 #endif
 }
 
+static const char *spilled_param_operand(VReg *vreg) {
+  int offset = vreg->frame.offset;
+  assert(offset != 0);
+  if (offset >= -2048)
+    return IMMEDIATE_OFFSET(offset, FP);
+
+  // T6 is not allocated to any virtual register, so no parameter is broken.
+  LI(T6, IM(offset));
+  ADD(T6, T6, FP);
+  return IMMEDIATE_OFFSET0(T6);
+}
+
 static void move_params_to_assigned(Function *func) {
   extern const char *kReg64s[];
   extern const int ArchRegParamMapping[];
@@ -83,16 +95,7 @@ static void move_params_to_assigned(Function *func) {
     assert(IS_POWER_OF_2(size) && pow < 4);
     const char *src = kReg64s[ArchRegParamMapping[p->index]];
     if (vreg->flag & VRF_SPILLED) {
-      int offset = vreg->frame.offset;
-      assert(offset != 0);
-      const char *dst;
-      if (offset >= -2048) {
-        dst = IMMEDIATE_OFFSET(offset, FP);
-      } else {
-        LI(T0, IM(offset));
-        ADD(T0, T0, FP);
-        dst = IMMEDIATE_OFFSET0(T0);
-      }
+      const char *dst = spilled_param_operand(vreg);
       switch (pow) {
       case 0:  SB(src, dst); break;
       case 1:  SH(src, dst); break;
@@ -110,10 +113,11 @@ static void move_params_to_assigned(Function *func) {
     VReg *vreg = p->vreg;
     const char *src = kFRegParam64s[p->index];
     if (vreg->flag & VRF_SPILLED) {
-      int offset = vreg->frame.offset;
-      assert(offset != 0);
-      assert(offset != 0);
-      FSD(src, IMMEDIATE_OFFSET(offset, FP));
+      const char *dst = spilled_param_operand(vreg);
+      if (p->type->flonum.kind >= FL_DOUBLE)
+        FSD(src, dst);
+      else
+        FSW(src, dst);
     } else {
       if (p->index != vreg->phys) {
         const char *dst = kFReg64s[vreg->phys];
-- 
2.43.0


From a3f78ffc10402fedb971ba3571a429d56055d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:19 +0000
Subject: [PATCH 101/102] fix: aarch64: store parameters far from the frame
 pointer

---
 src/cc/arch/aarch64/emit_aarch64.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/cc/arch/aarch64/emit_aarch64.c b/src/cc/arch/aarch64/emit_aarch64.c
index a7173be..c982d37 100644
--- a/src/cc/arch/aarch64/emit_aarch64.c
+++ b/src/cc/arch/aarch64/emit_aarch64.c
@@ -75,6 +75,17 @@ static bool is_asm(Stmt *stmt) {
   return stmt->kind == ST_ASM;
 }
 
+static const char *spilled_param_operand(VReg *vreg) {
+  int offset = vreg->frame.offset;
+  assert(offset != 0);
+  if (offset >= -256)
+    return IMMEDIATE_OFFSET(FP, offset);
+
+  // X17 is not allocated to any virtual register, so no parameter is broken.
+  mov_immediate(X17, offset, true, false);
+  return REG_OFFSET(FP, X17, NULL);
+}
+
 static void move_params_to_assigned(Function *func) {
   extern const char **kRegSizeTable[];
   extern const int ArchRegParamMapping[];
@@ -100,15 +111,7 @@ static void move_params_to_assigned(Function *func) {
     assert(IS_POWER_OF_2(size) && pow < 4);
     const char *src = kRegSizeTable[pow][ArchRegParamMapping[p->index]];
     if (vreg->flag & VRF_SPILLED) {
-      int offset = vreg->frame.offset;
-      assert(offset != 0);
-      const char *dst;
-      if (offset >= -256) {
-        dst = IMMEDIATE_OFFSET(FP, offset);
-      } else {
-        mov_immediate(X9, offset, true, false);  // x9 broken.
-        dst = REG_OFFSET(FP, X9, NULL);
-      }
+      const char *dst = spilled_param_operand(vreg);
       switch (pow) {
       case 0:          STRB(src, dst); break;
       case 1:          STRH(src, dst); break;
@@ -125,9 +128,7 @@ static void move_params_to_assigned(Function *func) {
     VReg *vreg = p->vreg;
     const char *src = (p->type->flonum.kind >= FL_DOUBLE ? kFRegParam64s : kFRegParam32s)[p->index];
     if (vreg->flag & VRF_SPILLED) {
-      int offset = vreg->frame.offset;
-      assert(offset != 0);
-      STR(src, IMMEDIATE_OFFSET(FP, offset));
+      STR(src, spilled_param_operand(vreg));
     } else {
       if (p->index != vreg->phys) {
         const char *dst = (p->type->flonum.kind >= FL_DOUBLE ? kFReg64s : kFReg32s)[vreg->phys];
-- 
2.43.0


From 3b46ac8fd6a8ddee1287057ba9739a99ebb29242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:39 +0000
Subject: [PATCH 102/102] fix: ssa: moves for phis take place simultaneously

---
 src/cc/backend/ssa.c | 159 +++++++++++++++----------------------------
 1 file changed, 54 insertions(+), 105 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index d95b630..d76a971 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -287,83 +287,10 @@ static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
   return at;
 }
 
-static Vector *extract_cyclic_dependency(int ifb, Vector *phis) {
-  // Check destination register dependency.
-  int n = phis->len;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    assert(ifb < phi->params->len);
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Move i before j: shift intermediate elements.
-    int d = i - j;
-    memmove(&phis->data[j + 1], &phis->data[j], d * sizeof(*phis->data));
-    phis->data[j] = phi;
-    ++i;
-  }
-
-  // Detect cyclic dependency.
-  Vector *cyclics = NULL;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Destination is dependent on predecessor: Pick up cyclic dependency to `cyclic`.
-    Vector *cyclic = new_vector();
-    for (;;) {
-      Phi *phi2 = phis->data[j];
-      vec_push(cyclic, phi2);
-      phis->data[j] = NULL;
-      if (j >= i)
-        break;
-
-      VReg *src2 = phi2->params->data[ifb];
-      while (++j < i) {
-        Phi *phi3 = phis->data[j];
-        if (phi3->dst == src2)
-          break;
-      }
-    }
-    assert(cyclic->len >= 2);
-
-    if (cyclics == NULL)
-      cyclics = new_vector();
-    vec_push(cyclics, cyclic);
-
-    // Eliminate them from phis.
-    for (int k = 0; k < n; ++k) {
-      if (phis->data[k] == NULL) {
-        phis->data[k] = phis->data[--n];
-        phis->data[n] = NULL;
-      }
-    }
-    for (; n > 0 && phis->data[n - 1] == NULL; --n)
-      ;
-    phis->len = n;  // Truncate (Recovered in later).
-  }
-  return cyclics;
-}
-
+// Put moves for phis: all of them take place simultaneously.
 static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
-  Vector *cyclics = extract_cyclic_dependency(ifb, phis);
+  if (phis->len <= 0)
+    return;
 
   // Detect insertion point.
   BB *from = bb->from_bbs->data[ifb];
@@ -375,43 +302,65 @@ static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
       --pos;
   }
 
-  // Put non-cyclic phis.
-  for (int iphi = 0; iphi < phis->len; ++iphi) {
-    Phi *phi = phis->data[iphi];
-    VReg *src_vreg = phi->params->data[ifb];
-    IR *mov = new_ir_mov(phi->dst, src_vreg, 0);
-    vec_insert(from->irs, pos++, mov);
+  // Pending moves: sources, NULL for finished one.
+  int n = phis->len;
+  int rest = 0;
+  VReg **srcs = calloc_or_die(sizeof(*srcs) * n);
+  for (int i = 0; i < n; ++i) {
+    Phi *phi = phis->data[i];
+    assert(ifb < phi->params->len);
+    VReg *src = phi->params->data[ifb];
+    if (src != phi->dst) {
+      srcs[i] = src;
+      ++rest;
+    }
   }
 
-  if (cyclics != NULL) {
-    Vector **vreg_table = ra->vreg_table;
-    for (int i = 0; i < cyclics->len; ++i) {
-      Vector *cyclic = cyclics->data[i];
-      assert(cyclic->len > 0);
-      Phi *first = cyclic->data[0];
-
-      // Allocate temporary vreg.
-      assert(first->dst->original != first->dst);  // phi's destination must not be an original virtual register.
-      VReg *original = first->dst->original;
-      Vector *vt = vreg_table[original->virt];
-      VReg *tmp = reg_alloc_with_original(ra, original);
-      vec_push(vt, tmp);
-
-      for (int j = 0; j < cyclic->len; ++j) {
-        Phi *phi = cyclic->data[j];
-        VReg *src_vreg = phi->params->data[ifb];
-        IR *mov = new_ir_mov(j == 0 ? tmp : phi->dst, src_vreg, 0);
-        vec_insert(from->irs, pos++, mov);
-        vec_push(phis, phi);  // Restore phi.
+  while (rest > 0) {
+    bool progress = false;
+    for (int i = 0; i < n; ++i) {
+      if (srcs[i] == NULL)
+        continue;
+      // The destination must not be needed by other pending moves.
+      Phi *phi = phis->data[i];
+      bool needed = false;
+      for (int j = 0; j < n; ++j) {
+        if (srcs[j] == phi->dst) {
+          needed = true;
+          break;
+        }
       }
+      if (needed)
+        continue;
 
-      IR *mov = new_ir_mov(first->dst, tmp, 0);
+      IR *mov = new_ir_mov(phi->dst, srcs[i], 0);
       vec_insert(from->irs, pos++, mov);
+      srcs[i] = NULL;
+      --rest;
+      progress = true;
+    }
+    if (progress)
+      continue;
 
-      free_vector(cyclic);
+    // Only cyclic dependencies are left: Evacuate one of destinations to break a cycle.
+    int i;
+    for (i = 0; srcs[i] == NULL; ++i)
+      ;
+    Phi *phi = phis->data[i];
+    assert(phi->dst->original != phi->dst);  // phi's destination must not be an original virtual register.
+    VReg *original = phi->dst->original;
+    VReg *tmp = reg_alloc_with_original(ra, original);
+    Vector **vreg_table = ra->vreg_table;
+    vec_push(vreg_table[original->virt], tmp);
+
+    IR *mov = new_ir_mov(tmp, phi->dst, 0);
+    vec_insert(from->irs, pos++, mov);
+    for (int j = 0; j < n; ++j) {
+      if (srcs[j] == phi->dst)
+        srcs[j] = tmp;
     }
-    free_vector(cyclics);
   }
+  free(srcs);
 }
 
 //
-- 
2.43.0

