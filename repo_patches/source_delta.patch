From 4b4c39dda163af2a1d60a99aa0dd150c079892f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 01/18] fix: ARM branch with neither successor adjacent jumps
 to the taken block

A detached conditional branch skipped over the jump to the else block and
fell through, assuming that the then block always comes next. With a 'break'
inside 'do ... while' neither successor is next in the emitted order.
---
 src/arm-codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index c6c020e..da67975 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -268,7 +268,7 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
     case OP_branch:
         emit(__teq(rn));
         if (ph2_ir->is_branch_detached) {
-            emit(__b(__NE, 8));
+            emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
             emit(__b(__AL, ph2_ir->else_bb->elf_offset - elf_code_idx));
         } else
             emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
-- 
2.43.0


From 4f2a9bb485c5cc09654dc6564d9154534f49f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 02/18] fix: ARM division emulation of a negative value by
 itself

When dividend and divisor live in the same register, the sign of the divisor
was taken after the register had been made absolute, so x / x was -1 for x < 0.
---
 src/arm-codegen.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index da67975..62984ea 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -333,23 +333,26 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         /* div/mod emulation */
         /* Preserve the values of the dividend and divisor */
         emit(__stmdb(__AL, 1, __sp, (1 << rn) | (1 << rm)));
-        /* Obtain absolute values of the dividend and divisor */
-        emit(__srl_amt(__AL, 0, arith_rs, __r8, rn, 31));
-        emit(__add_r(__AL, rn, rn, __r8));
-        emit(__eor_r(__AL, rn, rn, __r8));
-        emit(__srl_amt(__AL, 0, arith_rs, __r9, rm, 31));
-        emit(__add_r(__AL, rm, rm, __r9));
-        emit(__eor_r(__AL, rm, rm, __r9));
+        /* Remember the sign of the result before the operands are modified: the
+         * dividend and the divisor may live in the same register.
+         */
         if (ph2_ir->op == OP_div)
-            emit(__eor_r(__AL, __r10, __r8, __r9));
+            emit(__eor_r(__AL, __r10, rn, rm));
         else {
             /* If the requested operation is modulo, the result will be stored
              * in __r9. The sign of the divisor is irrelevant for determining
              * the result's sign.
              */
             interm = __r9;
-            emit(__mov_r(__AL, __r10, __r8));
+            emit(__mov_r(__AL, __r10, rn));
         }
+        /* Obtain absolute values of the dividend and divisor */
+        emit(__srl_amt(__AL, 0, arith_rs, __r8, rn, 31));
+        emit(__add_r(__AL, rn, rn, __r8));
+        emit(__eor_r(__AL, rn, rn, __r8));
+        emit(__srl_amt(__AL, 0, arith_rs, __r9, rm, 31));
+        emit(__add_r(__AL, rm, rm, __r9));
+        emit(__eor_r(__AL, rm, rm, __r9));
         /* Unsigned integer division */
         emit(__zero(__r8));
         emit(__mov_i(__AL, __r9, 1));
@@ -381,7 +384,7 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         emit(__mov_r(__AL, rd, interm));
         /* Handle the correct sign for the quotient or remainder */
         emit(__cmp_i(__AL, __r10, 0));
-        emit(__rsb_i(__NE, rd, 0, rd));
+        emit(__rsb_i(__LT, rd, 0, rd));
         return;
     case OP_lshift:
         emit(__sll(__AL, rd, rn, rm));
-- 
2.43.0


From 04458deb0e4bbf46c5e64677f771d331bad26990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:25 +0000
Subject: [PATCH 03/18] fix: ARM move to itself is emitted although no space is
 reserved for it

---
 src/arm-codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index 62984ea..768309f 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -225,7 +225,9 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
             emit(__add_i(__AL, rd, interm, ph2_ir->src0));
         return;
     case OP_assign:
-        emit(__mov_r(__AL, rd, rn));
+        /* a move to itself takes no space, see update_elf_offset() */
+        if (rd != rn)
+            emit(__mov_r(__AL, rd, rn));
         return;
     case OP_load:
     case OP_global_load:
-- 
2.43.0


From d8eb549484ff798739a27e07d4657dd944fae0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 04/18] fix: shift operators had no precedence

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index cfa0100..96fefa5 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -90,6 +90,9 @@ int get_operator_prio(opcode_t op)
     case OP_gt:
     case OP_geq:
         return 10;
+    case OP_lshift:
+    case OP_rshift:
+        return 11;
     case OP_add:
     case OP_sub:
         return 12;
-- 
2.43.0


From 60756dfad9cc10714b6f5a81bee59c8c9425ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 05/18] fix: remainder and division in global initializers

-7 % 4 gave 1; a zero divisor crashed the compiler.
---
 src/parser.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 96fefa5..b7c5136 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2105,7 +2105,6 @@ int read_primary_constant()
 int eval_expression_imm(opcode_t op, int op1, int op2)
 {
     /* return immediate result */
-    int tmp = op2;
     int res = 0;
     switch (op) {
     case OP_add:
@@ -2118,17 +2117,14 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
         res = op1 * op2;
         break;
     case OP_div:
-        res = op1 / op2;
+        if (op2 == 0)
+            error("Division by zero in constant expression");
+        res = op2 == -1 ? 0 - op1 : op1 / op2;
         break;
     case OP_mod:
-        /* TODO: provide arithmetic & operation instead of '&=' */
-        /* TODO: do optimization for local expression */
-        tmp &= (tmp - 1);
-        if ((op2 != 0) && (tmp == 0)) {
-            res = op1;
-            res &= (op2 - 1);
-        } else
-            res = op1 % op2;
+        if (op2 == 0)
+            error("Division by zero in constant expression");
+        res = op2 == -1 ? 0 : op1 % op2;
         break;
     case OP_lshift:
         res = op1 << op2;
-- 
2.43.0


From 6c11b26d40f557ef08418703a848b06994617d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 06/18] fix: folding a division by a constant zero crashed the
 compiler

---
 src/ssa.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 0eccec4..0520197 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1350,10 +1350,14 @@ bool eval_const_arithmetic(insn_t *insn)
         res = l * r;
         break;
     case OP_div:
-        res = l / r;
+        if (!r)
+            return false;
+        res = r == -1 ? 0 - l : l / r;
         break;
     case OP_mod:
-        res = l % r;
+        if (!r)
+            return false;
+        res = r == -1 ? 0 : l % r;
         break;
     default:
         return false;
-- 
2.43.0


From 03c59e371b99eeb1f7be0fac48800d0494b7f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 07/18] fix: operators after a lower-precedence one were lost
 in #if expressions

#if A == 1 || A == 2 evaluated as A == 1; remainder was missing and a zero
divisor crashed the compiler.
---
 src/parser.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index b7c5136..658e781 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -220,6 +220,11 @@ int read_constant_expr_operand()
     return -1;
 }
 
+/* operator read by an inner read_constant_infix_expr() which has to be applied
+ * by one of its callers
+ */
+opcode_t pending_operator;
+
 int read_constant_infix_expr(int precedence)
 {
     int lhs, rhs;
@@ -250,10 +255,14 @@ int read_constant_infix_expr(int precedence)
     }
 
     while (true) {
-        op = get_operator();
+        op = pending_operator;
+        pending_operator = OP_generic;
+        if (op == OP_generic)
+            op = get_operator();
         current_precedence = get_operator_prio(op);
 
         if (current_precedence == 0 || current_precedence <= precedence) {
+            pending_operator = op;
             break;
         }
 
@@ -270,7 +279,14 @@ int read_constant_infix_expr(int precedence)
             lhs *= rhs;
             break;
         case OP_div:
-            lhs /= rhs;
+            if (rhs == 0)
+                error("Division by zero in constant expression");
+            lhs = rhs == -1 ? 0 - lhs : lhs / rhs;
+            break;
+        case OP_mod:
+            if (rhs == 0)
+                error("Division by zero in constant expression");
+            lhs = rhs == -1 ? 0 : lhs % rhs;
             break;
         case OP_bit_and:
             lhs &= rhs;
@@ -314,8 +330,6 @@ int read_constant_infix_expr(int precedence)
         default:
             error("Unexpected infix token while evaluating constant");
         }
-
-        op = get_operator();
     }
 
     return lhs;
@@ -323,6 +337,7 @@ int read_constant_infix_expr(int precedence)
 
 int read_constant_expr()
 {
+    pending_operator = OP_generic;
     return read_constant_infix_expr(0);
 }
 
-- 
2.43.0


From 98b6cc19ece1cf0a098bccc550bf426a87578266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 08/18] fix: CSE of loads ignored intervening stores and other
 uses of the address

t = q[k]; q[k] = 60; t += q[k]; reused the old value, and q[k] += 1 after a
read of q[k] lost its address.
---
 src/ssa.c | 70 ++++++++++++++-----------------------------------------
 1 file changed, 17 insertions(+), 53 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 0520197..09f4fff 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1219,7 +1219,7 @@ void ssa_build(int dump_ir)
 
 /* Common Subexpression Elimination (CSE) */
 /* TODO: release detached insns node */
-bool cse(insn_t *insn, basic_block_t *bb)
+bool cse(insn_t *insn)
 {
     if (insn->opcode != OP_read)
         return false;
@@ -1236,61 +1236,25 @@ bool cse(insn_t *insn, basic_block_t *bb)
     if (base->is_global || idx->is_global)
         return false;
 
-    use_chain_t *rs1_delete_user = NULL;
-    use_chain_t *rs2_delete_user = NULL;
-    for (use_chain_t *user = base->users_head; user; user = user->next) {
-        insn_t *i = user->insn;
-
-        /* Delete the use chain nodes found in the last loop */
-        if (rs1_delete_user) {
-            use_chain_delete(rs1_delete_user, rs1_delete_user->insn->rs1);
-            rs1_delete_user = NULL;
-        }
-        if (rs2_delete_user) {
-            use_chain_delete(rs2_delete_user, rs2_delete_user->insn->rs2);
-            rs2_delete_user = NULL;
-        }
-        if (i == prev)
-            continue;
-        if (i->opcode != OP_add)
-            continue;
-        if (!i->next)
-            continue;
-        if (i->next->opcode != OP_read)
+    /* Later loads from the same address in this block yield the same value
+     * until the memory may have changed. The address computations left without
+     * a use are removed by DCE.
+     */
+    for (insn_t *i = insn->next; i; i = i->next) {
+        if (i->opcode == OP_write || i->opcode == OP_call ||
+            i->opcode == OP_indirect || (i->rd && i->rd->is_global))
+            break;
+        if (i->opcode != OP_read || i->sz != insn->sz)
             continue;
-        if (i->rs1 != base || i->rs2 != idx)
+
+        insn_t *addr = i->prev;
+        if (addr->opcode != OP_add || addr->rd != i->rs1)
             continue;
-        basic_block_t *i_bb = i->belong_to;
-        bool check_dom = 0;
-        /* Check if the instructions are under the same dominate tree */
-        for (;; i_bb = i_bb->idom) {
-            if (i_bb == bb) {
-                check_dom = true;
-                break;
-            }
-            if (i_bb == i_bb->idom)
-                break;
-        }
-        if (!check_dom)
+        if (addr->rs1 != base || addr->rs2 != idx)
             continue;
 
-        i->next->opcode = OP_assign;
-        i->next->rs1 = def;
-        if (i->prev) {
-            i->prev->next = i->next;
-            i->next->prev = i->prev;
-        } else {
-            i->belong_to->insn_list.head = i->next;
-            i->next->prev = NULL;
-        }
-        i->next->opcode = OP_assign;
-        i->next->rs1 = def;
-        /* Prepare information for deleting use chain nodes */
-        rs1_delete_user = user;
-        for (rs2_delete_user = i->rs2->users_head;
-             rs2_delete_user->insn != rs1_delete_user->insn;
-             rs2_delete_user = rs2_delete_user->next)
-            ;
+        i->opcode = OP_assign;
+        i->rs1 = def;
     }
     return true;
 }
@@ -1546,7 +1510,7 @@ void optimize()
                 /* record the instruction assigned value to rd */
                 if (insn->rd)
                     insn->rd->last_assign = insn;
-                if (cse(insn, bb))
+                if (cse(insn))
                     continue;
                 if (const_folding(insn))
                     continue;
-- 
2.43.0


From 87fc9fab4482e61ce4cdc4dba20fad63b7dfd13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 09/18] fix: register allocator evicted the first operand to
 load the second

With all registers holding live locals, the farthest-used one was spilled even
if it was the other operand of the same operation, which then read the wrong
value.
---
 src/reg-alloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 5c7d80d..2b02cba 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -128,8 +128,10 @@ int prepare_operand(basic_block_t *bb, var_t *var, int operand_0)
     }
 
     /* spill farthest local */
-    int spilled = 0;
+    int spilled = operand_0 == 0 ? 1 : 0;
     for (i = 0; i < REG_CNT; i++) {
+        if (i == operand_0)
+            continue;
         if (!REGS[i].var)
             continue;
         if (REGS[i].var->consumed > REGS[spilled].var->consumed)
-- 
2.43.0


From 1c373bb03599ad267a67e397529b69ee1d929b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 10/18] fix: constants were propagated through variables whose
 address is taken

int a = 3; int *p = &a; p[0] = 5; int b = a; gave b == 3.
---
 src/ssa.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ssa.c b/src/ssa.c
index 09f4fff..442090f 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1259,6 +1259,16 @@ bool cse(insn_t *insn)
     return true;
 }
 
+/* A variable whose address is taken may be changed by a store through it. */
+bool is_address_taken(var_t *var)
+{
+    for (use_chain_t *user = var->users_head; user; user = user->next) {
+        if (user->insn->opcode == OP_address_of)
+            return true;
+    }
+    return false;
+}
+
 bool mark_const(insn_t *insn)
 {
     if (insn->opcode == OP_load_constant) {
@@ -1282,6 +1292,9 @@ bool mark_const(insn_t *insn)
             return false;
     }
 
+    if (is_address_taken(insn->rs1))
+        return false;
+
     insn->opcode = OP_load_constant;
     insn->rd->is_const = true;
     insn->rd->init_val = insn->rs1->init_val;
@@ -1299,6 +1312,8 @@ bool eval_const_arithmetic(insn_t *insn)
         return false;
     if (!insn->rs2->is_const)
         return false;
+    if (is_address_taken(insn->rs1) || is_address_taken(insn->rs2))
+        return false;
 
     int res;
     int l = insn->rs1->init_val, r = insn->rs2->init_val;
-- 
2.43.0


From 2bc9c8988425032a837cfdeb7f961143eafd96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 11/18] fix: operator tokens were formed across white space

a - -1 was read as a-- 1 and a / *p as the start of a comment.
---
 src/lexer.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 7b3cadb..450d031 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -227,7 +227,7 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (next_char == '/') {
-        read_char(true);
+        read_char(false);
 
         /* C-style comments */
         if (next_char == '*') {
@@ -261,6 +261,7 @@ token_t lex_token_internal(bool aliasing)
             return T_divideeq;
         }
 
+        skip_whitespace();
         return T_divide;
     }
 
@@ -302,13 +303,14 @@ token_t lex_token_internal(bool aliasing)
         return T_comma;
     }
     if (next_char == '^') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_xoreq;
         }
 
+        skip_whitespace();
         return T_bit_xor;
     }
     if (next_char == '~') {
@@ -379,13 +381,14 @@ token_t lex_token_internal(bool aliasing)
         return T_char;
     }
     if (next_char == '*') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_asteriskeq;
         }
 
+        skip_whitespace();
         return T_asterisk;
     }
     if (next_char == '&') {
@@ -421,26 +424,28 @@ token_t lex_token_internal(bool aliasing)
             return T_le;
         }
         if (next_char == '<') {
-            read_char(true);
+            read_char(false);
 
             if (next_char == '=') {
                 read_char(true);
                 return T_lshifteq;
             }
 
+            skip_whitespace();
             return T_lshift;
         }
         skip_whitespace();
         return T_lt;
     }
     if (next_char == '%') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_modeq;
         }
 
+        skip_whitespace();
         return T_mod;
     }
     if (next_char == '>') {
@@ -450,13 +455,14 @@ token_t lex_token_internal(bool aliasing)
             return T_ge;
         }
         if (next_char == '>') {
-            read_char(true);
+            read_char(false);
 
             if (next_char == '=') {
                 read_char(true);
                 return T_rshifteq;
             }
 
+            skip_whitespace();
             return T_rshift;
         }
         skip_whitespace();
@@ -485,7 +491,7 @@ token_t lex_token_internal(bool aliasing)
         return T_dot;
     }
     if (next_char == '-') {
-        read_char(true);
+        read_char(false);
         if (next_char == '>') {
             read_char(true);
             return T_arrow;
-- 
2.43.0


From 5801db7705e8a951ebc21cf7274904c716daf44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 12/18] fix: a comment ending in **/ was not recognised as
 closed

---
 src/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.c b/src/lexer.c
index 450d031..c16437b 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -234,7 +234,7 @@ token_t lex_token_internal(bool aliasing)
             /* in a comment, skip until end */
             do {
                 read_char(false);
-                if (next_char == '*') {
+                while (next_char == '*') {
                     read_char(false);
                     if (next_char == '/') {
                         read_char(true);
-- 
2.43.0


From 99c1d09210de6e8222f83153d2d9618b09aeaba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 13/18] fix: escape sequences after an escaped backslash,
 unterminated strings

"\\\\n" became a newline, "\\\\" did not end; long or unterminated strings
overflowed the token buffer.
---
 src/lexer.c | 69 +++++++++++++++++++++--------------------------------
 1 file changed, 27 insertions(+), 42 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index c16437b..dd55aa0 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -186,6 +186,24 @@ char peek_char(int offset)
     return SOURCE->elements[SOURCE->size + offset];
 }
 
+/* Value of the escape sequence that consists of a backslash and the given
+ * character.
+ */
+char unescape_char(char c)
+{
+    if (c == 'n')
+        return '\n';
+    if (c == 'r')
+        return '\r';
+    if (c == 't')
+        return '\t';
+    if (c == '0')
+        return '\0';
+    if (c != '\'' && c != '"' && c != '\\')
+        error("Unknown escape sequence");
+    return c;
+}
+
 /* Lex next token and returns its token type. Parameter 'aliasing' is used for
  * disable preprocessor aliasing on identifier tokens.
  */
@@ -319,33 +337,16 @@ token_t lex_token_internal(bool aliasing)
     }
     if (next_char == '"') {
         int i = 0;
-        int special = 0;
-
-        while ((read_char(false) != '"') || special) {
-            if ((i > 0) && (token_str[i - 1] == '\\')) {
-                if (next_char == 'n')
-                    token_str[i - 1] = '\n';
-                else if (next_char == '"')
-                    token_str[i - 1] = '"';
-                else if (next_char == 'r')
-                    token_str[i - 1] = '\r';
-                else if (next_char == '\'')
-                    token_str[i - 1] = '\'';
-                else if (next_char == 't')
-                    token_str[i - 1] = '\t';
-                else if (next_char == '\\')
-                    token_str[i - 1] = '\\';
-                else if (next_char == '0')
-                    token_str[i - 1] = '\0';
-                else
-                    abort();
-            } else {
-                token_str[i++] = next_char;
-            }
+
+        while (read_char(false) != '"') {
+            if (!next_char)
+                error("Unenclosed string literal");
+            if (i >= MAX_TOKEN_LEN - 1)
+                error("String literal is too long");
             if (next_char == '\\')
-                special = 1;
+                token_str[i++] = unescape_char(read_char(false));
             else
-                special = 0;
+                token_str[i++] = next_char;
         }
         token_str[i] = 0;
         read_char(true);
@@ -354,23 +355,7 @@ token_t lex_token_internal(bool aliasing)
     if (next_char == '\'') {
         read_char(false);
         if (next_char == '\\') {
-            read_char(false);
-            if (next_char == 'n')
-                token_str[0] = '\n';
-            else if (next_char == 'r')
-                token_str[0] = '\r';
-            else if (next_char == '\'')
-                token_str[0] = '\'';
-            else if (next_char == '"')
-                token_str[0] = '"';
-            else if (next_char == 't')
-                token_str[0] = '\t';
-            else if (next_char == '\\')
-                token_str[0] = '\\';
-            else if (next_char == '0')
-                token_str[0] = '\0';
-            else
-                abort();
+            token_str[0] = unescape_char(read_char(false));
         } else {
             token_str[0] = next_char;
         }
-- 
2.43.0


From a849cec67e26bd027dadf7f162356530afec1a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 14/18] fix: overlong identifiers and numbers overflowed
 fixed-size buffers

Even a valid 10-character constant overflowed in array sizes and global
initializers.
---
 src/lexer.c  |  6 ++++++
 src/parser.c | 12 ++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index dd55aa0..4dae7f7 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -216,6 +216,8 @@ token_t lex_token_internal(bool aliasing)
         int i = 0;
 
         do {
+            if (i >= MAX_VAR_LEN - 1)
+                error("Identifier is too long");
             token_str[i++] = next_char;
         } while (is_alnum(read_char(false)));
         token_str[i] = 0;
@@ -286,6 +288,8 @@ token_t lex_token_internal(bool aliasing)
     if (is_digit(next_char)) {
         int i = 0;
         do {
+            if (i >= MAX_VAR_LEN - 1)
+                error("Numeric constant is too long");
             token_str[i++] = next_char;
         } while (is_hex(read_char(false)));
         token_str[i] = 0;
@@ -531,6 +535,8 @@ token_t lex_token_internal(bool aliasing)
         char *alias;
         int i = 0;
         do {
+            if (i >= MAX_VAR_LEN - 1)
+                error("Identifier is too long");
             token_str[i++] = next_char;
         } while (is_alnum(read_char(false)));
         token_str[i] = 0;
diff --git a/src/parser.c b/src/parser.c
index 658e781..f29396a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -407,7 +407,10 @@ bool read_preproc_directive()
         if (lex_peek(T_numeric, value)) {
             lex_expect(T_numeric);
             add_alias(alias, value);
-        } else if (lex_peek(T_string, value)) {
+        } else if (lex_peek(T_string, NULL)) {
+            if (strlen(token_str) >= MAX_VAR_LEN)
+                error("Macro value is too long");
+            strcpy(value, token_str);
             lex_expect(T_string);
             add_alias(alias, value);
         } else if (lex_peek(T_identifier, value)) {
@@ -453,7 +456,8 @@ bool read_preproc_directive()
 
         do {
             error_diagnostic[i++] = next_char;
-        } while (read_char(false) != '\n');
+        } while (read_char(false) != '\n' && next_char &&
+                 i < MAX_LINE_LEN - 1);
         error_diagnostic[i] = 0;
 
         error(error_diagnostic);
@@ -569,7 +573,7 @@ void read_inner_var_decl(var_t *vd, int anon, int is_param)
             }
         }
         if (lex_accept(T_open_square)) {
-            char buffer[10];
+            char buffer[MAX_ID_LEN];
 
             /* array with size */
             if (lex_peek(T_numeric, buffer)) {
@@ -2098,7 +2102,7 @@ int read_primary_constant()
 {
     /* return signed constant */
     int isneg = 0, res;
-    char buffer[10];
+    char buffer[MAX_ID_LEN];
     if (lex_accept(T_minus))
         isneg = 1;
     if (lex_accept(T_open_bracket)) {
-- 
2.43.0


From 3d198cee57dd3c02b7185c3a200bde0750d825df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 15/18] fix: adding to an array element was taken for pointer
 arithmetic

---
 src/parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index f29396a..bd22785 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1263,6 +1263,8 @@ void read_lvalue(lvalue_t *lvalue,
     var_t *vd;
     bool is_address_got = false;
     bool is_member = false;
+    /* pointer and array levels not yet resolved by a subscript */
+    int ptr_level = var->is_ptr + (var->array_size > 0 ? 1 : 0);
 
     /* already peeked and have the variable */
     lex_expect(T_identifier);
@@ -1342,6 +1344,7 @@ void read_lvalue(lvalue_t *lvalue,
                      ph1_ir->src1, 0, NULL);
 
             lex_expect(T_close_square);
+            ptr_level--;
             is_address_got = true;
             is_member = true;
             lvalue->is_reference = true;
@@ -1385,6 +1388,7 @@ void read_lvalue(lvalue_t *lvalue,
             /* change type currently pointed to */
             var = find_member(token, lvalue->type);
             lvalue->type = find_type(var->type_name, 0);
+            ptr_level = var->is_ptr + (var->array_size > 0 ? 1 : 0);
             lvalue->is_ptr = var->is_ptr;
             lvalue->is_func = var->is_func;
             lvalue->size = get_size(var, lvalue->type);
@@ -1423,8 +1427,8 @@ void read_lvalue(lvalue_t *lvalue,
     if (!eval)
         return;
 
-    if (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
-        while (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
+    if (lex_peek(T_plus, NULL) && ptr_level > 0) {
+        while (lex_peek(T_plus, NULL)) {
             lex_expect(T_plus);
             if (lvalue->is_reference) {
                 ph1_ir = add_ph1_ir(OP_read);
-- 
2.43.0


From 8e9a1c1b78fa3f359efbed9b9c6bca5130649afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 16/18] fix: registers were assumed unchanged after an indirect
 call

OP_indirect left the argument registers marked as holding the pushed
variables, so code after a call through a function pointer reused
registers the callee had overwritten.
---
 src/reg-alloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 2b02cba..29c14b7 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -544,6 +544,10 @@ void reg_alloc()
 
                     is_pushing_args = 0;
                     args = 0;
+
+                    for (int i = 0; i < REG_CNT; i++)
+                        REGS[i].var = NULL;
+
                     break;
                 case OP_func_ret:
                     dest = prepare_dest(bb, insn->rd, -1, -1);
-- 
2.43.0


From 4ec953af49f10dcb5f1c67fb97fca4b6d77c367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 17/18] fix: parameter and argument lists overflowed their
 fixed-size arrays

A function pointer type with more than four named parameters (each name
was read as a further parameter), more than MAX_PARAMS parameters or more
than MAX_PARAMS call arguments wrote past the array on the stack.
---
 src/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index bd22785..a585b94 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -571,7 +571,8 @@ void read_inner_var_decl(var_t *vd, int anon, int is_param)
                     ph1_ir->src0 = vd;
                 }
             }
-        }
+        } else
+            lex_accept(T_identifier); /* the name is optional */
         if (lex_accept(T_open_square)) {
             char buffer[MAX_ID_LEN];
 
@@ -613,6 +614,8 @@ void read_parameter_list_decl(func_t *fd, int anon)
     int vn = 0;
     lex_expect(T_open_bracket);
     while (lex_peek(T_identifier, NULL) == 1) {
+        if (vn >= MAX_PARAMS)
+            error("Too many parameters");
         read_full_var_decl(&fd->param_defs[vn++], anon, 1);
         lex_accept(T_comma);
     }
@@ -730,6 +733,8 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
 
+        if (param_num >= MAX_PARAMS)
+            error("Too many arguments");
         params[param_num++] = opstack_pop();
         lex_accept(T_comma);
     }
-- 
2.43.0


From fc46fa3957f23ee8059f3a9fa5ea0139eda6a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:09 +0000
Subject: [PATCH 18/18] fix: a non-void function without a final return ran
 into the code after it

Control reaching the end of such a function, main included, continued in
whatever function was emitted next.
---
 src/reg-alloc.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 29c14b7..8662f6f 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -630,15 +630,23 @@ void reg_alloc()
             if (!bb)
                 continue;
 
-            if (strcmp(fn->func->return_def.type_name, "void"))
-                continue;
-
             if (bb->insn_list.tail)
                 if (bb->insn_list.tail->opcode == OP_return)
                     continue;
 
-            ph2_ir_t *ir = bb_add_ph2_ir(bb, OP_return);
-            ir->src0 = -1;
+            ph2_ir_t *ir;
+            int ret = -1;
+
+            /* reaching the end of 'main' returns 0 */
+            if (strcmp(fn->func->return_def.type_name, "void")) {
+                ret = 0;
+                ir = bb_add_ph2_ir(bb, OP_load_constant);
+                ir->src0 = 0;
+                ir->dest = ret;
+            }
+
+            ir = bb_add_ph2_ir(bb, OP_return);
+            ir->src0 = ret;
         }
     }
 }
-- 
2.43.0

