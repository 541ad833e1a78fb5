From 228850871ef6ceb275a4ac7a7b80786aac5779e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 01/65] fix: multiply/divide/modulo by constants at the type
 limits, and unsigned modulo by a power of two

---
 ssa.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ssa.c b/ssa.c
index bff1449..7577713 100644
--- a/ssa.c
+++ b/ssa.c
@@ -51,7 +51,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c > 0 && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHL;
@@ -67,7 +67,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if (tac->src1->type->is_unsigned && (c & (c - 1)) == 0) {
+        else if (tac->src1->type->is_unsigned && c > 0 && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHR;
@@ -83,12 +83,13 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
+        else if (c > 0 && (c & (c - 1)) == 0) {
             l = 0;
             while (c > 1) { c = c >> 1; l = (l << 1) | 1; }
             tac->operation = IR_BAND;
             tac->src1 = v;
-            tac->src2 = new_integral_constant(TYPE_INT, l);
+            tac->src2 = new_integral_constant(tac->dst->type->type, l);
+            tac->src2->type->is_unsigned = tac->dst->type->is_unsigned;
         }
     }
 }
-- 
2.43.0


From 1b6b4fa08778c2cd534812759f0d791f5ae7ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 02/65] fix: don't move reads of rcx/rdx parameters past shifts
 and divisions

---
 instrsel.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instrsel.c b/instrsel.c
index c73ff10..f01a77c 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -418,10 +418,13 @@ static void make_igraphs(Function *function, int block_id) {
         // rearranging function calls without dire dowmstream side effects.
         // IR_CALL_ARG_REG is also off limits, since it's a placeholder for function
         // arg registers and no code is actually emitted.
+        // A src1 bound to rcx or rdx must be read where it is. Merging it would delay it to after
+        // shifts & divisions in the tree, which clobber those registers.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
             tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
+            !(src1 && (tac->src1->live_range_preg == LIVE_RANGE_PREG_RCX_INDEX || tac->src1->live_range_preg == LIVE_RANGE_PREG_RDX_INDEX)) &&
             igraphs_are_neighbors(igraphs, i, g1_igraph_id)
             ) {
 
-- 
2.43.0


From 01315615e0d6b63290aa0ddb5c82f4639a5d3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 03/65] fix: test integers in memory for zero with their own
 size

---
 ir.c     | 22 ++++++++++++++++++----
 parser.c |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ir.c b/ir.c
index 7cd46eb..b5b3e71 100644
--- a/ir.c
+++ b/ir.c
@@ -671,14 +671,21 @@ void allocate_value_vregs(Function *function) {
 }
 
 // IR_JZ and IR_JNZ aren't implemented in the backend for SSE & long doubles.
+// They also aren't for integers other than ints. The load can end up getting merged with
+// the jump, in which case the comparison with memory is done with 32 bits.
 // Convert:
-// - IR_JZ  => IR_EQ with 0.0 & IR_JNZ
-// - IR_JNZ => IR_NE with 0.0 & IR_JNZ
+// - IR_JZ  => IR_EQ with 0.0 or 0 & IR_JNZ
+// - IR_JNZ => IR_NE with 0.0 or 0 & IR_JNZ
 void convert_long_doubles_jz_and_jnz(Function *function) {
     make_vreg_count(function, 0);
 
     for (Tac *ir = function->ir; ir; ir = ir->next) {
-        if ((ir->operation == IR_JZ || ir->operation == IR_JNZ) && is_floating_point_type(ir->src1->type)) {
+        if (ir->operation != IR_JZ && ir->operation != IR_JNZ) continue;
+
+        int is_fp = is_floating_point_type(ir->src1->type);
+        int is_non_int = is_integer_type(ir->src1->type) && get_type_size(ir->src1->type) != 4 && !ir->src1->is_constant;
+
+        if (is_fp || is_non_int) {
             ir->operation = ir->operation == IR_JZ ? IR_EQ : IR_NE;
             Tac *tac = new_instruction(IR_JNZ);
             tac->operation = IR_JNZ;
@@ -687,7 +694,14 @@ void convert_long_doubles_jz_and_jnz(Function *function) {
             ir->dst->vreg = ++function->vreg_count;
             tac->src1 = ir->dst;
             tac->src2 = ir->src2;
-            ir->src2 = new_floating_point_constant(ir->src1->type->type, 0.0L);
+
+            if (is_fp)
+                ir->src2 = new_floating_point_constant(ir->src1->type->type, 0.0L);
+            else {
+                ir->src2 = new_integral_constant(ir->src1->type->type, 0);
+                ir->src2->type->is_unsigned = ir->src1->type->is_unsigned;
+            }
+
             ir = insert_instruction_after(ir, tac);
         }
     }
diff --git a/parser.c b/parser.c
index 8a174ba..4341e67 100644
--- a/parser.c
+++ b/parser.c
@@ -3152,7 +3152,7 @@ static void parse_case_statement(void) {
     // Add comparison & jump to current switch's case IR
     Tac *org_ir = ir;
     ir = case_ir;
-    arithmetic_operation(IR_EQ, controlling_case_value->type);
+    arithmetic_operation(IR_EQ, new_type(TYPE_INT));
     add_conditional_jump(IR_JNZ, ldst);
     case_ir = ir;
     ir = org_ir;
-- 
2.43.0


From 1b778f7f94174468c7ab5803c83c87d1fa5c475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 04/65] fix: compare unsigned longs in memory with constants
 beyond the signed 32-bit range

---
 instrrules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index 221e446..c498c0e 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1723,7 +1723,7 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 0, MI1, CI1, "cmpb $%v2b, %v1b"); add_int_comparison_rules(&ntc, 1, MU1, CU1, "cmpb $%v2b, %v1b");
     add_int_comparison_rules(&ntc, 0, MI2, CI2, "cmpw $%v2w, %v1w"); add_int_comparison_rules(&ntc, 1, MU2, CU2, "cmpw $%v2w, %v1w");
     add_int_comparison_rules(&ntc, 0, MI3, CI3, "cmpl $%v2l, %v1l"); add_int_comparison_rules(&ntc, 1, MU3, CU3, "cmpl $%v2l, %v1l");
-    add_int_comparison_rules(&ntc, 0, MI4, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 1, MU4, CU3, "cmpq $%v2q, %v1q");
+    add_int_comparison_rules(&ntc, 0, MI4, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 1, MU4, CI3, "cmpq $%v2q, %v1q");
     add_int_comparison_rules(&ntc, 0, MPV, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 0, MPV, CU3, "cmpq $%v2q, %v1q");
 
     add_long_double_comp_rules(&ntc, MLD5, MLD5, ll, ll);
-- 
2.43.0


From ccb7f7a2875484d585c004cedbaa4277db9b680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 05/65] fix: convert enums to long in arithmetic with longs

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index 4341e67..363c8a1 100644
--- a/parser.c
+++ b/parser.c
@@ -1356,6 +1356,10 @@ static void arithmetic_operation(int operation, Type *dst_type) {
     }
 
     if (is_integer_type(common_type) && is_integer_type(src1->type) && is_integer_type(src2->type)) {
+        // Enums are ints
+        if (common_type->type == TYPE_LONG && src1->type->type == TYPE_ENUM) src1 = integer_type_change(src1, common_type);
+        if (common_type->type == TYPE_LONG && src2->type->type == TYPE_ENUM) src2 = integer_type_change(src2, common_type);
+
         if (!type_eq(common_type, src1->type) && (src1->type->type <= common_type->type || src1->type->is_unsigned != common_type->is_unsigned))
             src1 = integer_type_change(src1, common_type);
         if (!type_eq(common_type, src2->type) && (src2->type->type <= common_type->type || src2->type->is_unsigned != common_type->is_unsigned))
-- 
2.43.0


From f94aa27a2eae4738be609eed92d96e1f1e7c5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 06/65] fix: don't evaluate the operand of sizeof

---
 parser.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 363c8a1..24fc6f9 100644
--- a/parser.c
+++ b/parser.c
@@ -2190,6 +2190,22 @@ int parse_sizeof(parse_expression_function_type expr) {
     return get_type_size(type);
 }
 
+// Parse the operand of a sizeof, which isn't evaluated. Discard any IR made for it.
+static Value *parse_unevaluated_expression_and_pop(int level) {
+    Tac *org_ir_start = ir_start;
+    Tac *org_ir = ir;
+    int org_function_call_count = function_call_count;
+
+    Value *result = parse_expression_and_pop(level);
+
+    ir_start = org_ir_start;
+    ir = org_ir;
+    if (ir) ir->next = 0;
+    function_call_count = org_function_call_count;
+
+    return result;
+}
+
 // Push either an int or long double constant with value the size of v
 static void push_value_size_constant(Value *v) {
     int size = get_type_inc_dec_size(v->type);
@@ -2827,7 +2843,7 @@ static void parse_expression(int level) {
             break;
 
         case TOK_SIZEOF:
-            push_integral_constant(TYPE_LONG, parse_sizeof(parse_expression_and_pop));
+            push_integral_constant(TYPE_LONG, parse_sizeof(parse_unevaluated_expression_and_pop));
             break;
 
         default:
-- 
2.43.0


From 5abeea91de09ad7748c358f6d04f214df15f37f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 07/65] fix: keep the source of a converting move when it is
 still live

---
 ssa.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssa.c b/ssa.c
index 7577713..2f9214c 100644
--- a/ssa.c
+++ b/ssa.c
@@ -1472,8 +1472,7 @@ void make_interference_graph(Function *function, int include_clobbers, int inclu
                         tac->operation == IR_MOVE ||
                         tac->operation == X_MOV ||
                         tac->operation == X_MOVZ ||
-                        tac->operation == X_MOVS ||
-                        tac->operation == X_MOVC
+                        tac->operation == X_MOVS
                        ) && tac->src1 && tac->src1->vreg && tac->src1->vreg == it_vreg) continue;
                     add_ig_edge(interference_graph, vreg_count, tac->dst->vreg, it_vreg);
                     if (debug_ssa_interference_graph) printf("added dst <-> lr %d <-> %d\n", tac->dst->vreg, it_vreg);
-- 
2.43.0


From e71472b962c7adf6f796a486d9d43a9ac30a712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 08/65] fix: keep an unsigned long when it is converted to
 floating point

---
 instrrules.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index c498c0e..543b496 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -475,15 +475,17 @@ static void add_ulong_to_sse_operations(Rule *r, int dst, int src) {
     add_allocate_label_in_slot(r, 1);                               // Completion label
     add_allocate_label_in_slot(r, 2);                               // Signed case
     add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporary for unsigned case
+    add_allocate_register_in_slot(r, 4, TYPE_LONG);                 // Temporary for the lowest bit
     add_op(r, X_TEST,  SRC1, SRC1,  0,    "testq %v1q, %v1q");
     add_op(r, X_JZ,    0,    SV2,   0,    "js %v1");                // Jump if unsigned
     add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);                      // Signed case
     add_op(r, X_JMP,   0,    SV1,   0,    "jmp %v1");
     add_op(r, X_MOVC,  SV3,  SRC1,  0,    ".L2:movq %v1q, %vdq");   // Unsigned case
     add_op(r, X_SHR,   SV3,  SV3,   0,    "shrq %v1q");
-    add_op(r, X_BAND,  SRC1, SRC1,  0,    "andl $1, %v1l");
-    add_op(r, X_BOR,   SV3,  SV3,   SRC1, "orq %v1q, %v2q");
-    add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);
+    add_op(r, X_MOVC,  SV4,  SRC1,  0,    "movq %v1q, %vdq");       // Don't clobber SRC1, it may still be live
+    add_op(r, X_BAND,  SV4,  SV4,   0,    "andl $1, %v1l");
+    add_op(r, X_BOR,   SV3,  SV4,   SV3,  "orq %v1q, %v2q");
+    add_op(r, X_MOVC,  DST,  SV3,   0,    t1);
     add_op(r, X_ADD,   DST,  DST,   DST,  t2);
     add_op(r, X_MOVC,  DST,  DST,   0,    ".L1:");                  // Done
 }
-- 
2.43.0


From d2630dc39b4fa16256cd4449e07340e78d2689e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 09/65] fix: convert floating point values beyond the signed
 range to unsigned ints and longs

---
 constexpr.c  |  5 ++++-
 instrrules.c | 55 ++++++++++++++++++++++++++++++++++++++++------------
 parser.c     |  5 ++++-
 3 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 0182a4c..fd3aff6 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -156,7 +156,10 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
 
     // FP -> integer
     if (is_floating_point_type(src_type) && !is_floating_point_type(dst_type)) {
-        dst->int_value = src->fp_value;
+        if (dst_type->type == TYPE_LONG && dst_type->is_unsigned && src->fp_value >= 9223372036854775808.0L)
+            dst->int_value = (unsigned long) src->fp_value;
+        else
+            dst->int_value = src->fp_value;
 
         // For compatibililty with gcc when it comes to overflows
              if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0x7f;
diff --git a/instrrules.c b/instrrules.c
index 543b496..92532bb 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -443,6 +443,25 @@ static void add_sse_on_stack_to_int_in_register_move_rule(int dst, int src, int
     fin_rule(r);
 }
 
+// Convert a float or double to an unsigned long. cvttss2siq and cvttsd2siq produce 2^63 if the value doesn't fit in a
+// long. In that case, which shows in the sign bit, the conversion of the value - 2^63 is added to it.
+static void add_sse_to_ulong_move_rule(int src, char *size) {
+    int is_float = !strcmp(size, "ss");
+    Rule *r = add_rule(RU4, IR_MOVE, src, 0, 2);
+    add_allocate_register_in_slot(r, 1, TYPE_LONG);     // Slot 1: all ones if the value is >= 2^63
+    add_allocate_register_in_slot(r, 2, TYPE_LONG);     // Slot 2: the value - 2^63
+    add_op(r, X_MOVC, 0,   SRC1, 0,   is_float ? "movss %v1F, %%xmm14" : "movsd %v1D, %%xmm14");
+    add_op(r, X_MOVC, DST, 0,    0,   is_float ? "cvttss2siq %%xmm14, %vdq" : "cvttsd2siq %%xmm14, %vdq");
+    add_op(r, X_MOVC, 0,   0,    0,   is_float ? "subss .LDTORU4(%%rip), %%xmm14" : "cvtss2sd .LDTORU4(%%rip), %%xmm15");
+    if (!is_float) add_op(r, X_MOVC, 0, 0, 0, "subsd %%xmm15, %%xmm14");
+    add_op(r, X_MOVC, SV2, 0,    0,   is_float ? "cvttss2siq %%xmm14, %vdq" : "cvttsd2siq %%xmm14, %vdq");
+    add_op(r, X_MOVC, SV1, DST,  0,   "movq %v1q, %vdq");
+    add_op(r, X_MOVC, SV1, SV1,  0,   "sarq $63, %vdq");
+    add_op(r, X_BAND, SV1, SV1,  SV2, "andq %v2q, %vdq");
+    add_op(r, X_BOR,  DST, DST,  SV1, "orq %v2q, %vdq");
+    fin_rule(r);
+}
+
 static void add_sse_in_register_to_long_double_move_rule(int src, int type, char *t1, char *t2) {
     Rule *r = add_rule(MLD5, IR_MOVE, src, 0, 1);
     add_allocate_stack_index_in_slot(r, 1, type);
@@ -558,13 +577,17 @@ static void add_float_and_double_move_rules(void) {
     // SSE Constant -> integer in register
     r = add_rule(XR1, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
+    r = add_rule(RU3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    add_sse_to_ulong_move_rule(CS3, "ss");
 
     r = add_rule(XR1, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
+    r = add_rule(RU3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    add_sse_to_ulong_move_rule(CS4, "sd");
 
     // SSE Constant -> LD
     add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm0", "movss %%xmm0, %vd", "flds %v1");
@@ -573,24 +596,32 @@ static void add_float_and_double_move_rules(void) {
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
+    r = add_rule(RU3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    add_sse_to_ulong_move_rule(RS3, "ss");
 
     r = add_rule(XR1, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
+    r = add_rule(RU3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    add_sse_to_ulong_move_rule(RS4, "sd");
 
     // SSE on stack -> integer in register
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(RU3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_to_ulong_move_rule(MS3, "ss");
 
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
+    add_sse_on_stack_to_int_in_register_move_rule(RU3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_to_ulong_move_rule(MS4, "sd");
 
     // SSE in register -> long double
     add_sse_in_register_to_long_double_move_rule(RS3, TYPE_FLOAT, "movss %v1F, %vdl", "flds %v1F");
diff --git a/parser.c b/parser.c
index 24fc6f9..5f837d4 100644
--- a/parser.c
+++ b/parser.c
@@ -1617,7 +1617,10 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
                 Value *src2 = new_value();
                 src2->type = new_type(dst_type->type <= TYPE_INT ? TYPE_INT : TYPE_LONG);
                 src2->is_constant = 1;
-                src2->int_value = src->fp_value;
+                if (dst_type->type == TYPE_LONG && dst_type->is_unsigned && src->fp_value >= 9223372036854775808.0L)
+                    src2->int_value = (unsigned long) src->fp_value;
+                else
+                    src2->int_value = src->fp_value;
                 return src2;
             }
             else if (src_is_int && (dst_is_sse || dst_is_ld))
-- 
2.43.0


From aa64f593274819778b21481d291d47201e6093ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 10/65] fix: compile floating point division by a zero constant

---
 ssa.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ssa.c b/ssa.c
index 2f9214c..b8be108 100644
--- a/ssa.c
+++ b/ssa.c
@@ -125,10 +125,7 @@ void optimize_floating_point_arithmetic_operation(Tac *tac) {
     else if (tac->operation == IR_DIV && cv && tac->src2->is_constant) {
         c = tac->src2->fp_value;
 
-        if (c == 0.0L)
-            panic("Division by zero");
-
-        else if (c == 1.0L) {
+        if (c == 1.0L) {
             tac->operation = IR_MOVE;
             tac->src1 = v;
             tac->src2 = 0;
-- 
2.43.0


From 005d939bc886c1c9d580f651621211a969f43d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 11/65] fix: make continue in a do/while evaluate the
 controlling expression

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index 5f837d4..203602d 100644
--- a/parser.c
+++ b/parser.c
@@ -3025,12 +3025,16 @@ static void parse_iteration_statement(void) {
         consume(TOK_RPAREN, ")");
     }
 
+    // A continue in a do/while goes to the controlling expression
+    if (loop_token == TOK_DO) cur_loop_continue_dst = new_label_dst();
+
     if (!cur_loop_continue_dst) cur_loop_continue_dst = lbody;
     add_jmp_target_instruction(lbody);
     parse_statement();
 
     // Parse do/while
     if (loop_token == TOK_DO) {
+        add_jmp_target_instruction(cur_loop_continue_dst);
         consume(TOK_WHILE, "while");
         consume(TOK_LPAREN, "(");
         parse_iteration_conditional_expression(&lcond, &cur_loop_continue_dst, lend);
-- 
2.43.0


From b8504ca5e5f0aaff5277b98c6ddf225a1f80d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 12/65] fix: promote the controlling expression of a switch

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 203602d..01b2d44 100644
--- a/parser.c
+++ b/parser.c
@@ -3103,6 +3103,8 @@ static void parse_switch_statement(void) {
     if (!is_integer_type(controlling_case_value->type))
         error("The controlling expression of a switch statement is not an integral type");
 
+    controlling_case_value = integer_promote(controlling_case_value);
+
     // Add an entry to the implicit switch stack
     case_ir_start = new_instruction(IR_NOP);
     case_ir = case_ir_start;
-- 
2.43.0


From ebcf03359811797e44881948ab89ab8408b8b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 13/65] fix: allocate values bound to a register before other
 values

---
 regalloc.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/regalloc.c b/regalloc.c
index 023db49..45fe938 100644
--- a/regalloc.c
+++ b/regalloc.c
@@ -172,12 +172,21 @@ void allocate_registers_top_down(Function *function, int live_range_start, int p
     Set *constrained = new_set(vreg_count);
     Set *unconstrained = new_set(vreg_count);
     Set *preferred_pregs = new_set(vreg_count);
+    Set *bound = new_set(vreg_count); // Vregs that are bound to a physical register
+
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->dst  && tac->dst ->vreg && tac->dst ->live_range_preg) add_to_set(bound, tac->dst ->vreg);
+        if (tac->src1 && tac->src1->vreg && tac->src1->live_range_preg) add_to_set(bound, tac->src1->vreg);
+        if (tac->src2 && tac->src2->vreg && tac->src2->live_range_preg) add_to_set(bound, tac->src2->vreg);
+    }
 
     for (int i = 1; i <= vreg_count; i++) {
         int vreg = ordered_nodes[i].vreg;
         if (vreg > live_range_reserved_pregs_offset && function->vreg_preg_classes[vreg] != preg_class) continue;
         if (!function->vreg_preg_classes[vreg]) panic("Unexpected zero preg class for vreg %d", i);
 
+        if (in_set(bound, vreg)) continue;
+
         int degree = graph_node_degree(interference_graph, vreg_count, vreg);
         if (degree < physical_register_count)
             if (opt_enable_preferred_pregs && preferred_live_range_preg_indexes[vreg])
@@ -211,7 +220,15 @@ void allocate_registers_top_down(Function *function, int live_range_start, int p
             printf("%-2d -> %-2d: %s\n", i, vreg_locations[i].preg, register_name(preg_map[vreg_locations[i].preg]));
     }
 
-    // Color constrained nodes first
+    // Color nodes bound to a physical register first, since there is only one register they can have
+    for (int i = 1; i <= vreg_count; i++) {
+        int vreg = ordered_nodes[i].vreg;
+        if (!in_set(bound, vreg) || function->vreg_preg_classes[vreg] != preg_class) continue;
+        if (live_range_reserved_pregs_offset > 0 && vreg <= live_range_reserved_pregs_offset) continue;
+        color_vreg(interference_graph, vreg_count, vreg_locations, physical_register_count, &stack_register_count, vreg, original_stack_indexes, 0, live_range_start, live_range_end);
+    }
+
+    // Color constrained nodes next
     for (int i = 1; i <= vreg_count; i++) {
         int vreg = ordered_nodes[i].vreg;
         if (!constrained->elements[vreg]) continue;
@@ -251,6 +268,7 @@ void allocate_registers_top_down(Function *function, int live_range_start, int p
     free_set(constrained);
     free_set(unconstrained);
     free_set(preferred_pregs);
+    free_set(bound);
     wfree(ordered_nodes);
     wfree(original_stack_indexes);
 }
-- 
2.43.0


From 2976969db3cf3aa0327ab7438562e4a8a635b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:30 +0000
Subject: [PATCH 14/65] fix: sign extend octal character constants like
 hexadecimal ones

---
 lexer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.c b/lexer.c
index d0c3fb8..4af81b8 100644
--- a/lexer.c
+++ b/lexer.c
@@ -428,6 +428,10 @@ void next(void) {
                 }
                 byte_count++;
             }
+
+            // A single character has the value of a char converted to an int
+            if (!is_wide_char && byte_count == 1) cur_long = (int) ((char) cur_long);
+
             ip++;
         }
 
-- 
2.43.0


From 4ea55fb79deccf47586572c5d162f01c1966beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 15/65] fix: scale the index of pointer arithmetic as a long

---
 parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.c b/parser.c
index 01b2d44..f16003e 100644
--- a/parser.c
+++ b/parser.c
@@ -1198,6 +1198,13 @@ static Value *integer_type_change(Value *src, Type *type) {
     return dst;
 }
 
+// Convert the integer operand of pointer arithmetic, since the multiplication by the size might not fit in an int
+static Value *integer_type_change_to_long(Value *v) {
+    if (v->type->type == TYPE_LONG) return v;
+
+    return integer_type_change(v, new_type(TYPE_LONG));
+}
+
 static Value *integer_promote(Value *v) {
     if (!is_integer_type(v->type)) error("Invalid operand, expected integer type");
 
@@ -2038,6 +2045,7 @@ static void parse_addition(int level, int for_array_subscript) {
     int factor = get_type_inc_dec_size(vs[1]->type);
 
     if (factor > 1) {
+        push(integer_type_change_to_long(pl()));
         push_integral_constant(TYPE_INT, factor);
         arithmetic_operation(IR_MUL, 0);
     }
@@ -2059,6 +2067,7 @@ static void parse_subtraction(int level) {
 
     if (factor > 1) {
         if (!src2_is_pointer) {
+            push(integer_type_change_to_long(pl()));
             push_integral_constant(TYPE_INT, factor);
             arithmetic_operation(IR_MUL, 0);
         }
-- 
2.43.0


From 7fa154ecaae25f92dc83bd5b445b343167f228b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 16/65] fix: keep the name of a parameter whose type declares a
 struct or union

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index f16003e..1a7dce6 100644
--- a/parser.c
+++ b/parser.c
@@ -804,7 +804,11 @@ Type *parse_direct_declarator(void) {
 }
 
 Type *parse_type_name(void) {
+    // A struct or union declaration changes the identifier to that of its last member
+    char *old_cur_type_identifier = cur_type_identifier;
     BaseType *base_type = parse_declaration_specifiers();
+    cur_type_identifier = old_cur_type_identifier;
+
     base_type->type->storage_class = base_type->storage_class;
     Type *result = concat_types(parse_declarator(), base_type->type);
     wfree(base_type);
-- 
2.43.0


From 9f0021e6fce78f3e3ff36a9b3adff510e2cf24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:48 +0000
Subject: [PATCH 17/65] fix: don't use immediates beyond 32 bits in pointer
 additions, comparisons and stores

---
 instrrules.c | 10 ++++++----
 instrutil.c  |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 92532bb..b094ad2 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1253,7 +1253,8 @@ static void add_pointer_add_rules(void) {
         add_pointer_plus_int_rule(i, RU4, 10, X_ADD, 0);
     }
 
-    for (int i = CI1; i <= CI4; i++)
+    // addq can only add 32 bit constants. CI4 goes through a register.
+    for (int i = CI1; i <= CI3; i++)
         add_bi_directional_commutative_operation_rules(IR_ADD, X_MOV, X_ADD, XRP, i, XRP, 10, "movq %v1q, %vdq", "addq $%v1q, %v2q");
 }
 
@@ -1743,9 +1744,10 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 0, XMI, XRI, cmp_vv);             add_int_comparison_rules(&ntc, 1, XMU, XRU, cmp_vv);
     add_int_comparison_rules(&ntc, 1, RI4, XRP, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, XRP, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, RU4, cmpq_vv);
-    add_int_comparison_rules(&ntc, 1, XRP, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, XRP, XCU, cmpq_vc);
-    add_int_comparison_rules(&ntc, 1, RPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RPF, XCU, cmpq_vc);
-    add_int_comparison_rules(&ntc, 1, MPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, MPF, XCU, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, XRP, CI3, cmpq_vc);            add_int_comparison_rules(&ntc, 1, XRP, CU2, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, RPF, CI3, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RPF, CU2, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, MPF, CI3, cmpq_vc);            add_int_comparison_rules(&ntc, 1, MPF, CU2, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, RPF, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RPF, RU4, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, XMI, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, XMU, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, RI4, MPV, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, MPV, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XMI, XRP, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XMU, XRP, cmpq_vv);
diff --git a/instrutil.c b/instrutil.c
index 6277450..ff46ecf 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -367,9 +367,9 @@ int match_value_to_rule_src(Value *v, int src) {
 
             // Check match with type from the parser. This is necessary for evil casts, e.g.
             // (unsigned int) -1, which would otherwise become a CU4 and not match rules for CU3.
-                 if (src >= CI3 && src <= CI4 && !v->type->is_unsigned && vtt != TYPE_LONG)  return 1;
+                 if (src >= CI3 && src <= CI4 && !v->type->is_unsigned && vtt != TYPE_LONG && vtt != TYPE_PTR) return 1;
             else if (              src == CI4 && !v->type->is_unsigned)                      return 1;
-                 if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && vtt != TYPE_LONG)  return 1;
+                 if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && vtt != TYPE_LONG && vtt != TYPE_PTR) return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                      return 1;
 
             // Determine constant non termimal by looking at the signdness and value
-- 
2.43.0


From 5e2937e3d1a07096378ad88a18a00abe0041305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 18/65] fix: return the last instruction of an inserted
 function call

---
 ir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir.c b/ir.c
index b5b3e71..9e4e44f 100644
--- a/ir.c
+++ b/ir.c
@@ -872,6 +872,8 @@ static Tac *insert_function_call_instructions_after(Tac *ir, Value *call_value,
 
     // Add end call instruction
     ir = insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
+
+    return ir;
 }
 
 // Add memcpy calls for struct/union -> struct/union copies
-- 
2.43.0


From d0868e002bd3a5ce7769cec12868269f80e2e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 19/65] fix: bit-fields: compound assignment and ++/-- write
 only the bit-field, 32-bit wide loads and promotion to int

---
 ir.c     | 26 +++++++++++++++++++-------
 parser.c | 22 ++++++++++++++++------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/ir.c b/ir.c
index 9e4e44f..00ca364 100644
--- a/ir.c
+++ b/ir.c
@@ -1005,6 +1005,8 @@ static void add_load_bit_field(Function *function, Tac *ir) {
 
     Value *dst = ir->dst;
     Value *loaded_value = dup_value(ir->dst);
+    loaded_value->type = new_type(TYPE_INT);
+    loaded_value->type->is_unsigned = src1->type->is_unsigned;
     loaded_value->vreg = ++function->vreg_count;
 
     ir->operation = IR_NOP;
@@ -1021,7 +1023,12 @@ static void add_load_bit_field(Function *function, Tac *ir) {
     } else
         ir = insert_instruction_after_from_operation(ir, IR_MOVE, loaded_value, src1, 0);
 
-    if (src1->type->is_unsigned) {
+    Value *result = loaded_value;
+
+    if (bit_size == 32) {
+        // The bit field is the whole integer
+    }
+    else if (src1->type->is_unsigned) {
         // Shift right
         Value *shifted_value;
         if (bit_offset) {
@@ -1033,8 +1040,12 @@ static void add_load_bit_field(Function *function, Tac *ir) {
             shifted_value = loaded_value;
 
         // Apply mask
-        unsigned int mask = (1 << bit_size) - 1;
-        ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, new_integral_constant(TYPE_INT, mask));
+        unsigned int mask = (1U << bit_size) - 1;
+        Value *mask_value = new_integral_constant(TYPE_INT, mask);
+        mask_value->type->is_unsigned = 1;
+        result = dup_value(loaded_value);
+        result->vreg = ++function->vreg_count;
+        ir = insert_instruction_after_from_operation(ir, IR_BAND, result, shifted_value, mask_value);
     }
     else {
         // Shift left so that the value is at the end of the integer boundary
@@ -1049,11 +1060,12 @@ static void add_load_bit_field(Function *function, Tac *ir) {
             shifted_value = loaded_value;
 
         // Sign extend by shifting right
-        if (32 - bit_size)
-            ir = insert_instruction_after_from_operation(ir, IR_ASHR, dst, shifted_value, new_integral_constant(TYPE_INT, 32 - bit_size));
-        else
-            dst = shifted_value;
+        result = dup_value(loaded_value);
+        result->vreg = ++function->vreg_count;
+        ir = insert_instruction_after_from_operation(ir, IR_ASHR, result, shifted_value, new_integral_constant(TYPE_INT, 32 - bit_size));
     }
+
+    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, result, 0);
 }
 
 // Save an integer to a bit field
diff --git a/parser.c b/parser.c
index 1a7dce6..1b027c4 100644
--- a/parser.c
+++ b/parser.c
@@ -146,7 +146,8 @@ static void *pop_void(void) {
 static Value *load_bit_field(Value *src1) {
     Value *dst = new_value();
     dst->type = new_type(TYPE_INT);
-    dst->type->is_unsigned = src1->type->is_unsigned;
+    // All values of an unsigned bit field narrower than an int fit in an int, so it is promoted to an int
+    dst->type->is_unsigned = src1->type->is_unsigned && src1->bit_field_size == 32;
     dst->vreg = new_vreg();
     add_parser_instruction(IR_LOAD_BIT_FIELD, dst, src1, 0);
 
@@ -293,6 +294,10 @@ Type *operation_type(Value *src1, Value *src2, int for_ternary) {
     Type *src1_type = src1->type;
     Type *src2_type = src2->type;
 
+    // An unsigned bit field narrower than an int is promoted to an int
+    if (src1->bit_field_size && src1->bit_field_size < 32) src1_type = new_type(TYPE_INT);
+    if (src2->bit_field_size && src2->bit_field_size < 32) src2_type = new_type(TYPE_INT);
+
     // Decay arrays to pointers
     if (src1_type->type == TYPE_ARRAY) src1_type = decay_array_to_pointer(src1_type);
     if (src2_type->type == TYPE_ARRAY) src2_type = decay_array_to_pointer(src2_type);
@@ -2021,7 +2026,14 @@ Value *prep_comp_assign(void) {
 // Finish compound assignment
 static void finish_comp_assign(Value *v1) {
     push(add_convert_type_if_needed(pop(), v1->type));
-    add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+
+    if (v1->bit_field_size) {
+        // The resulting value is the value that ended up in the bit field
+        add_parser_instruction(IR_SAVE_BIT_FIELD, v1, pop(), 0);
+        push(load(dup_value(v1)));
+    }
+    else
+        add_parser_instruction(IR_MOVE, v1, vtop(), 0);
 }
 
 static void parse_addition(int level, int for_array_subscript) {
@@ -2695,8 +2707,7 @@ static void parse_expression(int level) {
             push(src1);
             push_value_size_constant(src1);
             arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-            push(add_convert_type_if_needed(pop(), v1->type));
-            add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+            finish_comp_assign(v1);
 
             break;
         }
@@ -2900,8 +2911,7 @@ static void parse_expression(int level) {
                 push(src1);
                 push_value_size_constant(src1);
                 arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-                push(add_convert_type_if_needed(pop(), v1->type));
-                add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+                finish_comp_assign(v1);
                 pop(); // Pop the lvalue of the assignment off the stack
                 push(src1); // Push the original rvalue back on the value stack
                 break;
-- 
2.43.0


From 7877a87c7ba82d66c05edf8f69b67629e15762a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:16 +0000
Subject: [PATCH 20/65] fix: sizes of the eight-bytes of structs with padding,
 unions and bit-fields

---
 functions.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/functions.c b/functions.c
index 7f8ed9e..c52f9dc 100644
--- a/functions.c
+++ b/functions.c
@@ -1549,7 +1549,12 @@ static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset)
         StructOrUnion *s = type->struct_or_union_desc;
         for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
             StructOrUnionMember *member = *pmember;
-            flatten_type(member->type, scalars, offset + member->offset);
+            if (member->is_bit_field) {
+                // A bit field is part of the integer it is in. Unnamed bit fields are padding.
+                if (member->identifier) flatten_type(member->type, scalars, offset + (member->offset & ~3));
+            }
+            else
+                flatten_type(member->type, scalars, offset + member->offset);
         }
     }
 
@@ -1613,7 +1618,8 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             size = 0; // Needs recalculating to remove any paddding at the end
             for (int i = 0; i < scalars->count; i++) {
                 StructOrUnionScalar *scalar = scalars->scalars[i];
-                size +=  get_type_size(scalar->type);
+                int scalar_end = scalar->offset + get_type_size(scalar->type);
+                if (scalar_end > size) size = scalar_end;
                 int eight_byte = scalar->offset >> 3;
                 member_counts[eight_byte]++;
 
-- 
2.43.0


From a787a8e3a8fffb438a8a92c229ecd35697c14e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 21/65] fix: layout of unions, unnamed bit-fields and nested
 packed structs; const members in nested structs

---
 types.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/types.c b/types.c
index ea8bc7c..1d65fb6 100644
--- a/types.c
+++ b/types.c
@@ -491,7 +491,9 @@ int get_type_alignment(Type *type) {
             // The alignment of a struct is the max alignment of all members
             int max = 0;
             for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++) {
+                if ((*pmember)->is_bit_field && !(*pmember)->identifier) continue;
                 int alignment = get_type_alignment((*pmember)->type);
+                if (type->struct_or_union_desc->is_packed && !(*pmember)->is_bit_field) alignment = 1;
                 if (alignment > max) max = alignment;
             }
             return max;
@@ -840,8 +842,8 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
                 if (new_bit_offset != (bit_offset & ~31)) bit_offset = ((bit_offset + 31) & ~31);
             }
 
-            // Ensure the alignment is at least 4 bytes
-            if (max_alignment < 32) max_alignment = 32;
+            // Ensure the alignment is at least 4 bytes. Unnamed bit fields don't affect the alignment.
+            if (member->identifier && max_alignment < 32) max_alignment = 32;
         }
         else {
             int alignment = s->is_packed ? 8 : get_type_alignment(member->type) * 8;
@@ -871,7 +873,7 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
 
     int size;
     if (s->is_union)
-        size = max_size;
+        size = (max_size + max_alignment - 1) & (~(max_alignment - 1));
     else {
         bit_offset = ((bit_offset + max_alignment  - 1) & (~(max_alignment - 1)));
         size = bit_offset - initial_bit_offset;
@@ -960,7 +962,7 @@ int type_is_modifiable(Type *type) {
 
             if (member->type->type == TYPE_STRUCT_OR_UNION) {
                 is_modifiable = type_is_modifiable(member->type);
-                if (is_modifiable) break;
+                if (!is_modifiable) break;
             }
         }
 
-- 
2.43.0


From 868b9ac4a6ae6f33a8d91da333434584a2b1df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 22/65] fix: struct and enum arguments on the stack,
 declaration of struct results with more than one argument

A struct copied to the stack in one move did not match any rule, the size of structs on the stack was not
rounded up to eight bytes, enum parameters on the stack kept their type, struct parameters bigger than two
stack slots overflowed stack_param_vregs, and the declaration of a returned struct was lost when the
arguments were reversed, so that the struct got too little stack space.
---
 functions.c | 14 ++++++++------
 instrsel.c  |  3 ++-
 parser.c    | 10 ++++++----
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/functions.c b/functions.c
index c52f9dc..1fae4b4 100644
--- a/functions.c
+++ b/functions.c
@@ -1329,9 +1329,11 @@ void add_function_param_moves(Function *function, char *identifier) {
 
     int *has_address_of = wcalloc(function->type->function->param_count, sizeof(int));
 
-    // The stack is never bigger than function->type->function->param_count * 2 & starts at 2
-    int *stack_param_vregs = wmalloc(sizeof(int) * (function->type->function->param_count * 2 + 2));
-    memset(stack_param_vregs, -1, sizeof(int) * (function->type->function->param_count * 2 + 2));
+    // A struct or union on the stack can take up many stack indexes. Values that have not been remapped yet
+    // have a stack index that depends on the param count.
+    int stack_param_vregs_count = function->type->function->param_count + (fpa->offset >> 3) + 2;
+    int *stack_param_vregs = wmalloc(sizeof(int) * stack_param_vregs_count);
+    memset(stack_param_vregs, -1, sizeof(int) * stack_param_vregs_count);
 
     // Determine which parameters in registers are used in IR_ADDRESS_OF instructions
     for (Tac *ir = function->ir; ir; ir = ir->next) {
@@ -1412,6 +1414,7 @@ void add_function_param_moves(Function *function, char *identifier) {
         if (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset == -1) continue;
 
         Type *type = function->type->function->param_types->elements[i];
+        if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
 
         int stack_index = (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset + 16) >> 3;
 
@@ -1524,9 +1527,8 @@ static void add_type_to_allocation(FunctionParamAllocation *fpa, FunctionParamLo
         fpl->stack_offset = fpa->offset;
         fpl->stack_padding = padding;
 
-        int type_size = get_type_size(type);
-        if (type_size < 8) type_size = 8;
-        fpa->offset += type_size;
+        // Everything on the stack takes up a multiple of eight bytes
+        fpa->offset += (get_type_size(type) + 7) & ~7;
 
         if (debug_function_param_allocation)
             printf("  arg %2d with alignment %2d     offset 0x%04x with padding 0x%04x\n", fpa->param_locations->length, alignment, fpl->stack_offset, fpl->stack_padding);
diff --git a/instrsel.c b/instrsel.c
index f01a77c..5e7e6c0 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -416,12 +416,13 @@ static void make_igraphs(Function *function, int block_id) {
         // If dst is only used once and it's not in liveout, merge it.
         // Also, don't merge IR_CALLs. The IR_START_CALL and IR_END_CALL constraints don't permit
         // rearranging function calls without dire dowmstream side effects.
+        // IR_MOVE_STACK_PTR cannot be merged either, there are no rules to store directly through rsp.
         // IR_CALL_ARG_REG is also off limits, since it's a placeholder for function
         // arg registers and no code is actually emitted.
         // A src1 bound to rcx or rdx must be read where it is. Merging it would delay it to after
         // shifts & divisions in the tree, which clobber those registers.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
-            tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR &&
+            tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR && tac->operation != IR_MOVE_STACK_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
             !(src1 && (tac->src1->live_range_preg == LIVE_RANGE_PREG_RCX_INDEX || tac->src1->live_range_preg == LIVE_RANGE_PREG_RDX_INDEX)) &&
diff --git a/parser.c b/parser.c
index 1b027c4..69cab1f 100644
--- a/parser.c
+++ b/parser.c
@@ -2354,10 +2354,6 @@ static void parse_function_call(void) {
         return_value->local_index = new_local_index();
         return_value->is_lvalue = 1;
         return_value->type = dup_type(return_type);
-
-        // Declare the temp so that the stack allocation code knows the
-        // size of the struct
-        add_parser_instruction(IR_DECL_LOCAL_COMP_OBJ, 0, return_value, 0);
     }
     else if (return_type->type != TYPE_VOID) {
         return_value = new_value();
@@ -2373,6 +2369,12 @@ static void parse_function_call(void) {
     add_parser_instruction(IR_CALL, return_value, function_value, 0);
     add_parser_instruction(IR_END_CALL, 0, src1, 0);
 
+    // Declare the temp so that the stack allocation code knows the
+    // size of the struct. This can't be done between the arguments and the
+    // call, since anything there is lost when the arguments are reversed.
+    if (return_type->type == TYPE_STRUCT_OR_UNION)
+        add_parser_instruction(IR_DECL_LOCAL_COMP_OBJ, 0, return_value, 0);
+
     if (return_value) push(return_value);
 }
 
-- 
2.43.0


From c44551ee3083b238ea970e1fcdb53093d0fcd991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 23/65] fix: rdi was overwritten in calls returning a struct in
 memory, wrong stack alignment after a float pushed on the stack

The pointer to the returned struct was not kept live until the call, integer temporaries used to load struct
arguments into SSE registers could overwrite argument registers, and pushing a float counted as two pushes.
---
 functions.c  | 12 +++++++++++-
 instrrules.c |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/functions.c b/functions.c
index 1fae4b4..3da43de 100644
--- a/functions.c
+++ b/functions.c
@@ -700,6 +700,14 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
                 pls--;
             }
 
+            // Keep the pointer to the struct/union return value in rdi while the other
+            // registers are loaded.
+            if (has_struct_or_union_return_value && preg_class == PC_INT) {
+                Tac *tac = ir;
+                while (tac && !(tac->dst && tac->dst->live_range_preg == LIVE_RANGE_PREG_RDI_INDEX)) tac = tac->prev;
+                if (tac) function_call_values[0] = dup_value(tac->dst);
+            }
+
             add_ir_call_reg_instructions(ir, function_call_values, register_count);
 
             wfree(function_call_values);
@@ -762,8 +770,10 @@ static void remove_IR_ARG_instructions_that_have_been_handled(Function *function
 // stack with an IR_ARG, or, in the case of a struct/union pushed onto the stack with
 // generated code.
 void add_function_call_arg_moves(Function *function) {
-    add_function_call_arg_moves_for_preg_class(function, PC_INT);
+    // The integer registers are last, since loading a struct/union into an SSE register can need
+    // an integer register.
     add_function_call_arg_moves_for_preg_class(function, PC_SSE);
+    add_function_call_arg_moves_for_preg_class(function, PC_INT);
 
     remove_IR_ARG_instructions_that_have_been_handled(function);
 
diff --git a/instrrules.c b/instrrules.c
index b094ad2..0a64f64 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1664,7 +1664,7 @@ void define_rules(void) {
     r = add_rule(0, IR_ARG, CI4, CS4, 2); add_sse_function_call_arg_op(r, "movabsq %v1d, %vdq");
 
     // SSE register arg
-    r = add_rule(0, IR_ARG, CI4, RS3, 2); add_op(r, X_ARG, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2F, (%%rsp)");
+    r = add_rule(0, IR_ARG, CI4, RS3, 2); add_op(r, X_MOV, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2F, (%%rsp)");
     r = add_rule(0, IR_ARG, CI4, RS4, 2); add_op(r, X_MOV, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2D, (%%rsp)");
 
     // Add rules for sign/zero extention of an arg, but at a high cost, to encourage other rules to take precedence
-- 
2.43.0


From 09a71d94acd22339acc4f380b00dbbf48006e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 24/65] fix: va_arg of structs, va_list through a pointer,
 start of the overflow area

A struct with integer and SSE eight-bytes was read from one register save area
only, structs on the stack were not aligned to 16 bytes and more was copied than
their size. A named long double followed by other arguments on the stack made
va_start skip the first variadic argument.
---
 codegen.c   |   3 +-
 functions.c | 105 ++++++++++++++++++++++++++++++++++------------------
 parser.c    |   4 ++
 3 files changed, 74 insertions(+), 38 deletions(-)

diff --git a/codegen.c b/codegen.c
index 762175f..6b842bb 100644
--- a/codegen.c
+++ b/codegen.c
@@ -165,7 +165,8 @@ void make_stack_offsets(Function *function, char *function_name) {
         // Special case for functions with a va_list. A src1 with stack_index OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX
         // needs to be reassigned with address where the pushed varargs start
         if (tac->src1 && tac->src1->stack_index == OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX) {
-            tac->src1->stack_index = 2 + (function->fpa->size >> 3);
+            // The varargs follow the last named argument, without padding at the end
+            tac->src1->stack_index = 2 + (function->fpa->offset >> 3);
         }
         else
             if (tac->src1 && tac->src1->stack_index < 0) tac->src1->stack_offset = stack_offsets[-tac->src1->stack_index];
diff --git a/functions.c b/functions.c
index 3da43de..53e8f7c 100644
--- a/functions.c
+++ b/functions.c
@@ -1074,13 +1074,13 @@ static Tac *write_to_va_list(Function *function, Tac *ir, Value *va_list, Value
         tmp->is_lvalue = 1;
         tmp->offset = offset;
         tmp->type = value->type;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, tmp, value, 0);
+        return insert_instruction_after_from_operation(ir, IR_MOVE, tmp, value, 0);
     }
     else {
         // Write to the stack
-    dst->type = value->type;
+        dst->type = value->type;
         dst->offset = offset;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, value, 0);
+        return insert_instruction_after_from_operation(ir, IR_MOVE, dst, value, 0);
     }
 }
 
@@ -1124,40 +1124,66 @@ static int va_arg_size(Type *type) {
         return 8;
 }
 
-// Add instructions to read a vararg from the register save area
-static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *gp_fp_offset, Value *dst) {
+// Make a pointer to the next vararg in the register save area
+static Tac *add_function_va_arg_register_save_area_pointer(Function *function, Tac *ir, Type *type, Value *va_list, Value *gp_fp_offset, Value **result) {
     // Read register_save_area into register_save_area register
     Value *register_save_area;
-    ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 16, &register_save_area);
+    ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(type), 16, &register_save_area);
 
     // Add gp_fp_offset to register_save_area
-    Value *ptr = new_value();
-    ptr->type = make_pointer(dst->type);
-    ptr->vreg = ++function->vreg_count;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, ptr, register_save_area, gp_fp_offset);
+    *result = new_value();
+    (*result)->type = make_pointer(type);
+    (*result)->vreg = ++function->vreg_count;
+
+    return insert_instruction_after_from_operation(ir, IR_ADD, *result, register_save_area, gp_fp_offset);
+}
+
+// Add size to the gp_offset or fp_offset in the va_list
+static Tac *add_function_va_arg_offset_increment(Function *function, Tac *ir, Value *va_list, Value *gp_fp_offset, int size, int offset) {
+    Value *new_gp_fp_offset = dup_value(gp_fp_offset);
+    new_gp_fp_offset->vreg = ++function->vreg_count;
+    Value *size_value = new_integral_constant(TYPE_INT, size);
+    size_value->type->is_unsigned = 1;
+    ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_fp_offset, gp_fp_offset, size_value);
+
+    return write_to_va_list(function, ir, va_list, new_gp_fp_offset, offset);
+}
+
+// Add instructions to read a vararg from the register save area. fpl is only used for a struct/union.
+static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *gp_offset, Value *fp_offset, FunctionParamLocations *fpl, Value *dst) {
+    Value *gp_ptr, *fp_ptr;
+    if (gp_count) ir = add_function_va_arg_register_save_area_pointer(function, ir, dst->type, va_list, gp_offset, &gp_ptr);
+    if (fp_count) ir = add_function_va_arg_register_save_area_pointer(function, ir, dst->type, va_list, fp_offset, &fp_ptr);
 
     if (type->type == TYPE_STRUCT_OR_UNION) {
-        // Copy memory for struct/union
-        Value *memcpy_ptr = dup_value(ptr);
-        memcpy_ptr->is_lvalue = 1;
-        int size = va_arg_size(type);
-        int splay_offsets = fp_count > 0; // Splay offsets if it's an SSE struct
-        ir = add_memory_copy_with_registers(function, ir, dst, memcpy_ptr, size, splay_offsets);
+        // Copy the eight-bytes. Integers are 8 bytes apart in the register save area, SSE registers 16.
+        int gp_src_offset = 0;
+        int fp_src_offset = 0;
+
+        for (int loc = 0; loc < fpl->count; loc++) {
+            FunctionParamLocation *location = &(fpl->locations[loc]);
+            int in_gp = location->int_register != -1;
+
+            Value *src = dup_value(in_gp ? gp_ptr : fp_ptr);
+            src->is_lvalue = 1;
+            src->offset = in_gp ? gp_src_offset : fp_src_offset;
+            Value *eight_byte_dst = dup_value(dst);
+            eight_byte_dst->offset += location->stru_offset;
+            ir = add_memory_copy_with_registers(function, ir, eight_byte_dst, src, location->stru_size, 0);
+
+            if (in_gp)
+                gp_src_offset += 8;
+            else
+                fp_src_offset += 16;
+        }
     }
     else
         // Read a scalar value from a pointer
-        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, ptr, 0);
-
-    // Add 8 or 16 to gp_fp_offset register
-    Value *new_gp_fp_offset = dup_value(gp_fp_offset);
-    new_gp_fp_offset->vreg = ++function->vreg_count;
-    Value *size = new_integral_constant(TYPE_INT, gp_count * 8 + fp_count * 16);
-    size->type->is_unsigned = 1;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_fp_offset, gp_fp_offset, size);
+        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, gp_count ? gp_ptr : fp_ptr, 0);
 
-    // Write new gp offset back to va_list
-    int offset = gp_count ? 0 : 4; // gp_offset or fp_offset
-    ir = write_to_va_list(function, ir, va_list, new_gp_fp_offset, offset);
+    // Advance the offsets
+    if (gp_count) ir = add_function_va_arg_offset_increment(function, ir, va_list, gp_offset, gp_count * 8, 0);
+    if (fp_count) ir = add_function_va_arg_offset_increment(function, ir, va_list, fp_offset, fp_count * 16, 4);
 
     return ir;
 }
@@ -1172,7 +1198,7 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
     Value *overflow_arg_area;
     ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 8, &overflow_arg_area);
 
-    if (type->type == TYPE_LONG_DOUBLE) {
+    if (get_type_alignment(type) > 8) {
         // Align overflow arg area to 16 byte boundary, by adding 15 then anding with ~15
 
         Value *long_overflow_arg_area = dup_value(overflow_arg_area);
@@ -1195,7 +1221,7 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
         // Copy memory for struct/union
         Value *memcpy_overflow_arg_area = dup_value(overflow_arg_area);
         memcpy_overflow_arg_area->is_lvalue = 1;
-        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, size);
+        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, get_type_size(type));
     }
     else
         // Read a scalar value from a pointer
@@ -1234,11 +1260,12 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     // Determine how many gp and fp registers are needed
     int gp_count = 0; // Integer registers
     int fp_count = 0; // SSE registers
+    FunctionParamLocations *fpl = 0;
 
     if (type->type == TYPE_STRUCT_OR_UNION) {
         FunctionParamAllocation *fpa = init_function_param_allocaton("vararg struct");
         add_function_param_to_allocation(fpa, type);
-        FunctionParamLocations *fpl = fpa->param_locations->elements[0];
+        fpl = fpa->param_locations->elements[0];
 
         if (fpl->locations[0].stack_offset != -1) {
             // It's on the stack
@@ -1248,10 +1275,12 @@ static void process_function_va_arg(Function *function, Tac *ir) {
 
         // The arg can be in registers. Although it might end up on the stack
         // if registers have run out.
-        else if (fpl->locations[0].int_register != -1)
-            gp_count = fpl->count;
-        else
-            fp_count = fpl->count;
+        for (int loc = 0; loc < fpl->count; loc++) {
+            if (fpl->locations[loc].int_register != -1)
+                gp_count++;
+            else
+                fp_count++;
+        }
     }
     else {
         // A scalar arg is either in int (gp) or sse (fp) registers
@@ -1263,11 +1292,13 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     Value *fetch_from_stack = new_label_dst();
 
     // Check if the arg is in the register save area or on stack
-    Value *gp_fp_offset;
-    ir = add_function_va_arg_in_register_check(function, ir, type, va_list, gp_count, fp_count, fetch_from_stack, &gp_fp_offset);
+    Value *gp_offset = 0;
+    Value *fp_offset = 0;
+    if (gp_count) ir = add_function_va_arg_in_register_check(function, ir, type, va_list, gp_count, 0, fetch_from_stack, &gp_offset);
+    if (fp_count) ir = add_function_va_arg_in_register_check(function, ir, type, va_list, 0, fp_count, fetch_from_stack, &fp_offset);
 
     // Read from register save area & jump to the done label
-    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, gp_count, fp_count, gp_fp_offset, dst);
+    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, gp_count, fp_count, gp_offset, fp_offset, fpl, dst);
     ir = insert_instruction_after_from_operation(ir, IR_JMP, 0, ldone, 0);
 
     // Add fetch_from_stack label
diff --git a/parser.c b/parser.c
index 69cab1f..188ab65 100644
--- a/parser.c
+++ b/parser.c
@@ -2388,6 +2388,9 @@ static Value *parse_va_list() {
     if (!types_are_compatible(va_list->type, wcc_va_list_array_type) && !types_are_compatible(va_list->type, wcc_va_list_pointer_type))
         error("Expected va_list type as first argument to va_start");
 
+    // An array reached through a pointer is in a register as the address of its first element
+    if (va_list->vreg && va_list->type->type == TYPE_ARRAY) va_list = load(va_list);
+
     return va_list;
 }
 
@@ -2447,6 +2450,7 @@ static void parse_va_arg() {
 
     else if (type->type == TYPE_STRUCT_OR_UNION) {
         dst->local_index = new_local_index();
+        dst->is_lvalue = 1;
         add_parser_instruction(IR_DECL_LOCAL_COMP_OBJ, 0, dst, 0);
     }
 
-- 
2.43.0


From 31ce1df1fbd974f13f9fd96a74cf1c3dcf786399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 25/65] fix: constant expressions have the type and value of
 the same expression at run time

Arithmetic is done in the result type, shifts are typed by the left operand,
comparisons and logical operators give an int, floating point values are rounded
to their type, mixed operands are converted, unevaluated operands may divide by
zero and preprocessor conditions use a separate flag for their long constants.
---
 constexpr.c | 169 +++++++++++++++++++++++++++++++++++-----------------
 cpp.c       |   4 +-
 instrsel.c  |   4 +-
 lexer.c     |   8 ++-
 parser.c    |  14 +++--
 wcc.h       |   3 +-
 6 files changed, 137 insertions(+), 65 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index fd3aff6..0e28505 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -4,7 +4,7 @@
 
 #include "wcc.h"
 
-static int integers_are_longs;
+static int unevaluated;         // When non-zero, the expression being parsed is not evaluated
 
 static Value *indirect(Value *value) {
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
@@ -14,47 +14,56 @@ static Value *indirect(Value *value) {
     return value;
 }
 
-Value *evaluate_const_unary_int_operation(int operation, Value *value) {
-    long r;
-
-         if (operation == IR_BNOT) r = ~value->int_value;
-    else if (operation == IR_LNOT) r = !value->int_value;
-    else if (operation == IR_ADD)  r = +value->int_value;
-    else if (operation == IR_SUB)  r = -value->int_value;
-    else return 0;
+// Make a constant of an integer type, wrapping the value to the size of the type
+static Value *new_wrapped_integral_constant(Type *type, long value) {
+    Value *v = new_integral_constant(type->type, value);
+    v->type->is_unsigned = type->is_unsigned;
 
-    // Perform integer promotions everywhere except for logical not,
-    Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : integer_promote_type(value->type);
-    v->type->is_unsigned = value->type->is_unsigned;
-    v->is_constant = 1;
-    v->int_value = r;
+    if (type->type == TYPE_INT) v->int_value = type->is_unsigned ? (long) (unsigned int) value : (long) (int) value;
 
     return v;
 }
 
-Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
-    int is_int;
-    unsigned int i;
-    long double ld;
+Value *evaluate_const_unary_int_operation(int operation, Value *value) {
+    // The result of a logical not is an int
+    if (operation == IR_LNOT) return new_integral_constant(TYPE_INT, !value->int_value);
+
+    Type *type = integer_promote_type(value->type);
 
-         if (operation == IR_LNOT) { is_int = 1; i = !value->fp_value; }
-    else if (operation == IR_ADD)  { is_int = 0; ld = +value->fp_value; }
-    else if (operation == IR_SUB)  { is_int = 0; ld = -value->fp_value; }
+         if (operation == IR_BNOT) return new_wrapped_integral_constant(type, ~value->int_value);
+    else if (operation == IR_ADD)  return new_wrapped_integral_constant(type, +value->int_value);
+    else if (operation == IR_SUB)  return new_wrapped_integral_constant(type, -value->int_value);
     else return 0;
+}
+
+Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
+    // The result of a logical not is an int
+    if (operation == IR_LNOT) return new_integral_constant(TYPE_INT, !value->fp_value);
 
-    // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : value->type;
+    v->type = value->type;
     v->is_constant = 1;
-    if (is_int) v->int_value = i; else v->fp_value = ld;
+
+         if (operation == IR_ADD)  v->fp_value = +value->fp_value;
+    else if (operation == IR_SUB)  v->fp_value = -value->fp_value;
+    else return 0;
 
     return v;
 }
 
 Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2) {
-    int is_unsigned = src1->type->is_unsigned;
-    int is_long = src1->type->type == TYPE_LONG || src2->type->type == TYPE_LONG;
+    int is_shift = operation == IR_BSHL || operation == IR_BSHR || operation == IR_ASHR;
+    int is_logical = operation == IR_LAND || operation == IR_LOR;
+
+    // The type of a shift only depends on the left operand. The operands of && and || aren't converted.
+    Type *type;
+    if (is_shift && is_integer_type(src1->type))
+        type = integer_promote_type(src1->type);
+    else
+        type = operation_type(src1, src2, 0);
+
+    int is_unsigned = type->is_unsigned;
+    int is_long = is_logical || type->type != TYPE_INT;
 
     int ui =  is_unsigned && !is_long;
     int ul =  is_unsigned &&  is_long;
@@ -73,17 +82,21 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
 
     unsigned long r = 0;
 
-    int divisor = ui ? s2ui : ul ? s2ul : si ? s2si : s2sl;
+    long divisor = ui ? s2ui : ul ? s2ul : si ? s2si : s2sl;
     if (operation == IR_DIV && divisor == 0) error("Division by zero");
     if (operation == IR_MOD && divisor == 0) error("Modulus by zero");
 
+    // Avoid an overflow when dividing the lowest value by minus one
+    if ((operation == IR_DIV || operation == IR_MOD) && (si || sl) && divisor == -1)
+        return new_wrapped_integral_constant(type, operation == IR_DIV ? -s1ul : 0);
+
          if (operation == IR_ADD ) { if (ui) r = s1ui +  s2ui; else if (ul) r = s1ul +  s2ul; else if (si) r = s1si +  s2si; else if (sl) r = s1sl +  s2sl; }
     else if (operation == IR_SUB ) { if (ui) r = s1ui -  s2ui; else if (ul) r = s1ul -  s2ul; else if (si) r = s1si -  s2si; else if (sl) r = s1sl -  s2sl; }
     else if (operation == IR_MUL ) { if (ui) r = s1ui *  s2ui; else if (ul) r = s1ul *  s2ul; else if (si) r = s1si *  s2si; else if (sl) r = s1sl *  s2sl; }
     else if (operation == IR_DIV ) { if (ui) r = s1ui /  s2ui; else if (ul) r = s1ul /  s2ul; else if (si) r = s1si /  s2si; else if (sl) r = s1sl /  s2sl; }
     else if (operation == IR_MOD ) { if (ui) r = s1ui %  s2ui; else if (ul) r = s1ul %  s2ul; else if (si) r = s1si %  s2si; else if (sl) r = s1sl %  s2sl; }
-    else if (operation == IR_LAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul && s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl && s2sl; }
-    else if (operation == IR_LOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul || s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl || s2sl; }
+    else if (operation == IR_LAND) { r = s1ul && s2ul; }
+    else if (operation == IR_LOR ) { r = s1ul || s2ul; }
     else if (operation == IR_BAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul &  s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl &  s2sl; }
     else if (operation == IR_BOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul |  s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl |  s2sl; }
     else if (operation == IR_XOR ) { if (ui) r = s1ui ^  s2ui; else if (ul) r = s1ul ^  s2ul; else if (si) r = s1si ^  s2si; else if (sl) r = s1sl ^  s2sl; }
@@ -98,13 +111,18 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     else if (operation == IR_GE  ) { if (ui) r = s1ui >= s2ui; else if (ul) r = s1ul >= s2ul; else if (si) r = s1si >= s2si; else if (sl) r = s1sl >= s2sl; }
     else return 0;
 
-    Value *v = new_value();
-    v->type = operation_type(src1, src2, 0);
-    v->type->is_unsigned = is_unsigned;
-    v->is_constant = 1;
-    v->int_value = r;
+    // The result of comparisons and logical operations is an int
+    if (is_logical || operation == IR_EQ || operation == IR_NE || operation == IR_LT || operation == IR_GT || operation == IR_LE || operation == IR_GE)
+        return new_integral_constant(TYPE_INT, r);
 
-    return v;
+    return new_wrapped_integral_constant(type, r);
+}
+
+// Round a floating point value to the precision of its type
+static long double round_to_type(Type *type, long double value) {
+    if (type->type == TYPE_FLOAT) return (float) value;
+    else if (type->type == TYPE_DOUBLE) return (double) value;
+    else return value;
 }
 
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type) {
@@ -112,10 +130,15 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
     unsigned int i;
     long double ld;
 
-         if (operation == IR_ADD) { is_int = 0; ld = src1->fp_value +  src2->fp_value; }
-    else if (operation == IR_SUB) { is_int = 0; ld = src1->fp_value -  src2->fp_value; }
-    else if (operation == IR_MUL) { is_int = 0; ld = src1->fp_value *  src2->fp_value; }
-    else if (operation == IR_DIV) { is_int = 0; ld = src1->fp_value /  src2->fp_value; }
+    // Doubles are calculated as doubles, so that they don't get rounded twice
+    int is_double = type->type == TYPE_DOUBLE;
+    double s1d = src1->fp_value;
+    double s2d = src2->fp_value;
+
+         if (operation == IR_ADD) { is_int = 0; if (is_double) ld = s1d + s2d; else ld = src1->fp_value + src2->fp_value; }
+    else if (operation == IR_SUB) { is_int = 0; if (is_double) ld = s1d - s2d; else ld = src1->fp_value - src2->fp_value; }
+    else if (operation == IR_MUL) { is_int = 0; if (is_double) ld = s1d * s2d; else ld = src1->fp_value * src2->fp_value; }
+    else if (operation == IR_DIV) { is_int = 0; if (is_double) ld = s1d / s2d; else ld = src1->fp_value / src2->fp_value; }
     else if (operation == IR_EQ ) { is_int = 1; i =  src1->fp_value == src2->fp_value; }
     else if (operation == IR_NE ) { is_int = 1; i =  src1->fp_value != src2->fp_value; }
     else if (operation == IR_LT ) { is_int = 1; i =  src1->fp_value <  src2->fp_value; }
@@ -127,7 +150,7 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
     Value *v = new_value();
     v->type = is_int ? new_type(TYPE_INT) : type;
     v->is_constant = 1;
-    if (is_int) v->int_value = i; else v->fp_value = ld;
+    if (is_int) v->int_value = i; else v->fp_value = round_to_type(type, ld);
 
     return v;
 }
@@ -148,9 +171,8 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     dst->string_literal_index = src->string_literal_index;
 
     // FP -> FP
-    // Don't bother changing precision
     if (is_floating_point_type(src_type) && is_floating_point_type(dst_type)) {
-        dst->fp_value = src->fp_value;
+        dst->fp_value = round_to_type(dst_type, src->fp_value);
         return dst;
     }
 
@@ -182,6 +204,9 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     if (is_floating_point_type(dst_type) && !is_floating_point_type(src_type)) {
         if (src_type->is_unsigned) dst->fp_value = (unsigned long) src->int_value;
         else dst->fp_value = src->int_value;
+
+        dst->fp_value = round_to_type(dst_type, dst->fp_value);
+        return dst;
     }
 
     // Implicit else: integer -> integer
@@ -199,6 +224,11 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     return dst;
 }
 
+// Is the value of a constant zero?
+static int is_zero(Value *value) {
+    return is_floating_point_type(value->type) ? !value->fp_value : !value->int_value;
+}
+
 static Value *parse_unary_expression(int operation) {
     next();
     Value *value = parse_constant_expression(TOK_INC);
@@ -219,7 +249,7 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
     Value *result;
 
     if (operation == IR_ADD) {
-        int arithmetic_value;
+        long arithmetic_value;
         if (is_pointer_type(value1->type)) {
             result = dup_value(value1);
             arithmetic_value = value2->int_value;
@@ -229,7 +259,7 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
             arithmetic_value = value1->int_value;
         }
 
-        int size = arithmetic_value * get_type_size(result->type->target);
+        long size = arithmetic_value * get_type_size(result->type->target);
 
         if (result->is_address_of || result->is_string_literal)
             result->address_of_offset += size;
@@ -244,13 +274,13 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
             if (value1->global_symbol != value2->global_symbol)
                 error("Operand mismatch in constant pointer subtraction");
 
-            int difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
+            long difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
             result = new_integral_constant(TYPE_LONG, difference / size);
 
         }
         else {
             result = dup_value(value1);
-            int size =  value2->int_value * get_type_size(result->type->target);
+            long size = value2->int_value * get_type_size(result->type->target);
             if (result->is_address_of || result->is_string_literal)
                 result->address_of_offset -= size;
             else
@@ -263,27 +293,58 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
 
 static Value *parse_binary_expression(int operation, int second_level, Value *value1) {
     next();
+
+    int is_logical = operation == IR_LAND || operation == IR_LOR;
+    int short_circuits = value1->is_constant && (operation == IR_LAND && is_zero(value1) || operation == IR_LOR && !is_zero(value1));
+
+    if (short_circuits) unevaluated++;
     Value *value2 = parse_constant_expression(second_level);
+    if (short_circuits) unevaluated--;
+
     check_binary_operation_types(operation, value1, value2);
 
     if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
         return parse_address_plus_minus(operation, value1, value2);
 
+    // The operands of && and || aren't converted to a common type
+    if (is_logical && value1->is_constant && value2->is_constant)
+        return new_integral_constant(TYPE_INT, operation == IR_LAND ? !is_zero(value1) && !is_zero(value2) : !is_zero(value1) || !is_zero(value2));
+
+    // A division by zero only matters if it's evaluated
+    if (unevaluated && (operation == IR_DIV || operation == IR_MOD) && is_integer_type(value2->type) && !value2->int_value)
+        value2 = cast_constant_value(new_integral_constant(TYPE_INT, 1), value2->type);
+
     Type *result_type = operation_type(value1, value2, 0);
-    if (is_floating_point_type(result_type))
+    if (is_floating_point_type(result_type)) {
+        value1 = cast_constant_value(value1, result_type);
+        value2 = cast_constant_value(value2, result_type);
         return evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
+    }
     else
         return evaluate_const_binary_int_operation(operation, value1, value2);
 }
 
 static Value *parse_ternary(Value *value) {
     next();
-    int which = is_floating_point_type(value->type) ? !!value->fp_value : !!value->int_value;
+    int which = !is_zero(value);
+
+    if (!which) unevaluated++;
     Value *value1 = parse_constant_expression(TOK_TERNARY);
+    if (!which) unevaluated--;
+
     consume(TOK_COLON, ":");
+
+    if (which) unevaluated++;
     Value *value2 = parse_constant_expression(TOK_TERNARY);
+    if (which) unevaluated--;
+
     check_ternary_operation_types(value, value1, value2);
-    return which ? value1 : value2;
+
+    Value *result = which ? value1 : value2;
+    if (result->is_constant && is_arithmetic_type(value1->type) && is_arithmetic_type(value2->type))
+        result = cast_constant_value(result, operation_type(value1, value2, 1));
+
+    return result;
 }
 
 // Parse a constant expression using top-down precedence climbing parsing
@@ -347,7 +408,8 @@ Value *parse_constant_expression(int level) {
             break;
 
         case TOK_INTEGER:
-            value = new_integral_constant(integers_are_longs ? TYPE_LONG : cur_lexer_type->type, cur_long);
+            value = new_integral_constant(cur_lexer_type->type, cur_long);
+            value->type->is_unsigned = cur_lexer_type->is_unsigned;
             next();
             break;
 
@@ -386,6 +448,7 @@ Value *parse_constant_expression(int level) {
         case TOK_SIZEOF: {
             int size = parse_sizeof(parse_constant_expression);
             value = new_integral_constant(TYPE_LONG, size);
+            value->type->is_unsigned = 1;
             break;
         }
 
@@ -472,9 +535,7 @@ Value *parse_constant_expression(int level) {
     return value;
 }
 
-Value *parse_constant_integer_expression(int all_longs) {
-    integers_are_longs = all_longs;
-
+Value *parse_constant_integer_expression(void) {
     Value *value = parse_constant_expression(TOK_EQ);
     if (!value->is_constant) error("Expected a constant expression");
     if (!is_integer_type(value->type)) error("Expected an integer constant expression");
diff --git a/cpp.c b/cpp.c
index eea0b5a..0b1cb6b 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1533,8 +1533,10 @@ static long parse_conditional_expression() {
 
     char *data = rendered->data;
     free_string_buffer(rendered, 0);
+    integer_constants_are_longs = 1;
     init_lexer_from_string(data);
-    Value *value = parse_constant_integer_expression(1);
+    Value *value = parse_constant_integer_expression();
+    integer_constants_are_longs = 0;
     wfree(data);
     free_lexer();
 
diff --git a/instrsel.c b/instrsel.c
index 5e7e6c0..27d30bf 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -640,9 +640,9 @@ static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Val
     if (!value)
         return 0;
     else if (is_floating_point_type(value->type))
-        merge_cst_fp_node(igraph, node_id, type, value->fp_value);
+        return merge_cst_fp_node(igraph, node_id, type, value->fp_value);
     else
-        merge_cst_int_node(igraph, node_id, value->int_value, 0);
+        return merge_cst_int_node(igraph, node_id, value->int_value, 0);
 }
 
 static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
diff --git a/lexer.c b/lexer.c
index 4af81b8..c4d1be1 100644
--- a/lexer.c
+++ b/lexer.c
@@ -92,7 +92,7 @@ static void skip_whitespace(void) {
 // See http://port70.net/~nsz/c/c99/n1256.html#6.4.4.1p5
 static void finish_integer_constant(int is_decimal) {
     char *i = input;
-    int is_long = 0;
+    int is_long = integer_constants_are_longs;
     int is_unsigned = 0;
 
     while (1) {
@@ -157,7 +157,11 @@ void lex_non_hex_literal(void) {
 
         int type = TYPE_DOUBLE;
         if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; }
-        if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+        else if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+
+        // Round to the precision of the type
+        if (type == TYPE_FLOAT) cur_long_double = strtof(start + start_ip, 0);
+        else if (type == TYPE_DOUBLE) cur_long_double = strtod(start + start_ip, 0);
 
         cur_lexer_type = new_type(type);
     }
diff --git a/parser.c b/parser.c
index 188ab65..8dd3bf8 100644
--- a/parser.c
+++ b/parser.c
@@ -794,7 +794,7 @@ Type *parse_direct_declarator(void) {
 
             int size = 0;
             if (cur_token != TOK_RBRACKET) {
-                Value *v = parse_constant_integer_expression(0);
+                Value *v = parse_constant_integer_expression();
                 size = v->int_value;
             }
 
@@ -955,7 +955,7 @@ static Type *parse_struct_or_union_type_specifier(void) {
 
                     if (type->type != TYPE_INT) error("Bit fields must be integers");
 
-                    Value *v = parse_constant_integer_expression(0);
+                    Value *v = parse_constant_integer_expression();
                     int bit_field_size = v->int_value;
 
                     if (cur_type_identifier && bit_field_size == 0) error("Invalid bit field size 0 for named member");
@@ -1041,7 +1041,7 @@ static Type *parse_enum_type_specifier(void) {
             next();
             if (cur_token == TOK_EQ) {
                 next();
-                value = parse_constant_integer_expression(0)->int_value;
+                value = parse_constant_integer_expression()->int_value;
             }
 
             Symbol *s = new_symbol(parser_wstrdup(enum_value_identifier));
@@ -2649,7 +2649,10 @@ static void parse_expression(int level) {
             check_unary_operation_type(IR_LNOT, vtop());
 
             if (vtop()->is_constant)
-                push_integral_constant(TYPE_INT, !pop()->int_value);
+                {
+                Value *v = pop();
+                push_integral_constant(TYPE_INT, is_floating_point_type(v->type) ? !v->fp_value : !v->int_value);
+            }
             else {
                 push_integral_constant(TYPE_INT, 0);
                 arithmetic_operation(IR_EQ, new_type(TYPE_INT));
@@ -2877,6 +2880,7 @@ static void parse_expression(int level) {
 
         case TOK_SIZEOF:
             push_integral_constant(TYPE_LONG, parse_sizeof(parse_unevaluated_expression_and_pop));
+            vtop()->type->is_unsigned = 1;
             break;
 
         default:
@@ -3183,7 +3187,7 @@ static void parse_case_statement(void) {
 
     if (!controlling_case_value) error("Case label not within a switch statement");
 
-    Value *v = parse_constant_integer_expression(0);
+    Value *v = parse_constant_integer_expression();
 
     long value = controlling_case_value->type->type == TYPE_INT
         ? (int) v->int_value
diff --git a/wcc.h b/wcc.h
index 0f5649c..6e8d2a4 100644
--- a/wcc.h
+++ b/wcc.h
@@ -739,6 +739,7 @@ int sse_arg_registers[8];
 FILE *f; // Output file handle
 
 int warn_integer_constant_too_large;
+int integer_constants_are_longs;           // In a preprocessor expression, all integers are longs
 int warn_assignment_types_incompatible;
 int debug_function_param_allocation;
 int debug_function_arg_mapping;
@@ -990,7 +991,7 @@ Value* evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type);
 Value *cast_constant_value(Value *src, Type *type);
 Value *parse_constant_expression(int level);
-Value *parse_constant_integer_expression(int all_longs);
+Value *parse_constant_integer_expression(void);
 
 // scopes.c
 Scope *global_scope;
-- 
2.43.0


From 99367f811b4cde4fe39cd6ded3e1a3d326de32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 26/65] fix: constants merged in the wrong width, xmm0
 overwritten by constant moves to long doubles, address constants

Nested constant operations in instruction selection are calculated in the type of
the operation. Unsigned constants from 0x10000 don't match 16 bit rules. Static
initializers keep the offset into an array, offsets from a null pointer and in
string literals, and must be constant. A cast between signed and unsigned
constants changes the type.
---
 codegen.c    |  2 +-
 constexpr.c  | 50 +++++++++++++++++++++++++++++++++++++++++++-------
 instrrules.c |  4 ++--
 instrsel.c   | 17 ++++++++++-------
 instrutil.c  |  2 +-
 parser.c     |  3 ++-
 wcc.h        |  1 +
 7 files changed, 60 insertions(+), 19 deletions(-)

diff --git a/codegen.c b/codegen.c
index 6b842bb..2450985 100644
--- a/codegen.c
+++ b/codegen.c
@@ -806,7 +806,7 @@ static void output_symbol(Symbol *symbol) {
 
             Initializer *in = (Initializer *) symbol->initializers->elements[i];
 
-            if (in->is_address_of || in->symbol) {
+            if ((in->is_address_of || in->symbol) && !in->is_string_literal) {
                 if (in->address_of_offset)
                     fprintf(f,"    .quad    %s + %d\n", in->symbol->global_identifier, in->address_of_offset);
                 else
diff --git a/constexpr.c b/constexpr.c
index 0e28505..0ad6916 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -6,10 +6,35 @@
 
 static int unevaluated;         // When non-zero, the expression being parsed is not evaluated
 
+// Convert an array to a pointer to its first element
+static void decay_constant_array(Value *value) {
+    if (value->type->type != TYPE_ARRAY) return;
+
+    value->type = decay_array_to_pointer(value->type);
+    if (value->is_constant) {
+        value->int_value += value->address_of_offset;
+        value->address_of_offset = 0;
+    }
+    else if (!value->is_string_literal)
+        value->is_address_of = 1;
+}
+
+// The value of a variable isn't constant, only its address is. The offset to a member or element is still
+// accepted, e.g. (void *) &ps->member - (void *) ps, but not in an initializer.
+static void check_address_is_constant(Value *value) {
+    if (value->type->type == TYPE_PTR && !value->is_constant && !value->is_address_of && !value->is_string_literal)
+        value->is_variable_address = 1;
+}
+
 static Value *indirect(Value *value) {
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
+    check_address_is_constant(value);
+
+    // Dereferencing a pointer to a function has no effect
+    if (is_pointer_to_function_type(value->type)) return value;
 
     value->type = deref_pointer(value->type);
+    value->is_address_of = 0;
 
     return value;
 }
@@ -156,17 +181,23 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
 }
 
 Value *cast_constant_value(Value *src, Type *dst_type) {
-    if (types_are_compatible(src->type, dst_type)) return src;
+    if (types_are_compatible(src->type, dst_type) && src->type->is_unsigned == dst_type->is_unsigned) return src;
+
+    if (src->type->type == TYPE_ARRAY) {
+        src = dup_value(src);
+        decay_constant_array(src);
+    }
 
     Type *src_type = src->type;
 
     Value *dst = new_value();
-    dst->is_constant = 1;
+    dst->is_constant = src->is_constant;
     dst->address_of_offset = src->address_of_offset;
     dst->int_value = src->int_value;
     dst->type = dst_type;
     dst->global_symbol = src->global_symbol;
     dst->is_address_of = src->is_address_of;
+    dst->is_variable_address = src->is_variable_address;
     dst->is_string_literal = src->is_string_literal;
     dst->string_literal_index = src->string_literal_index;
 
@@ -240,8 +271,10 @@ static Value *parse_unary_expression(int operation) {
 }
 
 static Value *parse_address_plus_minus(int operation, Value *value1, Value *value2) {
-    if (value1->is_string_literal) value1->type = decay_array_to_pointer(value1->type);
-    if (value2->is_string_literal) value2->type = decay_array_to_pointer(value2->type);
+    decay_constant_array(value1);
+    decay_constant_array(value2);
+    check_address_is_constant(value1);
+    check_address_is_constant(value2);
 
     if (operation == IR_ADD) check_plus_operation_type(value1, value2, 0);
     else if (operation == IR_SUB) check_minus_operation_type(value1, value2);
@@ -376,11 +409,12 @@ Value *parse_constant_expression(int level) {
                 error("Illegal operand to & in constant expression");
 
             if (value->is_constant) {
+                // The address of a member of e.g. (struct s *) 0 is a constant
                 value->int_value += value->address_of_offset;
-                value->is_constant = 0;
+                value->address_of_offset = 0;
             }
-
-            value->is_address_of = 1;
+            else
+                value->is_address_of = 1;
 
             // Hacky horror, only create a pointer unless it's already a pointer to a function
             if (!is_pointer_to_function_type(value->type))
@@ -465,6 +499,7 @@ Value *parse_constant_expression(int level) {
 
                 if (value->type->type != TYPE_PTR && value->type->type != TYPE_ARRAY)
                     error("Invalid operator [] on a non-pointer and non-array");
+                check_address_is_constant(value);
 
                 Value *subscript_value = parse_constant_expression(TOK_COMMA);
                 consume(TOK_RBRACKET, "]");
@@ -474,6 +509,7 @@ Value *parse_constant_expression(int level) {
 
                 value->address_of_offset += get_type_size(value->type->target) * subscript_value->int_value;
                 value->type = value->type->target;
+                value->is_address_of = 0;
 
                 break;
 
diff --git a/instrrules.c b/instrrules.c
index 0a64f64..c6d677a 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -590,8 +590,8 @@ static void add_float_and_double_move_rules(void) {
     add_sse_to_ulong_move_rule(CS4, "sd");
 
     // SSE Constant -> LD
-    add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm0", "movss %%xmm0, %vd", "flds %v1");
-    add_sse_constant_to_ld_move_rule(CS4, TYPE_DOUBLE, "movsd %v1D, %%xmm0", "movsd %%xmm0, %vd", "fldl %v1");
+    add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm14", "movss %%xmm14, %vd", "flds %v1");
+    add_sse_constant_to_ld_move_rule(CS4, TYPE_DOUBLE, "movsd %v1D, %%xmm14", "movsd %%xmm14, %vd", "fldl %v1");
 
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
diff --git a/instrsel.c b/instrsel.c
index 27d30bf..5a673fa 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -608,13 +608,16 @@ static Value *merge_cst_node(IGraph *igraph, int node_id, Value *v) {
     return v;
 }
 
-static Value *merge_cst_int_node(IGraph *igraph, int node_id, long constant_value, int is_unsigned) {
+// The constant in the tree is a long, so that it matches rules by its value. The returned value has the type of the
+// operation, since it might be the operand of another constant operation.
+static Value *merge_cst_int_node(IGraph *igraph, int node_id, Value *value) {
     Value *v = new_value();
     v->type = new_type(TYPE_LONG);
-    v->type->is_unsigned = is_unsigned;
+    v->type->is_unsigned = value->type->is_unsigned;
     v->is_constant = 1;
-    v->int_value = constant_value;
-    return merge_cst_node(igraph, node_id, v);
+    v->int_value = value->int_value;
+    merge_cst_node(igraph, node_id, v);
+    return value;
 }
 
 static Value *merge_cst_fp_node(IGraph *igraph, int node_id, Type *type, long double constant_value) {
@@ -631,7 +634,7 @@ static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation
     if (!value)
         return 0;
     else
-        return merge_cst_int_node(igraph, node_id, value->int_value, value->type->is_unsigned);
+        return merge_cst_int_node(igraph, node_id, value);
 }
 
 static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2, Type *type) {
@@ -642,7 +645,7 @@ static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Val
     else if (is_floating_point_type(value->type))
         return merge_cst_fp_node(igraph, node_id, type, value->fp_value);
     else
-        return merge_cst_int_node(igraph, node_id, value->int_value, 0);
+        return merge_cst_int_node(igraph, node_id, value);
 }
 
 static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
@@ -668,7 +671,7 @@ static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
     if (!src1 || !cst1) return 0;
 
     // Unary operations
-    if (operation == IR_BNOT) return merge_cst_int_node(igraph, node_id, ~src1->int_value, src1->type->is_unsigned);
+    if (operation == IR_BNOT) return merge_cst_int_node(igraph, node_id, evaluate_const_unary_int_operation(operation, src1));
 
     // Binary operations
     int cst2 = cst1 && (src2 && src2->is_constant);
diff --git a/instrutil.c b/instrutil.c
index ff46ecf..9cd8d8a 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -379,7 +379,7 @@ int match_value_to_rule_src(Value *v, int src) {
             else if (              src == CI4 && !v->type->is_unsigned)                                                               return 1;
 
             else if (src >= CU1 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100      ) return 1;
-            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000   ) return 1;
+            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x10000    ) return 1;
             else if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000000) return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                                                    return 1;
 
diff --git a/parser.c b/parser.c
index 8dd3bf8..625f8ca 100644
--- a/parser.c
+++ b/parser.c
@@ -1771,7 +1771,7 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
     }
 
     if (scalar) {
-        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && !scalar->type->type == TYPE_ARRAY)
+        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY || scalar->is_variable_address)
             error("An initializer for an object with static storage duration must be a constant expression");
 
         if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
@@ -1817,6 +1817,7 @@ static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
         }
         else if (scalar->type->type == TYPE_ARRAY) {
             in->symbol = scalar->global_symbol;
+            in->address_of_offset = scalar->address_of_offset;
         }
         else {
             in->data = wmalloc(sizeof(long));
diff --git a/wcc.h b/wcc.h
index 6e8d2a4..38364a8 100644
--- a/wcc.h
+++ b/wcc.h
@@ -318,6 +318,7 @@ typedef struct value {
     int bit_field_size;                                  // Size in bits for bit fields
     int is_overflow_arg_area_address;                    // Set to indicate this value must point to the saved register save overflow for variadic functions
     Symbol *function_symbol;                             // Corresponding symbol in the case of a function call
+    unsigned int is_variable_address:1;                  // Is an address relative to the value of a variable, in a constant expression.
     int address_of_offset;                               // Offset when used in combination with is_address_of
     int live_range_preg;                                 // This value is bound to a physical register
     int function_param_original_stack_index;             // Original stack index for function parameter pushed onto the stack
-- 
2.43.0


From 6cb84e0006a5eb7fa478c58d489f344eee5b0619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 27/65] fix: zero an automatic array each time its declaration
 is reached, not only at function entry

For objects of 32 bytes and more the memset call was added at the start of the
function's instructions, so initialized arrays in loops kept stale elements.
---
 ir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ir.c b/ir.c
index 00ca364..21201be 100644
--- a/ir.c
+++ b/ir.c
@@ -1197,6 +1197,7 @@ void add_zero_memory_instructions(Function *function) {
         }
         else {
             // Call memset
+            Tac *ir = tac;
             int function_call_count = make_function_call_count(function);
 
             // Add start call instruction
-- 
2.43.0


From 249b81d2e09fa6f219dc198dd6ac0814eec870a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 28/65] fix: add the missing rules for pointers to long double

Comparing, testing, passing on the stack, returning from calls and taking the
address of long double lvalues through pointers failed to compile.
---
 instrrules.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index c6d677a..d2437c4 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -874,6 +874,7 @@ static void add_pointer_rules(int *ntc) {
     r = add_rule(XRP, IR_ADDRESS_OF, RP2,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP3,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    r = add_rule(RP5, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(RP5, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
 
@@ -996,6 +997,28 @@ static void add_int_comparison_rules(int *ntc, int is_unsigned, int src1, int sr
     add_int_comp_assignment_rules(is_unsigned, src1, src2, template);
 }
 
+// Add comparison rules for all pairs of pointers to objects. All pairs share the same non terminals, one per operation.
+static void add_pointer_comparison_rules(int *ntc, char *template) {
+    static int operations[] = {IR_EQ, IR_NE, IR_LT, IR_GT, IR_LE, IR_GE}; // Same order as in add_int_comp_cond_jmp_rules
+    int first_ntc = *ntc + 1;
+
+    for (int src1 = RP1; src1 <= RP5; src1++) {
+        for (int src2 = RP1; src2 <= RP5; src2++) {
+            if (src1 == RP1 && src2 == RP1)
+                add_int_comp_cond_jmp_rules(ntc, 1, src1, src2, template);
+            else {
+                for (int i = 0; i < 6; i++) {
+                    Rule *r = add_rule(first_ntc + i, operations[i], src1, src2, 10);
+                    add_op(r, X_CMP, 0, SRC1, SRC2, template);
+                    fin_rule(r);
+                }
+            }
+
+            add_int_comp_assignment_rules(1, src1, src2, template);
+        }
+    }
+}
+
 static void add_long_double_comparison_instructions(Rule *r, int src1, int src2, char *src1_template, char *src2_template, char *template, int src1_first) {
     if (src1_first) {
         add_op(r, X_MOVC, 0, SRC1, 0, src1_template);
@@ -1612,6 +1635,7 @@ void define_rules(void) {
     r = add_rule(XRI,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RPF,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
@@ -1623,7 +1647,9 @@ void define_rules(void) {
     r = add_rule(XRU,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
@@ -1682,6 +1708,7 @@ void define_rules(void) {
     r = add_rule(0, IR_ARG, CI4, RP2, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RP3, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RP4, 2);                                                          add_int_function_call_arg_op(r);
+    r = add_rule(0, IR_ARG, CI4, RP5, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RPF, 2);                                                          add_int_function_call_arg_op(r);
 
     // Long double return rules
@@ -1710,10 +1737,12 @@ void define_rules(void) {
 
     add_conditional_zero_jump_rule(IR_JZ,  XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JNZ, XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
 
@@ -1731,9 +1760,7 @@ void define_rules(void) {
 
     // Comparision + conditional jump rules
     // Pointer comparisons are unsigned
-    for (int i = 0; i < 4; i++)
-        for (int j = 0; j < 4; j++)
-            add_int_comparison_rules(&ntc, 1, RP1 + i, RP1 + j, cmpq_vv);
+    add_pointer_comparison_rules(&ntc, cmpq_vv);
 
     add_int_comparison_rules(&ntc, 1, RPF, RPF, "cmpq %v2q, %v1q");
 
@@ -1743,14 +1770,19 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 0, XRI, XMI, cmp_vv);             add_int_comparison_rules(&ntc, 1, XRU, XMU, cmp_vv);
     add_int_comparison_rules(&ntc, 0, XMI, XRI, cmp_vv);             add_int_comparison_rules(&ntc, 1, XMU, XRU, cmp_vv);
     add_int_comparison_rules(&ntc, 1, RI4, XRP, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, XRP, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RI4, RP5, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, RP5, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, RU4, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP5, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RP5, RU4, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, CI3, cmpq_vc);            add_int_comparison_rules(&ntc, 1, XRP, CU2, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, RP5, CI3, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RP5, CU2, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, RPF, CI3, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RPF, CU2, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, MPF, CI3, cmpq_vc);            add_int_comparison_rules(&ntc, 1, MPF, CU2, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, RPF, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RPF, RU4, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, XMI, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, XMU, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP5, XMI, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RP5, XMU, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, RI4, MPV, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, MPV, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XMI, XRP, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XMU, XRP, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, XMI, RP5, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XMU, RP5, cmpq_vv);
     add_int_comparison_rules(&ntc, 0, RI1, CI1, "cmpb $%v2b, %v1b"); add_int_comparison_rules(&ntc, 1, RU1, CU1, "cmpb $%v2b, %v1b");
     add_int_comparison_rules(&ntc, 0, RI2, CI2, "cmpw $%v2w, %v1w"); add_int_comparison_rules(&ntc, 1, RU2, CU2, "cmpw $%v2w, %v1w");
     add_int_comparison_rules(&ntc, 0, RI3, CI3, "cmpl $%v2l, %v1l"); add_int_comparison_rules(&ntc, 1, RU3, CU3, "cmpl $%v2l, %v1l");
-- 
2.43.0


From 73c040f3c97073889f6dcb61b4324d4883a6e389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 29/65] fix: initialize aggregates with strings, bit-fields and
 nested objects correctly

String literals inside aggregates that were longer or shorter than their array
overwrote what follows, unnamed bit-fields consumed initializers, bit-fields
overwrote members sharing their bytes, and incomplete array typedefs shared a
size between objects.
---
 parser.c | 428 +++++++++++++++++++++++++++----------------------------
 1 file changed, 210 insertions(+), 218 deletions(-)

diff --git a/parser.c b/parser.c
index 625f8ca..749ac83 100644
--- a/parser.c
+++ b/parser.c
@@ -40,7 +40,6 @@ static List *allocated_sets;  // Allocated Set instances
 
 static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
-static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
 void check_and_or_operation_type(Value *src1, Value *src2);
 Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
@@ -1737,279 +1736,272 @@ static void parse_simple_assignment(int enforce_const) {
     add_simple_assignment_instruction(dst, src1, enforce_const);
 }
 
-static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
-    Symbol *s = dst->global_symbol;
-    if (!s) error("Attempt to add an initializer to value without a global_symbol");
-
+// Append an initializer of a global object. Everything between it and the previous initializer is zero.
+static Initializer *append_initializer(Symbol *s, int offset, int size) {
     if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
 
-    int bf_offset;
-    int bf_bit_offset;
-    int bf_bit_size;
-    determine_bit_field_params(dst, &bf_offset, &bf_bit_offset, &bf_bit_size);
-    if (dst->bit_field_size) offset += bf_offset;
+    int end = 0;
+    if (s->initializers->length) {
+        Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+        end = prev->offset + prev->size;
+    }
+
+    if (end < offset) {
+        Initializer *zero = wcalloc(1, sizeof(Initializer));
+        zero->offset = end;
+        zero->size = offset - end;
+        append_to_list(s->initializers, zero);
+    }
 
-    Initializer *in;
-    if (dst->bit_field_size && s->initializers->length && ((Initializer *) s->initializers->elements[s->initializers->length - 1])->offset == offset)
-        // Amend previous initializer for bit field
-        in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+    Initializer *in = wcalloc(1, sizeof(Initializer));
+    in->offset = offset;
+    in->size = size;
+    append_to_list(s->initializers, in);
 
+    return in;
+}
 
-    else {
-        if (!dst->bit_field_size && s->initializers->length) {
-            Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
-            if (prev->offset + prev->size != offset) {
-                Initializer *zero = wcalloc(1, sizeof(Initializer));
-                zero->offset = prev->offset + prev->size;
-                zero->size = offset - prev->offset - prev->size;
-                append_to_list(s->initializers, zero);
-            }
+// Add the bits of a bit field, byte for byte, since any of them may be shared with other members.
+static void add_bit_field_initializer(Value *dst, int offset, Value *scalar) {
+    Symbol *s = dst->global_symbol;
+    int bit_offset = offset * 8 + (dst->bit_field_offset & 7);
+    unsigned int value = scalar->int_value;
+
+    for (int i = 0; i < dst->bit_field_size; i++, bit_offset++, value >>= 1) {
+        Initializer *in = 0;
+        if (s->initializers && s->initializers->length) {
+            in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+            if (in->offset != bit_offset / 8) in = 0;
         }
 
-        in = wcalloc(1, sizeof(Initializer));
-        append_to_list(s->initializers, in);
-    }
+        if (!in) {
+            in = append_initializer(s, bit_offset / 8, 1);
+            in->data = wcalloc(1, sizeof(char));
+        }
 
-    if (scalar) {
-        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY || scalar->is_variable_address)
-            error("An initializer for an object with static storage duration must be a constant expression");
+        *((unsigned char *) in->data) |= (value & 1) << (bit_offset & 7);
+    }
+}
 
-        if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
+static void add_initializer(Value *dst, int offset, Value *scalar) {
+    Symbol *s = dst->global_symbol;
+    if (!s) error("Attempt to add an initializer to value without a global_symbol");
 
-        size = get_type_size(dst->type);
+    if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY || scalar->is_variable_address)
+        error("An initializer for an object with static storage duration must be a constant expression");
 
-        if (scalar->type->type == TYPE_FLOAT) {
-            in->data = wmalloc(sizeof(float));
-            *((float *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_DOUBLE) {
-            in->data = wmalloc(sizeof(double));
-            *((double *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_LONG_DOUBLE) {
-            in->data = wmalloc(sizeof(long double));
-            *((long double *) in->data) = scalar->fp_value;
-        }
-        else if (dst->bit_field_size) {
-            // Bit field
-            if (!in->data) {
-                in->data = wmalloc(sizeof(int));
-                *((unsigned int *) in->data) = 0;
-            }
+    if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
 
-            unsigned int *pi = (unsigned int *) in->data;
-            unsigned int mask = bf_bit_size == 32 ? -1 : (1 << bf_bit_size) - 1;
-            unsigned int inverted_shifted_mask = ~(mask << bf_bit_offset);
-            (*pi) &= inverted_shifted_mask;
-            (*pi) |= ((scalar->int_value & mask) << bf_bit_offset);
-        }
-        else if (scalar->is_address_of) {
-            in->is_address_of = 1;
-            in->address_of_offset = scalar->address_of_offset;
-            in->is_string_literal = scalar->is_string_literal;
-            in->string_literal_index = scalar->string_literal_index;
-            in->symbol = scalar->global_symbol;
-        }
-        else if (scalar->is_string_literal) {
-            in->is_string_literal = 1;
-            in->string_literal_index = scalar->string_literal_index;
-            in->address_of_offset = scalar->address_of_offset;
-        }
-        else if (scalar->type->type == TYPE_ARRAY) {
-            in->symbol = scalar->global_symbol;
-            in->address_of_offset = scalar->address_of_offset;
-        }
-        else {
-            in->data = wmalloc(sizeof(long));
-            *((long *) in->data) = scalar->int_value;
-        }
+    if (dst->bit_field_size) {
+        add_bit_field_initializer(dst, offset, scalar);
+        return;
     }
 
-    in->size = size;
-    in->offset = offset;
+    Initializer *in = append_initializer(s, offset, get_type_size(dst->type));
+
+    if (scalar->type->type == TYPE_FLOAT) {
+        in->data = wmalloc(sizeof(float));
+        *((float *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_DOUBLE) {
+        in->data = wmalloc(sizeof(double));
+        *((double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_LONG_DOUBLE) {
+        in->data = wmalloc(sizeof(long double));
+        *((long double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->is_address_of) {
+        in->is_address_of = 1;
+        in->address_of_offset = scalar->address_of_offset;
+        in->is_string_literal = scalar->is_string_literal;
+        in->string_literal_index = scalar->string_literal_index;
+        in->symbol = scalar->global_symbol;
+    }
+    else if (scalar->is_string_literal) {
+        in->is_string_literal = 1;
+        in->string_literal_index = scalar->string_literal_index;
+        in->address_of_offset = scalar->address_of_offset;
+    }
+    else if (scalar->type->type == TYPE_ARRAY) {
+        in->symbol = scalar->global_symbol;
+        in->address_of_offset = scalar->address_of_offset;
+    }
+    else {
+        in->data = wmalloc(sizeof(long));
+        *((long *) in->data) = scalar->int_value;
+    }
 }
 
-// Initialize value with zeroes starting with offset & size.
-// Do it in increments of 8, 4, 2, 1, to minimize the amount of instructions
+// Initialize size bytes of value with zeroes starting at offset. Nothing needs to be done for objects with
+// static storage, since everything that doesn't have an initializer in them is zero.
 static void initialize_with_zeroes(Value *value, int offset, int size) {
+    if (value->global_symbol || !size) return;
+
+    Value *src1 = new_integral_constant(TYPE_INT, size);
+    Value *dst = dup_value(value);
+    dst->offset += offset;
+    add_parser_instruction(IR_ZERO, dst, src1, 0);
+}
+
+// Initialize a scalar at offset in value, or an entire struct or union. A member is present if it's in a struct or union.
+static void initialize_with_value(Value *value, Type *type, int offset, StructOrUnionMember *member, Value *src) {
+    Value *child = dup_value(value);
+    child->global_symbol = value->global_symbol;
+    child->offset = offset;
+    child->bit_field_offset = member && member->is_bit_field ? offset * 8 + (member->bit_field_offset & 7) : 0;
+    child->bit_field_size = member && member->is_bit_field ? member->bit_field_size : 0;
+    child->type = type;
+    child->is_lvalue = 1;
+
     if (value->global_symbol)
-        add_initializer(value, offset, size, 0);
-    else {
-        Value *src1 = new_integral_constant(TYPE_INT, size);
-        Value *dst = dup_value(value);
-        dst->offset += offset;
-        add_parser_instruction(IR_ZERO, dst, src1, 0);
+        add_initializer(child, offset, src);
+    else
+        add_simple_assignment_instruction(child, src, 0);
+}
+
+// Initialize the members of a struct, from the first one that isn't reached, with zeroes
+static void initialize_members_with_zeroes(Value *value, Type *type, int offset, StructOrUnionMember **pmember) {
+    for (; *pmember; pmember++) {
+        if (!(*pmember)->is_bit_field) {
+            initialize_with_zeroes(value, offset + (*pmember)->offset, get_type_size(type) - (*pmember)->offset);
+            return;
+        }
+
+        // Other bits in the same bytes may already have been initialized
+        if ((*pmember)->identifier && !value->global_symbol)
+            initialize_with_value(value, (*pmember)->type, offset + (*pmember)->offset, *pmember, new_integral_constant(TYPE_INT, 0));
     }
 }
 
-// The first member of the union is going to get initialized. If the union size is
-// larger than the size of the first member, zero the upper remainder
-static void initialize_union_with_zeroes(Value *value, int offset) {
-    int union_size = get_type_size(value->type);
-    int first_member_size = get_type_size(value->type->struct_or_union_desc->members[0]->type);
-    if (first_member_size < union_size) initialize_with_zeroes(value, offset + first_member_size, union_size - first_member_size);
+// Can an array be initialized with a string literal?
+static int is_string_literal_array(Type *type, Value *string_literal) {
+    if (type->type != TYPE_ARRAY || !string_literal->is_string_literal || string_literal->type->type != TYPE_ARRAY) return 0;
+    return type->target->type == string_literal->type->target->type;
 }
 
-// Initialize an array of chars or wchar_t with a string literal
-static TypeIterator *initialize_with_string_literal(TypeIterator *it, Value *value, Value *string_literal) {
+// Initialize an array of chars or wchar_t with a string literal. The terminating zero is only used if there's room for it.
+static void initialize_with_string_literal(Value *value, Type *type, int offset, Value *string_literal) {
     StringLiteral *sl = &(string_literals[string_literal->string_literal_index]);
+    int element_size = get_type_size(type->target);
 
-    if (sl->is_wide_char) {
-        int *int_data = (int *) sl->data;
-        int size = sl->size;
+    if (type->array_size == 0) type->array_size = sl->size;
+    int size = sl->size < type->array_size ? sl->size : type->array_size;
 
-        for (int i = 0; i < size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, int_data[i]);
-            it = parse_initializer(it, value, v);
-        }
-    }
-    else {
-        for (int i = 0; i < sl->size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, sl->data[i]);
-            it = parse_initializer(it, value, v);
-        }
+    for (int i = 0; i < size; i++) {
+        Value *v = new_integral_constant(TYPE_INT, sl->is_wide_char ? ((int *) sl->data)[i] : sl->data[i]);
+        initialize_with_value(value, type->target, offset + i * element_size, 0, v);
     }
 
-    return it;
+    initialize_with_zeroes(value, offset + size * element_size, (type->array_size - size) * element_size);
 }
 
-// Parse an initializer for a variable with automatic storage. If expression is set, it
-// is used as a initializer for a scalar value, otherwise, the expression is parsed.
-static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression) {
-    parse_expression_function_type *parse_expr = value->global_symbol
-        ? parse_constant_expression : parse_expression_and_pop;
-
-    TypeIterator *outer_it = it;
-    int initial_outer_offset = it->offset;
+// Go to the next initializer in a brace-enclosed list. Returns zero if there are none left.
+static int next_initializer(void) {
+    if (cur_token != TOK_RCURLY) consume(TOK_COMMA, ",");
+    return cur_token != TOK_RCURLY;
+}
 
-    if (cur_token == TOK_LCURLY) {
-        // Parse {...} initializer
+static Value *parse_initializer_expression(Value *value) {
+    return value->global_symbol ? parse_constant_expression(TOK_EQ) : parse_expression_and_pop(TOK_EQ);
+}
 
+// Parse and ignore an initializer without a corresponding object
+static void skip_initializer(Value *value) {
+    if (cur_token != TOK_LCURLY) parse_initializer_expression(value);
+    else {
         next();
-        if (cur_token == TOK_RCURLY) error("Empty array/struct/union initializer");
+        do skip_initializer(value); while (next_initializer());
+        consume(TOK_RCURLY, "}");
+    }
+}
 
-        // Loop over all comma separated expressions
-        while (cur_token != TOK_RCURLY) {
-            if (cur_token != TOK_LCURLY) {
-                // Scalar
-                it = parse_initializer(it, value, 0);
-            }
-            else {
-                // Sub initializer {...}
-                if (!type_iterator_done(it)) {
-                    // When encountering a {} in a sub initializer, descend down
-                    // one level from wherever the iterator currently is, and recurse.
-                    TypeIterator *child;
-                    child = type_iterator_descend(it);
-                    child->parent = 0;
-                    parse_initializer(child, value, 0);
-                    it = type_iterator_next(it); // Advance the top level iterator
-                }
-                else {
-                    // There are extraneous expressions, keep recursing and throw
-                    // everything away
-                    parse_initializer(it, value, 0);
-                }
-            }
+// Parse the initializer for the object with a type at an offset in value. If expression is set, it has already been parsed.
+// It's zeroed when it has been used.
+static void parse_object_initializer(Value *value, Type *type, int offset, StructOrUnionMember *member, Value **expression, int in_braces) {
+    int has_braces = !*expression && cur_token == TOK_LCURLY;
 
-            if (cur_token != TOK_RCURLY) consume(TOK_COMMA, ",");
-        }
-        consume(TOK_RCURLY, "}");
+    if (has_braces) {
+        next();
+        if (cur_token == TOK_RCURLY) error("Empty array/struct/union initializer");
     }
 
-    else {
-        // Initialization of a scalar value
+    if (!*expression && cur_token != TOK_LCURLY) *expression = parse_initializer_expression(value);
 
-        if (type_iterator_done(it)) {
-            // Parse and ignore any expressions if the iteration has run out
-            if (!expression) parse_expr(TOK_EQ);
-            return it;
-        }
+    int is_list = has_braces || in_braces;
 
-        Value *src;
-        int initialize_string_literal = 0;
-        Value *parsed_expression = 0;
-        if (expression)
-            src = expression;
-        else {
-            parsed_expression = parse_expr(TOK_EQ);
+    if (*expression && is_string_literal_array(type, *expression)) {
+        initialize_with_string_literal(value, type, offset, *expression);
+        *expression = 0;
+    }
 
-            if (parsed_expression->is_string_literal) {
-                it = type_iterator_dig_for_string_literal(it);
+    else if (type->type == TYPE_ARRAY) {
+        if (!is_list) error("Invalid array initializer");
 
-                initialize_string_literal =
-                    it->type->type == TYPE_ARRAY &&
-                    (it->type->target->type == TYPE_CHAR || it->type->target->type == TYPE_INT);
-                }
-        }
+        int is_incomplete = type == value->type && type->array_size == 0;
+        int element_size = get_type_size(type->target);
 
-        if (initialize_string_literal) {
-            it = initialize_with_string_literal(it, value, parsed_expression);
-            // Falls through to array size setting code
+        int i = 0;
+        int more = 1;
+        for (; more && (is_incomplete || i < type->array_size); i++) {
+            parse_object_initializer(value, type->target, offset + i * element_size, 0, expression, 1);
+            more = (is_incomplete || i + 1 < type->array_size) && next_initializer();
         }
 
-        else {
-            if (!expression) {
-                if (value->global_symbol) src = parsed_expression;
-                else src = load(parsed_expression);
-            }
+        if (is_incomplete) type->array_size = i;
+        initialize_with_zeroes(value, offset + i * element_size, (type->array_size - i) * element_size);
+    }
 
-            // Recurse to deepest scalar unless the expression is a struct, which
-            // can be assigned directly.
-            if (src->type->type != TYPE_STRUCT_OR_UNION) it = type_iterator_dig(it);
+    else if (type->type == TYPE_STRUCT_OR_UNION && (has_braces || !*expression || !types_are_compatible(type, (*expression)->type))) {
+        if (!is_list) error("Invalid struct/union initializer");
 
-            // For unions, ensure that the whole union is initialized, even if the
-            // first member is smaller than the others.
-            if (value->type->type == TYPE_STRUCT_OR_UNION && value->type->struct_or_union_desc->is_union)
-                initialize_union_with_zeroes(value, it->offset);
+        StructOrUnionMember **pmember = type->struct_or_union_desc->members;
+        int is_first = 1;
+        int more = 1;
 
-            Value *child = dup_value(value);
-            child->global_symbol = value->global_symbol;
-            child->offset = it->offset;
-            child->bit_field_offset = it->bit_field_offset;
-            child->bit_field_size = it->bit_field_size;
-            child->type = it->type;
-            child->is_lvalue = 1;
+        for (; *pmember && more; pmember++) {
+            // Unnamed bit fields aren't initialized
+            if ((*pmember)->is_bit_field && !(*pmember)->identifier) continue;
 
-            if (value->global_symbol)
-                add_initializer(child, it->offset, 0, src);
+            if (!is_first && !next_initializer()) break;
+            is_first = 0;
 
-            else
-                add_simple_assignment_instruction(child, src, 0);
+            parse_object_initializer(value, (*pmember)->type, offset + (*pmember)->offset, *pmember, expression, 1);
+            if (type->struct_or_union_desc->is_union) more = 0;
+        }
 
-            return type_iterator_next(it);
+        if (!type->struct_or_union_desc->is_union)
+            initialize_members_with_zeroes(value, type, offset, pmember);
+        else if (!is_first) {
+            // If the size is larger than the size of the first member, zero the upper remainder
+            int member_size = get_type_size(pmember[-1]->type);
+            initialize_with_zeroes(value, offset + member_size, get_type_size(type) - member_size);
         }
     }
 
-    // Complete incomplete arrays
-    if (outer_it->type->type == TYPE_ARRAY && outer_it->type->array_size == 0) {
-        if (outer_it != it) {
-            // An array was descended into, but not completed. Zero the elements first.
-            int array_element_size = get_type_size(outer_it->type->target);
-            int zeroes = array_element_size - ((it->offset - initial_outer_offset) % array_element_size);
-            if (zeroes < 0) panic_with_line_number("Got negative zeroes");
-            if (zeroes)
-                initialize_with_zeroes(value, it->offset, zeroes);
+    else if (*expression) {
+        initialize_with_value(value, type, offset, member, value->global_symbol ? *expression : load(*expression));
+        *expression = 0;
+    }
 
-            // Advance the index since the half-initialized element counts towards
-            // the array size
-            outer_it->index++;
-        }
+    else
+        parse_object_initializer(value, type, offset, member, expression, 1);
 
-        // Complete the array
-        outer_it->type->array_size = outer_it->index;
+    if (has_braces) {
+        // Parse and ignore any extraneous initializers
+        *expression = 0;
+        while (next_initializer()) skip_initializer(value);
+        consume(TOK_RCURLY, "}");
     }
+}
 
-    // If not all values where reached, set the remainder with zeroes
-    if (!type_iterator_done(it)) {
-        int outer_size = get_type_size((outer_it->type));
-        int zeroes = initial_outer_offset + outer_size - it->offset;
-        if (zeroes < 0) panic_with_line_number("Got negative zeroes");
-        if (zeroes)
-            initialize_with_zeroes(value, it->offset, zeroes);
-    }
+// Parse the initializer for a variable
+static void parse_initializer(Value *value) {
+    // The type might be shared with a typedef. If the size of an array isn't known, it's determined from the initializer.
+    if (value->type->type == TYPE_ARRAY && value->type->array_size == 0) value->type = dup_type(value->type);
 
-    return it;
+    Value *expression = 0;
+    parse_object_initializer(value, value->type, 0, 0, &expression, 0);
 }
 
 // Prepare compound assignment
@@ -2174,7 +2166,7 @@ static void parse_declaration(void) {
         if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
             error("Attempt to use an incomplete struct or union in an initializer");
 
-        parse_initializer(type_iterator(v->type), v, 0);
+        parse_initializer(v);
         symbol->type = v->type;
         if (array_declaration) array_declaration->type = v->type;
         base_type = old_base_type;
@@ -3641,7 +3633,7 @@ void parse(void) {
                     if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
                         error("Attempt to use an incomplete struct or union in an initializer");
 
-                    parse_initializer(type_iterator(v->type), v, 0);
+                    parse_initializer(v);
                     symbol->type = v->type;
                     base_type = old_base_type;
                 }
-- 
2.43.0


From 2a7b58f289fc1e07ebc90fb303b79d49bac851b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 30/65] fix: escapes in wide literals can denote values above
 255

---
 lexer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lexer.c b/lexer.c
index c4d1be1..25552f5 100644
--- a/lexer.c
+++ b/lexer.c
@@ -228,12 +228,12 @@ void lex_single_string_literal(int *size) {
             else if (i[ip + 1] >= '0' && i[ip + 1] <= '7' ) {
                 ip++;
                 lex_octal_literal();
-                data[(*size)++] = cur_long & 0xff;
+                data[(*size)++] = cur_long;
             }
             else if (i[ip + 1] == 'x' ) {
                 ip += 2;
                 lex_hex_literal();
-                data[(*size)++] = cur_long & 0xff;
+                data[(*size)++] = cur_long;
             }
             else error("Unknown \\ escape in string literal");
         }
@@ -412,7 +412,7 @@ void next(void) {
                     else if (i[ip] >= '0' && i[ip] <= '7' ) {
                         int old_cur_long = cur_long;
                         lex_octal_literal();
-                        cur_long &= 0xff;
+                        if (!is_wide_char) cur_long &= 0xff;
                         cur_long = (old_cur_long << 8) + cur_long;
                     }
                     else if (i[ip] == 'x' ) {
-- 
2.43.0


From 6a5901fe75a5906603c487b4dbbf85cd452a0522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 31/65] fix: accept declaration specifiers in any order

---
 parser.c | 50 +++++++++++++++++++++++++++++++++++---------------
 wcc.h    |  1 +
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/parser.c b/parser.c
index 749ac83..9831d37 100644
--- a/parser.c
+++ b/parser.c
@@ -440,6 +440,7 @@ static BaseType *parse_declaration_specifiers() {
     int seen_register = 0;
     int seen_static = 0;
     int seen_extern = 0;
+    int seen_typedef_specifier = 0;
 
     int seen_typedef = 0;
     int seen_struct = 0;
@@ -458,21 +459,13 @@ static BaseType *parse_declaration_specifiers() {
             case TOK_DOUBLE:   next(); seen_double++;   type = new_type(TYPE_DOUBLE); break;
             case TOK_SHORT:
                 next();
-                if (cur_token == TOK_INT) next();
                 seen_short++;
                 type = new_type(TYPE_SHORT);
                 break;
             case TOK_LONG:
                 next();
-                if (cur_token == TOK_DOUBLE)   {
-                    next();
-                    seen_long_double++;
-                    type = new_type(TYPE_LONG_DOUBLE);
-                }
-                else {
-                    type = new_type(TYPE_LONG);
-                    seen_long++;
-                }
+                seen_long++;
+                type = new_type(TYPE_LONG);
                 break;
             case TOK_STRUCT:
                 seen_struct++;
@@ -510,6 +503,7 @@ static BaseType *parse_declaration_specifiers() {
             case TOK_REGISTER: next(); seen_register++; break;
             case TOK_STATIC:   next(); seen_static++; break;
             case TOK_EXTERN:   next(); seen_extern++; break;
+            case TOK_TYPEDEF:  next(); seen_typedef_specifier++; break;
 
             case TOK_ATTRIBUTE: parse_attributes(); break;
 
@@ -517,6 +511,17 @@ static BaseType *parse_declaration_specifiers() {
         }
     }
 
+    // The specifiers of a type can be in any order
+    if (seen_short == 1 && seen_int == 1) {
+        seen_int = 0;
+        type = new_type(TYPE_SHORT);
+    }
+    if (seen_long == 1 && seen_double == 1) {
+        seen_long = seen_double = 0;
+        seen_long_double = 1;
+        type = new_type(TYPE_LONG_DOUBLE);
+    }
+
     if (seen_long == 2) seen_long = 1;
     else if (seen_long > 2) error("Too many longs in type specifier");
     if (seen_int && seen_long) {
@@ -545,7 +550,7 @@ static BaseType *parse_declaration_specifiers() {
     if (!is_integer_type && (seen_signed || seen_unsigned))
         error("Signed/unsigned can only apply to integer types");
 
-    if ((seen_auto + seen_register + seen_static + seen_extern > 1))
+    if ((seen_auto + seen_register + seen_static + seen_extern + seen_typedef_specifier > 1))
         error("Duplicate storage class specifiers");
 
     BaseType *base_type = wmalloc(sizeof(BaseType));
@@ -556,6 +561,7 @@ static BaseType *parse_declaration_specifiers() {
     if (seen_static) base_type->storage_class = SC_STATIC;
     if (seen_auto) base_type->storage_class = SC_AUTO;
     if (seen_register) base_type->storage_class = SC_REGISTER;
+    if (seen_typedef_specifier) base_type->storage_class = SC_TYPEDEF;
 
     if (seen_restrict) type->is_restrict = 1;
 
@@ -1069,10 +1075,8 @@ static Type *parse_enum_type_specifier(void) {
     return type;
 }
 
-void parse_typedef(void) {
-    next();
-
-    BaseType *base_type_with_storage_class = parse_declaration_specifiers(0);
+// Parse the declarators of a typedef and free the base type
+static void parse_typedef_declarators(BaseType *base_type_with_storage_class) {
     Type *base_type = base_type_with_storage_class->type;
 
     while (cur_token != TOK_SEMI && cur_token != TOK_EOF) {
@@ -1099,6 +1103,10 @@ void parse_typedef(void) {
     wfree(base_type_with_storage_class);
 }
 
+void parse_typedef(void) {
+    parse_typedef_declarators(parse_declaration_specifiers());
+}
+
 static void indirect(void) {
     // The stack contains an rvalue which is a pointer. All that needs doing
     // is conversion of the rvalue into an lvalue on the stack and a type
@@ -3369,6 +3377,11 @@ static void parse_statement(void) {
         base_type = parse_declaration_specifiers();
         if (cur_token == TOK_SEMI && (base_type->type->type == TYPE_STRUCT_OR_UNION || base_type->type->type == TYPE_ENUM))
             next();
+        else if (base_type->storage_class == SC_TYPEDEF) {
+            // The typedef isn't the first specifier
+            parse_typedef_declarators(base_type);
+            base_type = 0;
+        }
         else if (cur_token == TOK_COLON && is_typedef)
             // Special case for a typedef used as a labelled statement
             parse_label_statement(identifier);
@@ -3582,6 +3595,13 @@ void parse(void) {
             else
                 base_type = parse_declaration_specifiers();
 
+            if (base_type->storage_class == SC_TYPEDEF) {
+                // The typedef isn't the first specifier
+                parse_typedef_declarators(base_type);
+                consume(TOK_SEMI, ";");
+                continue;
+            }
+
             while (cur_token != TOK_SEMI && cur_token != TOK_EOF) {
                 cur_type_identifier = 0;
 
diff --git a/wcc.h b/wcc.h
index 38364a8..79f6ac2 100644
--- a/wcc.h
+++ b/wcc.h
@@ -138,6 +138,7 @@ enum {
     SC_STATIC,
     SC_AUTO,
     SC_REGISTER,
+    SC_TYPEDEF,
 };
 
 typedef struct list {
-- 
2.43.0


From ba5ac8a27ff9df29eb349f3f19e759428161db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 32/65] fix: dereferences of constant addresses were compiled
 to the address or rejected

---
 instrsel.c |  2 ++
 parser.c   | 46 +++++++++++++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/instrsel.c b/instrsel.c
index 5a673fa..7583f7f 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -419,12 +419,14 @@ static void make_igraphs(Function *function, int block_id) {
         // IR_MOVE_STACK_PTR cannot be merged either, there are no rules to store directly through rsp.
         // IR_CALL_ARG_REG is also off limits, since it's a placeholder for function
         // arg registers and no code is actually emitted.
+        // A constant moved to a pointer stays in its register, since an address cannot be a constant.
         // A src1 bound to rcx or rdx must be read where it is. Merging it would delay it to after
         // shifts & divisions in the tree, which clobber those registers.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
             tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR && tac->operation != IR_MOVE_STACK_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
+            !(tac->operation == IR_MOVE && is_pointer_type(tac->dst->type) && tac->src1->is_constant) &&
             !(src1 && (tac->src1->live_range_preg == LIVE_RANGE_PREG_RCX_INDEX || tac->src1->live_range_preg == LIVE_RANGE_PREG_RDX_INDEX)) &&
             igraphs_are_neighbors(igraphs, i, g1_igraph_id)
             ) {
diff --git a/parser.c b/parser.c
index 9831d37..3add9cc 100644
--- a/parser.c
+++ b/parser.c
@@ -226,6 +226,17 @@ static Value *pl(void) {
     return load(pop());
 }
 
+// Move a constant address to a register
+static Value *load_constant_address(Value *src1) {
+    Value *dst = dup_value(src1);
+    dst->is_constant = 0;
+    dst->int_value = 0;
+    dst->vreg = new_vreg();
+    add_parser_instruction(IR_MOVE, dst, src1, 0);
+
+    return dst;
+}
+
 static int new_local_index(void) {
     return -1 - cur_function_symbol->function->local_symbol_count++;
 }
@@ -1118,6 +1129,7 @@ static void indirect(void) {
         error("Attempt to use an incomplete type");
 
     if (src1->is_lvalue) panic_with_line_number("Expected rvalue");
+    if (src1->is_constant) src1 = load_constant_address(src1);
 
     Value *dst = dup_value(src1);
     dst->type = deref_pointer(src1->type);
@@ -1336,6 +1348,12 @@ static void arithmetic_operation(int operation, Type *dst_type) {
     Value *src2 = pl();
     Value *src1 = pl();
 
+    // Addresses must be in registers, except in comparisons with null pointers
+    if (operation != IR_EQ && operation != IR_NE) {
+        if (src1->is_constant && is_pointer_type(src1->type)) src1 = load_constant_address(src1);
+        if (src2->is_constant && is_pointer_type(src2->type)) src2 = load_constant_address(src2);
+    }
+
     int src2_is_int = is_integer_type(src2->type);
 
     if (operation == IR_DIV && src2->is_constant && (src2_is_int && src2->int_value == 0 || !src2_is_int && src2->fp_value == 0))
@@ -2249,6 +2267,8 @@ static void parse_function_call(void) {
     if (popped_function->type->type != TYPE_FUNCTION && !is_pointer_to_function_type(popped_function->type))
         error("Illegal attempt to call a non-function");
 
+    if (popped_function->is_constant) popped_function = load_constant_address(popped_function);
+
     Symbol *symbol = popped_function->global_symbol;
     Type *function_type = popped_function->type->type == TYPE_FUNCTION ? popped_function->type : popped_function->type->target;
 
@@ -2680,23 +2700,15 @@ static void parse_expression(int level) {
             if (vtop()->bit_field_size) error("Cannot take an address of a bit-field");
 
             Value *src1 = pop();
-
-            if (src1->is_constant)
-                // Special case of taking an address of a constant. This happens with
-                // the offsetof macro which does something like:
-                // define offsetof(STRUCTURE,FIELD) ((int) ((size_t)&((STRUCTURE*)0)->FIELD))
-                // e.g. (int) ((size_t) &((struct s *) 0)->m);
-                push_integral_constant(TYPE_LONG, src1->int_value + src1->offset);
-
-            else {
-                add_ir_op(IR_ADDRESS_OF, make_pointer(src1->type), new_vreg(), src1, 0);
-                if (src1->offset && src1->vreg) {
-                    // Non-vreg offsets are outputted by codegen. For addresses in registers, it
-                    // needs to be calculated.
-                    push_integral_constant(TYPE_INT, src1->offset);
-                    arithmetic_operation(IR_ADD, 0);
-                    src1->offset = 0;
-                }
+            if (src1->is_constant) error("Cannot take an address of an rvalue");
+
+            add_ir_op(IR_ADDRESS_OF, make_pointer(src1->type), new_vreg(), src1, 0);
+            if (src1->offset && src1->vreg) {
+                // Non-vreg offsets are outputted by codegen. For addresses in registers, it
+                // needs to be calculated.
+                push_integral_constant(TYPE_INT, src1->offset);
+                arithmetic_operation(IR_ADD, 0);
+                src1->offset = 0;
             }
 
             break;
-- 
2.43.0


From 5afc539619ff360690ac1fdd13b48568fd47bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 33/65] fix: conversions between function pointers and other
 types copied nothing or were rejected

---
 instrrules.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index d2437c4..b069362 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1716,14 +1716,10 @@ void define_rules(void) {
     r = add_rule(0, IR_LOAD_LONG_DOUBLE, MLD5, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "fldt %v1L");
 
     // Function pointers
-    r = add_rule(XRI, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(XRU, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(XRP, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
+    for (int i = RI1; i <= RI4; i++) { add_mov_rule(i, RPF, 0, 0); add_mov_rule(RPF, i, 0, 0); }
+    for (int i = RU1; i <= RU4; i++) { add_mov_rule(i, RPF, 0, 0); add_mov_rule(RPF, i, 0, 0); }
+    for (int i = RP1; i <= RP5; i++) { add_mov_rule(i, RPF, 0, 0); add_mov_rule(RPF, i, 0, 0); }
     r = add_rule(RPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
-    r = add_rule(RPF, IR_MOVE, RP1, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
-    r = add_rule(RPF, IR_MOVE, RP2, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
-    r = add_rule(RPF, IR_MOVE, RP3, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
-    r = add_rule(RPF, IR_MOVE, RP4, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(MPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, MPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, FUN, 0, 2); add_op(r, X_LEA, DST, SRC1, 0, "leaq %v1q, %vdq");
-- 
2.43.0


From 37cde5a259fb79b20cd3c51da6d5a073639ccda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 34/65] fix: -fPIC stores to bit-fields and members of global
 structs used offset zero

---
 ir.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ir.c b/ir.c
index 21201be..3cd3a9c 100644
--- a/ir.c
+++ b/ir.c
@@ -1229,7 +1229,6 @@ static Value *add_load_from_got(Function *function, Tac *tac, Value *src) {
     insert_instruction_from_operation(tac, IR_LOAD_FROM_GOT, dst, got_src, 0, 0);
 
     dst->offset = src->offset;
-    src->offset = 0;
     got_src->offset = 0;
 
     return dst;
-- 
2.43.0


From 2ee845a43ca8e3339ccccf0cf4190ea62cbbd193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 35/65] fix: -fPIC case labels with enumerators failed with an
 internal error

---
 constexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constexpr.c b/constexpr.c
index 0ad6916..bfc15b8 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -474,7 +474,7 @@ Value *parse_constant_expression(int level) {
             else
                 value = make_symbol_value(symbol);
 
-            value->global_symbol = symbol;
+            if (!symbol->is_enum_value) value->global_symbol = symbol;
 
             break;
         }
-- 
2.43.0


From f64c0cd89a117ef618801ea6927d0cc873baa3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 36/65] fix: a goto to a label at the start of a function
 repeated the parameter moves

---
 functions.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/functions.c b/functions.c
index 53e8f7c..4ba7ef2 100644
--- a/functions.c
+++ b/functions.c
@@ -1340,11 +1340,9 @@ void add_function_param_moves(Function *function, char *identifier) {
 
     ir = function->ir;
 
-    // Add a second nop if nothing is there, which is used to insert instructions
-    if (!ir->next) {
-        ir->next = new_instruction(IR_NOP);
-        ir->next->prev = ir;
-    }
+    // Add a second nop if nothing is there, which is used to insert instructions. A label may be jumped
+    // to, so the instructions must be inserted before it.
+    if (!ir->next || ir->next->label) insert_instruction_after_from_operation(ir, IR_NOP, 0, 0, 0);
 
     ir = function->ir->next;
 
-- 
2.43.0


From 8bdf536201f617a207f50da81fcc18ed7ca7415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 37/65] fix: scopes of struct and enum tags, and specifiers
 without a tag

---
 parser.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/parser.c b/parser.c
index 3add9cc..3e5045c 100644
--- a/parser.c
+++ b/parser.c
@@ -920,6 +920,8 @@ static Type *parse_struct_or_union_type_specifier(void) {
         identifier = parser_wstrdup(cur_identifier);
         next();
     }
+    else if (cur_token != TOK_LCURLY)
+        error("Expected a tag or {");
 
     if (cur_token == TOK_LCURLY) {
         // Struct/union definition
@@ -1004,9 +1006,9 @@ static Type *parse_struct_or_union_type_specifier(void) {
         return type;
     }
     else {
-        // Struct/union use
+        // Struct/union use. A declaration of only a tag hides the tags of the enclosing scopes.
 
-        Type *type = find_struct_or_union(identifier, is_union, 1);
+        Type *type = find_struct_or_union(identifier, is_union, cur_token != TOK_SEMI);
         if (type) return type; // Found a complete or incomplete struct
 
         // Didn't find a struct, but that's ok, create a incomplete one
@@ -1033,15 +1035,19 @@ static Type *parse_enum_type_specifier(void) {
     // sees a typedef tag, but really it's a struct tag.
     if (cur_token == TOK_IDENTIFIER || cur_token == TOK_TYPEDEF_TYPE) {
         identifier = parser_wstrdup(cur_identifier);
+        next();
+    }
+    else if (cur_token != TOK_LCURLY)
+        error("Expected a tag or {");
+
+    type->tag = 0;
 
-        Tag *tag = new_tag(parser_wstrdup(cur_identifier));
+    // Uses of an enum refer to an existing tag, which may be in an enclosing scope
+    if (identifier && (cur_token == TOK_LCURLY || cur_token == TOK_SEMI)) {
+        Tag *tag = new_tag(parser_wstrdup(identifier));
         tag->type = type;
         type->tag = tag;
-
-        next();
     }
-    else
-        type->tag = 0;
 
     if (cur_token == TOK_LCURLY) {
         // Enum definition
-- 
2.43.0


From dfaac1b3e8c0413933188d093adfb32ff6ad2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 38/65] fix: members, enumerators and variables named like a
 typedef

---
 constexpr.c | 2 ++
 parser.c    | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/constexpr.c b/constexpr.c
index bfc15b8..76c89eb 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -527,6 +527,8 @@ Value *parse_constant_expression(int level) {
                 int is_dot = cur_token == TOK_DOT;
 
                 next();
+                // A member can have the name of a typedef, in which case the lexer sees a typedef type
+                if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
                 consume(TOK_IDENTIFIER, "identifier");
 
                 if (!is_dot) value = indirect(value);
diff --git a/parser.c b/parser.c
index 3e5045c..66a899c 100644
--- a/parser.c
+++ b/parser.c
@@ -494,7 +494,7 @@ static BaseType *parse_declaration_specifiers() {
                 // If a typedef type has been encountered by the lexer and a type already
                 // exists, then it's not a typedef type, but a redefinition of a typedef
                 // type.
-                if (!type) {
+                if (!type && !seen_signed && !seen_unsigned) {
                     seen_typedef++;
                     type = dup_type(cur_lexer_type);
                     next();
@@ -1058,6 +1058,8 @@ static Type *parse_enum_type_specifier(void) {
         int value = 0;
 
         while (cur_token != TOK_RCURLY) {
+            // The lexer sees a typedef type when a typedef is redefined by an enum value
+            if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
             expect(TOK_IDENTIFIER, "identifier");
             char *enum_value_identifier = parser_wstrdup(cur_identifier);
             next();
@@ -2504,6 +2506,8 @@ void parse_struct_dot_arrow_expression(void) {
     int is_dot = cur_token == TOK_DOT;
 
     next();
+    // A member can have the name of a typedef, in which case the lexer sees a typedef type
+    if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
     consume(TOK_IDENTIFIER, "identifier");
 
     Type *str_type = is_dot ? vtop()->type : vtop()->type->target;
-- 
2.43.0


From 5f0e0d9ca396192fc72b29fbedd215f19bb1742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 39/65] fix: << binds tighter than a relational operator on its
 left

---
 constexpr.c | 8 ++++----
 parser.c    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 76c89eb..d951dd2 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -548,10 +548,10 @@ Value *parse_constant_expression(int level) {
             case TOK_MINUS:          value = parse_binary_expression(IR_SUB,  TOK_MULTIPLY,     value); break;
             case TOK_BITWISE_RIGHT:  value = parse_binary_expression(IR_BSHR, TOK_PLUS,         value); break;
             case TOK_BITWISE_LEFT:   value = parse_binary_expression(IR_BSHL, TOK_PLUS,         value); break;
-            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_RIGHT,value); break;
+            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_LEFT, value); break;
+            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_LEFT, value); break;
+            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_LEFT, value); break;
+            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_LEFT, value); break;
             case TOK_DBL_EQ:         value = parse_binary_expression(IR_EQ,   TOK_LT,           value); break;
             case TOK_NOT_EQ:         value = parse_binary_expression(IR_NE,   TOK_LT,           value); break;
             case TOK_AMPERSAND:      value = parse_binary_expression(IR_BAND, TOK_DBL_EQ,       value); break;
diff --git a/parser.c b/parser.c
index 66a899c..6b8fa92 100644
--- a/parser.c
+++ b/parser.c
@@ -2964,10 +2964,10 @@ static void parse_expression(int level) {
             case TOK_MINUS:            next(); parse_subtraction(TOK_MULTIPLY); break;
             case TOK_BITWISE_RIGHT:    next(); parse_bitwise_shift(TOK_PLUS, IR_BSHR, IR_ASHR); break;
             case TOK_BITWISE_LEFT:     next(); parse_bitwise_shift(TOK_PLUS, IR_BSHL, IR_BSHL); break;
-            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LT,   new_type(TYPE_INT)); break;
-            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GT,   new_type(TYPE_INT)); break;
-            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LE,   new_type(TYPE_INT)); break;
-            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GE,   new_type(TYPE_INT)); break;
+            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_LT,   new_type(TYPE_INT)); break;
+            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_GT,   new_type(TYPE_INT)); break;
+            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_LE,   new_type(TYPE_INT)); break;
+            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_GE,   new_type(TYPE_INT)); break;
             case TOK_DBL_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_EQ,   new_type(TYPE_INT)); break;
             case TOK_NOT_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_NE,   new_type(TYPE_INT)); break;
             case TOK_AMPERSAND:        next(); parse_arithmetic_operation(TOK_DBL_EQ,        IR_BAND, 0); break;
-- 
2.43.0


From b50778fb0a89500b27cd70ba4ee61ba0e591f23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 40/65] fix: comparisons and character constants are longs in
 preprocessor expressions

---
 constexpr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/constexpr.c b/constexpr.c
index d951dd2..b31703f 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -260,6 +260,11 @@ static int is_zero(Value *value) {
     return is_floating_point_type(value->type) ? !value->fp_value : !value->int_value;
 }
 
+// All values are longs in a preprocessor expression, including the results of character constants and comparisons
+static void widen_preprocessor_value(Value *value) {
+    if (integer_constants_are_longs && value->type->type == TYPE_INT) value->type = new_type(TYPE_LONG);
+}
+
 static Value *parse_unary_expression(int operation) {
     next();
     Value *value = parse_constant_expression(TOK_INC);
@@ -490,6 +495,8 @@ Value *parse_constant_expression(int level) {
             error("Unexpected token %d in constant expression", cur_token);
     }
 
+    widen_preprocessor_value(value);
+
     while (cur_token >= level) {
         switch (cur_token) {
             // In order of descending operator precedence
@@ -568,6 +575,8 @@ Value *parse_constant_expression(int level) {
             default:
                 return value; // Bail once we hit something unknown
         }
+
+        widen_preprocessor_value(value);
     }
 
     return value;
-- 
2.43.0


From b6689dd8a1170a224d91bdb8d680ad2e936f305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 41/65] fix: __LINE__ at the end of a macro and after #line

---
 cpp.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpp.c b/cpp.c
index 0b1cb6b..2c9f624 100644
--- a/cpp.c
+++ b/cpp.c
@@ -853,11 +853,12 @@ static void cpp_next() {
 }
 
 // Set line number on all tokens in ts
-static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
+// Set the line number of all tokens in a sequence to the line number of a macro invocation
+static void set_line_number_on_token_sequence(CppToken *ts, CppToken *directive_token) {
     CppToken *tail = ts;
-    ts = ts->next;
     do {
-        ts->line_number = line_number;
+        ts->line_number = directive_token->line_number;
+        ts->line_number_offset = directive_token->line_number_offset;
         ts = ts->next;
     } while (ts != tail);
 }
@@ -991,7 +992,7 @@ static CppToken *expand(CppToken *is) {
         CppToken *substituted = subst(replacement_tokens, 0, 0, hs, 0);
 
         if (substituted) {
-            set_line_number_on_token_sequence(substituted, tok->line_number);
+            set_line_number_on_token_sequence(substituted, tok);
             substituted->next->whitespace = tok->whitespace;
         }
 
@@ -1033,7 +1034,7 @@ static CppToken *expand(CppToken *is) {
         free_function_actual_parameters(actuals);
 
         if (substituted) {
-            set_line_number_on_token_sequence(substituted, directive_token->line_number);
+            set_line_number_on_token_sequence(substituted, directive_token);
             substituted->next->whitespace = directive_token->whitespace;
         }
 
-- 
2.43.0


From eae2499297dfb7db0e0a5ddf46344c2969fecbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 42/65] fix: newlines between the parentheses of a macro call
 aren't a parameter

---
 cpp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 2c9f624..e945c65 100644
--- a/cpp.c
+++ b/cpp.c
@@ -876,13 +876,15 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
     int parenthesis_nesting_level = 0;
     CppToken *current_actual = 0;
     int index = 0;
+    int only_newlines = 1;
 
     while (1) {
         CppToken *token = *ts;
         if (!token) error("Expected macro function-like parameter or )");
 
         if (token->kind == CPP_TOK_RPAREN && !parenthesis_nesting_level) {
-            // We're not in nested parentheses
+            // We're not in nested parentheses. Newlines aren't a parameter.
+            if (!index && only_newlines) current_actual = 0;
             result[index++] = current_actual;
             return result;
         }
@@ -906,6 +908,7 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
             add_token_to_actuals();
         }
 
+        if (token->kind != CPP_TOK_EOL) only_newlines = 0;
         *ts =(*ts)->next;
     }
 }
-- 
2.43.0


From 676d4f67050ed63cf9e05fcbebadc05bf15fc5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 43/65] fix: white space before, and newlines around, the
 operands of ##

---
 cpp.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/cpp.c b/cpp.c
index e945c65..e8be210 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1140,6 +1140,25 @@ static CppToken *glue(CppToken *ls, CppToken *rs) {
     return ls;
 }
 
+// Duplicate the actual parameter that is an operand of ##, without the newlines around it.
+// Returns zero if there is nothing else.
+static CppToken *dup_paste_operand(CppToken *src) {
+    CppToken *dst = 0;
+    CppToken *newlines = 0;
+
+    for (CppToken *tok = src ? src->next : 0; tok; tok = cll_next(src, tok)) {
+        if (tok->kind == CPP_TOK_EOL) {
+            if (dst) newlines = cll_append_token(newlines, dup_cpp_token(tok));
+        }
+        else {
+            dst = cll_append_token(concat_clls(dst, newlines), dup_cpp_token(tok));
+            newlines = 0;
+        }
+    }
+
+    return dst;
+}
+
 // Inputs:
 //   is: input sequence
 //   fp: formal parameters
@@ -1176,11 +1195,11 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
 
     // ## FP
     if (tok->kind == CPP_TOK_PASTE && tok1_fp_index) {
-        CppToken *replacement = ap[tok1_fp_index - 1];
+        CppToken *replacement = dup_paste_operand(ap[tok1_fp_index - 1]);
         if (!replacement)
             return subst(cll_from_next(is, tok1), fp, ap, hs, os);
         else
-            return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, dup_cll(replacement)));
+            return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, replacement));
     }
 
     // ## TS
@@ -1192,20 +1211,23 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
 
     // FP ##
     if (tok_fp_index && tok1 && tok1->kind == CPP_TOK_PASTE) {
-        CppToken *replacement = ap[tok_fp_index - 1];
+        CppToken *replacement = dup_paste_operand(ap[tok_fp_index - 1]);
         if (!replacement) {
             if (tok2 && tok2_fp_index) {
                 // (empty) ## (replacement2) ...
-                CppToken *replacement2 = ap[tok2_fp_index - 1];
-                return subst(cll_from_next(is, tok2), fp, ap, hs, concat_clls(os, dup_cll(replacement2)));
+                CppToken *replacement2 = dup_paste_operand(ap[tok2_fp_index - 1]);
+                if (replacement2) replacement2->next->whitespace = tok->whitespace;
+                return subst(cll_from_next(is, tok2), fp, ap, hs, concat_clls(os, replacement2));
             }
             else
                 // (empty) ## (empty) ...
                 return subst(cll_from_next(is, tok1), fp, ap, hs, os);
         }
-        else
+        else {
             // (replacement) ## ...
-            return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, dup_cll(replacement)));
+            replacement->next->whitespace = tok->whitespace;
+            return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, replacement));
+        }
     }
 
     // FP
-- 
2.43.0


From 10fa58afa6cb5f555f4fbbb0f8e11ed4809b0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 44/65] fix: concatenate string literals on either side of a
 line marker

---
 lexer.c | 54 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/lexer.c b/lexer.c
index 25552f5..7a9f581 100644
--- a/lexer.c
+++ b/lexer.c
@@ -249,6 +249,29 @@ void lex_single_string_literal(int *size) {
     data[*size] = 0;
 }
 
+// Lex # <num> "filename" ...
+static void lex_line_marker(void) {
+    char *i = input;
+
+    ip++;
+    skip_whitespace();
+
+    lex_non_hex_literal();
+    skip_whitespace();
+
+    int size = 0;
+    ip++; // Skip the "
+    lex_single_string_literal(&size);
+    finish_string_literal(size, 0);
+
+    if (cur_filename) free_and_null(cur_filename);
+    cur_filename = wstrdup(cur_string_literal.data);
+    cur_line = cur_long - 1;
+
+    while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
+    skip_whitespace(); // Skip EOL if present
+}
+
 void lex_string_literal(void) {
     char *i = input;
 
@@ -264,6 +287,16 @@ void lex_string_literal(void) {
         ip += 1;
         lex_single_string_literal(&size);
         skip_whitespace();
+
+        // Skip line markers in between adjacent string literals
+        while (ip < input_size && i[ip] == '#') {
+            int data_size = size * sizeof(int);
+            char *data = wmalloc(data_size);
+            memcpy(data, cur_string_literal.data, data_size);
+            lex_line_marker();
+            memcpy(cur_string_literal.data, data, data_size);
+            wfree(data);
+        }
     }
 
     finish_string_literal(size, is_wide_char);
@@ -356,26 +389,7 @@ void next(void) {
         }
 
         else if (i[ip] == '#') {
-            // Lex # <num> "filename" ...
-
-            ip++;
-            skip_whitespace();
-
-            lex_non_hex_literal();
-            skip_whitespace();
-
-            int size = 0;
-            ip++; // Skip the "
-            lex_single_string_literal(&size);
-            finish_string_literal(size, 0);
-
-            if (cur_filename) free_and_null(cur_filename);
-            cur_filename = wstrdup(cur_string_literal.data);
-            cur_line = cur_long - 1;
-
-            while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
-            skip_whitespace(); // Skip EOL if present
-
+            lex_line_marker();
             continue;
         }
 
-- 
2.43.0


From 770998f6b327e7ae06aa53397f6f563804939598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 45/65] fix: address of a dereferenced pointer that is in
 memory

---
 ir.c  | 14 ++++++++++++++
 wcc.c |  1 +
 wcc.h |  1 +
 3 files changed, 16 insertions(+)

diff --git a/ir.c b/ir.c
index 3cd3a9c..264ee65 100644
--- a/ir.c
+++ b/ir.c
@@ -1291,6 +1291,20 @@ void add_PIC_load_and_saves(Function *function) {
     }
 }
 
+// The address of a dereferenced pointer in a register is the pointer itself. Make it a
+// move, so that a load of the pointer from memory isn't merged into the IR_ADDRESS_OF,
+// which would result in the address of that memory.
+void convert_address_of_dereferences(Function *function) {
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->operation == IR_ADDRESS_OF && tac->src1->vreg && tac->src1->is_lvalue) {
+            tac->operation = IR_MOVE;
+            tac->src1 = dup_value(tac->src1);
+            tac->src1->type = tac->dst->type;
+            tac->src1->is_lvalue = 0;
+        }
+    }
+}
+
 // Convert and loads of address to functions to a load the GOT, unless the
 // function has been defined.
 void convert_functions_address_of(Function *function) {
diff --git a/wcc.c b/wcc.c
index 3f5465e..690c7ff 100644
--- a/wcc.c
+++ b/wcc.c
@@ -78,6 +78,7 @@ void run_compiler_phases(Function *function, char *function_name, int start_at,
     if (log_compiler_phase_durations) debug_log("Adding PIC loads & saves");
     add_PIC_load_and_saves(function);
     if (log_compiler_phase_durations) debug_log("Converting & functions to loads");
+    convert_address_of_dereferences(function);
     convert_functions_address_of(function);
     if (log_compiler_phase_durations) debug_log("Converting lvalue assignments");
     rewrite_lvalue_reg_assignments(function);
diff --git a/wcc.h b/wcc.h
index 79f6ac2..5d9a9d7 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1099,6 +1099,7 @@ Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Val
 Tac *add_memory_copy(Function *function, Tac *ir, Value *dst, Value *src1, int size);
 void convert_enums(Function *function);
 void add_PIC_load_and_saves(Function *function);
+void convert_address_of_dereferences(Function *function);
 void convert_functions_address_of(Function *function);
 
 // ssa.c
-- 
2.43.0


From e8f1cf8457ba39f6fa14681ed50547dae16650e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 46/65] fix: putting an existing key in a map after a deletion
 duplicated it

---
 longmap.c | 27 ++++++++++++++++-----------
 strmap.c  | 25 +++++++++++++++----------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/longmap.c b/longmap.c
index 14d4f86..65c2865 100644
--- a/longmap.c
+++ b/longmap.c
@@ -66,23 +66,28 @@ void longmap_put(LongMap *map, long key, void *value) {
     long mask = map->size - 1;
     long pos = map->hashfunc(key) & mask;
 
-    while (1) {
-        char status = map->status[pos];
-        if (status != STATUS_USED) {
-            map->keys[pos] = key;
-            map->values[pos] = value;
-            map->status[pos] = STATUS_USED;
-            map->element_count++;
-            if (status == STATUS_EMPTY) map->used_count++;
-            return;
-        }
+    long tombstone = -1; // Position of the first tombstone, the key may still be present after it
 
-        if (map->keys[pos] == key) {
+    while (map->status[pos] != STATUS_EMPTY) {
+        if (map->status[pos] == STATUS_TOMBSTONE) {
+            if (tombstone == -1) tombstone = pos;
+        }
+        else if (map->keys[pos] == key) {
             map->values[pos] = value;
             return;
         }
         pos = (pos + 1) & mask;
     }
+
+    if (tombstone != -1)
+        pos = tombstone;
+    else
+        map->used_count++;
+
+    map->keys[pos] = key;
+    map->values[pos] = value;
+    map->status[pos] = STATUS_USED;
+    map->element_count++;
 }
 
 void *longmap_get(LongMap *map, long key) {
diff --git a/strmap.c b/strmap.c
index 60239e6..552d8c8 100644
--- a/strmap.c
+++ b/strmap.c
@@ -63,23 +63,28 @@ void strmap_put(StrMap *map, char *key, void *value) {
     unsigned int mask = map->size - 1;
     unsigned int pos = hash(key) & mask;
 
+    int tombstone = -1; // Position of the first tombstone, the key may still be present after it
+
     char *k;
-    while (1) {
-        k = map->keys[pos];
-        if (!k || k == (char *) TOMBSTONE) {
-            map->keys[pos] = key;
-            map->values[pos] = value;
-            map->element_count++;
-            if (!k) map->used_count++;
-            return;
+    while ((k = map->keys[pos])) {
+        if (k == (char *) TOMBSTONE) {
+            if (tombstone == -1) tombstone = pos;
         }
-
-        if (!strcmp(k, key)) {
+        else if (!strcmp(k, key)) {
             map->values[pos] = value;
             return;
         }
         pos = (pos + 1) & mask;
     }
+
+    if (tombstone != -1)
+        pos = tombstone;
+    else
+        map->used_count++;
+
+    map->keys[pos] = key;
+    map->values[pos] = value;
+    map->element_count++;
 }
 
 void *strmap_get(StrMap *map, char *key) {
-- 
2.43.0


From 4d53990488e2731ec7db0d0526aba7bd5ad467e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 47/65] fix: liveness and dominance frontiers wrote past the
 end of arrays for blocks with two edges to one successor

---
 ssa.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssa.c b/ssa.c
index b8be108..800285e 100644
--- a/ssa.c
+++ b/ssa.c
@@ -454,7 +454,8 @@ static void make_block_dominance_frontiers(Function *function) {
     Set **df = wcalloc(block_count, sizeof(Set *));
     for (int i = 0; i < block_count; i++) df[i] = new_set(block_count);
 
-    int *predecessors = wmalloc(block_count * sizeof(int));
+    // A block can have two edges to the same successor, so there can be more predecessors than blocks
+    int *predecessors = wmalloc((cfg->edge_count + 1) * sizeof(int));
 
     int *idom = function->idom;
 
@@ -596,7 +597,8 @@ void make_liveout(Function *function) {
     for (int i = 0; i < block_count; i++) {
         block_uevars[i] = wcalloc(vreg_count + 1, sizeof(int));
 
-        successor_liveout_versions[i] = wcalloc(block_count, sizeof(int));
+        // One entry per successor edge (at most two) and a terminating zero
+        successor_liveout_versions[i] = wcalloc(block_count + 1, sizeof(int));
 
         liveout_versions[i] = 1;
         int j = 0;
-- 
2.43.0


From cd37dc974633ff5756adfa218983f9ed60935020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 48/65] fix: a command killed by a signal made the driver
 succeed

---
 main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 6c713fa..56f4f7e 100644
--- a/main.c
+++ b/main.c
@@ -132,6 +132,12 @@ static void free_cli_libraries(void) {
     }
 }
 
+// Make a non-zero exit code from the non-zero status of a system() call
+static int failed_command_exit_code(int status) {
+    int exit_code = (status >> 8) & 255;
+    return exit_code ? exit_code : 1;  // The command didn't exit, e.g. it was killed by a signal
+}
+
 int main(int argc, char **argv) {
     print_ir1 = 0;
     print_ir2 = 0;
@@ -542,7 +548,7 @@ int main(int argc, char **argv) {
                 printf("%s\n", command);
             }
             int result = system(command);
-            if (result != 0) exit(result >> 8);
+            if (result != 0) exit(failed_command_exit_code(result));
 
             if (run_linker)
                 linker_input_filenames[i] = assembler_output_filename;
@@ -595,7 +601,7 @@ int main(int argc, char **argv) {
 
         int result = system(command);
         if (result != 0) {
-            exit_code = result >> 8;
+            exit_code = failed_command_exit_code(result);
             goto exit_main;
         }
     }
-- 
2.43.0


From 16449fbcaee4e77441b220d0e09b00f13ade6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 49/65] fix: -c with several files wrote all objects to the
 name of the first

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 56f4f7e..9f06a6d 100644
--- a/main.c
+++ b/main.c
@@ -537,7 +537,7 @@ int main(int argc, char **argv) {
             if (!input_filename) continue;
 
             char *assembler_output_filename =
-                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(single_target ? input_filenames->elements[0] : input_filename, "o"))
+                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(input_filenames->elements[i], "o"))
                 : make_temp_filename("/tmp/XXXXXX.o");
 
             if (print_filenames) printf("Assembling %s to %s\n", input_filename, assembler_output_filename);
-- 
2.43.0


From 4dedfb612a8c73fbf6292bb6354fc2133fbeb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 50/65] fix: -D without a macro name was accepted

---
 main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.c b/main.c
index 9f06a6d..f7e339b 100644
--- a/main.c
+++ b/main.c
@@ -274,6 +274,7 @@ int main(int argc, char **argv) {
             }
             else if (argv[0][0] == '-' && argv[0][1] == 'D') {
                 // -D...
+                if (!argv[0][2]) simple_error("Missing macro name after -D");
                 append_to_list(directive_cli_strings, &(argv[0][2]));
                 argc--;
                 argv++;
-- 
2.43.0


From e285734ff1de8282529dbec773d198978056477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 51/65] fix: unterminated #if: the error message used the file
 name after it had been freed

---
 cpp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp.c b/cpp.c
index e8be210..e3fe788 100644
--- a/cpp.c
+++ b/cpp.c
@@ -170,6 +170,8 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
 
     cpp_parse();
 
+    if (first_file && state.conditional_include_stack->prev) error("Unterminated #if");
+
     collapse_trailing_newlines(0, 0, 0);
 
     wfree(state.input);
@@ -1988,8 +1990,6 @@ char *preprocess(char *filename, List *cli_directive_strings) {    init_cpp();
 
     run_preprocessor_on_file(filename, 1);
 
-    if (state.conditional_include_stack->prev) error("Unterminated #if");
-
     terminate_string_buffer(output);
 
     char *data = output->data;
-- 
2.43.0


From 0294c4fcf0881d624eb379214d11f0ed11646fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 52/65] fix: a string literal or nothing but empty macros in
 #if dereferenced a null pointer

---
 constexpr.c | 2 ++
 cpp.c       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/constexpr.c b/constexpr.c
index b31703f..5ff4c60 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -458,6 +458,8 @@ Value *parse_constant_expression(int level) {
             break;
 
         case TOK_STRING_LITERAL:
+            // The preprocessor has no string literals table and cannot make any use of one either
+            if (integer_constants_are_longs) error("Unexpected string literal in a preprocessor expression");
             value = make_string_literal_value_from_cur_string_literal();
             next();
             break;
diff --git a/cpp.c b/cpp.c
index e3fe788..983953b 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1548,6 +1548,7 @@ static long parse_conditional_expression() {
 
     CppToken *expanded_defineds = expand_defineds(tokens);
     CppToken *expanded = expand(expanded_defineds);
+    if (!expanded) error("Expected expression");
 
     // Replace identifiers with 0
     for (CppToken *tok = expanded->next; tok; tok = cll_next(expanded, tok))
-- 
2.43.0


From d2d8ade6776b882b3dd653eedb7ed0cc989145f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 53/65] fix: #elif without #if dereferenced a null pointer

---
 cpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp.c b/cpp.c
index 983953b..bb8ef8c 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1751,6 +1751,8 @@ static void parse_directive(void) {
         case CPP_TOK_ELIF: {
             cpp_next();
 
+            if (!state.conditional_include_stack->prev) error("Found an #elif without an #if");
+
             // We're skipping a section and found an #elif. Ignore the directive
             if (!state.conditional_include_stack->prev->skipping) {
                 if (state.conditional_include_stack->matched) {
-- 
2.43.0


From cb4395c6900ea4218350aab1018c487519fc96a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 54/65] fix: #line without tokens dereferenced a null pointer

---
 cpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp.c b/cpp.c
index bb8ef8c..010e9b6 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1595,6 +1595,7 @@ static void parse_line() {
         // Parse #line <number> ...
         tokens = gather_tokens_until_eol();
 
+    if (!tokens) error("Invalid #line directive");
     CppToken *token = tokens->next;
 
     if (state.token->kind != CPP_TOK_EOL && state.token->kind != CPP_TOK_EOF) panic("Expected EOL or EOF");
-- 
2.43.0


From ffb86d3caf7582c132f017d7fa3795a1d747a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 55/65] fix: typedef without an identifier dereferenced a null
 pointer

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index 6b8fa92..6053992 100644
--- a/parser.c
+++ b/parser.c
@@ -1105,6 +1105,7 @@ static void parse_typedef_declarators(BaseType *base_type_with_storage_class) {
 
         parse_attributes();
 
+        if (!cur_type_identifier) error("Expected an identifier in a typedef");
         if (all_typedefs_count == MAX_TYPEDEFS) panic_with_line_number("Exceeded max typedefs");
         Typedef *td = wcalloc(1, sizeof(Typedef));
         td->identifier = cur_type_identifier;
-- 
2.43.0


From 64f0511c884398749effdda23d30c0bd2e05f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 56/65] fix: continue and break outside of loops crashed the
 compiler

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 6053992..39ecedb 100644
--- a/parser.c
+++ b/parser.c
@@ -3431,12 +3431,14 @@ static void parse_statement(void) {
 
         case TOK_CONTINUE:
             next();
+            if (!cur_loop_continue_dst) error("continue statement not within a loop");
             add_parser_instruction(IR_JMP, 0, cur_loop_continue_dst, 0);
             consume(TOK_SEMI, ";");
             break;
 
         case TOK_BREAK:
             next();
+            if (!cur_loop_break_dst) error("break statement not within a loop or switch");
             add_parser_instruction(IR_JMP, 0, cur_loop_break_dst, 0);
             consume(TOK_SEMI, ";");
             break;
-- 
2.43.0


From d91469464800248d28fd06dd9242dd0134476587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 57/65] fix: a structure with itself as a member made the
 compiler recurse without end

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index 39ecedb..fd2b27e 100644
--- a/parser.c
+++ b/parser.c
@@ -934,6 +934,7 @@ static Type *parse_struct_or_union_type_specifier(void) {
 
         StructOrUnion *s = type->struct_or_union_desc;
         s->is_union = is_union;
+        s->is_incomplete = 1; // Until the closing }, so that it cannot be a member of itself
 
         // Loop over members
         int member_count = 0;
-- 
2.43.0


From 13099d4352e11adf6c470a448bf45cb16eab9573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 58/65] fix: more than 1023 characters of white space
 overflowed a buffer

---
 cpp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 010e9b6..64c74f1 100644
--- a/cpp.c
+++ b/cpp.c
@@ -585,8 +585,9 @@ static void advance_ip_by_count(int count) {
 }
 
 static void add_to_whitespace(char **whitespace, int *whitespace_pos, char c) {
+    // Keep room for the terminating zero
     if (!*whitespace) *whitespace = wmalloc(1024);
-    if (*whitespace_pos == 1024) panic("Ran out of whitespace buffer");
+    else if (*whitespace_pos % 1024 == 1023) *whitespace = wrealloc(*whitespace, *whitespace_pos + 1 + 1024);
     (*whitespace)[(*whitespace_pos)++] = c;
 }
 
-- 
2.43.0


From 1477ca9b72dfe7c577900b2f0785c5c10971d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 59/65] fix: a long file name in #line overflowed a buffer

---
 cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp.c b/cpp.c
index 64c74f1..7f938a9 100644
--- a/cpp.c
+++ b/cpp.c
@@ -125,8 +125,8 @@ static void init_cpp_from_fh(FILE *f, char *path) {
 static void output_line_directive(int offset, int add_eol, CppToken *token) {
     if (!token) return;
 
-    char *buf = wmalloc(256);
     char *filename = state.override_filename ? state.override_filename : state.filename;
+    char *buf = wmalloc(strlen(filename) + 64);
     sprintf(buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
     append_to_string_buffer(output, buf);
     wfree(buf);
-- 
2.43.0


From bfcc25225951372828c5d0b5b05f6f072d18d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 60/65] fix: long identifiers overflowed the buffer for an
 instruction

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 2450985..5fd8cd3 100644
--- a/codegen.c
+++ b/codegen.c
@@ -238,7 +238,7 @@ char *render_x86_operation(Tac *tac, int function_pc, int expect_preg) {
 
     if (!t) return 0;
 
-    char *buffer = wcalloc(1, 128);
+    char *buffer = wcalloc(1, 128 + 2 * MAX_IDENTIFIER_SIZE);
     char *result = buffer;
 
     while (*t && *t != ' ') *buffer++ = *t++;
-- 
2.43.0


From f8aed410ab99183e7ef77272a92a3796b7709e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 61/65] fix: an identifier of 1024 characters was terminated
 past the end of its buffer

---
 cpp.c   | 4 ++--
 lexer.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp.c b/cpp.c
index 7f938a9..dd7261d 100644
--- a/cpp.c
+++ b/cpp.c
@@ -772,10 +772,10 @@ static void cpp_next() {
         }
 
         else if ((c1 >= 'a' && c1 <= 'z') || (c1 >= 'A' && c1 <= 'Z') || c1 == '_') {
-            char *identifier = wmalloc(1024);
+            char *identifier = wmalloc(MAX_IDENTIFIER_SIZE);
             int j = 0;
             while (((i[state.ip] >= 'a' && i[state.ip] <= 'z') || (i[state.ip] >= 'A' && i[state.ip] <= 'Z') || (i[state.ip] >= '0' && i[state.ip] <= '9') || (i[state.ip] == '_')) && state.ip < state.input_size) {
-                if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
+                if (j == MAX_IDENTIFIER_SIZE - 1) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
                 identifier[j] = i[state.ip];
                 j++;
                 advance_ip();
diff --git a/lexer.c b/lexer.c
index 7a9f581..a6233c9 100644
--- a/lexer.c
+++ b/lexer.c
@@ -464,7 +464,7 @@ void next(void) {
 
             int j = 0;
             while (((i[ip] >= 'a' && i[ip] <= 'z') || (i[ip] >= 'A' && i[ip] <= 'Z') || (i[ip] >= '0' && i[ip] <= '9') || (i[ip] == '_')) && ip < input_size) {
-                if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
+                if (j == MAX_IDENTIFIER_SIZE - 1) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
                 cur_identifier[j] = i[ip];
                 j++; ip++;
             }
-- 
2.43.0


From 61a53524db6e680b8eb89481e40b39e0cee32d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 62/65] fix: long string literals were stored past the end of
 their buffers

---
 cpp.c   | 2 +-
 lexer.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp.c b/cpp.c
index dd7261d..61844e6 100644
--- a/cpp.c
+++ b/cpp.c
@@ -642,7 +642,7 @@ static void lex_string_and_char_literal(char delimiter) {
     char *i = state.input;
     int data_offset = 0;
 
-    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 2);
+    char *data = wmalloc(MAX_STRING_LITERAL_SIZE + 4); // L, delimiters and terminating zero
 
     if (i[state.ip] == 'L') {
         advance_ip();
diff --git a/lexer.c b/lexer.c
index a6233c9..808e0e4 100644
--- a/lexer.c
+++ b/lexer.c
@@ -238,14 +238,14 @@ void lex_single_string_literal(int *size) {
             else error("Unknown \\ escape in string literal");
         }
 
+        if (*size >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
+
         data[*size] = 0;
     }
 
     if (i[ip] != '"') error("Expecting terminating \" in string literal");
     ip++;
 
-    if (*size >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
-
     data[*size] = 0;
 }
 
-- 
2.43.0


From 3cb0e62686c38e756467b90dcb027520b1e44438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 63/65] fix: an unterminated call of a macro at the end of the
 file made the preprocessor loop

---
 cpp.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp.c b/cpp.c
index 61844e6..4f1d901 100644
--- a/cpp.c
+++ b/cpp.c
@@ -869,11 +869,11 @@ static void set_line_number_on_token_sequence(CppToken *ts, CppToken *directive_
 #define add_token_to_actuals() current_actual = cll_append_token(current_actual, dup_cpp_token(token));
 
 // Parse function-like macro call, starting with the '('
-// Loop over ts; ts is advanced up to the enclosing ')'
+// Loop over ts, which is in is; ts is advanced up to the enclosing ')'
 // Returns a ptr to the token sequences for each actual parameter.
 // Nested () are taken into account, for cases like f((1, 2), 3), which
 // results in (1, 2) and 3 for the actual parameters.
-CppToken **make_function_actual_parameters(CppToken **ts) {
+CppToken **make_function_actual_parameters(CppToken *is, CppToken **ts) {
     CppToken **result = wcalloc(MAX_CPP_MACRO_PARAM_COUNT, sizeof(CppToken *));
 
     int parenthesis_nesting_level = 0;
@@ -903,6 +903,7 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
         }
         else if (token->kind == CPP_TOK_COMMA && !parenthesis_nesting_level) {
             // Finish current ap and start next ap
+            if (index == MAX_CPP_MACRO_PARAM_COUNT - 2) panic("Exceeded max CPP function macro param count");
             result[index++] = current_actual;
             current_actual = 0;
         }
@@ -912,7 +913,7 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
         }
 
         if (token->kind != CPP_TOK_EOL) only_newlines = 0;
-        *ts =(*ts)->next;
+        *ts = is == *ts ? 0 : (*ts)->next;
     }
 }
 
@@ -1011,7 +1012,7 @@ static CppToken *expand(CppToken *is) {
         CppToken *directive_token = tok;
         StrSet *directive_token_hs = tok->hide_set;
         tok = cll_next(is, tok1);
-        CppToken **actuals = make_function_actual_parameters(&tok);
+        CppToken **actuals = make_function_actual_parameters(is, &tok);
         if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
 
         int actuals_count = 0;
-- 
2.43.0


From 0d2f38a9fd2389e4742f7d53dc4237429b311dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 64/65] fix: the error message for operands of % contained an
 incomplete conversion specification

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index fd2b27e..47dbf80 100644
--- a/parser.c
+++ b/parser.c
@@ -1505,7 +1505,7 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
 
     if (operation == IR_MUL  && (!src1_is_arithmetic || !src2_is_arithmetic)) error("Invalid operands to binary *");
     if (operation == IR_DIV  && (!src1_is_arithmetic || !src2_is_arithmetic)) error("Invalid operands to binary /");
-    if (operation == IR_MOD  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary %");
+    if (operation == IR_MOD  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary %%");
     if (operation == IR_BAND && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary &");
     if (operation == IR_BOR  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary |");
     if (operation == IR_XOR  && (!src1_is_integer    || !src2_is_integer))    error("Invalid operands to binary ^");
-- 
2.43.0


From 9b811adb211abef38e3bb978efb4b62fe7033dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:48 +0000
Subject: [PATCH 65/65] fix: a statement expression without statements read
 past the end of the value stack

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index 47dbf80..9ceb855 100644
--- a/parser.c
+++ b/parser.c
@@ -2617,6 +2617,7 @@ void parse_ternary_expression(void) {
 static void init_value_stack(void) {
     vs_bottom = wmalloc(sizeof(struct value *) * VALUE_STACK_SIZE);
     vs_start = vs_bottom + VALUE_STACK_SIZE; // The stack traditionally grows downwards
+    vs = vs_start;
 }
 
 static void free_value_stack(void) {
-- 
2.43.0

