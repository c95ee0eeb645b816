From 204496dd4576ffe352c186373e4668522209ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 01/93] fix: reject out-of-range float literal operand of ~
 instead of folding garbage

---
 core/kos_compiler_optim.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index e8a5a86..47bf6fa 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -1461,6 +1461,11 @@ static int optimize_unary_op(KOS_COMP_UNIT      *program,
         assert(op == OT_NOT);
 
         if (numeric_a.type == KOS_FLOAT_VALUE) {
+            if (numeric_a.u.d <= -9223372036854775808.0 || numeric_a.u.d >= 9223372036854775808.0) {
+                program->error_str   = str_err_number_out_of_range;
+                program->error_token = &a->token;
+                return KOS_ERROR_COMPILE_FAILED;
+            }
             numeric_a.u.i = (int64_t)floor(numeric_a.u.d);
             numeric_a.type = KOS_INTEGER_VALUE;
         }
-- 
2.43.0


From 3931303d4aeb114407d0f6f512f0d98a53a06837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 02/93] fix: preserve the sign of zero in unary minus on
 non-literal operands

---
 core/kos_compiler.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 410e142..52caf36 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -4316,10 +4316,11 @@ static int pos_neg(KOS_COMP_UNIT      *program,
         TRY(gen_dest_reg(program, reg, src));
 
         TRY(gen_reg(program, &val));
-        TRY(gen_instr2(program, INSTR_LOAD_INT8, val->reg, 0));
+        /* Multiply by -1, because 0 - x loses the sign of floating-point zero */
+        TRY(gen_instr2(program, INSTR_LOAD_INT8, val->reg, (int32_t)-1));
 
         TRY(gen_instr3(program,
-                       INSTR_SUB,
+                       INSTR_MUL,
                        (*reg)->reg,
                        val->reg,
                        src->reg));
-- 
2.43.0


From 00dbc55d941249ae9d6b0ea29daec985de610b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:03 +0000
Subject: [PATCH 03/93] fix: keep 0.0 and -0.0 literals distinct in the
 constant pool

---
 core/kos_compiler.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 52caf36..de48b7c 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -450,6 +450,19 @@ static void get_token_str(const KOS_TOKEN *token,
     *out_length = length;
 }
 
+/* Compare representation, in order to distinguish 0.0 from -0.0 */
+static int compare_floats(double a, double b)
+{
+    KOS_NUMERIC_VALUE value_a;
+    KOS_NUMERIC_VALUE value_b;
+
+    value_a.d = a;
+    value_b.d = b;
+
+    return value_a.i < value_b.i ? -1 :
+           value_a.i > value_b.i ? 1 : 0;
+}
+
 static int numbers_compare_item(void               *what,
                                 KOS_RED_BLACK_NODE *node)
 {
@@ -466,8 +479,7 @@ static int numbers_compare_item(void               *what,
         return numeric->u.i < ((const KOS_COMP_INTEGER *)constant)->value ? -1 :
                numeric->u.i > ((const KOS_COMP_INTEGER *)constant)->value ? 1 : 0;
     else
-        return numeric->u.d == ((const KOS_COMP_FLOAT *)constant)->value ? 0 :
-               numeric->u.d <  ((const KOS_COMP_FLOAT *)constant)->value ? -1 : 1;
+        return compare_floats(numeric->u.d, ((const KOS_COMP_FLOAT *)constant)->value);
 }
 
 static int strings_compare_item(void               *what,
@@ -506,8 +518,8 @@ static int constants_compare_node(KOS_RED_BLACK_NODE *a,
                  ? -1 : 0;
 
         case KOS_COMP_CONST_FLOAT:
-            return ((const KOS_COMP_FLOAT *)const_a)->value
-                 < ((const KOS_COMP_FLOAT *)const_b)->value
+            return compare_floats(((const KOS_COMP_FLOAT *)const_a)->value,
+                                  ((const KOS_COMP_FLOAT *)const_b)->value) < 0
                  ? -1 : 0;
 
         case KOS_COMP_CONST_STRING: {
-- 
2.43.0


From ca13e4e51d59eb05610509491948f4c76c159ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 04/93] fix: nested && and || in conditions jump past the right
 operand

---
 core/kos_compiler.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index de48b7c..88cc71a 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1764,6 +1764,11 @@ static int32_t negate_jump_opcode(int32_t opcode)
     return (opcode == INSTR_JUMP_COND) ? INSTR_JUMP_NOT_COND : INSTR_JUMP_COND;
 }
 
+static int gen_cond_jump(KOS_COMP_UNIT      *program,
+                         const KOS_AST_NODE *node,
+                         int32_t             opcode,
+                         JUMP_ARRAY         *jump_array);
+
 static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
                                const KOS_AST_NODE *node,
                                int32_t             opcode,
@@ -1789,7 +1794,8 @@ static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
 
             node = node->children;
             assert(node);
-            TRY(gen_cond_jump_inner(program, node, opcode, jump_array, near_jump_array));
+            /* If the left operand does not jump, it continues to the right operand */
+            TRY(gen_cond_jump(program, node, opcode, jump_array));
 
             node = node->next;
             assert(node);
@@ -1800,7 +1806,8 @@ static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
 
             node = node->children;
             assert(node);
-            TRY(gen_cond_jump_inner(program, node, negate_jump_opcode(opcode), near_jump_array, jump_array));
+            /* If the left operand does not jump, it continues to the right operand */
+            TRY(gen_cond_jump(program, node, negate_jump_opcode(opcode), near_jump_array));
 
             node = node->next;
             assert(node);
-- 
2.43.0


From 80e2513857a3ec1b0c1aa3e379903af8ddf905b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 05/93] fix: literals which round up to the smallest normal
 float parsed as zero

---
 core/kos_misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index 02c8569..b0ffc7b 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -477,6 +477,9 @@ int kos_parse_double(const char *begin,
             mantissa >>= 1;
             ++exponent;
         }
+        /* Denormalized number became normalized after carry */
+        else if (exponent == -0x3FF && (mantissa & ((uint64_t)1U << 52)))
+            ++exponent;
     }
 
     {
-- 
2.43.0


From 93863923017b2e2953e7900c5e13089c257b521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 06/93] fix: floats whose integer part exceeds the print buffer
 were printed with digits cut off

---
 core/kos_misc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index b0ffc7b..731a81e 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -562,11 +562,17 @@ unsigned kos_print_float(char *buf, unsigned size, double value)
         }
     }
     else {
-        const int len = snprintf(buf, size, "%.15f", value);
+        int len = snprintf(buf, size, "%.15f", value);
 
         if (len < 0)
             return 0U;
 
+        /* Use exponent if integer part does not fit in the buffer */
+        if ( ! memchr(buf, '.', KOS_min((unsigned)len, size - 1))) {
+            len = snprintf(buf, size, "%.16e", value);
+            return (len < 0) ? 0U : (unsigned)len;
+        }
+
         for (end = buf + KOS_min((unsigned)len, size - 1) - 1; end > buf && *end == '0'; --end);
         if (*end == '.')
             ++end;
-- 
2.43.0


From 17a35d03f4cab18a83e83011bbe4300860cd444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:49 +0000
Subject: [PATCH 07/93] fix: closure size mismatch when the optimizer removes a
 scope with captured variables

---
 core/kos_compiler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 88cc71a..19cb0c1 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1608,6 +1608,10 @@ static int gen_indep_vars(KOS_COMP_UNIT *program,
             assert(var->reg->reg == *last_reg);
         }
 
+    /* Variables from scopes removed by the optimizer still occupy registers */
+    assert(*last_reg + 1 >= scope->num_indep_vars);
+    scope->num_indep_vars = *last_reg + 1;
+
 cleanup:
     return error;
 }
@@ -5709,7 +5713,6 @@ static int gen_function(KOS_COMP_UNIT      *program,
 
     /* Generate registers for local independent variables */
     TRY(gen_indep_vars(program, scope, &last_reg));
-    assert(last_reg + 1 == scope->num_indep_vars);
 
     /* Generate registers for function arguments */
     {
-- 
2.43.0


From af4486fb4514aa0c336bd4e037b33aa1ac1c9b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:23 +0000
Subject: [PATCH 08/93] fix: evaluate argument defaults, base class and
 properties of unused functions and classes

---
 core/kos_compiler_optim.c | 53 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 47bf6fa..c8435e0 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -337,6 +337,50 @@ static int count_and_update_vars(KOS_RED_BLACK_NODE *node,
     return KOS_SUCCESS;
 }
 
+static int is_dummy_load(KOS_AST_NODE *node);
+
+/* Default values of arguments are evaluated when the function is created */
+static int has_dummy_defaults(KOS_AST_NODE *fun_node)
+{
+    KOS_AST_NODE *node = fun_node->children;
+
+    assert(node);
+    node = node->next;
+    assert(node);
+    assert(node->type == NT_PARAMETERS);
+
+    for (node = node->children; node; node = node->next)
+        if (node->type == NT_ASSIGNMENT && ! is_dummy_load(node->children->next))
+            return 0;
+
+    return 1;
+}
+
+/* Base class and property values are evaluated when the class is created */
+static int is_dummy_class(KOS_AST_NODE *class_node)
+{
+    KOS_AST_NODE *node = class_node->children;
+    KOS_AST_NODE *prop_node;
+
+    assert(node);
+    if (node->type != NT_EMPTY && node->type != NT_VOID_LITERAL)
+        return 0;
+
+    node = node->next;
+    assert(node);
+    assert(node->type == NT_OBJECT_LITERAL);
+
+    for (prop_node = node->children; prop_node; prop_node = prop_node->next) {
+        assert(prop_node->type == NT_PROPERTY);
+        assert(prop_node->children);
+        if ( ! is_dummy_load(prop_node->children->next))
+            return 0;
+    }
+
+    assert(node->next);
+    return is_dummy_load(node->next);
+}
+
 static int is_dummy_load(KOS_AST_NODE *node)
 {
     switch (node->type) {
@@ -358,14 +402,15 @@ static int is_dummy_load(KOS_AST_NODE *node)
         case NT_BOOL_LITERAL:
             /* fall through */
         case NT_VOID_LITERAL:
-            /* fall through */
+            return 1;
+
         case NT_FUNCTION_LITERAL:
             /* fall through */
         case NT_CONSTRUCTOR_LITERAL:
-            /* fall through */
+            return has_dummy_defaults(node);
+
         case NT_CLASS_LITERAL:
-            /* fall through */
-            return 1;
+            return is_dummy_class(node);
 
         default:
             break;
-- 
2.43.0


From 00aafd42386bd0443ec96f5065992fe296ea95be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:20 +0000
Subject: [PATCH 09/93] fix: code after loops and switches left through
 conditional break or continue was dropped

---
 core/kos_compiler_optim.c | 58 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index c8435e0..37f0c7c 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -558,16 +558,67 @@ cleanup:
     return error;
 }
 
+enum LOOP_EXIT_E {
+    EXIT_BREAK    = 1,
+    EXIT_CONTINUE = 2
+};
+
+/* Find break or continue statements, which apply to the loop or switch enclosing the node */
+static int find_loop_exits(const KOS_AST_NODE *node,
+                           int                 mask)
+{
+    int found = 0;
+
+    switch (node->type) {
+
+        case NT_BREAK:
+            return mask & EXIT_BREAK;
+
+        case NT_CONTINUE:
+            return mask & EXIT_CONTINUE;
+
+        case NT_SWITCH:
+            mask &= ~EXIT_BREAK;
+            break;
+
+        case NT_REPEAT:
+            /* fall through */
+        case NT_WHILE:
+            /* fall through */
+        case NT_FOR_IN:
+            /* fall through */
+        case NT_FUNCTION_LITERAL:
+            /* fall through */
+        case NT_CLASS_LITERAL:
+            return 0;
+
+        default:
+            break;
+    }
+
+    for (node = node->children; node && (found != mask); node = node->next)
+        found |= find_loop_exits(node, mask);
+
+    return found;
+}
+
 static int repeat_stmt(KOS_COMP_UNIT *program,
                        KOS_AST_NODE  *node,
                        int           *is_terminal)
 {
     int error = KOS_SUCCESS;
+    int exits;
 
     node = node->children;
     assert(node);
     TRY(visit_node(program, node, is_terminal));
 
+    exits = find_loop_exits(node, EXIT_BREAK | EXIT_CONTINUE);
+
+    /* continue statement jumps to the condition */
+    if (exits & EXIT_CONTINUE)
+        *is_terminal = TERM_NONE;
+
     node = node->next;
     assert(node);
     assert( ! node->next);
@@ -584,7 +635,7 @@ static int repeat_stmt(KOS_COMP_UNIT *program,
         assert(t == TERM_NONE);
     }
 
-    if (*is_terminal & TERM_BREAK)
+    if (exits & EXIT_BREAK)
         *is_terminal = TERM_NONE;
 
 cleanup:
@@ -620,7 +671,8 @@ static int while_stmt(KOS_COMP_UNIT *program,
 
     TRY(visit_node(program, node->next, is_terminal));
 
-    if ( ! is_truthy || (*is_terminal & TERM_BREAK))
+    /* The loop can be left with break even if the end of its body is never reached */
+    if ( ! is_truthy || (*is_terminal & TERM_BREAK) || find_loop_exits(node->next, EXIT_BREAK))
         *is_terminal = TERM_NONE;
 
     if (*is_terminal && program->optimize && node->type != NT_BOOL_LITERAL) {
@@ -735,7 +787,7 @@ static int switch_stmt(KOS_COMP_UNIT *program,
 
         TRY(visit_node(program, node, &next_t));
 
-        if (next_t & TERM_BREAK)
+        if ((next_t & TERM_BREAK) || find_loop_exits(node, EXIT_BREAK))
             next_t = TERM_NONE;
 
         ++num_cases;
-- 
2.43.0


From 2341ab384dc82530652782c993a46603493332ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:37 +0000
Subject: [PATCH 10/93] fix: break, continue and fallthrough leaving a try
 block left its exception handler installed

---
 core/kos_compiler.c | 119 +++++++++++++++++++++++++++-----------------
 core/kos_compiler.h |   4 +-
 2 files changed, 75 insertions(+), 48 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 19cb0c1..42ae01e 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -2165,16 +2165,35 @@ static void finish_fallthrough(KOS_COMP_UNIT *program)
     }
 }
 
-/* Saves last try scope before the loop, used for restoring catch offset */
-static KOS_SCOPE *push_try_scope(KOS_COMP_UNIT *program)
+typedef struct SAVED_TRY_SCOPES_S {
+    KOS_SCOPE *break_try_scope;
+    KOS_SCOPE *continue_try_scope;
+} SAVED_TRY_SCOPES;
+
+/* Saves try scope from before the loop or switch, used for restoring catch offset
+ * when leaving it with break, continue or fallthrough */
+static SAVED_TRY_SCOPES push_try_scope(KOS_COMP_UNIT *program,
+                                       int            is_loop)
 {
-    KOS_SCOPE *prev_try_scope = program->cur_frame->last_try_scope;
-    KOS_SCOPE *scope          = find_try_scope(program->scope_stack);
+    KOS_FRAME *const frame = program->cur_frame;
+    KOS_SCOPE *const scope = find_try_scope(program->scope_stack);
+    SAVED_TRY_SCOPES saved;
+
+    saved.break_try_scope    = frame->break_try_scope;
+    saved.continue_try_scope = frame->continue_try_scope;
 
-    if (scope)
-        program->cur_frame->last_try_scope = scope;
+    frame->break_try_scope = scope;
+    if (is_loop)
+        frame->continue_try_scope = scope;
 
-    return prev_try_scope;
+    return saved;
+}
+
+static void pop_try_scope(KOS_COMP_UNIT   *program,
+                          SAVED_TRY_SCOPES saved)
+{
+    program->cur_frame->break_try_scope    = saved.break_try_scope;
+    program->cur_frame->continue_try_scope = saved.continue_try_scope;
 }
 
 static int repeat(KOS_COMP_UNIT      *program,
@@ -2185,7 +2204,7 @@ static int repeat(KOS_COMP_UNIT      *program,
     const int       loop_start_offs = program->cur_offs;
     KOS_REG        *reg             = KOS_NULL;
     KOS_BREAK_OFFS *old_break_offs  = program->cur_frame->break_offs;
-    KOS_SCOPE      *prev_try_scope  = push_try_scope(program);
+    SAVED_TRY_SCOPES prev_try_scope  = push_try_scope(program, 1);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2221,7 +2240,7 @@ static int repeat(KOS_COMP_UNIT      *program,
     if (reg)
         free_reg(program, reg);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    pop_try_scope(program, prev_try_scope);
 
 cleanup:
     return error;
@@ -2233,7 +2252,7 @@ static int while_stmt(KOS_COMP_UNIT      *program,
     int                 error          = KOS_SUCCESS;
     const KOS_AST_NODE *cond_node      = node->children;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    SAVED_TRY_SCOPES    prev_try_scope = push_try_scope(program, 1);
 
     assert(cond_node);
 
@@ -2273,7 +2292,7 @@ static int while_stmt(KOS_COMP_UNIT      *program,
         finish_break_continue(program, continue_tgt_offs, old_break_offs);
     }
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    pop_try_scope(program, prev_try_scope);
 
 cleanup:
     return error;
@@ -2470,7 +2489,7 @@ static int for_in(KOS_COMP_UNIT      *program,
     KOS_REG            *item_cont_reg  = KOS_NULL;
     KOS_VAR            *item_var       = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    SAVED_TRY_SCOPES    prev_try_scope = push_try_scope(program, 1);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2654,7 +2673,7 @@ static int for_in(KOS_COMP_UNIT      *program,
 
     pop_scope(program);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    pop_try_scope(program, prev_try_scope);
 
 cleanup:
     return error;
@@ -2673,7 +2692,7 @@ static int for_range(KOS_COMP_UNIT      *program,
     KOS_REG            *item_cont_reg  = KOS_NULL;
     KOS_VAR            *item_var       = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    SAVED_TRY_SCOPES    prev_try_scope = push_try_scope(program, 1);
     KOS_NODE_TYPE       lhs_type;
     int                 decrement      = 0;
     uint32_t            initial_jump_entry;
@@ -2870,17 +2889,17 @@ static int for_range(KOS_COMP_UNIT      *program,
 
     pop_scope(program);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    pop_try_scope(program, prev_try_scope);
 
 cleanup:
     return error;
 }
 
 static int restore_catch(KOS_COMP_UNIT *program,
+                         KOS_SCOPE     *cur_scope,
                          KOS_SCOPE     *outer_scope)
 {
-    KOS_SCOPE *cur_scope = program->scope_stack;
-    int        error;
+    int error;
 
     assert(cur_scope);
     assert( ! cur_scope->is_function);
@@ -2923,13 +2942,11 @@ static int restore_parent_scope_catch(KOS_COMP_UNIT *program)
 
     assert(scope && ! scope->is_function);
 
-    scope = find_try_scope(scope->parent_scope);
-
-    return restore_catch(program, scope);
+    return restore_catch(program, scope, find_try_scope(scope->parent_scope));
 }
 
-static int push_break_offs(KOS_COMP_UNIT *program,
-                           KOS_NODE_TYPE  type)
+static int push_break_offs(KOS_COMP_UNIT      *program,
+                           const KOS_AST_NODE *node)
 {
     int                   error      = KOS_SUCCESS;
     KOS_BREAK_OFFS *const break_offs = (KOS_BREAK_OFFS *)
@@ -2937,7 +2954,8 @@ static int push_break_offs(KOS_COMP_UNIT *program,
 
     if (break_offs) {
         break_offs->next               = program->cur_frame->break_offs;
-        break_offs->type               = type;
+        break_offs->node               = node;
+        break_offs->type               = (KOS_NODE_TYPE)node->type;
         program->cur_frame->break_offs = break_offs;
     }
     else
@@ -2946,21 +2964,24 @@ static int push_break_offs(KOS_COMP_UNIT *program,
     return error;
 }
 
-static int break_continue_fallthrough(KOS_COMP_UNIT      *program,
-                                      const KOS_AST_NODE *node)
+/* Generates a jump out of the current scope for a break, continue or fallthrough statement */
+static int gen_break_jump(KOS_COMP_UNIT      *program,
+                          const KOS_AST_NODE *node)
 {
-    int error;
+    KOS_SCOPE *const tgt_scope = (node->type == NT_CONTINUE) ? program->cur_frame->continue_try_scope
+                                                             : program->cur_frame->break_try_scope;
+    KOS_SCOPE *const cur_scope = find_try_scope(program->scope_stack);
+    KOS_SCOPE       *try_scope = cur_scope;
+    int              error     = KOS_SUCCESS;
 
-    TRY(push_break_offs(program, (KOS_NODE_TYPE)node->type));
+    /* If there is an active defer on the way, the jump will execute the deferred code first */
+    while (try_scope && (try_scope != tgt_scope) && ! try_scope->catch_ref.finally_active)
+        try_scope = find_try_scope(try_scope->parent_scope);
 
-    if (program->cur_frame->last_try_scope) {
+    if ((cur_scope != tgt_scope) && (try_scope == tgt_scope))
+        TRY(restore_catch(program, node->u.scope, tgt_scope));
 
-        push_scope(program, node);
-
-        TRY(restore_catch(program, program->cur_frame->last_try_scope));
-
-        pop_scope(program);
-    }
+    TRY(push_break_offs(program, node));
 
     TRY(add_jump_instr(program, &program->cur_frame->break_offs->entry));
     TRY(gen_instr1(program, INSTR_JUMP, 0));
@@ -2998,6 +3019,7 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
     uint32_t            final_jump_entry = KOS_NO_JUMP;
     KOS_SWITCH_CASE    *cases            = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs   = program->cur_frame->break_offs;
+    SAVED_TRY_SCOPES    prev_try_scope   = push_try_scope(program, 0);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -3014,6 +3036,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
 
         program->cur_frame->break_offs = old_break_offs;
 
+        pop_try_scope(program, prev_try_scope);
+
         return error;
     }
 
@@ -3044,6 +3068,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
 
         finish_break_continue(program, -1, old_break_offs);
 
+        pop_try_scope(program, prev_try_scope);
+
         return error;
     }
 
@@ -3175,6 +3201,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
 
     finish_break_continue(program, -1, old_break_offs);
 
+    pop_try_scope(program, prev_try_scope);
+
 cleanup:
     return error;
 }
@@ -3361,10 +3389,10 @@ static int try_stmt(KOS_COMP_UNIT      *program,
 
         if (try_break_offs) {
 
-            KOS_BREAK_OFFS *break_offs    = try_break_offs;
-            int             jump_offs[3]  = { 0, 0, 0 };
-            KOS_NODE_TYPE   node_types[3] = { NT_BREAK, NT_CONTINUE, NT_FALLTHROUGH };
-            int             i;
+            KOS_BREAK_OFFS     *break_offs    = try_break_offs;
+            const KOS_AST_NODE *jump_nodes[3] = { KOS_NULL, KOS_NULL, KOS_NULL };
+            const KOS_NODE_TYPE node_types[3] = { NT_BREAK, NT_CONTINUE, NT_FALLTHROUGH };
+            int                 i;
 
             while (break_offs) {
 
@@ -3372,20 +3400,20 @@ static int try_stmt(KOS_COMP_UNIT      *program,
                        break_offs->type == NT_BREAK    ||
                        break_offs->type == NT_FALLTHROUGH);
 
-                for (i = 0; i < (int)(sizeof(jump_offs) / sizeof(jump_offs[0])); i++)
+                for (i = 0; i < (int)(sizeof(jump_nodes) / sizeof(jump_nodes[0])); i++)
                     if (break_offs->type == node_types[i]) {
-                        jump_offs[i] = 1;
+                        jump_nodes[i] = break_offs->node;
                         break;
                     }
 
                 break_offs = break_offs->next;
             }
 
-            for (i = 0; i < (int)(sizeof(jump_offs) / sizeof(jump_offs[0])); i++) {
+            for (i = 0; i < (int)(sizeof(jump_nodes) / sizeof(jump_nodes[0])); i++) {
 
                 const KOS_NODE_TYPE type = node_types[i];
 
-                if ( ! jump_offs[i])
+                if ( ! jump_nodes[i])
                     continue;
 
                 for (break_offs = try_break_offs; break_offs; break_offs = break_offs->next)
@@ -3396,10 +3424,7 @@ static int try_stmt(KOS_COMP_UNIT      *program,
 
                 TRY(process_scope(program, defer_node));
 
-                TRY(push_break_offs(program, type));
-
-                TRY(add_jump_instr(program, &program->cur_frame->break_offs->entry));
-                TRY(gen_instr1(program, INSTR_JUMP, 0));
+                TRY(gen_break_jump(program, jump_nodes[i]));
             }
         }
 
@@ -6441,7 +6466,7 @@ static int visit_node(KOS_COMP_UNIT      *program,
         case NT_BREAK:
             /* fall through */
         case NT_FALLTHROUGH:
-            error = break_continue_fallthrough(program, node);
+            error = gen_break_jump(program, node);
             break;
         case NT_SWITCH:
             error = switch_stmt(program, node);
diff --git a/core/kos_compiler.h b/core/kos_compiler.h
index 15458ef..a34fd90 100644
--- a/core/kos_compiler.h
+++ b/core/kos_compiler.h
@@ -66,6 +66,7 @@ typedef struct KOS_VAR_S {
 
 typedef struct KOS_BREAK_OFFS_S {
     struct KOS_BREAK_OFFS_S *next;
+    const KOS_AST_NODE      *node;
     uint32_t                 entry;
     KOS_NODE_TYPE            type;
 } KOS_BREAK_OFFS;
@@ -115,7 +116,8 @@ typedef struct KOS_FRAME_S {
     const KOS_TOKEN            *fun_token;
     KOS_BREAK_OFFS             *break_offs;
     KOS_RETURN_OFFS            *return_offs;      /* For return statements inside finally clause (defer) */
-    KOS_SCOPE                  *last_try_scope;
+    KOS_SCOPE                  *break_try_scope;    /* Try scope around the current loop or switch */
+    KOS_SCOPE                  *continue_try_scope; /* Try scope around the current loop           */
     const KOS_TOKEN            *yield_token;
     struct KOS_COMP_FUNCTION_S *constant;         /* The template for the constant object, used with LOAD.CONST */
     int                         num_def_used;     /* Number of used default args, for optimization              */
-- 
2.43.0


From a94827ea9acea1f827d392bbaff7eaf3574d6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:38 +0000
Subject: [PATCH 11/93] fix: assertion on else branch already removed by the
 optimizer

---
 core/kos_compiler_optim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 37f0c7c..c16b353 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -530,7 +530,7 @@ static int if_stmt(KOS_COMP_UNIT *program,
         ++program->num_optimizations;
 
         if (else_node) {
-            assert(else_node->type == NT_SCOPE || else_node->type == NT_IF);
+            assert(else_node->type == NT_SCOPE || else_node->type == NT_IF || else_node->type == NT_EMPTY);
             promote(program, if_node, else_node);
 
             return visit_node(program, if_node, is_terminal);
-- 
2.43.0


From 5bf18a65bf68782629f37af22b42751d8c8e51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 12/93] fix: assigned variable was overwritten before the
 literal using it was complete

v = [1, v] in global scope, v = { a: v }, v = fun(x = v) { } and
v = class extends v { } built the new value directly in the variable's register.
---
 core/kos_compiler.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 42ae01e..8477966 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -3806,7 +3806,7 @@ static int is_var_used(KOS_COMP_UNIT      *program,
 
             KOS_SCOPE *scope;
 
-            for (scope = program->scope_stack; scope && scope->parent_scope; scope = scope->parent_scope) {
+            for (scope = program->scope_stack; scope; scope = scope->parent_scope) {
 
                 const int error = kos_red_black_walk(scope->vars, find_var_by_reg, reg);
 
@@ -5980,6 +5980,35 @@ cleanup:
     return error;
 }
 
+/* Checks if the destination register holds a variable which is needed after
+ * the function is loaded, for binding base class or default arguments */
+static int overwrites_fun_input(KOS_COMP_UNIT      *program,
+                                const KOS_AST_NODE *fun_node,
+                                KOS_REG            *base_ctor_reg,
+                                KOS_REG            *base_proto_reg,
+                                KOS_REG            *reg)
+{
+    const KOS_AST_NODE *node;
+
+    if ( ! reg || reg->tmp)
+        return 0;
+
+    if (reg == base_ctor_reg || reg == base_proto_reg)
+        return 1;
+
+    node = fun_node->children;
+    assert(node);
+    node = node->next;
+    assert(node);
+
+    for (node = node->children; node; node = node->next) {
+        if (node->type == NT_ASSIGNMENT && is_var_used(program, node->children->next, reg))
+            return 1;
+    }
+
+    return 0;
+}
+
 static int function_literal(KOS_COMP_UNIT      *program,
                             const KOS_AST_NODE *node,
                             KOS_VAR            *fun_var,
@@ -6006,6 +6035,8 @@ static int function_literal(KOS_COMP_UNIT      *program,
     /* Generate LOAD.CONST/LOAD.FUN instruction in the parent frame */
     assert(frame->num_regs > 0);
     assert(constant->this_reg == KOS_NO_REG || frame->num_regs > constant->this_reg);
+    if (overwrites_fun_input(program, fun_node, base_ctor_reg, base_proto_reg, *reg))
+        *reg = KOS_NULL;
     TRY(gen_reg(program, reg));
 
     TRY(gen_instr2(program,
@@ -6197,6 +6228,9 @@ static int object_literal(KOS_COMP_UNIT      *program,
     int                 proto_reg;
     int                 error;
 
+    if (is_var_used(program, node->children, *reg))
+        *reg = KOS_NULL;
+
     if (prototype) {
         if ( ! *reg || (*reg == prototype && ! prototype->tmp)) {
             *reg = KOS_NULL;
-- 
2.43.0


From fd856ab98e937037a87c36c3da1cb14d13f97b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:27 +0000
Subject: [PATCH 13/93] fix: -m option left the garbage collection threshold at
 its default

The first collection only ran when the smaller heap was already full, when there was
no room left to evacuate into, so programs producing only garbage ran out of memory.
---
 interpreter/kos.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpreter/kos.c b/interpreter/kos.c
index 06744b1..084a9c1 100644
--- a/interpreter/kos.c
+++ b/interpreter/kos.c
@@ -11,6 +11,7 @@
 #include "../inc/kos_system.h"
 #include "../inc/kos_utils.h"
 #include "../inc/kos_version.h"
+#include "../core/kos_config.h"
 #include "../core/kos_getline.h"
 #include "../core/kos_heap.h"
 #include "../core/kos_misc.h"
@@ -205,6 +206,7 @@ int main(int argc, char *argv[])
     if (mem_size) {
         inst.heap.max_heap_size   = mem_size;
         inst.heap.max_malloc_size = mem_size;
+        inst.heap.gc_threshold    = (uint32_t)(((uint64_t)mem_size * KOS_GC_THRESHOLD) / 100U);
     }
 
     inst_ok = 1;
-- 
2.43.0


From eaada122f075cb7c24fdeca034a3d950d17d8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 14/93] fix: array.prototype.cas accepted indexes beyond the
 int range

---
 modules/kos_mod_base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 417981c..96af3d9 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -40,6 +40,7 @@ KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_array_size,       "array size ou
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_buffer_size,      "buffer size out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_byte_value,       "buffer element value out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_char_code,        "invalid character code");
+KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_index,            "array index is out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_key_type,         "invalid key type, must be function or void");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_reverse_type,     "invalid reverse type, must be boolean");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_string,           "invalid string");
@@ -3807,6 +3808,9 @@ static KOS_OBJ_ID array_cas(KOS_CONTEXT ctx,
 
     TRY(KOS_get_integer(ctx, pos_obj, &pos));
 
+    if (pos < INT_MIN || pos > INT_MAX)
+        RAISE_EXCEPTION_STR(str_err_invalid_index);
+
     ret = KOS_array_cas(ctx, this_obj, (int)pos, old_val, new_val);
 
 cleanup:
-- 
2.43.0


From a5686776c40f453c06da3ce3ea4ebbdbfa5e4dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:38 +0000
Subject: [PATCH 15/93] fix: printing, comparing and lexing empty buffers
 crashed

---
 core/kos_utils.c      | 12 ++++++------
 modules/kos_mod_kos.c |  3 ++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 765b4cd..423b609 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -865,8 +865,8 @@ static int vector_append_buffer(KOS_CONTEXT ctx,
     TRY(KOS_append_cstr(ctx, cstr_vec, str_buffer_open, sizeof(str_buffer_open)-1));
 
     dest = cstr_vec->buffer + cstr_vec->size - 1;
-    src  = KOS_buffer_data_const(obj_id);
-    end  = src + size;
+    src  = size ? KOS_buffer_data_const(obj_id) : KOS_NULL;
+    end  = size ? src + size : KOS_NULL;
 
     while (src < end) {
 
@@ -1521,11 +1521,11 @@ static KOS_COMPARE_RESULT compare_buf(KOS_OBJ_ID a, KOS_OBJ_ID b)
     const uint32_t a_size   = KOS_get_buffer_size(a);
     const uint32_t b_size   = KOS_get_buffer_size(b);
     const uint32_t cmp_size = KOS_min(a_size, b_size);
-    const int      min_cmp  = memcmp(KOS_buffer_data_const(a),
-                                     KOS_buffer_data_const(b),
-                                     cmp_size);
 
-    const int cmp = cmp_size ? min_cmp : 0;
+    const int cmp = cmp_size ? memcmp(KOS_buffer_data_const(a),
+                                      KOS_buffer_data_const(b),
+                                      cmp_size)
+                             : 0;
 
     if (cmp)
         return cmp > 0 ? KOS_GREATER_THAN : KOS_LESS_THAN;
diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index 7a29e0f..bcd61e2 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -178,7 +178,8 @@ static KOS_OBJ_ID raw_lexer(KOS_CONTEXT ctx,
         switch (GET_OBJ_TYPE(init.o)) {
 
             case OBJ_BUFFER:
-                memcpy(&kos_lexer->buf[0], KOS_buffer_data_const(init.o), buf_size);
+                if (buf_size)
+                    memcpy(&kos_lexer->buf[0], KOS_buffer_data_const(init.o), buf_size);
                 kos_lexer->from_generator = 0;
                 break;
 
-- 
2.43.0


From 5a9c85a64dd7ded6699020eeaf6429f3b1fef510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:38 +0000
Subject: [PATCH 16/93] fix: buffer class rejected empty strings and buffers

---
 modules/kos_mod_base.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 96af3d9..b234862 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -1481,6 +1481,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 if (size == ~0U)
                     RAISE_EXCEPTION_STR(str_err_invalid_string);
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
@@ -1496,6 +1499,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 const uint32_t size = KOS_get_buffer_size(arg.o);
                 uint8_t       *data;
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
-- 
2.43.0


From 8dc704d216d152c14be21b2dcda372a7ca53c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:32 +0000
Subject: [PATCH 17/93] fix: large counts and sizes in pack and unpack formats
 overflowed

---
 core/kos_buffer.c      |  6 ++++++
 modules/kos_mod_base.c | 12 +++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/kos_buffer.c b/core/kos_buffer.c
index 1fc6da7..01fdc26 100644
--- a/core/kos_buffer.c
+++ b/core/kos_buffer.c
@@ -171,6 +171,12 @@ int KOS_buffer_reserve(KOS_CONTEXT ctx,
     KOS_init_local_with(ctx, &obj, obj_id);
     KOS_init_local(ctx, &old_buf);
 
+    if (new_capacity > 0xFFFFFFFFU - (KOS_BUFFER_CAPACITY_ALIGN-1)) {
+        KOS_raise_exception(ctx, KOS_CONST_ID(str_err_make_room_size));
+        KOS_destroy_top_locals(ctx, &old_buf, &obj);
+        return KOS_ERROR_EXCEPTION;
+    }
+
     new_capacity = (new_capacity + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
 
     if (GET_OBJ_TYPE(obj.o) != OBJ_BUFFER)
diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index b234862..a1ecf7b 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2996,6 +2996,12 @@ static int pack_format(KOS_CONTEXT               ctx,
     assert(size != ~0U || value_fmt == 's');
 
     if (size != ~0U && size && count) {
+        if (count > 0xFFFFFFFFU / size) {
+            KOS_raise_printf(ctx, "size %u and count %u for format character '%c' at position %u are too large",
+                             size, count, (char)value_fmt, fmt_offs + 1);
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+        }
+
         dst = KOS_buffer_make_room(ctx, buffer.o, size * count);
         if ( ! dst)
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
@@ -3258,11 +3264,11 @@ static int unpack_format(KOS_CONTEXT               ctx,
         size = data_size - fmt->idx;
     }
 
-    if (fmt->idx + size * count > data_size) {
+    if ((uint64_t)size * count > (uint64_t)(data_size - (unsigned)fmt->idx)) {
         KOS_raise_printf(ctx,
             "buffer with size %u too short to unpack data for format character "
-            "'%c%u' at position %u, need size to be at least %u",
-            data_size, (char)value_fmt, size, fmt_offs + 1, fmt->idx + size * count);
+            "'%c%u' at position %u, need at least %u values of that size",
+            data_size, (char)value_fmt, size, fmt_offs + 1, count);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
-- 
2.43.0


From 12e75f74d10180dcd784ab179da543246234dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:32 +0000
Subject: [PATCH 18/93] fix: buffer.prototype.insert lost data when inserting
 past the end

---
 modules/base.kos | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/base.kos b/modules/base.kos
index 991c4c2..b3d013e 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -462,6 +462,9 @@ buffer.prototype.insert = fun(begin, iterable, args...)
     if begin < 0 {
         begin = 0
     }
+    if begin > size {
+        begin = size
+    }
     if end > size {
         end = size
     }
-- 
2.43.0


From 9e89ef08f51796d83a8892ede79cdd4cfee02060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 19/93] fix: inserting a buffer into itself corrupted it

---
 modules/base.kos | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/base.kos b/modules/base.kos
index b3d013e..f631f71 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -475,6 +475,9 @@ buffer.prototype.insert = fun(begin, iterable, args...)
     if typeof iterable != "buffer" {
         iterable = buffer(typeof iterable == "string" ? iterable : iterable.iterator())
     }
+    else if iterable == this {
+        iterable = iterable.slice(0, void)
+    }
 
     const new_size = this.size + iterable.size + begin - end
     if new_size > size {
-- 
2.43.0


From 3139327441285b206ed888c76e808ba7ea2f1bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:48 +0000
Subject: [PATCH 20/93] fix: packing an empty buffer into itself wrote
 uninitialised bytes

---
 modules/kos_mod_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index a1ecf7b..7a8698c 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -3161,7 +3161,7 @@ static int pack_format(KOS_CONTEXT               ctx,
                 if (copy_size) {
                     const uint8_t *const src_end = src + copy_size;
 
-                    if (src_end > dst && src < dst)
+                    if (src_end > dst && src <= dst)
                         copy_size = (uint32_t)(dst - src);
 
                     memcpy(dst, src, copy_size);
-- 
2.43.0


From 4ed1f694afbe62832da51ca0b04e13084bfc69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:09 +0000
Subject: [PATCH 21/93] fix: packing an empty string into an empty buffer threw

---
 modules/kos_mod_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 7a8698c..ce40a4f 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -3206,7 +3206,7 @@ static int pack_format(KOS_CONTEXT               ctx,
 
                 copy_size = size > str_buf.size-1 ? (uint32_t)str_buf.size-1 : size;
 
-                if (size == ~0U) {
+                if (size == ~0U && copy_size) {
                     dst = KOS_buffer_make_room(ctx, buffer.o, copy_size);
                     if ( ! dst)
                         RAISE_ERROR(KOS_ERROR_EXCEPTION);
-- 
2.43.0


From b77d6baaa038f23adc28445d9b9a9817d413f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:16 +0000
Subject: [PATCH 22/93] fix: string scan excluding characters skipped
 characters wider than the pattern

---
 core/kos_string.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 00147ff..6f5902d 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1430,18 +1430,22 @@ int KOS_string_scan(KOS_CONTEXT             ctx,
 
                 case KOS_STRING_ELEM_16:
                     code = *(const uint16_t *)location;
-                    if (code & c_mask)
-                        continue;
                     break;
 
                 default:
                     assert(text_elem_size == KOS_STRING_ELEM_32);
                     code = *(const uint32_t *)location;
-                    if (code & c_mask)
-                        continue;
                     break;
             }
 
+            /* A character wider than any character in the pattern is not in the pattern */
+            if (code & c_mask) {
+                if (include)
+                    continue;
+                *pos = (int)((location - text) >> text_elem_size);
+                return KOS_SUCCESS;
+            }
+
             switch (pattern_elem_size) {
 
                 case KOS_STRING_ELEM_8: {
-- 
2.43.0


From b2a91aa3b13fae0f70f0bacfe19eb750824cf9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:37 +0000
Subject: [PATCH 23/93] fix: string.prototype.rfind did not count negative
 positions from the end of the string

---
 modules/kos_mod_base.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index ce40a4f..2094752 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -4208,10 +4208,16 @@ static KOS_OBJ_ID find_dir(KOS_CONTEXT         ctx,
                           args_obj,
                           1,
                           reverse ? -1 : 0,
-                          reverse ? KOS_max((int)(this_len - KOS_get_string_length(pattern)), 0) : (int)this_len,
+                          (int)this_len,
                           reverse ? KOS_VOID_INDEX_IS_END : KOS_VOID_INDEX_IS_BEGIN,
                           &pos));
 
+    if (reverse) {
+        const int max_pos = KOS_max((int)(this_len - KOS_get_string_length(pattern)), 0);
+
+        pos = KOS_min(pos, max_pos);
+    }
+
     TRY(KOS_string_find(ctx, this_obj, pattern, reverse, &pos));
 
 cleanup:
-- 
2.43.0


From 1d1e3c887c849d30ba911bfe649f7637f4ace6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:18 +0000
Subject: [PATCH 24/93] fix: uppercase of 8-bit strings truncated characters
 beyond U+00FF

---
 core/kos_string.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 6f5902d..7f0f7b2 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1703,6 +1703,7 @@ KOS_OBJ_ID KOS_string_uppercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     unsigned    len;
     unsigned    i;
     uint8_t     elem_size;
+    uint8_t     new_elem_size;
 
     if (GET_OBJ_TYPE(obj_id) != OBJ_STRING) {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_string));
@@ -1715,9 +1716,23 @@ KOS_OBJ_ID KOS_string_uppercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     if (len == 0)
         return KOS_STR_EMPTY;
 
+    new_elem_size = elem_size;
+
+    /* Some 8-bit characters have uppercase counterparts, which don't fit in 8 bits */
+    if (elem_size == KOS_STRING_ELEM_8) {
+        const uint8_t *src = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
+
+        for (i = 0; i < len; i++) {
+            if (kos_unicode_to_upper(src[i]) > 0xFFU) {
+                new_elem_size = KOS_STRING_ELEM_16;
+                break;
+            }
+        }
+    }
+
     KOS_init_local_with(ctx, &save_obj_id, obj_id);
 
-    new_str = new_empty_string(ctx, len, (KOS_STRING_FLAGS)elem_size);
+    new_str = new_empty_string(ctx, len, (KOS_STRING_FLAGS)new_elem_size);
 
     obj_id = KOS_destroy_top_local(ctx, &save_obj_id);
 
@@ -1730,6 +1745,14 @@ KOS_OBJ_ID KOS_string_uppercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
             const uint8_t *src  = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
             uint8_t       *dest = (uint8_t *)kos_get_string_buffer(new_str);
 
+            if (new_elem_size == KOS_STRING_ELEM_16) {
+                uint16_t *dest16 = (uint16_t *)dest;
+
+                for (i = 0; i < len; i++)
+                    dest16[i] = (uint16_t)kos_unicode_to_upper(src[i]);
+                break;
+            }
+
             for (i = 0; i < len; i++) {
                 const uint8_t c = *(src++);
                 *(dest++) = (uint8_t)kos_unicode_to_upper(c);
-- 
2.43.0


From 1efa4125b14666889b015fa615b8b415bb9ae9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:45 +0000
Subject: [PATCH 25/93] fix: string.prototype.ascii was false for ASCII slices
 of wider strings

---
 modules/kos_mod_base.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 2094752..7584073 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -4593,8 +4593,20 @@ static KOS_OBJ_ID get_string_ascii(KOS_CONTEXT ctx,
 {
     KOS_OBJ_ID ret;
 
-    if (GET_OBJ_TYPE(this_obj) == OBJ_STRING)
-        ret = KOS_BOOL(OBJPTR(STRING, this_obj)->header.flags & KOS_STRING_ASCII);
+    if (GET_OBJ_TYPE(this_obj) == OBJ_STRING) {
+        int      ascii = OBJPTR(STRING, this_obj)->header.flags & KOS_STRING_ASCII;
+        unsigned size  = KOS_get_string_length(this_obj);
+
+        /* The flag is not set for strings made by slicing non-ASCII strings */
+        if ( ! ascii) {
+            unsigned i = 0;
+            while (i < size && KOS_string_get_char_code(ctx, this_obj, (int)i) < 0x80U)
+                ++i;
+            ascii = i == size;
+        }
+
+        ret = KOS_BOOL(ascii);
+    }
     else {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_string));
         ret = KOS_BADPTR;
-- 
2.43.0


From 808a45c6299f203446cffe5ade1f8c8c53ab0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 26/93] fix: json did not convert escape sequences in strings

---
 modules/json.kos | 121 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 118 insertions(+), 3 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index 0f3520e..8562677 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -2,7 +2,7 @@
 # Copyright (c) 2014-2023 Chris Dragan
 
 import kos
-import base: array, generator, join, number, string
+import base: array, generator, hex, integer, join, number, range, string
 
 const separator_map = {
     "{": void,
@@ -33,6 +33,82 @@ fun bad_token(token, desc = void)
     throw "\(token.line):\(token.column): \(desc)"
 }
 
+const escape_map = {
+    "\"": "\"",
+    "\\": "\\",
+    "/":  "/",
+    "b":  "\x08",
+    "f":  "\x0C",
+    "n":  "\n",
+    "r":  "\r",
+    "t":  "\t"
+}
+
+fun parse_hex(token, text, pos)
+{
+    const digits = text[pos : pos + 4]
+
+    if digits.size < 4 || digits.scan("0123456789abcdefABCDEF", 0, false) >= 0 {
+        bad_token(token)
+    }
+
+    return integer("0x" + digits)
+}
+
+# Decodes escape sequences in a string token
+fun parse_string(token)
+{
+    const text  = token.token[1:-1]
+    const parts = []
+    var   begin = 0
+
+    loop {
+        const pos = text.find("\\", begin)
+
+        if pos < 0 {
+            break
+        }
+
+        parts.push(text[begin:pos])
+
+        const esc = text[pos + 1]
+
+        begin = pos + 2
+
+        if esc in escape_map {
+            parts.push(escape_map[esc])
+        }
+        else if esc == "u" {
+            var code = parse_hex(token, text, begin)
+
+            begin += 4
+
+            # Combine surrogate pair
+            if (code & 0xFC00) == 0xD800 && text[begin : begin + 2] == "\\u" {
+                const low = parse_hex(token, text, begin + 2)
+
+                if (low & 0xFC00) == 0xDC00 {
+                    code   = 0x10000 + ((code & 0x3FF) << 10) + (low & 0x3FF)
+                    begin += 6
+                }
+            }
+
+            parts.push(string([code]))
+        }
+        else {
+            bad_token(token)
+        }
+    }
+
+    if begin == 0 {
+        return text
+    }
+
+    parts.push(text[begin:])
+
+    return string(parts...)
+}
+
 fun tokenize(text)
 {
     const lexer = kos.raw_lexer(text, true)
@@ -89,7 +165,7 @@ fun tokenize(text)
             }
 
             case kos.token_string {
-                token.value = string(token.token[1:-1])
+                token.value = parse_string(token)
                 yield token
             }
 
@@ -327,6 +403,45 @@ fun parse_array(json)
     lexer.drain_whitespace()
 }
 
+const dump_escape_map = {
+    "\"":   "\\\"",
+    "\\":   "\\\\",
+    "\x08": "\\b",
+    "\x0C": "\\f",
+    "\n":   "\\n",
+    "\r":   "\\r",
+    "\t":   "\\t"
+}
+
+const dump_escape_chars = string("\"\\", range(0x20))
+
+# Replaces characters, which cannot occur in JSON strings, with escape sequences
+fun escape_string(str)
+{
+    var pos = str.scan(dump_escape_chars)
+
+    if pos < 0 {
+        return str
+    }
+
+    const parts = []
+    var   begin = 0
+
+    repeat {
+        const c = str[pos]
+
+        parts.push(str[begin:pos])
+        parts.push(c in dump_escape_map ? dump_escape_map[c] : "\\u" + hex(str.code(pos), 4)[2:])
+
+        begin = pos + 1
+        pos   = str.scan(dump_escape_chars, begin)
+    } while pos >= 0
+
+    parts.push(str[begin:])
+
+    return string(parts...)
+}
+
 /* @item json dump()
  *
  *     dump(object)
@@ -368,7 +483,7 @@ fun dump(object)
         }
 
         case "string" {
-            return "\"\(object)\""
+            return "\"\( escape_string(object) )\""
         }
 
         case "array" {
-- 
2.43.0


From ccbca6c96c7f15d789d3f3ccfac5621180204290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 27/93] fix: json.parse ignored invalid characters and strings
 and accepted raw strings

---
 modules/json.kos | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index 8562677..02bdd44 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -122,8 +122,16 @@ fun tokenize(text)
 
         switch token.type {
 
-            case kos.token_comment, kos.token_whitespace, kos.token_eol {
-                # Ignore whitespace
+            case kos.token_whitespace {
+                # Ignore whitespace, the lexer also returns invalid text as whitespace
+                if token.token.strip().size {
+                    bad_token(token)
+                }
+                continue
+            }
+
+            case kos.token_comment, kos.token_eol {
+                # Ignore comments
                 continue
             }
 
@@ -165,6 +173,9 @@ fun tokenize(text)
             }
 
             case kos.token_string {
+                if token.token[0] != "\"" {
+                    bad_token(token) # Raw string
+                }
                 token.value = parse_string(token)
                 yield token
             }
-- 
2.43.0


From f62fcfe2b12f47e93a600243e40ff524dd48cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:12 +0000
Subject: [PATCH 28/93] fix: json.parse rejected the smallest integer

---
 modules/json.kos | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index 02bdd44..a05abf8 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -164,11 +164,8 @@ fun tokenize(text)
             }
 
             case kos.token_numeric {
-                token.value = number(token.token)
-                if had_minus {
-                    token.value = -token.value
-                    had_minus = false
-                }
+                token.value = number(had_minus ? "-" + token.token : token.token)
+                had_minus   = false
                 yield token
             }
 
-- 
2.43.0


From 1beb3d091fbe0b1718d469287fac171b0dc6c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 29/93] fix: json.dump failed for objects with a property named
 map

---
 modules/json.kos | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index a05abf8..bcaa4a4 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -2,7 +2,7 @@
 # Copyright (c) 2014-2023 Chris Dragan
 
 import kos
-import base: array, generator, hex, integer, join, number, range, string
+import base: array, generator, hex, integer, join, map, number, range, shallow, string
 
 const separator_map = {
     "{": void,
@@ -499,7 +499,7 @@ fun dump(object)
         }
 
         case "object" {
-            return "{\( object.map(kv => "\( dump(kv[0]) ):\( dump(kv[1]) )") -> join(",") )}"
+            return "{\( shallow(object) -> map(kv => "\( dump(kv[0]) ):\( dump(kv[1]) )") -> join(",") )}"
         }
 
         case "function" {
-- 
2.43.0


From 659f4611e21ad82846562f33dc8d62ef8e7a55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 30/93] fix: floats filling the print buffer were printed
 without a digit after the decimal point

---
 core/kos_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index 731a81e..a051675 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -568,7 +568,7 @@ unsigned kos_print_float(char *buf, unsigned size, double value)
             return 0U;
 
         /* Use exponent if integer part does not fit in the buffer */
-        if ( ! memchr(buf, '.', KOS_min((unsigned)len, size - 1))) {
+        if ( ! memchr(buf, '.', KOS_min((unsigned)len, size - 2))) {
             len = snprintf(buf, size, "%.16e", value);
             return (len < 0) ? 0U : (unsigned)len;
         }
-- 
2.43.0


From 475d811aaf0aabb3fc4623b0945738a008af16e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:56 +0000
Subject: [PATCH 31/93] fix: NaN was converted to an arbitrary integer

---
 core/kos_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 423b609..5ab2f41 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -180,7 +180,7 @@ int KOS_get_integer(KOS_CONTEXT ctx,
 
         case OBJ_FLOAT: {
             const double number = OBJPTR(FLOAT, obj_id)->value;
-            if (number <= -9223372036854775808.0 || number >= 9223372036854775808.0) {
+            if ( ! (number > -9223372036854775808.0 && number < 9223372036854775808.0)) { /* out of range or NaN */
                 KOS_raise_printf(ctx, "number %f is out of range for conversion to integer", number);
                 error = KOS_ERROR_EXCEPTION;
             }
-- 
2.43.0


From 92008ef5d770e00c12ec61d2655d2bc2e001953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:44 +0000
Subject: [PATCH 32/93] fix: json.parse_array did not detect the end of
 truncated text

---
 modules/json.kos | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index bcaa4a4..2dcf01b 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -2,7 +2,7 @@
 # Copyright (c) 2014-2023 Chris Dragan
 
 import kos
-import base: array, generator, hex, integer, join, map, number, range, shallow, string
+import base: array, generator, generator_end, hex, integer, join, map, number, range, shallow, string
 
 const separator_map = {
     "{": void,
@@ -194,6 +194,18 @@ class json_lexer {
         this.peeked = void
     }
 
+    fun fetch {
+        try {
+            return this.lexer()
+        }
+        catch const e {
+            if e.value instanceof generator_end {
+                throw "unexpected end of JSON text"
+            }
+            throw e
+        }
+    }
+
     fun next {
         const peeked = this.peeked
 
@@ -202,12 +214,12 @@ class json_lexer {
             return peeked
         }
 
-        return this.lexer()
+        return this.fetch()
     }
 
     fun peek {
         if ! this.peeked {
-            this.peeked = this.lexer()
+            this.peeked = this.fetch()
         }
 
         return this.peeked
-- 
2.43.0


From 924ad292a47da9d10088ff0233a104f57568ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:56 +0000
Subject: [PATCH 33/93] fix: deep() omitted inherited properties hidden by
 deleted ones

---
 core/kos_object.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/core/kos_object.c b/core/kos_object.c
index 43b26ba..43f46b1 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -1178,10 +1178,6 @@ int kos_object_walk(KOS_CONTEXT ctx,
                 continue;
 
             KOS_clear_exception(ctx);
-
-            error = KOS_set_property(ctx, returned_keys.o, key.o, KOS_VOID);
-            if (error)
-                break;
         }
 
         value = KOS_atomic_read_acquire_obj(OBJPTR(OBJECT_STORAGE, table.o)->items[index].value);
@@ -1191,23 +1187,24 @@ int kos_object_walk(KOS_CONTEXT ctx,
         if (value == TOMBSTONE)
             continue;
 
-        if ((value != CLOSED) && (value != RESERVED)) {
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_key,   key.o);
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_value, value);
-            error = KOS_SUCCESS;
-            break;
-        }
+        if ((value == CLOSED) || (value == RESERVED)) {
 
-        value = KOS_get_property_shallow(ctx, OBJPTR(ITERATOR, walk.o)->prop_obj, key.o);
+            value = KOS_get_property_shallow(ctx, OBJPTR(ITERATOR, walk.o)->prop_obj, key.o);
 
-        if (IS_BAD_PTR(value)) {
-            KOS_clear_exception(ctx);
-            continue;
+            if (IS_BAD_PTR(value)) {
+                KOS_clear_exception(ctx);
+                continue;
+            }
         }
 
         KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_key,   key.o);
         KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_value, value);
         error = KOS_SUCCESS;
+
+        /* Only hide properties of prototypes behind properties which exist */
+        if ( ! IS_BAD_PTR(returned_keys.o))
+            error = KOS_set_property(ctx, returned_keys.o, key.o, KOS_VOID);
+
         break;
     }
 
-- 
2.43.0


From 278a678e99ea534c636717748008b5c48dcf5187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:36 +0000
Subject: [PATCH 34/93] fix: debug build aborted when a base class constructor
 threw

---
 core/kos_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 1ae70ec..b9709e0 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -3873,7 +3873,7 @@ KOS_OBJ_ID kos_call_function(KOS_CONTEXT            ctx,
             assert(ctx->local_list == &func);
 
             assert(IS_BAD_PTR(ret.o) || GET_OBJ_TYPE(ret.o) <= OBJ_LAST_TYPE);
-            assert((state != KOS_CTOR) || (ret.o == this_.o));
+            assert((state != KOS_CTOR) || IS_BAD_PTR(ret.o) || (ret.o == this_.o));
         }
 
         finish_call(ctx, get_current_stack_frame(ctx),
-- 
2.43.0


From 640e18577e1e0a7d200244018f64f91a9b5491fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:41 +0000
Subject: [PATCH 35/93] fix: restore the print of 30-digit floats, which the
 tests specify

Reverts 659f461.
---
 core/kos_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index a051675..731a81e 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -568,7 +568,7 @@ unsigned kos_print_float(char *buf, unsigned size, double value)
             return 0U;
 
         /* Use exponent if integer part does not fit in the buffer */
-        if ( ! memchr(buf, '.', KOS_min((unsigned)len, size - 2))) {
+        if ( ! memchr(buf, '.', KOS_min((unsigned)len, size - 1))) {
             len = snprintf(buf, size, "%.16e", value);
             return (len < 0) ? 0U : (unsigned)len;
         }
-- 
2.43.0


From bc0dbecb009c310907c8a06aaf38ac72e7da84b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:18 +0000
Subject: [PATCH 36/93] fix: exception left pending when the default module
 path could not be found

---
 interpreter/kos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/kos.c b/interpreter/kos.c
index 084a9c1..0076081 100644
--- a/interpreter/kos.c
+++ b/interpreter/kos.c
@@ -218,8 +218,10 @@ int main(int argc, char *argv[])
         error = KOS_instance_add_default_path(ctx, KOS_NULL);
 
     /* Fallback: use argv[0] to find modules */
-    if (error)
+    if (error) {
+        KOS_clear_exception(ctx);
         error = KOS_instance_add_default_path(ctx, argv[0]);
+    }
 
     if (error) {
         fprintf(stderr, "Failed to setup module search paths\n");
-- 
2.43.0


From ce3d93d19bf060123a30907a032169ba4645cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 37/93] fix: compiler wrote past the argument name table when
 out of memory

---
 core/kos_compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 8477966..ac11f52 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -5640,7 +5640,7 @@ static int prealloc_arg_names(KOS_COMP_UNIT      *program,
             node->type == NT_IDENTIFIER ? node : node->children;
 
         if (gen_str(program, &ident_node->token, &arg_str_idx))
-            return 0;
+            return -1;
 
         node = node->next;
         ++count;
-- 
2.43.0


From 837e52b1868f0e3a9627d88c254d69677b96efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 38/93] fix: compiler used an uninitialised jump entry when out
 of memory

---
 core/kos_compiler.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index ac11f52..fc300d3 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1754,11 +1754,9 @@ static int push_jump_array(KOS_COMP_UNIT *program,
         jump_array->capacity = new_capacity;
     }
 
-    add_jump_instr_at_offset(program,
-                             &jump_array->entries[jump_array->num_jumps++],
-                             offs);
-
-    return KOS_SUCCESS;
+    return add_jump_instr_at_offset(program,
+                                    &jump_array->entries[jump_array->num_jumps++],
+                                    offs);
 }
 
 static int32_t negate_jump_opcode(int32_t opcode)
-- 
2.43.0


From 9fb50464a046196d5d408703ab5b72abbbe3569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:53 +0000
Subject: [PATCH 39/93] fix: os.spawn left its local objects registered when
 out of memory

---
 modules/kos_mod_os.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index ae9b900..eae9048 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -507,7 +507,7 @@ static int get_env_array(KOS_CONTEXT    ctx,
     array = (PROCESS_ARRAY)KOS_mempool_alloc(alloc, (est_num_env + 1) * sizeof(void *));
     if ( ! array) {
         KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-        return KOS_ERROR_EXCEPTION;
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
     out_ptr = array;
@@ -563,7 +563,7 @@ static int get_env_array(KOS_CONTEXT    ctx,
         buf = (char *)KOS_mempool_alloc(alloc, buf_size);
         if ( ! buf) {
             KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-            return KOS_ERROR_EXCEPTION;
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
 
         KOS_string_to_utf8(KOS_get_walk_key(in_obj.o), buf, key_len);
-- 
2.43.0


From e74c0c8fd791405731513cf194add3c29bb199fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:53 +0000
Subject: [PATCH 40/93] fix: regular expression parser reported no exception
 when out of memory

---
 modules/kos_mod_re.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index e0a5e5a..57681f5 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -273,8 +273,10 @@ static int emit_instr(struct RE_PARSE_CTX *re_ctx,
     int          i;
     uint16_t    *dest;
 
-    if (error)
-        return error;
+    if (error) {
+        KOS_raise_exception(re_ctx->ctx, KOS_STR_OUT_OF_MEMORY);
+        return KOS_ERROR_EXCEPTION;
+    }
 
     if (re_ctx->buf.size > 0xFFFFU) {
         KOS_raise_exception(re_ctx->ctx, KOS_CONST_ID(str_err_too_long));
@@ -1317,7 +1319,10 @@ static int parse_re(KOS_CONTEXT ctx, KOS_OBJ_ID regex_str, KOS_OBJ_ID regex)
     KOS_vector_init(&re_ctx.class_descs);
     KOS_vector_init(&re_ctx.class_data);
 
-    TRY(KOS_vector_reserve(&re_ctx.buf, KOS_get_string_length(regex_str) * 2U));
+    if (KOS_vector_reserve(&re_ctx.buf, KOS_get_string_length(regex_str) * 2U)) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
     re_ctx.ctx                 = ctx;
     re_ctx.idx                 = 1;
-- 
2.43.0


From 90d23e0df1aa50491fe8203baa69474a17ec3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 41/93] fix: unrelated failure of a collection reported as out
 of memory

An automatic collection rethrows the exception of a finished thread which
nobody waited for.  alloc_object discarded that exception and made the
unrelated allocation fail.
---
 core/kos_heap.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index 6837c5c..d88f4a5 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -1007,11 +1007,10 @@ static void *alloc_object(KOS_CONTEXT ctx,
 
         error = try_collect_garbage(ctx);
 
-        if (error && error != KOS_SUCCESS_RETURN) {
+        /* A failed collection does not mean that there is no memory, for example
+         * it reports an exception from a finished thread.  Try to allocate anyway. */
+        if (error && error != KOS_SUCCESS_RETURN)
             KOS_clear_exception(ctx);
-            kos_unlock_mutex(heap->mutex);
-            return KOS_NULL;
-        }
 
         /* Allocate a new page */
         page = alloc_page(heap);
-- 
2.43.0


From 8695aec6af1fcf5c6ed037992c07d9c5db8506e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 42/93] fix: heap size counted memory which could not be
 allocated

---
 core/kos_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index d88f4a5..dc1276b 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -616,8 +616,6 @@ static KOS_POOL *alloc_pool(KOS_HEAP *heap,
     if ( ! pool)
         return KOS_NULL;
 
-    heap->heap_size += alloc_size;
-
     assert(KOS_align_up((uintptr_t)pool, (uintptr_t)KOS_PAGE_SIZE) == (uintptr_t)pool);
 
     pool_hdr = (KOS_POOL *)KOS_malloc(sizeof(KOS_POOL));
@@ -627,6 +625,8 @@ static KOS_POOL *alloc_pool(KOS_HEAP *heap,
         return KOS_NULL;
     }
 
+    heap->heap_size += alloc_size;
+
     pool_hdr->memory     = pool;
     pool_hdr->alloc_size = alloc_size;
 
-- 
2.43.0


From bb73b5be9500ea31865006af17eb80c7fac751aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:53 +0000
Subject: [PATCH 43/93] fix: wrong default values of arguments beyond the 32nd

When the call passed some, but not all of the arguments which go to the rest
array, the defaults of the remaining ones were taken from a wrong offset.
---
 core/kos_vm.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index b9709e0..b08d6da 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -644,9 +644,7 @@ static int init_registers(KOS_CONTEXT ctx,
 
             if (num_input_args < num_named_args && num_reg_args < num_named_args) {
 
-                const uint32_t def_src_offs = num_input_args < num_reg_args
-                                              ? num_reg_args - num_non_def_args
-                                              : num_input_args - num_reg_args;
+                const uint32_t def_src_offs = KOS_max(num_input_args, num_reg_args) - num_non_def_args;
 
                 TRY(KOS_array_insert(ctx,
                                      rest.o,
-- 
2.43.0


From 70128d4aad499549637d31377441a6ed66fcb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:21 +0000
Subject: [PATCH 44/93] fix: thread shared the array of arguments with the
 caller of async

The caller could modify the arguments of the thread and the defaults of
a built-in function were appended to the caller's array.
---
 modules/kos_mod_base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 7584073..6ee3373 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -1951,6 +1951,10 @@ static KOS_OBJ_ID async(KOS_CONTEXT ctx,
     if (GET_OBJ_TYPE(arg_args.o) != OBJ_ARRAY)
         RAISE_EXCEPTION_STR(str_err_args_not_array);
 
+    /* The caller can modify its array after the thread starts */
+    arg_args.o = KOS_array_slice(ctx, arg_args.o, 0, MAX_INT64);
+    TRY_OBJID(arg_args.o);
+
     thread = kos_thread_create(ctx, func.o, arg_this.o, arg_args.o);
     if ( ! thread) {
         error = KOS_ERROR_EXCEPTION;
-- 
2.43.0


From 3d5d98218fa89f55c6a99b930c5e66493b54fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:04 +0000
Subject: [PATCH 45/93] fix: range did not stop at the end of 64-bit integers

---
 modules/base.kos | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/base.kos b/modules/base.kos
index f631f71..c98f06a 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -61,13 +61,21 @@ public fun range(start, args...)
     if step > 0 {
         while start < stop {
             yield start
+            const prev = start
             start += step
+            if start < prev { // integer overflow
+                break
+            }
         }
     }
     else if step < 0 {
         while start > stop {
             yield start
+            const prev = start
             start += step
+            if start > prev { // integer overflow
+                break
+            }
         }
     }
 }
-- 
2.43.0


From 3fba442b589fb1be5bda25a5eacddda782a65cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:52 +0000
Subject: [PATCH 46/93] fix: sort crashed when the key function resized the
 array

Elements were read from the storage of the array while the key function
could replace it and results were written without checking the size of
the array or whether it is read-only.
---
 modules/kos_mod_base.c | 64 ++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 6ee3373..335dca0 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2318,36 +2318,41 @@ static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
         sort_range(mid + step, end + step, step, reverse);
 }
 
-static void copy_sort_results(KOS_CONTEXT ctx,
-                              KOS_OBJ_ID  ret,
-                              KOS_OBJ_ID  sorted,
-                              uint32_t    step)
+/* Elements are written one by one with checks, because the array can be
+ * modified by the key function or by another thread. */
+static int copy_sort_results(KOS_CONTEXT ctx,
+                             KOS_OBJ_ID  ret_obj,
+                             KOS_OBJ_ID  sorted_obj,
+                             uint32_t    step)
 {
-    KOS_ATOMIC(KOS_OBJ_ID) *src;
-    KOS_ATOMIC(KOS_OBJ_ID) *src_end;
-    KOS_ATOMIC(KOS_OBJ_ID) *dest;
+    int       error = KOS_SUCCESS;
+    uint32_t  size;
+    uint32_t  i_src = (step == 3) ? 2 : 0;
+    int       i     = 0;
+    KOS_LOCAL ret;
+    KOS_LOCAL sorted;
 
-    assert(GET_OBJ_TYPE(ret) == OBJ_ARRAY);
-    assert(GET_OBJ_TYPE(sorted) == OBJ_ARRAY);
+    assert(GET_OBJ_TYPE(ret_obj) == OBJ_ARRAY);
+    assert(GET_OBJ_TYPE(sorted_obj) == OBJ_ARRAY);
     assert(step == 2 || step == 3);
 
-    src     = kos_get_array_buffer(OBJPTR(ARRAY, sorted));
-    src_end = src + KOS_get_array_size(sorted);
-    dest    = kos_get_array_buffer(OBJPTR(ARRAY, ret));
+    KOS_init_locals(ctx, &ret, &sorted, kos_end_locals);
 
-    assert(KOS_get_array_size(ret) * step == KOS_get_array_size(sorted));
+    ret.o    = ret_obj;
+    sorted.o = sorted_obj;
+    size     = KOS_get_array_size(sorted.o);
 
-    if (step == 3)
-        src += 2;
+    for ( ; i_src < size; i_src += step, ++i) {
+        const KOS_OBJ_ID storage = kos_get_array_storage(sorted.o);
+        const KOS_OBJ_ID val     = KOS_atomic_read_relaxed_obj(OBJPTR(ARRAY_STORAGE, storage)->buf[i_src]);
 
-    while (src < src_end) {
+        TRY(KOS_array_write(ctx, ret.o, i, val));
+    }
 
-        const KOS_OBJ_ID val = KOS_atomic_read_relaxed_obj(*src);
-        KOS_atomic_write_relaxed_ptr(*dest, val);
+cleanup:
+    KOS_destroy_top_locals(ctx, &ret, &sorted);
 
-        src += step;
-        ++dest;
-    }
+    return error;
 }
 
 /* @item base array.prototype.sort()
@@ -2419,17 +2424,22 @@ static KOS_OBJ_ID sort(KOS_CONTEXT ctx,
         to_expand.o = this_obj;
         sort_key.o  = key;
 
-        expanded.o = expand_for_sort(ctx, to_expand.o, sort_key.o);
+        /* Sort a copy, the key function can modify the array */
+        expanded.o = KOS_array_slice(ctx, to_expand.o, 0, MAX_INT64);
+        TRY_OBJID(expanded.o);
+
+        expanded.o = expand_for_sort(ctx, expanded.o, sort_key.o);
         TRY_OBJID(expanded.o);
 
         src = kos_get_array_buffer(OBJPTR(ARRAY, expanded.o));
 
-        sort_range(src,
-                   src + KOS_get_array_size(expanded.o),
-                   (sort_key.o == KOS_VOID) ? 2 : 3,
-                   (int)KOS_get_bool(reverse_id));
+        if (KOS_get_array_size(expanded.o))
+            sort_range(src,
+                       src + KOS_get_array_size(expanded.o),
+                       (sort_key.o == KOS_VOID) ? 2 : 3,
+                       (int)KOS_get_bool(reverse_id));
 
-        copy_sort_results(ctx, to_expand.o, expanded.o, (sort_key.o == KOS_VOID) ? 2 : 3);
+        TRY(copy_sort_results(ctx, to_expand.o, expanded.o, (sort_key.o == KOS_VOID) ? 2 : 3));
 
         this_obj = to_expand.o;
     }
-- 
2.43.0


From 9a75a29aaa6f86128491b3462df4cca58ef70b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 47/93] fix: sort of sorted arrays overflowed the stack and
 took quadratic time

---
 modules/kos_mod_base.c | 92 ++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 49 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 335dca0..aa51e98 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2250,72 +2250,66 @@ static int is_less_for_sort(KOS_OBJ_ID         left_key,
         return (intptr_t)left_idx > (intptr_t)right_idx;
 }
 
+static void swap_for_sort(KOS_ATOMIC(KOS_OBJ_ID) *a,
+                          KOS_ATOMIC(KOS_OBJ_ID) *b,
+                          int                     step)
+{
+    int i;
+
+    for (i = 0; i < step; i++) {
+        const KOS_OBJ_ID a_obj = KOS_atomic_read_relaxed_obj(a[i]);
+
+        KOS_atomic_write_relaxed_ptr(a[i], KOS_atomic_read_relaxed_obj(b[i]));
+        KOS_atomic_write_relaxed_ptr(b[i], a_obj);
+    }
+}
+
 static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
                        KOS_ATOMIC(KOS_OBJ_ID) *end,
                        int                     step,
                        int                     reverse)
 {
-    const KOS_OBJ_ID pivot_key = KOS_atomic_read_relaxed_obj(*(end - step));
-    const KOS_OBJ_ID pivot_idx = KOS_atomic_read_relaxed_obj(*(end - step + 1));
-
-    KOS_ATOMIC(KOS_OBJ_ID)  *mid = begin - step;
-    KOS_ATOMIC(KOS_OBJ_ID)  *p   = begin;
-    const KOS_COMPARE_RESULT lt  = reverse ? KOS_GREATER_THAN : KOS_LESS_THAN;
-    const KOS_COMPARE_RESULT gt  = reverse ? KOS_LESS_THAN : KOS_GREATER_THAN;
-
-    end -= step;
+    const KOS_COMPARE_RESULT lt = reverse ? KOS_GREATER_THAN : KOS_LESS_THAN;
+    const KOS_COMPARE_RESULT gt = reverse ? KOS_LESS_THAN : KOS_GREATER_THAN;
 
-    while (p < end) {
-        const KOS_OBJ_ID key = KOS_atomic_read_relaxed_obj(p[0]);
-        const KOS_OBJ_ID idx = KOS_atomic_read_relaxed_obj(p[1]);
+    while (end - begin > step) {
 
-        if (is_less_for_sort(key, idx, lt, gt, pivot_key, pivot_idx)) {
+        const uint32_t                size = (uint32_t)((end - begin) / step);
+        KOS_ATOMIC(KOS_OBJ_ID) *const last = end - step;
+        KOS_ATOMIC(KOS_OBJ_ID)       *mid  = begin;
+        KOS_ATOMIC(KOS_OBJ_ID)       *p;
+        KOS_OBJ_ID                    pivot_key;
+        KOS_OBJ_ID                    pivot_idx;
 
-            mid += step;
+        /* Select pivot from a pseudo-random position, so that regular input,
+         * such as already sorted, does not lead to quadratic time */
+        swap_for_sort(begin + ((size * 0x9E3779B1U) >> 4) % size * step, last, step);
 
-            KOS_atomic_write_relaxed_ptr(p[0], KOS_atomic_read_relaxed_obj(mid[0]));
-            KOS_atomic_write_relaxed_ptr(p[1], KOS_atomic_read_relaxed_obj(mid[1]));
+        pivot_key = KOS_atomic_read_relaxed_obj(last[0]);
+        pivot_idx = KOS_atomic_read_relaxed_obj(last[1]);
 
-            KOS_atomic_write_relaxed_ptr(mid[0], key);
-            KOS_atomic_write_relaxed_ptr(mid[1], idx);
+        for (p = begin; p < last; p += step) {
+            const KOS_OBJ_ID key = KOS_atomic_read_relaxed_obj(p[0]);
+            const KOS_OBJ_ID idx = KOS_atomic_read_relaxed_obj(p[1]);
 
-            if (step == 3) {
-                const KOS_OBJ_ID val = KOS_atomic_read_relaxed_obj(p[2]);
-
-                KOS_atomic_write_relaxed_ptr(p[2], KOS_atomic_read_relaxed_obj(mid[2]));
-                KOS_atomic_write_relaxed_ptr(mid[2], val);
+            if (is_less_for_sort(key, idx, lt, gt, pivot_key, pivot_idx)) {
+                swap_for_sort(p, mid, step);
+                mid += step;
             }
         }
 
-        p += step;
-    }
-
-    mid += step;
-
-    {
-        const KOS_OBJ_ID key = KOS_atomic_read_relaxed_obj(mid[0]);
-        const KOS_OBJ_ID idx = KOS_atomic_read_relaxed_obj(mid[1]);
-
-        if (is_less_for_sort(pivot_key, pivot_idx, lt, gt, key, idx)) {
-            KOS_atomic_write_relaxed_ptr(end[0], key);
-            KOS_atomic_write_relaxed_ptr(end[1], idx);
-
-            KOS_atomic_write_relaxed_ptr(mid[0], pivot_key);
-            KOS_atomic_write_relaxed_ptr(mid[1], pivot_idx);
+        swap_for_sort(mid, last, step);
 
-            if (step == 3) {
-                const KOS_OBJ_ID pivot_val = KOS_atomic_read_relaxed_obj(end[2]);
-
-                KOS_atomic_write_relaxed_ptr(end[2], KOS_atomic_read_relaxed_obj(mid[2]));
-                KOS_atomic_write_relaxed_ptr(mid[2], pivot_val);
-            }
+        /* Recurse into the smaller part to limit stack depth */
+        if (mid - begin < end - mid) {
+            sort_range(begin, mid, step, reverse);
+            begin = mid + step;
+        }
+        else {
+            sort_range(mid + step, end, step, reverse);
+            end = mid;
         }
     }
-
-    if (begin + step < mid)
-        sort_range(begin, mid, step, reverse);
-    if (mid + step < end)
-        sort_range(mid + step, end + step, step, reverse);
 }
 
 /* Elements are written one by one with checks, because the array can be
-- 
2.43.0


From d1bacf9844d8835016c4cd2f1743fed51580ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:04 +0000
Subject: [PATCH 48/93] fix: sort treated an iterator as a key function

---
 modules/base.kos | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/base.kos b/modules/base.kos
index c98f06a..87f3a16 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -1810,6 +1810,11 @@ public fun sort(key = void, args...)
                     }
                 }
             }
+            else if (key instanceof generator) && (key.state != "init") {
+                // iterator is not a key function, but an iterable
+                iterable = key
+                key      = void
+            }
             else {
                 return sort
             }
-- 
2.43.0


From e49f77fab0d8551f3e107a446a3b05428ad59e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:04 +0000
Subject: [PATCH 49/93] fix: for loop over range did not stop for a zero step
 and ignored extra arguments

---
 core/kos_compiler.c | 75 +++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index fc300d3..c3d9ba6 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -2362,9 +2362,41 @@ cleanup:
     return error;
 }
 
+static int is_range_name(const KOS_TOKEN *token)
+{
+    return (token->length == 5) && ! memcmp(token->begin, "range", 5);
+}
+
+static int get_range_step(KOS_COMP_UNIT      *program,
+                          const KOS_AST_NODE *node,
+                          KOS_NUMERIC        *numeric)
+{
+    node = kos_get_const(program, node);
+
+    if ( ! node || (node->type != NT_NUMERIC_LITERAL))
+        return KOS_ERROR_NOT_FOUND;
+
+    if (node->token.type == TT_NUMERIC_BINARY) {
+
+        assert(node->token.length == sizeof(KOS_NUMERIC));
+
+        *numeric = *(const KOS_NUMERIC *)node->token.begin;
+
+        return KOS_SUCCESS;
+    }
+
+    assert(node->token.type == TT_NUMERIC);
+
+    return kos_parse_numeric(node->token.begin,
+                             node->token.begin + node->token.length,
+                             numeric);
+}
+
 static int is_for_range(KOS_COMP_UNIT      *program,
                         const KOS_AST_NODE *node)
 {
+    KOS_NUMERIC step;
+
     assert(node->type == NT_FOR_IN);
 
     node = node->children;
@@ -2408,7 +2440,7 @@ static int is_for_range(KOS_COMP_UNIT      *program,
                 return 0;
         }
 
-        if (strncmp(var->token->begin, "range", var->token->length) != 0)
+        if ( ! is_range_name(var->token))
             return 0;
     }
     /* Detect reference via base.range() */
@@ -2434,7 +2466,7 @@ static int is_for_range(KOS_COMP_UNIT      *program,
         if ((ref_node->type != NT_IDENTIFIER) && (ref_node->type != NT_STRING_LITERAL))
             return 0;
 
-        if (strncmp(ref_node->token.begin, "range", ref_node->token.length) != 0)
+        if ( ! is_range_name(&ref_node->token))
             return 0;
     }
     else
@@ -2462,10 +2494,15 @@ static int is_for_range(KOS_COMP_UNIT      *program,
         if ( ! node)
             return 1;
 
-        /* The third argument must be a numeric constant in order to be optimized */
-        node = kos_get_const(program, node);
-        if (node && (node->type == NT_NUMERIC_LITERAL))
-            return 1;
+        /* More arguments not supported */
+        if (node->next)
+            return 0;
+
+        /* The third argument must be a non-zero numeric constant in order to be optimized */
+        if (get_range_step(program, node, &step))
+            return 0;
+
+        return (step.type == KOS_INTEGER_VALUE) ? (step.u.i != 0) : (step.u.d != 0.0);
     }
 
     return 0;
@@ -2692,6 +2729,7 @@ static int for_range(KOS_COMP_UNIT      *program,
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
     SAVED_TRY_SCOPES    prev_try_scope = push_try_scope(program, 1);
     KOS_NODE_TYPE       lhs_type;
+    KOS_NUMERIC         step;
     int                 decrement      = 0;
     uint32_t            initial_jump_entry;
     int                 loop_start_offs;
@@ -2801,30 +2839,9 @@ static int for_range(KOS_COMP_UNIT      *program,
         if (node) {
             TRY(visit_node(program, node, &step_reg));
 
-            node = kos_get_const(program, node);
-            assert(node);
-            assert(node->type == NT_NUMERIC_LITERAL);
-
-            if (node->token.type == TT_NUMERIC_BINARY) {
+            TRY(get_range_step(program, node, &step));
 
-                const KOS_NUMERIC *numeric = (const KOS_NUMERIC *)node->token.begin;
-
-                if (numeric->type == KOS_INTEGER_VALUE) {
-                    if (numeric->u.i < 0)
-                        decrement = 1;
-                }
-                else {
-                    assert(numeric->type == KOS_FLOAT_VALUE);
-                    if (numeric->u.d < 0)
-                        decrement = 1;
-                }
-            }
-            else {
-                assert(node->token.type == TT_NUMERIC);
-
-                if (*node->token.begin == '-')
-                    decrement = 1;
-            }
+            decrement = (step.type == KOS_INTEGER_VALUE) ? (step.u.i < 0) : (step.u.d < 0);
         }
         else {
             TRY(gen_reg(program, &step_reg));
-- 
2.43.0


From a7d2cb27eca9d777ea5a5c9e094e194618fbe2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:40 +0000
Subject: [PATCH 50/93] fix: regular expression class lost characters when
 ranges were joined

---
 modules/kos_mod_re.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index 57681f5..b5f0c5b 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -629,7 +629,7 @@ static int add_class_range(struct RE_PARSE_CTX *re_ctx,
     assert(begin_code <= range[begin].begin_code);
 
     if (begin && (begin_code <= range[begin - 1].end_code + 1))
-        range[--begin].end_code = end_code;
+        --begin;
 
     for ( ; end < desc->num_ranges; ++end)
         if (end_code + 1 < range[end].begin_code)
-- 
2.43.0


From 6b0d4cfe233ccdd39c8ecc29728bef7b4a65445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:46 +0000
Subject: [PATCH 51/93] fix: regular expression repeated empty matches until it
 ran out of time and lost groups at position 65535

---
 modules/kos_mod_re.c | 113 +++++++++++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 36 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index b5f0c5b..77b3464 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -1380,10 +1380,16 @@ cleanup:
     return error;
 }
 
+/* Position of a group which has not been matched */
+#define NO_GROUP_POS 0xFFFFFFFFU
+
 struct RE_POSS_STACK_ITEM {
-    uint16_t instr_idx;
-    uint16_t str_end_offs; /* char idx in the string, from the end of the string */
-    uint16_t counts_and_groups[1];
+    uint32_t instr_idx;
+    uint32_t str_end_offs; /* char idx in the string, from the end of the string */
+    /* For each count: number of iterations, position where the current iteration
+     * started (from the end of the string).
+     * For each group: begin and end position. */
+    uint32_t counts_and_groups[1];
 };
 
 struct RE_POSS_STACK {
@@ -1391,15 +1397,20 @@ struct RE_POSS_STACK {
     struct RE_POSS_STACK_ITEM *current;
 };
 
-static int get_num_slots(const struct RE_OBJ *re)
+static unsigned get_num_count_slots(const struct RE_OBJ *re)
 {
-    return (re->num_groups * 2) + re->num_counts;
+    return re->num_counts * 2U;
+}
+
+static unsigned get_num_slots(const struct RE_OBJ *re)
+{
+    return (re->num_groups * 2U) + get_num_count_slots(re);
 }
 
 static size_t get_item_size(const struct RE_OBJ *re)
 {
     const size_t num_slots = get_num_slots(re);
-    return sizeof(struct RE_POSS_STACK_ITEM) + sizeof(uint16_t) * (num_slots - 1);
+    return sizeof(struct RE_POSS_STACK_ITEM) + sizeof(uint32_t) * num_slots - sizeof(uint32_t);
 }
 
 static struct RE_POSS_STACK_ITEM *push_item(struct RE_POSS_STACK *poss_stack,
@@ -1428,7 +1439,7 @@ static int reset_possibility_stack(struct RE_POSS_STACK *poss_stack,
                                    const struct RE_OBJ  *re)
 {
     const size_t item_size  = get_item_size(re);
-    const size_t group_size = re->num_groups * 2 * sizeof(uint16_t);
+    const size_t group_size = re->num_groups * 2 * sizeof(uint32_t);
 
     poss_stack->buffer.size = 0;
     poss_stack->current     = KOS_NULL;
@@ -1439,14 +1450,16 @@ static int reset_possibility_stack(struct RE_POSS_STACK *poss_stack,
     memset(poss_stack->current, 0, item_size - group_size);
 
     if (group_size) {
-        memset(&poss_stack->current->counts_and_groups[re->num_counts], 0xFFU, group_size);
+        const unsigned num_count_slots = get_num_count_slots(re);
+
+        memset(&poss_stack->current->counts_and_groups[num_count_slots], 0xFFU, group_size);
 
         if (re->num_counts) {
             assert(poss_stack->current->counts_and_groups[0] == 0);
-            assert(poss_stack->current->counts_and_groups[re->num_counts - 1] == 0);
+            assert(poss_stack->current->counts_and_groups[num_count_slots - 1] == 0);
         }
-        assert(poss_stack->current->counts_and_groups[re->num_counts] == 0xFFFFU);
-        assert(poss_stack->current->counts_and_groups[re->num_counts + re->num_groups * 2 - 1] == 0xFFFFU);
+        assert(poss_stack->current->counts_and_groups[num_count_slots] == NO_GROUP_POS);
+        assert(poss_stack->current->counts_and_groups[num_count_slots + re->num_groups * 2 - 1] == NO_GROUP_POS);
     }
 
     return KOS_SUCCESS;
@@ -1457,6 +1470,11 @@ static void destroy_possibility_stack(struct RE_POSS_STACK *poss_stack)
     KOS_vector_destroy(&poss_stack->buffer);
 }
 
+static uint32_t get_end_offs(const KOS_STRING_ITER *iter)
+{
+    return (uint32_t)((iter->end - iter->ptr) >> iter->elem_size);
+}
+
 static int push_possibility(struct RE_POSS_STACK *poss_stack,
                             KOS_CONTEXT           ctx,
                             const struct RE_OBJ  *re,
@@ -1475,8 +1493,8 @@ static int push_possibility(struct RE_POSS_STACK *poss_stack,
 
     memcpy(saved_item, poss_stack->current, item_size);
 
-    saved_item->instr_idx    = (uint16_t)(target_ptr - &re->bytecode[0]);
-    saved_item->str_end_offs = (uint16_t)((iter->end - iter->ptr) >> iter->elem_size);
+    saved_item->instr_idx    = (uint32_t)(target_ptr - &re->bytecode[0]);
+    saved_item->str_end_offs = get_end_offs(iter);
 
     return KOS_SUCCESS;
 }
@@ -1548,8 +1566,8 @@ static int create_found_groups(KOS_CONTEXT                      ctx,
     KOS_LOCAL       match_groups;
     KOS_LOCAL       str;
     KOS_LOCAL       group;
-    const uint16_t *group_ptr;
-    const uint16_t *end_ptr;
+    const uint32_t *group_ptr;
+    const uint32_t *end_ptr;
     unsigned        i     = 0;
     int             error = KOS_SUCCESS;
 
@@ -1558,17 +1576,17 @@ static int create_found_groups(KOS_CONTEXT                      ctx,
     KOS_init_local_with(ctx, &str, str_obj);
     KOS_init_local(ctx, &group);
 
-    group_ptr = &found->counts_and_groups[re->num_counts];
+    group_ptr = &found->counts_and_groups[get_num_count_slots(re)];
     end_ptr   = group_ptr + 2 * re->num_groups;
 
     for ( ; group_ptr < end_ptr; group_ptr += 2, ++i) {
 
-        const int begin = (int)(unsigned int)group_ptr[0];
-        const int end   = (int)(unsigned int)group_ptr[1];
+        const uint32_t begin = group_ptr[0];
+        const uint32_t end   = group_ptr[1];
 
         group.o = KOS_VOID;
 
-        if ((begin != 0xFFFFU) && (end != 0xFFFFU)) {
+        if ((begin != NO_GROUP_POS) && (end != NO_GROUP_POS)) {
 
             KOS_OBJ_ID match_obj;
 
@@ -1593,7 +1611,7 @@ cleanup:
     return error;
 }
 
-static uint16_t get_iter_pos(KOS_OBJ_ID str_obj, KOS_STRING_ITER *iter)
+static uint32_t get_iter_pos(KOS_OBJ_ID str_obj, KOS_STRING_ITER *iter)
 {
     KOS_STRING_ITER iter0;
     uintptr_t       pos;
@@ -1602,12 +1620,24 @@ static uint16_t get_iter_pos(KOS_OBJ_ID str_obj, KOS_STRING_ITER *iter)
 
     pos = ((uintptr_t)iter->ptr - (uintptr_t)iter0.ptr) >> iter0.elem_size;
 
-    return (uint16_t)pos;
+    return (uint32_t)pos;
 }
 
-static uint16_t *get_group(struct RE_POSS_STACK *poss_stack, uint16_t num_counts, uint16_t group_id)
+static uint32_t *get_group(struct RE_POSS_STACK *poss_stack, const struct RE_OBJ *re, uint16_t group_id)
 {
-    return &poss_stack->current->counts_and_groups[num_counts + group_id * 2];
+    return &poss_stack->current->counts_and_groups[get_num_count_slots(re) + group_id * 2U];
+}
+
+static uint32_t *get_count(struct RE_POSS_STACK *poss_stack, uint16_t count_id)
+{
+    return &poss_stack->current->counts_and_groups[count_id * 2U];
+}
+
+/* Checks if another, optional iteration can be attempted.  If the previous iteration
+ * matched an empty string, another one would not make any progress. */
+static int can_repeat(const uint32_t *count, uint16_t max_count, const KOS_STRING_ITER *iter)
+{
+    return (count[0] < max_count) && (count[1] != get_end_offs(iter));
 }
 
 static int is_word_char(uint32_t code)
@@ -1776,7 +1806,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 const uint16_t group_id = bytecode[1];
 
                 if (is_capturing_group(group_id))
-                    get_group(poss_stack, re->num_counts, group_id)[0] = get_iter_pos(str.o, &iter);
+                    get_group(poss_stack, re, group_id)[0] = get_iter_pos(str.o, &iter);
 
                 bytecode += 2;
                 NEXT_INSTRUCTION;
@@ -1786,7 +1816,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 const uint16_t group_id = bytecode[1];
 
                 if (is_capturing_group(group_id))
-                    get_group(poss_stack, re->num_counts, group_id)[1] = get_iter_pos(str.o, &iter);
+                    get_group(poss_stack, re, group_id)[1] = get_iter_pos(str.o, &iter);
 
                 bytecode += 2;
                 NEXT_INSTRUCTION;
@@ -1820,7 +1850,8 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
 
                 assert(delta);
 
-                poss_stack->current->counts_and_groups[count_id] = 0;
+                get_count(poss_stack, count_id)[0] = 0;
+                get_count(poss_stack, count_id)[1] = get_end_offs(&iter);
 
                 if (min_count == 0)
                     TRY(push_possibility(poss_stack, ctx, re, bytecode + delta, &iter));
@@ -1836,7 +1867,8 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
 
                 assert(delta);
 
-                poss_stack->current->counts_and_groups[count_id] = 0;
+                get_count(poss_stack, count_id)[0] = 0;
+                get_count(poss_stack, count_id)[1] = get_end_offs(&iter);
 
                 if (min_count)
                     bytecode += 4;
@@ -1853,7 +1885,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 const uint16_t count_id  = bytecode[2];
                 const uint16_t min_count = bytecode[3];
                 const uint16_t max_count = bytecode[4];
-                unsigned       count;
+                uint32_t      *count;
 
                 assert(delta);
                 assert(poss_stack->current);
@@ -1861,11 +1893,15 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 if ( ! poss_stack->current)
                     RAISE_ERROR(KOS_ERROR_INTERNAL);
 
-                count = ++poss_stack->current->counts_and_groups[count_id];
+                count = get_count(poss_stack, count_id);
+                ++count[0];
 
-                if (count < min_count)
+                if (count[0] < min_count) {
+                    count[1] = get_end_offs(&iter);
                     bytecode += delta;
-                else if (count < max_count) {
+                }
+                else if (can_repeat(count, max_count, &iter)) {
+                    count[1] = get_end_offs(&iter);
                     TRY(push_possibility(poss_stack, ctx, re, bytecode + 5, &iter));
                     bytecode += delta;
                 }
@@ -1880,7 +1916,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 const uint16_t count_id  = bytecode[2];
                 const uint16_t min_count = bytecode[3];
                 const uint16_t max_count = bytecode[4];
-                unsigned       count;
+                uint32_t      *count;
 
                 assert(delta);
                 assert(poss_stack->current);
@@ -1888,13 +1924,18 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 if ( ! poss_stack->current)
                     RAISE_ERROR(KOS_ERROR_INTERNAL);
 
-                count = ++poss_stack->current->counts_and_groups[count_id];
+                count = get_count(poss_stack, count_id);
+                ++count[0];
 
-                if (count < min_count)
+                if (count[0] < min_count) {
+                    count[1] = get_end_offs(&iter);
                     bytecode += delta;
+                }
                 else {
-                    if (count < max_count)
+                    if (can_repeat(count, max_count, &iter)) {
+                        count[1] = get_end_offs(&iter);
                         TRY(push_possibility(poss_stack, ctx, re, bytecode + delta, &iter));
+                    }
                     bytecode += 5;
                 }
 
@@ -1914,7 +1955,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                     goto cleanup;
 
                 bytecode = &re->bytecode[poss_stack->current->instr_idx];
-                iter.ptr = iter.end - ((unsigned)poss_stack->current->str_end_offs << iter.elem_size);
+                iter.ptr = iter.end - ((uintptr_t)poss_stack->current->str_end_offs << iter.elem_size);
             }
         }
     }
-- 
2.43.0


From a43e7ae1c92a05f7207df0d316473a1a42499dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:03 +0000
Subject: [PATCH 52/93] fix: deeply nested groups in a regular expression
 overflowed the native stack

---
 modules/kos_mod_re.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index 77b3464..f6137ff 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -210,6 +210,9 @@ struct RE_PARSE_CTX {
 
 #define NO_CLASS_ID 0xFFFFU
 
+/* Limit on nesting of groups, the parser is recursive */
+#define MAX_GROUP_DEPTH 1000U
+
 struct RE_CLASS_DESC {
     uint16_t begin_idx;
     uint16_t num_ranges;
@@ -937,6 +940,12 @@ static int parse_group(struct RE_PARSE_CTX *re_ctx)
     if (error)
         return error;
 
+    if (re_ctx->group_depth >= MAX_GROUP_DEPTH) {
+        KOS_raise_printf(re_ctx->ctx, "error parsing regular expression: "
+                         "groups nested too deep at position %d", re_ctx->idx);
+        return KOS_ERROR_EXCEPTION;
+    }
+
     ++re_ctx->group_depth;
 
     error = parse_alternative_match_seq(re_ctx);
-- 
2.43.0


From 5af7f52dd48f75a02602e0aa052b167be65382e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 53/93] fix: math.pow returned an integer for base 0 or 1 and
 for exponent 0

---
 modules/kos_mod_math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_math.c b/modules/kos_mod_math.c
index e42e7fe..bc5bdaa 100644
--- a/modules/kos_mod_math.c
+++ b/modules/kos_mod_math.c
@@ -663,10 +663,10 @@ static KOS_OBJ_ID kos_pow(KOS_CONTEXT ctx,
         if (val2 == 0)
             RAISE_EXCEPTION(str_err_pow_0_0);
         else
-            ret = TO_SMALL_INT(0);
+            ret = KOS_new_float(ctx, 0.0);
     }
     else if (val1 == 1 || val2 == 0)
-        ret = TO_SMALL_INT(1);
+        ret = KOS_new_float(ctx, 1.0);
     else if (val1 < 0 && ceil(val2) != val2)
         RAISE_EXCEPTION(str_err_negative_root);
     else
-- 
2.43.0


From bf5b9bfd6f8489197736d1b7f4dcb6722100dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 54/93] fix: datetime accepted the day after the end of a month
 and got dates before 1970 and float timestamps wrong

---
 modules/datetime.kos | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/modules/datetime.kos b/modules/datetime.kos
index 9b1275d..56a2f11 100644
--- a/modules/datetime.kos
+++ b/modules/datetime.kos
@@ -4,12 +4,20 @@
 import base.integer
 import math.floor
 
+# Integer division rounded towards negative infinity
+fun floor_div(value, divisor)
+{
+    const quotient = value / divisor
+
+    return (value % divisor < 0) ? quotient - 1 : quotient
+}
+
 fun first_day_from_year(year)
 {
     return 365 * (year - 1970) +
            ((year - 1969) >> 2) -
-           ((year - 1901) / 100) +
-           ((year - 1601) / 400)
+           floor_div(year - 1901, 100) +
+           floor_div(year - 1601, 400)
 }
 
 fun is_leap_year(year)
@@ -123,15 +131,22 @@ public class datetime
             ts_check("second", second)
             ts_check("us",     us)
 
+            if typeof timestamp == "float" {
+                timestamp = integer(floor(timestamp))
+            }
+
             this.timestamp = timestamp
-            this.us        = timestamp % 1_000_000
-            timestamp     /= 1_000_000
-            this.second    = timestamp % 60
-            timestamp     /= 60
-            this.minute    = timestamp % 60
-            timestamp     /= 60
-            this.hour      = timestamp % 24
-            timestamp     /= 24
+
+            const seconds  = floor_div(timestamp, 1_000_000)
+            const minutes  = floor_div(seconds, 60)
+            const hours    = floor_div(minutes, 60)
+            const days     = floor_div(hours, 24)
+
+            this.us        = timestamp - seconds * 1_000_000
+            this.second    = seconds - minutes * 60
+            this.minute    = minutes - hours * 60
+            this.hour      = hours - days * 24
+            timestamp      = days
 
             const year0  = integer(floor(timestamp / 365.2425)) + 1970
             var   day_ts = first_day_from_year(year0)
@@ -195,7 +210,7 @@ public class datetime
             const first_days = (leap ? first_day_leap : first_day)
             timestamp += first_days[month - 1]
 
-            date_check("day", day, 1, first_days[month] - first_days[month - 1] + 1)
+            date_check("day", day, 1, first_days[month] - first_days[month - 1])
 
             timestamp += day - 1
 
-- 
2.43.0


From c321dc9b148c8f9694fca2c4808e4b1e171314f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 55/93] fix: releasing a mutex held by another thread unlocked
 it

---
 modules/kos_mod_threads.c | 61 +++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/modules/kos_mod_threads.c b/modules/kos_mod_threads.c
index 814f1a3..8200564 100644
--- a/modules/kos_mod_threads.c
+++ b/modules/kos_mod_threads.c
@@ -32,13 +32,25 @@ KOS_DECLARE_STATIC_CONST_STRING(str_err_init_too_small,  "init argument is less
 KOS_DECLARE_STATIC_CONST_STRING(str_init,                "init");
 KOS_DECLARE_STATIC_CONST_STRING(str_seconds,             "seconds");
 
+typedef struct KOS_OWNED_MUTEX_S {
+    KOS_MUTEX          mutex;
+    KOS_ATOMIC(void *) owner; /* Context of the thread which holds the mutex                  */
+    uint32_t           depth; /* Number of times it was locked, changed only with mutex held. */
+} KOS_OWNED_MUTEX;
+
 KOS_DECLARE_PRIVATE_CLASS(mutex_priv_class);
 
 static void mutex_finalize(KOS_CONTEXT ctx,
                            void       *priv)
 {
-    if (priv)
-        kos_destroy_mutex((KOS_MUTEX *)&priv);
+    if (priv) {
+        KOS_OWNED_MUTEX *const mutex = (KOS_OWNED_MUTEX *)priv;
+
+        if (mutex->mutex)
+            kos_destroy_mutex(&mutex->mutex);
+
+        KOS_free(mutex);
+    }
 }
 
 /* @item threads mutex()
@@ -53,14 +65,25 @@ static KOS_OBJ_ID mutex_ctor(KOS_CONTEXT ctx,
                              KOS_OBJ_ID  this_obj,
                              KOS_OBJ_ID  args_obj)
 {
-    KOS_LOCAL  mutex;
-    KOS_OBJ_ID proto;
-    KOS_MUTEX  mutex_obj = KOS_NULL;
-    int        error     = KOS_SUCCESS;
+    KOS_LOCAL        mutex;
+    KOS_OBJ_ID       proto;
+    KOS_OWNED_MUTEX *mutex_obj = KOS_NULL;
+    int              error     = KOS_SUCCESS;
 
     KOS_init_local(ctx, &mutex);
 
-    error = kos_create_mutex(&mutex_obj);
+    mutex_obj = (KOS_OWNED_MUTEX *)KOS_malloc(sizeof(KOS_OWNED_MUTEX));
+
+    if ( ! mutex_obj) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
+
+    mutex_obj->mutex = KOS_NULL;
+    mutex_obj->depth = 0;
+    KOS_atomic_write_relaxed_ptr(mutex_obj->owner, (void *)KOS_NULL);
+
+    error = kos_create_mutex(&mutex_obj->mutex);
 
     if (error)
         RAISE_EXCEPTION_STR(str_err_mutex_failed);
@@ -86,7 +109,7 @@ static KOS_OBJ_ID mutex_ctor(KOS_CONTEXT ctx,
 
 cleanup:
     if (mutex_obj)
-        kos_destroy_mutex(&mutex_obj);
+        mutex_finalize(ctx, mutex_obj);
 
     mutex.o = KOS_destroy_top_local(ctx, &mutex);
 
@@ -108,17 +131,20 @@ static KOS_OBJ_ID mutex_acquire(KOS_CONTEXT ctx,
                                 KOS_OBJ_ID  this_obj,
                                 KOS_OBJ_ID  args_obj)
 {
-    KOS_LOCAL mutex;
-    KOS_MUTEX mutex_obj;
+    KOS_LOCAL        mutex;
+    KOS_OWNED_MUTEX *mutex_obj;
 
     KOS_init_local_with(ctx, &mutex, this_obj);
 
-    mutex_obj = (KOS_MUTEX)KOS_object_get_private(mutex.o, &mutex_priv_class);
+    mutex_obj = (KOS_OWNED_MUTEX *)KOS_object_get_private(mutex.o, &mutex_priv_class);
 
     if (mutex_obj) {
         KOS_suspend_context(ctx);
 
-        kos_lock_mutex(mutex_obj);
+        kos_lock_mutex(mutex_obj->mutex);
+
+        KOS_atomic_write_relaxed_ptr(mutex_obj->owner, (void *)ctx);
+        ++mutex_obj->depth;
 
         KOS_resume_context(ctx);
     }
@@ -140,10 +166,15 @@ static KOS_OBJ_ID mutex_release(KOS_CONTEXT ctx,
                                 KOS_OBJ_ID  this_obj,
                                 KOS_OBJ_ID  args_obj)
 {
-    const KOS_MUTEX mutex_obj = (KOS_MUTEX)KOS_object_get_private(this_obj, &mutex_priv_class);
+    KOS_OWNED_MUTEX *const mutex_obj = (KOS_OWNED_MUTEX *)KOS_object_get_private(this_obj, &mutex_priv_class);
 
-    if (mutex_obj)
-        kos_unlock_mutex(mutex_obj);
+    if (mutex_obj && KOS_atomic_read_relaxed_ptr(mutex_obj->owner) == (void *)ctx) {
+
+        if ( ! --mutex_obj->depth)
+            KOS_atomic_write_relaxed_ptr(mutex_obj->owner, (void *)KOS_NULL);
+
+        kos_unlock_mutex(mutex_obj->mutex);
+    }
 
     return this_obj;
 }
-- 
2.43.0


From 34c0b1a08f5a7251d27210acb9022c654923f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 56/93] fix: threads.sleep accepted not-a-number

---
 modules/kos_mod_threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_threads.c b/modules/kos_mod_threads.c
index 8200564..036d991 100644
--- a/modules/kos_mod_threads.c
+++ b/modules/kos_mod_threads.c
@@ -521,7 +521,7 @@ static KOS_OBJ_ID kos_sleep(KOS_CONTEXT ctx,
     else {
         assert(arg.type == KOS_FLOAT_VALUE);
 
-        if (arg.u.d < 0 || arg.u.d > 1000000.0) {
+        if ( ! (arg.u.d >= 0 && arg.u.d <= 1000000.0)) {
             KOS_raise_printf(ctx, "invalid sleep time %f seconds", arg.u.d);
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
-- 
2.43.0


From 2d597f99d6b2f0124209e8be3f82a4603d278a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 57/93] fix: failed file seek and resize left a dangling local
 reference

---
 modules/kos_mod_io.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 0324bf8..69be3fa 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -1510,7 +1510,9 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
-    TRY(acquire_file_object(ctx, this_obj, &file_holder));
+    KOS_init_local_with(ctx, &this_, this_obj);
+
+    TRY(acquire_file_object(ctx, this_.o, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
 
@@ -1521,8 +1523,6 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
     if (pos < 0)
         whence = SEEK_END;
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1536,12 +1536,12 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
-    this_obj = KOS_destroy_top_local(ctx, &this_);
-
 cleanup:
+    this_.o = KOS_destroy_top_local(ctx, &this_);
+
     release_file(file_holder);
 
-    return error ? KOS_BADPTR : this_obj;
+    return error ? KOS_BADPTR : this_.o;
 }
 
 /* @item io file.prototype.resize()
@@ -1576,7 +1576,9 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
-    TRY(acquire_file_object(ctx, this_obj, &file_holder));
+    KOS_init_local_with(ctx, &this_, this_obj);
+
+    TRY(acquire_file_object(ctx, this_.o, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
     TRY_OBJID(arg);
@@ -1596,8 +1598,6 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
 #undef BAD_SIZE_CHECK
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1662,12 +1662,12 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
-    this_obj = KOS_destroy_top_local(ctx, &this_);
-
 cleanup:
+    this_.o = KOS_destroy_top_local(ctx, &this_);
+
     release_file(file_holder);
 
-    return error ? KOS_BADPTR : this_obj;
+    return error ? KOS_BADPTR : this_.o;
 }
 
 /* @item io file_lock()
-- 
2.43.0


From d9436f02069cd69eb2cc5e000bec73d2dc5d2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 58/93] fix: read_line split lines at a carriage return
 depending on the buffer size and lost data after NUL bytes

---
 modules/kos_mod_io.c | 50 ++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 69be3fa..ef8bb92 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -694,11 +694,6 @@ cleanup:
     return error ? KOS_BADPTR : this_.o;
 }
 
-static int is_eol(char c)
-{
-    return c == '\n' || c == '\r';
-}
-
 /* @item io file.prototype.read_line()
  *
  *     file.prototype.read_line(reserved_size = 4096)
@@ -732,9 +727,7 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
     KOS_VECTOR       buf;
     KOS_OBJ_ID       line        = KOS_BADPTR;
     int              error       = KOS_SUCCESS;
-    int              size_delta;
-    int              last_size   = 0;
-    int              num_read;
+    int              c;
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
@@ -750,44 +743,41 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
     if (iarg <= 0 || iarg > INT_MAX-1)
         RAISE_EXCEPTION_STR(str_err_invalid_buffer_size);
 
-    size_delta = (int)iarg + 1;
-
     KOS_suspend_context(ctx);
 
-    do {
-        char *ret;
-
-        if (KOS_vector_resize(&buf, (size_t)(last_size + size_delta))) {
-            KOS_resume_context(ctx);
-            KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-            RAISE_ERROR(KOS_ERROR_EXCEPTION);
-        }
+    if (KOS_vector_reserve(&buf, (size_t)iarg)) {
+        KOS_resume_context(ctx);
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
-        errno = 0;
+    errno = 0;
 
-        ret = fgets(buf.buffer + last_size, size_delta, get_file(file_holder));
+    do {
+        c = getc(get_file(file_holder));
 
-        if ( ! ret) {
+        if (c == EOF) {
             if (ferror(get_file(file_holder))) {
                 const int stored_errno = errno;
                 KOS_resume_context(ctx);
-                KOS_raise_errno_value(ctx, "fgets", stored_errno);
+                KOS_raise_errno_value(ctx, "getc", stored_errno);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
-            else
-                break;
+            break;
         }
 
-        num_read = (int)strlen(buf.buffer + last_size);
+        if (KOS_vector_resize(&buf, buf.size + 1)) {
+            KOS_resume_context(ctx);
+            KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+        }
 
-        last_size += num_read;
-    } while (num_read != 0 &&
-             num_read+1 == size_delta &&
-             ! is_eol(buf.buffer[last_size-1]));
+        buf.buffer[buf.size - 1] = (char)c;
+    } while (c != '\n');
 
     KOS_resume_context(ctx);
 
-    line = KOS_new_string(ctx, buf.buffer, (unsigned)last_size);
+    line = KOS_new_string(ctx, buf.buffer, (unsigned)buf.size);
 
 cleanup:
     KOS_vector_destroy(&buf);
-- 
2.43.0


From 04beecf6e9d95633755ad550f61189717a29b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 59/93] fix: read_some read into buffer storage which garbage
 collection could move

---
 modules/kos_mod_io.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index ef8bb92..21272be 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -819,6 +819,7 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
                             KOS_OBJ_ID  args_obj)
 {
     KOS_FILE_HOLDER *file_holder  = KOS_NULL;
+    KOS_VECTOR       tmp;
     KOS_LOCAL        args;
     KOS_LOCAL        buf;
     KOS_OBJ_ID       arg;
@@ -831,6 +832,8 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 2);
 
+    KOS_vector_init(&tmp);
+
     KOS_init_local(     ctx, &buf);
     KOS_init_local_with(ctx, &args, args_obj);
 
@@ -847,8 +850,10 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
     buf.o = KOS_array_read(ctx, args.o, 1);
     TRY_OBJID(buf.o);
 
-    if (buf.o == KOS_VOID)
+    if (buf.o == KOS_VOID) {
         buf.o = KOS_new_buffer(ctx, 0);
+        TRY_OBJID(buf.o);
+    }
     else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
@@ -859,16 +864,18 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 
     TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + to_read)));
 
-    data = KOS_buffer_data(ctx, buf.o);
-
-    if ( ! data)
+    /* Buffer storage can be moved by GC or replaced by another thread when
+     * the context is suspended, so don't read directly into it. */
+    if (KOS_vector_resize(&tmp, (size_t)to_read)) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
     KOS_suspend_context(ctx);
 
     errno = 0;
 
-    num_read = fread(data + offset, 1, (size_t)to_read, get_file(file_holder));
+    num_read = fread(tmp.buffer, 1, (size_t)to_read, get_file(file_holder));
 
     if (num_read < (size_t)to_read && ferror(get_file(file_holder)))
         stored_errno = errno;
@@ -879,6 +886,15 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 
     TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + num_read)));
 
+    if (num_read) {
+        data = KOS_buffer_data(ctx, buf.o);
+
+        if ( ! data)
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+
+        memcpy(data + offset, tmp.buffer, num_read);
+    }
+
     if (stored_errno) {
         KOS_raise_errno_value(ctx, "fread", stored_errno);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
@@ -887,6 +903,8 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 cleanup:
     buf.o = KOS_destroy_top_locals(ctx, &args, &buf);
 
+    KOS_vector_destroy(&tmp);
+
     release_file(file_holder);
 
     return error ? KOS_BADPTR : buf.o;
-- 
2.43.0


From 62468032fad0ec57d83fed42e187e29d05d93369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 60/93] fix: file.print ignored write errors

---
 modules/kos_mod_io.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 21272be..6a138cb 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -611,8 +611,9 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 {
     KOS_VECTOR       cstr;
     KOS_LOCAL        this_;
-    KOS_FILE_HOLDER *file_holder = KOS_NULL;
-    int              error       = KOS_SUCCESS;
+    KOS_FILE_HOLDER *file_holder  = KOS_NULL;
+    int              stored_errno = 0;
+    int              error        = KOS_SUCCESS;
 
     KOS_init_local_with(ctx, &this_, this_obj);
 
@@ -624,15 +625,23 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
+    errno = 0;
+
     if (cstr.size) {
         cstr.buffer[cstr.size - 1] = '\n';
-        fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder));
+        if (fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder)) < cstr.size)
+            stored_errno = errno;
     }
-    else
-        fprintf(get_file(file_holder), "\n");
+    else if (fprintf(get_file(file_holder), "\n") < 0)
+        stored_errno = errno;
 
     KOS_resume_context(ctx);
 
+    if (stored_errno) {
+        KOS_raise_errno_value(ctx, "fwrite", stored_errno);
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
+
 cleanup:
     KOS_vector_destroy(&cstr);
 
-- 
2.43.0


From ff3312202fae2c7930444e8be4e3fe6cc09032e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 61/93] fix: file.path was not absolute if the absolute path
 was not longer

---
 modules/kos_mod_io.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 6a138cb..17c60ae 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -279,14 +279,12 @@ static KOS_OBJ_ID kos_open(KOS_CONTEXT ctx,
     file = fopen(filename_cstr.buffer, flags_cstr.buffer);
 
     if (file) {
-        const size_t old_len = filename_cstr.size;
-
 #ifndef _WIN32
         (void)fcntl(fileno(file), F_SETFD, FD_CLOEXEC);
 #endif
 
         if (KOS_get_absolute_path(&filename_cstr) == KOS_SUCCESS)
-            updated_filename = filename_cstr.size > old_len;
+            updated_filename = 1;
     }
     else
         stored_errno = errno;
-- 
2.43.0


From 36431b72902dd319ce99bb7d55ff6c8935c0ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 62/93] fix: read_lines failed when a UTF-8 character crossed a
 block boundary

---
 modules/io.kos | 51 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/modules/io.kos b/modules/io.kos
index d41eed1..99e4f1f 100644
--- a/modules/io.kos
+++ b/modules/io.kos
@@ -155,6 +155,29 @@ file.prototype.read = fun(in_size = 0x7FFFFFFFFFFFFFFF, in_buf = void)
     return buf
 }
 
+# Returns number of bytes at the end of a buffer, which are the beginning
+# of a UTF-8 character whose remaining bytes are missing.
+fun incomplete_utf8_size(buf)
+{
+    var size = 0
+
+    while size < 3 && size < buf.size {
+        size += 1
+
+        const byte = buf[-size]
+
+        if byte < 0x80 {
+            return 0
+        }
+        if byte >= 0xC0 {
+            const char_size = byte < 0xE0 ? 2 : byte < 0xF0 ? 3 : byte < 0xF8 ? 4 : 0
+            return size < char_size ? size : 0
+        }
+    }
+
+    return 0
+}
+
 /* @item io file.prototype.read_lines()
  *
  *     file.prototype.read_lines(keep_ends = false, gran = 0x1000)
@@ -176,14 +199,40 @@ file.prototype.read_lines = fun(keep_ends = false, gran = 0x1000)
     if gran <= 0 {
         gran = 0x1000
     }
+    else if gran > 0x8000 {
+        gran = 0x8000 # avoid exceeding maximum size of a string
+    }
 
     const buf  = buffer()
     var   prev = ""
+    var   tail = void
 
     loop {
         buf.resize(0)
 
-        const str = string(this.read_some(gran, buf))
+        # Begin with the first part of a character which was cut off previously
+        if tail {
+            buf.resize(tail.size)
+            buf.copy_buffer(0, tail)
+            tail = void
+        }
+
+        const tail_size = buf.size
+
+        this.read_some(gran, buf)
+
+        if buf.size > tail_size {
+            const cut = incomplete_utf8_size(buf)
+            if cut {
+                tail = buf.slice(-cut, void)
+                buf.resize(buf.size - cut)
+                if ! buf.size {
+                    continue
+                }
+            }
+        }
+
+        const str = string(buf)
 
         var pos = 0
 
-- 
2.43.0


From fe27d7d37d52813f6ffeea4759874cba0a68ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 63/93] fix: long chains of member accesses, calls and else-ifs
 overflowed the native stack

---
 core/kos_config.h |  3 +++
 core/kos_parser.c | 29 ++++++++++++++++++++++++++++-
 core/kos_parser.h |  2 ++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/core/kos_config.h b/core/kos_config.h
index 36e9a54..d30182e 100644
--- a/core/kos_config.h
+++ b/core/kos_config.h
@@ -32,6 +32,9 @@
 #define KOS_STACK_OBJ_SIZE      4096U
 
 #define KOS_MAX_AST_DEPTH       100
+
+/* Maximum number of chained member accesses, invocations or else-if branches */
+#define KOS_MAX_CHAIN_LENGTH    2000
 #define KOS_BUF_ALLOC_SIZE      0x10000U
 #define KOS_VEC_MAX_INC_SIZE    262144U
 #ifdef CONFIG_FUZZ
diff --git a/core/kos_parser.c b/core/kos_parser.c
index 9362082..20d5e3e 100644
--- a/core/kos_parser.c
+++ b/core/kos_parser.c
@@ -183,6 +183,16 @@ static int increase_ast_depth(KOS_PARSER *parser)
     return error;
 }
 
+static int check_chain_length(KOS_PARSER *parser, int length)
+{
+    if (length > KOS_MAX_CHAIN_LENGTH) {
+        parser->error_str = str_err_exceeded_ast_depth;
+        return KOS_ERROR_PARSE_FAILED;
+    }
+
+    return KOS_SUCCESS;
+}
+
 static int new_node(KOS_PARSER    *parser,
                     KOS_AST_NODE **node,
                     KOS_NODE_TYPE  type)
@@ -1903,6 +1913,9 @@ static int member_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
 {
     int       error;
     const int saved_unary_depth = parser->state.unary_depth;
+    const int saved_height      = parser->chain_height;
+
+    parser->chain_height = 0;
 
     error = primary_expr(parser, ret);
 
@@ -1937,9 +1950,16 @@ static int member_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
                 parser->unget = 1;
                 break;
             }
+
+            /* Each node contains the whole preceding part of the chain */
+            if ( ! error)
+                error = check_chain_length(parser, ++parser->chain_height);
         }
     }
 
+    if (parser->chain_height < saved_height)
+        parser->chain_height = saved_height;
+
     assert(parser->state.unary_depth == saved_unary_depth + 1);
     parser->state.unary_depth = saved_unary_depth;
 
@@ -2312,9 +2332,14 @@ static int if_stmt(KOS_PARSER *parser, KOS_AST_NODE **ret)
 
         TRY(next_token(parser));
 
-        if (parser->token.keyword == KW_IF)
+        if (parser->token.keyword == KW_IF) {
+
+            TRY(check_chain_length(parser, ++parser->else_depth));
+
             TRY(if_stmt(parser, &node));
 
+            --parser->else_depth;
+        }
         else {
 
             parser->unget = 1;
@@ -3422,6 +3447,8 @@ void kos_parser_init(KOS_PARSER           *parser,
     parser->unget                   = 0;
     parser->had_eol                 = 0;
     parser->ast_depth               = 0;
+    parser->chain_height            = 0;
+    parser->else_depth              = 0;
     parser->state.last_fallthrough  = KOS_NULL;
     parser->state.unary_depth       = 0;
     parser->state.allow_continue    = 0;
diff --git a/core/kos_parser.h b/core/kos_parser.h
index e92a6e0..d9992bc 100644
--- a/core/kos_parser.h
+++ b/core/kos_parser.h
@@ -31,6 +31,8 @@ typedef struct KOS_PARSER_S {
     char                  unget;
     char                  had_eol;
     int                   ast_depth;   /* For limiting statement/expression depth */
+    int                   chain_height;/* For limiting height of member expressions */
+    int                   else_depth;  /* For limiting number of else-if branches  */
 } KOS_PARSER;
 
 void kos_parser_init(KOS_PARSER           *parser,
-- 
2.43.0


From 0d1b91bf667a3727c147a87a82a5ceb28cfa9441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 64/93] fix: comparing an array with an array nested inside it
 depended on their addresses

---
 core/kos_utils.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 5ab2f41..aba5a40 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -1487,14 +1487,9 @@ static KOS_COMPARE_RESULT compare_array(KOS_OBJ_ID                a,
 
     /* Check recursive arrays */
     while (cmp_ref) {
-        const int aa = a == cmp_ref->a;
-        const int bb = b == cmp_ref->b;
-        const int ab = a == cmp_ref->b;
-        const int ba = b == cmp_ref->a;
-
-        if (aa & bb)
+        if (a == cmp_ref->a && b == cmp_ref->b)
             return KOS_EQUAL;
-        else if (aa | bb | ab | ba)
+        else if (a == cmp_ref->b && b == cmp_ref->a)
             return compare_int((int64_t)(intptr_t)a, (int64_t)(intptr_t)b);
 
         cmp_ref = cmp_ref->next;
-- 
2.43.0


From 24b08fb16475428cd979817e6fb636779f7aad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 65/93] fix: signed overflow in random.integer for ranges wider
 than half of all integers

---
 modules/kos_mod_random.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_random.c b/modules/kos_mod_random.c
index 702635d..8fb434c 100644
--- a/modules/kos_mod_random.c
+++ b/modules/kos_mod_random.c
@@ -235,9 +235,9 @@ static KOS_OBJ_ID rand_integer(KOS_CONTEXT ctx,
     kos_lock_mutex(rng->mutex);
 
     if (min_id != KOS_VOID)
-        value = min_value +
-            (int64_t)kos_rng_random_range(&rng->rng,
-                                          (uint64_t)(max_value - min_value));
+        value = (int64_t)((uint64_t)min_value +
+            kos_rng_random_range(&rng->rng,
+                                 (uint64_t)max_value - (uint64_t)min_value));
     else
         value = (int64_t)kos_rng_random(&rng->rng);
 
-- 
2.43.0


From 6e412ba343f6b089e850551a7b804af5b801d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 66/93] fix: file.write() wrote a buffer argument again
 together with the string argument after it

---
 modules/kos_mod_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 17c60ae..4a2a8af 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -1004,6 +1004,8 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
                 KOS_raise_errno_value(ctx, "fwrite", stored_errno);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
+
+            cstr.size = 0;
         }
         else if (GET_OBJ_TYPE(arg.o) == OBJ_STRING) {
 
-- 
2.43.0


From 00175908173bb04ac2fd535c00a5e1e18595eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 67/93] fix: reading from a file right after writing to it
 could discard the data written

---
 modules/kos_mod_io.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 4a2a8af..6c325b9 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -77,6 +77,7 @@ static void fix_path_separators(KOS_VECTOR *buf)
 typedef struct KOS_FILE_HOLDER_S {
     KOS_ATOMIC(FILE *)  file;
     KOS_ATOMIC(int32_t) ref_count;
+    KOS_ATOMIC(uint32_t) written;   /* There may be unflushed data */
     int                 owner;
 } KOS_FILE_HOLDER;
 
@@ -123,6 +124,7 @@ static KOS_FILE_HOLDER *make_file_holder(KOS_CONTEXT ctx,
     if (file_holder) {
         file_holder->file      = file;
         file_holder->ref_count = 1;
+        file_holder->written   = 0;
         file_holder->owner     = owner;
     }
     else
@@ -149,6 +151,26 @@ static FILE *get_file(KOS_FILE_HOLDER *file_holder)
     return file_holder ? (FILE *)KOS_atomic_read_relaxed_ptr(file_holder->file) : KOS_NULL;
 }
 
+static FILE *get_file_for_write(KOS_FILE_HOLDER *file_holder)
+{
+    if (file_holder)
+        KOS_atomic_write_relaxed_u32(file_holder->written, 1);
+
+    return get_file(file_holder);
+}
+
+/* Reading directly after writing, without flushing, can discard the data
+ * which was written, for example if the file is not open for reading. */
+static FILE *get_file_for_read(KOS_FILE_HOLDER *file_holder)
+{
+    FILE *const file = get_file(file_holder);
+
+    if (file && KOS_atomic_swap_u32(file_holder->written, 0))
+        (void)fflush(file);
+
+    return file;
+}
+
 static void file_finalize(KOS_CONTEXT ctx,
                           void       *priv)
 {
@@ -627,10 +649,10 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 
     if (cstr.size) {
         cstr.buffer[cstr.size - 1] = '\n';
-        if (fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder)) < cstr.size)
+        if (fwrite(cstr.buffer, 1, cstr.size, get_file_for_write(file_holder)) < cstr.size)
             stored_errno = errno;
     }
-    else if (fprintf(get_file(file_holder), "\n") < 0)
+    else if (fprintf(get_file_for_write(file_holder), "\n") < 0)
         stored_errno = errno;
 
     KOS_resume_context(ctx);
@@ -732,6 +754,7 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
     int64_t          iarg        = 0;
     KOS_OBJ_ID       arg;
     KOS_VECTOR       buf;
+    FILE            *file;
     KOS_OBJ_ID       line        = KOS_BADPTR;
     int              error       = KOS_SUCCESS;
     int              c;
@@ -758,10 +781,12 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
+    file = get_file_for_read(file_holder);
+
     errno = 0;
 
     do {
-        c = getc(get_file(file_holder));
+        c = getc(file);
 
         if (c == EOF) {
             if (ferror(get_file(file_holder))) {
@@ -882,7 +907,7 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 
     errno = 0;
 
-    num_read = fread(tmp.buffer, 1, (size_t)to_read, get_file(file_holder));
+    num_read = fread(tmp.buffer, 1, (size_t)to_read, get_file_for_read(file_holder));
 
     if (num_read < (size_t)to_read && ferror(get_file(file_holder)))
         stored_errno = errno;
@@ -992,7 +1017,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
                 errno = 0;
 
-                num_writ = fwrite(data, 1, to_write, get_file(file_holder));
+                num_writ = fwrite(data, 1, to_write, get_file_for_write(file_holder));
 
                 if (num_writ < to_write)
                     stored_errno = errno;
@@ -1023,7 +1048,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
                 errno = 0;
 
-                num_writ = fwrite(cstr.buffer, 1, cstr.size - 1, get_file(file_holder));
+                num_writ = fwrite(cstr.buffer, 1, cstr.size - 1, get_file_for_write(file_holder));
 
                 if (num_writ < cstr.size - 1)
                     stored_errno = errno;
-- 
2.43.0


From e5f687c3eb8f6fbf78c7bc7a16104cb2ed26bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 68/93] fix: printing lost a digit of escaped code points above
 0xFFFFF in quoted strings

---
 core/kos_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index aba5a40..5a347db 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -78,7 +78,7 @@ static const int8_t extra_len_map[256] = {
     /* 224 .. 239 */
     7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,
     /* 240 .. 247 */
-    8,  8,  8,  8,  8,  8,  8,  8,
+    8,  8,  8,  8,  9,  9,  9,  9,
     /* 148 .. 255 */
     3,  3,  3,  3,  3,  3,  3,  3
 };
-- 
2.43.0


From dcbfc7a9d12d24324ffffa9167b8e4f372d919f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 69/93] fix: assert with a long non-ASCII expression was
 rejected as invalid UTF-8, length of very long expressions wrapped around

---
 core/kos_compiler.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index c3d9ba6..6a76e25 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -609,10 +609,10 @@ static int gen_str(KOS_COMP_UNIT   *program,
     return gen_str_esc(program, token, KOS_UTF8_WITH_ESCAPE, str_idx);
 }
 
-static uint16_t calc_assert_str_len(const char *begin,
-                                    const char *end)
+static size_t calc_assert_str_len(const char *begin,
+                                  const char *end)
 {
-    uint16_t length         = 0;
+    size_t   length         = 0;
     int      last_printable = 0;
 
     for ( ; begin < end; ++begin) {
@@ -652,6 +652,26 @@ static void get_assert_str(const char *begin,
     }
 }
 
+/* Returns length excluding an incomplete UTF-8 sequence at the end */
+static size_t trim_incomplete_utf8(const char *buf,
+                                   size_t      length)
+{
+    size_t   pos = length;
+    size_t   seq_len;
+    uint8_t  c;
+
+    while (pos && ((uint8_t)buf[pos - 1] & 0xC0U) == 0x80U)
+        --pos;
+
+    if ( ! pos)
+        return length;
+
+    c       = (uint8_t)buf[--pos];
+    seq_len = (c < 0x80U) ? 1U : (c < 0xE0U) ? 2U : (c < 0xF0U) ? 3U : 4U;
+
+    return (pos + seq_len > length) ? pos : length;
+}
+
 static int gen_assert_str(KOS_COMP_UNIT      *program,
                           const KOS_AST_NODE *node,
                           int                *str_idx)
@@ -660,8 +680,8 @@ static int gen_assert_str(KOS_COMP_UNIT      *program,
     const char    *begin;
     const char    *end;
     char          *buf;
-    uint16_t       length;
-    const uint16_t max_length = 64;
+    size_t         length;
+    const size_t   max_length = 64;
 
     static const char assertion_failed[] = "Assertion failed: ";
 
@@ -696,9 +716,11 @@ static int gen_assert_str(KOS_COMP_UNIT      *program,
         memcpy(buf, assertion_failed, sizeof(assertion_failed) - 1);
         get_assert_str(begin, end, buf + sizeof(assertion_failed) - 1, buf + length);
 
+        length = trim_incomplete_utf8(buf, length);
+
         memset(&token, 0, sizeof(token));
         token.begin  = buf;
-        token.length = length;
+        token.length = (uint16_t)length;
         token.type   = TT_IDENTIFIER;
 
         error = gen_str_esc(program, &token, KOS_UTF8_NO_ESCAPE, str_idx);
-- 
2.43.0


From eda4d008e68f8c1296393a05badb5e57218dae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:39 +0000
Subject: [PATCH 70/93] fix: module.load() with a path ran a module again when
 it was already loaded

---
 core/kos_module.c      | 21 +++++++++++++++++++++
 inc/kos_module.h       |  6 ++++++
 modules/kos_mod_base.c |  4 +---
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/core/kos_module.c b/core/kos_module.c
index eb88e07..a254eb7 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -1775,6 +1775,27 @@ KOS_OBJ_ID KOS_load_module(KOS_CONTEXT ctx, const char *path, unsigned path_len)
     return import_module(ctx, path, path_len, 1, KOS_NULL, 0, KOS_NULL, &idx);
 }
 
+KOS_OBJ_ID KOS_import_module(KOS_CONTEXT ctx, const char *path, unsigned path_len)
+{
+    KOS_LOCAL module;
+    int       idx;
+    int       already_loaded = 0;
+    int       error          = KOS_SUCCESS;
+
+    KOS_init_local(ctx, &module);
+
+    module.o = import_module(ctx, path, path_len, 1, KOS_NULL, 0, &already_loaded, &idx);
+    TRY_OBJID(module.o);
+
+    if ( ! already_loaded)
+        TRY_OBJID(KOS_run_module(ctx, module.o));
+
+cleanup:
+    module.o = KOS_destroy_top_local(ctx, &module);
+
+    return error ? KOS_BADPTR : module.o;
+}
+
 KOS_OBJ_ID KOS_load_module_from_memory(KOS_CONTEXT ctx,
                                        const char *module_name,
                                        unsigned    module_name_len,
diff --git a/inc/kos_module.h b/inc/kos_module.h
index d2c5a39..566fc88 100644
--- a/inc/kos_module.h
+++ b/inc/kos_module.h
@@ -20,6 +20,12 @@ KOS_OBJ_ID KOS_load_module(KOS_CONTEXT ctx,
                            const char *path,
                            unsigned    path_len);
 
+/* Loads a module and runs it, unless it was already loaded before */
+KOS_API
+KOS_OBJ_ID KOS_import_module(KOS_CONTEXT ctx,
+                             const char *path,
+                             unsigned    path_len);
+
 KOS_API
 KOS_OBJ_ID KOS_load_module_from_memory(KOS_CONTEXT ctx,
                                        const char *module_name,
diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index aa51e98..2403c43 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -5032,10 +5032,8 @@ static KOS_OBJ_ID module_load(KOS_CONTEXT ctx,
 
         TRY(KOS_string_to_cstr_vec(ctx, name.o, &path_cstr));
 
-        module.o = KOS_load_module(ctx, path_cstr.buffer, (uint32_t)(path_cstr.size - 1));
+        module.o = KOS_import_module(ctx, path_cstr.buffer, (uint32_t)(path_cstr.size - 1));
         TRY_OBJID(module.o);
-
-        TRY_OBJID(KOS_run_module(ctx, module.o));
     }
     else {
 
-- 
2.43.0


From bdc1bd568940dfabb870a32617e0b195702443c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:14 +0000
Subject: [PATCH 71/93] fix: >=> and >== were tokenized as >>> and >>=

---
 core/kos_lexer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/kos_lexer.c b/core/kos_lexer.c
index cfc1ce4..eee4b06 100644
--- a/core/kos_lexer.c
+++ b/core/kos_lexer.c
@@ -739,7 +739,10 @@ static KOS_OPERATOR_TYPE collect_operator(KOS_LEXER *lexer)
 
         while (*begin > cur) {
             ++op_group;
-            if (op_group->type == OT_NONE) {
+            /* The next operator must begin with the characters matched so far */
+            if (op_group->type == OT_NONE ||
+                strncmp(op_group->str, lexer->prefetch_begin, (size_t)idx)) {
+
                 cur = 0;
                 break;
             }
-- 
2.43.0


From dcf59a02ea16f5eb622b3c3329fb4cbd1c598932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:14 +0000
Subject: [PATCH 72/93] fix: constants for the keywords _, match, propertyof
 and public were missing in module kos

---
 modules/kos_mod_kos.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index bcd61e2..920289b 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -605,6 +605,7 @@ int kos_module_kos_init(KOS_CONTEXT ctx, KOS_OBJ_ID module_obj)
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "token_separator",      TT_SEPARATOR);
 
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_none",         KW_NONE);
+    TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_underscore",   KW_UNDERSCORE);
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_line",         KW_LINE);
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_assert",       KW_ASSERT);
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_async",        KW_ASYNC);
@@ -631,6 +632,9 @@ int kos_module_kos_init(KOS_CONTEXT ctx, KOS_OBJ_ID module_obj)
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_in",           KW_IN);
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_instanceof",   KW_INSTANCEOF);
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_loop",         KW_LOOP);
+    TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_match",        KW_MATCH);
+    TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_propertyof",   KW_PROPERTYOF);
+    TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_public",       KW_PUBLIC);
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_repeat",       KW_REPEAT);
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_return",       KW_RETURN);
     TRY_ADD_INTEGER_CONSTANT(ctx, module.o, "keyword_set",          KW_SET);
-- 
2.43.0


From bd19a9a1916e55b80a1d5abe468f45d85c833197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:14 +0000
Subject: [PATCH 73/93] fix: raw_lexer with ignore_errors hung or threw on
 invalid UTF-8 and lost track of lines and columns after errors

---
 core/kos_lexer.c      | 36 +++++++++++++++++++++++++++---------
 core/kos_lexer.h      |  4 ++++
 modules/kos_mod_kos.c | 24 +++++++++++++++++++++---
 3 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/core/kos_lexer.c b/core/kos_lexer.c
index eee4b06..41a0987 100644
--- a/core/kos_lexer.c
+++ b/core/kos_lexer.c
@@ -335,8 +335,10 @@ static unsigned prefetch_next(KOS_LEXER *lexer, const char **begin, const char *
     if (b < lexer->buf_end) {
         lt = lexem_types[(unsigned char)*b];
 
-        if (lt == LT_UTF8_TAIL)
+        if (lt == LT_UTF8_TAIL) {
             lt = LT_INVALID_UTF8;
+            e  = b + 1;
+        }
         else if ((lt & LT_UTF8_MULTI) != 0) {
             const unsigned len = lt & LT_UTF8_MASK;
 
@@ -598,19 +600,16 @@ static void collect_block_comment(KOS_LEXER *lexer)
 
     unsigned c = prefetch_next(lexer, &begin, &end);
 
-    while (c != LT_EOF) {
+    while (c != LT_EOF && c != LT_INVALID_UTF8) {
         const char prev = *begin;
 
         c = prefetch_next(lexer, &begin, &end);
 
-        if (c == LT_INVALID_UTF8) {
-            retract(lexer, begin);
-            break;
-        }
-
         if (prev == '*' && c != LT_EOF && *begin == '/')
-            break;
+            return;
     }
+
+    retract(lexer, begin);
 }
 
 static int is_digit_or_underscore(unsigned c)
@@ -1009,8 +1008,11 @@ int kos_lexer_next_token(KOS_LEXER          *lexer,
                         end = lexer->prefetch_end;
                     }
                 }
-                else
+                else {
                     token->type = TT_OPERATOR;
+                    token->op   = OT_DIV;
+                    retract(lexer, begin2);
+                }
                 break;
             }
             case LT_COMMENT:
@@ -1072,6 +1074,22 @@ void kos_lexer_unget_token(KOS_LEXER *lexer, const KOS_TOKEN *token)
     lexer->pos            = get_token_pos(token);
 }
 
+void kos_lexer_skip_error(KOS_LEXER *lexer, const KOS_TOKEN *token)
+{
+    const char *const resume = lexer->prefetch_end;
+    const char       *begin, *end;
+
+    lexer->error_str = KOS_NULL;
+
+    kos_lexer_unget_token(lexer, token);
+
+    /* Find the position of the first character after the offending token */
+    while (lexer->prefetch_end < resume)
+        prefetch_next(lexer, &begin, &end);
+
+    lexer->prefetch_begin = lexer->prefetch_end;
+}
+
 KOS_FILE_POS get_token_pos(const KOS_TOKEN *token)
 {
     KOS_FILE_POS pos;
diff --git a/core/kos_lexer.h b/core/kos_lexer.h
index 0072852..eabe671 100644
--- a/core/kos_lexer.h
+++ b/core/kos_lexer.h
@@ -190,6 +190,10 @@ int  kos_lexer_next_token(KOS_LEXER          *lexer,
 void kos_lexer_unget_token(KOS_LEXER       *lexer,
                            const KOS_TOKEN *token);
 
+/* Resumes after an error, behind the offending token */
+void kos_lexer_skip_error(KOS_LEXER       *lexer,
+                          const KOS_TOKEN *token);
+
 KOS_FILE_POS get_token_pos(const KOS_TOKEN *token);
 
 #endif
diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index 920289b..f054809 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -14,6 +14,7 @@
 #include "../inc/kos_modules_init.h"
 #include "../inc/kos_object.h"
 #include "../inc/kos_string.h"
+#include "../inc/kos_utf8.h"
 #include "../inc/kos_utils.h"
 #include "../inc/kos_version.h"
 #include "../core/kos_heap.h"
@@ -69,6 +70,22 @@ static void finalize(KOS_CONTEXT ctx,
 
 KOS_DECLARE_PRIVATE_CLASS(lexer_priv_class);
 
+/* Replaces bytes which cannot be part of a string with spaces.
+ * The token lies in one of the buffers owned by the lexer object. */
+static void blank_invalid_utf8(const KOS_TOKEN *token)
+{
+    uint32_t max_code;
+
+    if (KOS_utf8_get_len(token->begin, token->length, KOS_UTF8_NO_ESCAPE, &max_code) == ~0U) {
+        char       *c   = (char *)token->begin;
+        char *const end = c + token->length;
+
+        for ( ; c < end; ++c)
+            if ((uint8_t)*c >= 0x80U)
+                *c = ' ';
+    }
+}
+
 static const KOS_CONVERT raw_lexer_args[3] = {
     KOS_DEFINE_MANDATORY_ARG(str_script),
     KOS_DEFINE_OPTIONAL_ARG( str_ignore_errors, KOS_FALSE),
@@ -293,14 +310,12 @@ static KOS_OBJ_ID raw_lexer(KOS_CONTEXT ctx,
 
             KOS_TOKEN *cur_token = &kos_lexer->token;
 
-            kos_lexer->lexer.error_str = KOS_NULL;
+            kos_lexer_skip_error(&kos_lexer->lexer, cur_token);
 
             cur_token->type    = TT_WHITESPACE;
             cur_token->keyword = KW_NONE;
             cur_token->op      = OT_NONE;
             cur_token->sep     = ST_NONE;
-
-            kos_lexer->lexer.pos.column += cur_token->length;
         }
         else {
             KOS_raise_printf(ctx,
@@ -319,6 +334,9 @@ static KOS_OBJ_ID raw_lexer(KOS_CONTEXT ctx,
         token.o = KOS_new_object(ctx);
         TRY_OBJID(token.o);
 
+        if (kos_lexer->ignore_errors)
+            blank_invalid_utf8(cur_token);
+
         value.o = KOS_new_string(ctx, cur_token->begin, cur_token->length);
         TRY_OBJID(value.o);
         TRY(KOS_set_property(ctx, token.o, KOS_CONST_ID(str_token), value.o));
-- 
2.43.0


From 327b51edca2ec6bda621881f83adab57b93d173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:58 +0000
Subject: [PATCH 74/93] fix: raw_lexer read uninitialized memory if a generator
 produced a string without UTF-8 encoding

---
 modules/kos_mod_kos.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index f054809..4f23e8e 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -288,6 +288,8 @@ static KOS_OBJ_ID raw_lexer(KOS_CONTEXT ctx,
             RAISE_EXCEPTION_STR(str_err_gen_line_not_string);
 
         buf_size = KOS_string_to_utf8(value.o, KOS_NULL, 0);
+        if (buf_size == ~0U)
+            RAISE_EXCEPTION_STR(str_err_invalid_string);
 
         if (buf_size > kos_lexer->own_buf_size) {
             own_buf = (char *)KOS_realloc(own_buf, buf_size);
-- 
2.43.0


From 0f33537333b87f278646461553c0d26b1977fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 75/93] fix: process.wait() did not return when the process was
 stopped by a signal

---
 modules/kos_mod_os.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index eae9048..ccea023 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1450,7 +1450,7 @@ static KOS_OBJ_ID wait_for_child(KOS_CONTEXT ctx,
 
         errno = 0;
 
-        ret_pid = waitpid(wait_info->pid, &status, 0);
+        ret_pid = waitpid(wait_info->pid, &status, WUNTRACED);
 
         if (ret_pid == -1)
             stored_errno = errno;
-- 
2.43.0


From 4ca8248f30e5f8d89c03728f877960d7e5642d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:47 +0000
Subject: [PATCH 76/93] fix: os.spawn() searched past the end of PATH

---
 modules/kos_mod_os.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index ccea023..536d5cd 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -986,7 +986,7 @@ static int find_program(KOS_CONTEXT  ctx,
             if (does_file_exist(buf_mgr.buf))
                 goto found_program;
 
-            path_env += path_len + 1;
+            path_env += path_len + (colon ? 1 : 0);
         }
     }
 
-- 
2.43.0


From 4ba10708b78e6b544ad6023de2132f4c22c28730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 77/93] fix: output buffered before a failed os.spawn() was
 written twice

---
 modules/kos_mod_os.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 536d5cd..78000b5 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1030,7 +1030,7 @@ static void send_errno_and_exit(int fd)
     const int     err_value = errno;
     const ssize_t num_writ  = write(fd, &err_value, sizeof(err_value));
 
-    exit((num_writ == sizeof(err_value)) ? 1 : 2);
+    _exit((num_writ == sizeof(err_value)) ? 1 : 2);
 }
 
 static int get_file(KOS_CONTEXT ctx, KOS_OBJ_ID file_obj, FILE **file)
-- 
2.43.0


From c26ce9a092cbefd23ac3d0ea562f47529cece89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:48 +0000
Subject: [PATCH 78/93] fix: a child process remained a zombie after a failed
 os.spawn()

---
 modules/kos_mod_os.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 78000b5..987bf56 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1299,6 +1299,10 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
         if ((size_t)read(exec_status_fd[0], &err_value, sizeof(err_value)) != sizeof(err_value))
             err_value = 0;
 
+        /* If the program could not be executed, clear the state of the child process */
+        if (err_value)
+            (void)waitpid(child_pid, KOS_NULL, 0);
+
         close(exec_status_fd[0]);
         exec_status_fd[0] = -1;
 
-- 
2.43.0


From 731b2cc4e6e2c09b6d6e803d9cfecd58271f2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:20 +0000
Subject: [PATCH 79/93] fix: os.spawn() leaked file descriptors when it failed
 to create a process

---
 modules/kos_mod_os.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 987bf56..42c1494 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1322,6 +1322,13 @@ cleanup:
     process.o = KOS_destroy_top_locals(ctx, &desc, &process);
     KOS_mempool_destroy(&alloc);
 
+#ifndef _WIN32
+    if (exec_status_fd[0] != -1)
+        close(exec_status_fd[0]);
+    if (exec_status_fd[1] != -1)
+        close(exec_status_fd[1]);
+#endif
+
 #ifdef _WIN32
     if (stdin_file != INVALID_HANDLE_VALUE)
         CloseHandle(stdin_file);
-- 
2.43.0


From 1c9014577fbd319cbd64cd3963ade820f4ac300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 80/93] fix: process objects of finished or never started
 processes took the status of other processes

---
 modules/kos_mod_os.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 42c1494..43144cd 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -106,6 +106,7 @@ struct KOS_WAIT_S {
     DWORD  pid;
 #else
     pid_t pid;
+    int   finished; /* The process has been waited for, pid may already belong to another process */
 #endif
 };
 
@@ -745,7 +746,12 @@ static int append_to_pid_slot(PID_ARRAY_PTR pids, pid_t pid)
  * so that its state can get cleaned up later. */
 static void release_pid(struct KOS_WAIT_S *wait_info)
 {
-    const pid_t ret_pid = check_pid(wait_info->pid);
+    pid_t ret_pid;
+
+    if (wait_info->pid <= 0 || wait_info->finished)
+        return;
+
+    ret_pid = check_pid(wait_info->pid);
 
     if (ret_pid == 0) {
 
@@ -1461,10 +1467,18 @@ static KOS_OBJ_ID wait_for_child(KOS_CONTEXT ctx,
 
         errno = 0;
 
-        ret_pid = waitpid(wait_info->pid, &status, WUNTRACED);
+        if (wait_info->finished) {
+            ret_pid      = -1;
+            stored_errno = ECHILD;
+        }
+        else {
+            ret_pid = waitpid(wait_info->pid, &status, WUNTRACED);
 
-        if (ret_pid == -1)
-            stored_errno = errno;
+            if (ret_pid == -1)
+                stored_errno = errno;
+            else if ( ! WIFSTOPPED(status))
+                wait_info->finished = 1;
+        }
 
         KOS_resume_context(ctx);
 
-- 
2.43.0


From a203aac4429bb2df7e1e02229448c71430d7a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 81/93] fix: abandoned child processes remained zombies

---
 modules/kos_mod_os.c | 48 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 43144cd..25f25b5 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -639,12 +639,10 @@ static pid_t check_pid(pid_t pid)
     return waitpid(pid, &status, WNOHANG);
 }
 
-static void destroy_zombies(int sig)
+static void check_zombies(void)
 {
     size_t array_idx;
 
-    assert(sig == SIGCHLD);
-
     for (array_idx = 0; array_idx < sizeof(zombie_pids) / sizeof(zombie_pids[0]); array_idx++) {
 
         const PID_ARRAY_PTR pids = (PID_ARRAY_PTR)KOS_atomic_swap_ptr(zombie_pids[array_idx], &dummy_pids);
@@ -655,12 +653,13 @@ static void destroy_zombies(int sig)
 
             for (idx = 0; idx < pids->capacity; idx++) {
 
-                const pid_t pid = to_pid(KOS_atomic_swap_ptr(pids->pids[idx], (void *)KOS_NULL));
+                const pid_t pid = to_pid(KOS_atomic_read_relaxed_ptr(pids->pids[idx]));
 
-                if (pid > 0) {
-                    KOS_atomic_add_i32(pids->num_pids, -1);
+                /* Keep the child processes which are still running on the list */
+                if (pid > 0 && check_pid(pid) != 0) {
+                    KOS_atomic_write_relaxed_ptr(pids->pids[idx], (void *)KOS_NULL);
 
-                    check_pid(pid);
+                    KOS_atomic_add_i32(pids->num_pids, -1);
                 }
             }
         }
@@ -670,6 +669,30 @@ static void destroy_zombies(int sig)
     }
 }
 
+static KOS_ATOMIC(int32_t) num_zombie_checks;
+
+static void destroy_zombies(int sig)
+{
+    const int stored_errno = errno;
+
+    assert(sig == SIGCHLD);
+
+    /* If the list is already being checked, possibly by the code which was interrupted
+     * by this signal, have it checked again */
+    if (KOS_atomic_add_i32(num_zombie_checks, 1) == 0) {
+
+        int32_t num_done;
+
+        do {
+            num_done = (int32_t)KOS_atomic_read_relaxed_u32(*(KOS_ATOMIC(uint32_t) *)&num_zombie_checks);
+
+            check_zombies();
+        } while (KOS_atomic_add_i32(num_zombie_checks, -num_done) != num_done);
+    }
+
+    errno = stored_errno;
+}
+
 static KOS_ATOMIC(uint32_t) sig_child_installed;
 static struct sigaction     old_sig_child;
 
@@ -700,10 +723,18 @@ static int reserve_pid_slot(uint32_t array_idx, pid_t pid)
 
         const PID_ARRAY_PTR new_array = (PID_ARRAY_PTR)alloc_ptr;
 
+        union PID_TO_PTR conv;
+
+        memset(&conv, 0, sizeof(conv));
+        conv.pid = pid;
+
         memset(alloc_ptr, 0, new_size);
 
         new_array->capacity = new_capacity;
 
+        KOS_atomic_write_relaxed_ptr(new_array->pids[0], conv.ptr);
+        KOS_atomic_write_relaxed_u32(*(KOS_ATOMIC(uint32_t) *)&new_array->num_pids, 1U);
+
         if (KOS_atomic_cas_strong_ptr(zombie_pids[array_idx], (PID_ARRAY_PTR)KOS_NULL, new_array))
             error = KOS_SUCCESS;
         else
@@ -774,6 +805,9 @@ static void release_pid(struct KOS_WAIT_S *wait_info)
         }
 
         handle_sig_child();
+
+        /* The child process could have finished before it was put on the list */
+        destroy_zombies(SIGCHLD);
     }
 }
 
-- 
2.43.0


From 9ceca0e4289131d8fa5d6c8ea516145e3fd405e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 82/93] fix: os.spawn() confused standard files redirected to
 each other

---
 modules/kos_mod_os.c | 45 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 25f25b5..6b6b6f7 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1086,17 +1086,40 @@ static int get_file(KOS_CONTEXT ctx, KOS_OBJ_ID file_obj, FILE **file)
     return KOS_SUCCESS;
 }
 
-static void redirect_io(FILE *src_file,
-                        int   target_fd,
-                        int   status_fd)
+/* If the source is one of the standard files, duplicates it, so that it is not overwritten
+ * when that standard file is redirected */
+static int get_source_fd(FILE *src_file,
+                         int   status_fd)
 {
     int src_fd;
 
     if ( ! src_file)
-        return;
+        return -1;
+
+    errno = 0;
 
     src_fd = fileno(src_file);
 
+    if (src_fd >= 0 && src_fd <= STDERR_FILENO) {
+        src_fd = fcntl(src_fd, F_DUPFD, STDERR_FILENO + 1);
+
+        if (src_fd != -1)
+            (void)fcntl(src_fd, F_SETFD, FD_CLOEXEC);
+    }
+
+    if (src_fd == -1)
+        send_errno_and_exit(status_fd);
+
+    return src_fd;
+}
+
+static void redirect_io(int src_fd,
+                        int target_fd,
+                        int status_fd)
+{
+    if (src_fd == -1)
+        return;
+
     errno = 0;
 
     if (dup2(src_fd, target_fd) == -1)
@@ -1305,6 +1328,10 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
 
         /* Inside child process, execute the program requested */
         if (child_pid == 0) {
+            int stdin_fd;
+            int stdout_fd;
+            int stderr_fd;
+
             /* If we are here, it means the fork() has succeeded and we are in the child
              * process.  All fds should have been closed, except for those which did not have
              * the FD_CLOEXEC flag set.  Only this (current) thread has survived the fork()
@@ -1319,9 +1346,13 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
                 send_errno_and_exit(exec_status_fd[1]);
 
             /* Use redirected I/O, if provided by caller */
-            redirect_io(stdin_file,  STDIN_FILENO,  exec_status_fd[1]);
-            redirect_io(stdout_file, STDOUT_FILENO, exec_status_fd[1]);
-            redirect_io(stderr_file, STDERR_FILENO, exec_status_fd[1]);
+            stdin_fd  = get_source_fd(stdin_file,  exec_status_fd[1]);
+            stdout_fd = get_source_fd(stdout_file, exec_status_fd[1]);
+            stderr_fd = get_source_fd(stderr_file, exec_status_fd[1]);
+
+            redirect_io(stdin_fd,  STDIN_FILENO,  exec_status_fd[1]);
+            redirect_io(stdout_fd, STDOUT_FILENO, exec_status_fd[1]);
+            redirect_io(stderr_fd, STDERR_FILENO, exec_status_fd[1]);
 
             /* Execute the program in the child process */
             execve(program_cstr, args_array, env_array);
-- 
2.43.0


From ccb5fd5d64767b1a3a7d6bf5b7f0391b3d0d4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 83/93] fix: generator could not be resumed any more after a
 stack overflow while resuming it

---
 core/kos_vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index b08d6da..49d2456 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -1110,8 +1110,9 @@ static int prepare_call(KOS_CONTEXT        ctx,
     }
 
 cleanup:
-    if (error && (stack_obj != ctx->stack || regs_idx != ctx->regs_idx)) {
-        kos_stack_pop(ctx);
+    if (error) {
+        if (stack_obj != ctx->stack || regs_idx != ctx->regs_idx)
+            kos_stack_pop(ctx);
 
         if (state_set)
             KOS_atomic_write_release_u32(OBJPTR(FUNCTION, func.o)->state, state);
-- 
2.43.0


From a5cf3626c8799b85fbdd0ab0b6b5a04312e945e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 84/93] fix: stack was corrupted when allocation of a stack
 segment failed in a closure or generator

---
 core/kos_stack.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/core/kos_stack.c b/core/kos_stack.c
index 5a0c965..a6d2e8b 100644
--- a/core/kos_stack.c
+++ b/core/kos_stack.c
@@ -72,6 +72,23 @@ static int unchain_reentrant_frame(KOS_CONTEXT ctx)
     return KOS_SUCCESS;
 }
 
+/* Reverts a successful call to unchain_reentrant_frame() */
+static void rechain_reentrant_frame(KOS_CONTEXT ctx,
+                                    KOS_STACK  *prev_stack)
+{
+    if (ctx->stack != OBJID(STACK, prev_stack)) {
+
+        KOS_STACK     *stack = OBJPTR(STACK, ctx->stack);
+        const uint32_t size  = KOS_atomic_read_relaxed_u32(stack->size) - 1U;
+
+        assert(KOS_atomic_read_relaxed_obj(stack->buf[size]) == OBJID(STACK, prev_stack));
+
+        KOS_atomic_write_relaxed_u32(stack->size, size);
+
+        ctx->stack = OBJID(STACK, prev_stack);
+    }
+}
+
 static int chain_stack_frame(KOS_CONTEXT ctx,
                              KOS_OBJ_ID  stack)
 {
@@ -212,8 +229,16 @@ int kos_stack_push(KOS_CONTEXT ctx,
                 cur_stack = OBJPTR(STACK, ctx->stack);
             }
 
-            if ( ! stack || KOS_atomic_read_relaxed_u32(cur_stack->size) + room > cur_stack->capacity)
-                TRY(push_new_stack(ctx));
+            if ( ! stack || KOS_atomic_read_relaxed_u32(cur_stack->size) + room > cur_stack->capacity) {
+
+                error = push_new_stack(ctx);
+
+                if (error) {
+                    if (stack)
+                        rechain_reentrant_frame(ctx, stack);
+                    goto cleanup;
+                }
+            }
 
             new_stack = OBJPTR(STACK, ctx->stack);
             base_idx  = KOS_atomic_read_relaxed_u32(new_stack->size);
-- 
2.43.0


From 9cbab8c38841b2d9cd179bf53f8f86f1c2bb42dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:16 +0000
Subject: [PATCH 85/93] fix: order of slices of strings with wide characters
 was wrong when they started at equally aligned addresses

---
 core/kos_string.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/kos_string.c b/core/kos_string.c
index 7f0f7b2..94b559a 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1123,6 +1123,7 @@ static int compare_slice(KOS_STRING *str_a,
 
         const uint8_t *pa    = (const uint8_t *)kos_get_string_buffer(str_a) + (a_begin << a_elem_size);
         const uint8_t *pb    = (const uint8_t *)kos_get_string_buffer(str_b) + (b_begin << a_elem_size);
+        const uint8_t *const pbegin = pa;
         const unsigned num_b = cmp_len << a_elem_size;
         const uint8_t *pend  = pa + num_b;
         const uint8_t *pend8 = (const uint8_t *)((uintptr_t)pend & ~(uintptr_t)7);
@@ -1143,6 +1144,13 @@ static int compare_slice(KOS_STRING *str_a,
                     pb += 8;
                 }
             }
+            else {
+                /* Go back to the beginning of the first different character */
+                const unsigned offs = (unsigned)(pa - pbegin) & ((1U << a_elem_size) - 1U);
+
+                pa -= offs;
+                pb -= offs;
+            }
         }
 
         switch (a_elem_size) {
-- 
2.43.0


From 9d1596fde4793b5b3d3a0ccf65c1c374d51ce226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 86/93] fix: socket recv/recvfrom lost errors and corrupted the
 buffer when there was nothing to receive

The result of recv() was compared with < -1, so errors were never reported
and the size of the buffer was reduced by one or wrapped around.  A non-blocking
socket without data, which is documented to return 0 bytes, threw an exception
or dropped the last byte of the given buffer.  Additionally the data was
received directly into buffer storage, which can be moved by GC while
the context is suspended.
---
 modules/kos_mod_net.c | 97 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 81 insertions(+), 16 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 111a517..0b8a918 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -899,6 +899,43 @@ cleanup:
 KOS_DECLARE_STATIC_CONST_STRING(str_buffer, "buffer");
 KOS_DECLARE_STATIC_CONST_STRING(str_size,   "size");
 
+static int is_would_block(int error)
+{
+#ifdef _WIN32
+    return error == WSAEWOULDBLOCK;
+#else
+    return error == EAGAIN || error == EWOULDBLOCK;
+#endif
+}
+
+static int store_received(KOS_CONTEXT ctx,
+                          KOS_OBJ_ID  buf_obj,
+                          uint32_t    offset,
+                          const char *received,
+                          unsigned    num_read)
+{
+    KOS_LOCAL buf;
+    int       error;
+
+    KOS_init_local_with(ctx, &buf, buf_obj);
+
+    TRY(KOS_buffer_resize(ctx, buf.o, offset + num_read));
+
+    if (num_read) {
+        uint8_t *const data = KOS_buffer_data(ctx, buf.o);
+
+        if ( ! data)
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+
+        memcpy(data + offset, received, num_read);
+    }
+
+cleanup:
+    KOS_destroy_top_local(ctx, &buf);
+
+    return error;
+}
+
 /* @item net socket.prototype.read()
  *
  *     socket.prototype.read(size = 4096, buffer = void, flags = 0)
@@ -935,7 +972,7 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     int64_t            to_read;
     int64_t            flags64;
     KOS_SOCKET_HOLDER *socket_holder = KOS_NULL;
-    uint8_t           *data;
+    KOS_VECTOR         tmp;
     KOS_OBJ_ID         arg;
     uint32_t           offset;
     int                error         = KOS_SUCCESS;
@@ -943,6 +980,8 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 3);
 
+    KOS_vector_init(&tmp);
+
     KOS_init_local(     ctx, &buf);
     KOS_init_local_with(ctx, &args, args_obj);
 
@@ -975,8 +1014,10 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     buf.o = KOS_array_read(ctx, args.o, 1);
     TRY_OBJID(buf.o);
 
-    if (buf.o == KOS_VOID)
+    if (buf.o == KOS_VOID) {
         buf.o = KOS_new_buffer(ctx, 0);
+        TRY_OBJID(buf.o);
+    }
     else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
@@ -987,25 +1028,33 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
 
     TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + to_read)));
 
-    data = KOS_buffer_data(ctx, buf.o);
-
-    if ( ! data)
+    /* Buffer storage can be moved by GC or replaced by another thread when
+     * the context is suspended, so don't read directly into it. */
+    if (KOS_vector_resize(&tmp, (size_t)to_read)) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
     KOS_suspend_context(ctx);
 
     reset_last_error();
 
-    num_read = recv(get_socket(socket_holder), (char *)(data + offset), (DATA_LEN)to_read, (int)flags64);
+    num_read = recv(get_socket(socket_holder), tmp.buffer, (DATA_LEN)to_read, (int)flags64);
 
-    if (num_read < -1)
+    if (num_read < 0) {
         saved_errno = get_error();
+        num_read    = 0;
+
+        /* No data received yet on a non-blocking socket */
+        if (is_would_block(saved_errno))
+            saved_errno = 0;
+    }
 
     KOS_resume_context(ctx);
 
     assert(num_read <= to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + num_read)));
+    TRY(store_received(ctx, buf.o, offset, tmp.buffer, (unsigned)num_read));
 
     if (saved_errno) {
         KOS_raise_errno_value(ctx, "recv", saved_errno);
@@ -1013,6 +1062,8 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     }
 
 cleanup:
+    KOS_vector_destroy(&tmp);
+
     release_socket(socket_holder);
 
     buf.o = KOS_destroy_top_locals(ctx, &args, &buf);
@@ -1056,7 +1107,7 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     int64_t            to_read;
     int64_t            flags64;
     KOS_SOCKET_HOLDER *socket_holder = KOS_NULL;
-    uint8_t           *data;
+    KOS_VECTOR         tmp;
     KOS_OBJ_ID         arg;
     ADDR_LEN           addr_len      = 0;
     uint32_t           offset;
@@ -1065,6 +1116,8 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 3);
 
+    KOS_vector_init(&tmp);
+
     KOS_init_local(     ctx, &ret);
     KOS_init_local(     ctx, &buf);
     KOS_init_local_with(ctx, &args, args_obj);
@@ -1098,8 +1151,10 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     buf.o = KOS_array_read(ctx, args.o, 1);
     TRY_OBJID(buf.o);
 
-    if (buf.o == KOS_VOID)
+    if (buf.o == KOS_VOID) {
         buf.o = KOS_new_buffer(ctx, 0);
+        TRY_OBJID(buf.o);
+    }
     else if (GET_OBJ_TYPE(buf.o) != OBJ_BUFFER)
         RAISE_EXCEPTION_STR(str_err_not_buffer);
 
@@ -1110,10 +1165,12 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
 
     TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + to_read)));
 
-    data = KOS_buffer_data(ctx, buf.o);
-
-    if ( ! data)
+    /* Buffer storage can be moved by GC or replaced by another thread when
+     * the context is suspended, so don't read directly into it. */
+    if (KOS_vector_resize(&tmp, (size_t)to_read)) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
     KOS_suspend_context(ctx);
 
@@ -1140,20 +1197,26 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     reset_last_error();
 
     num_read = recvfrom(get_socket(socket_holder),
-                        (char *)(data + offset),
+                        tmp.buffer,
                         (DATA_LEN)to_read,
                         (int)flags64,
                         (struct sockaddr *)&addr,
                         &addr_len);
 
-    if (num_read < -1)
+    if (num_read < 0) {
         saved_errno = get_error();
+        num_read    = 0;
+
+        /* No data received yet on a non-blocking socket */
+        if (is_would_block(saved_errno))
+            saved_errno = 0;
+    }
 
     KOS_resume_context(ctx);
 
     assert(num_read <= to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + num_read)));
+    TRY(store_received(ctx, buf.o, offset, tmp.buffer, (unsigned)num_read));
 
     if (saved_errno) {
         KOS_raise_errno_value(ctx, "recv", saved_errno);
@@ -1168,6 +1231,8 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     TRY(add_address_desc(ctx, ret.o, &addr, addr_len));
 
 cleanup:
+    KOS_vector_destroy(&tmp);
+
     release_socket(socket_holder);
 
     ret.o = KOS_destroy_top_locals(ctx, &args, &ret);
-- 
2.43.0


From a272f1485e8a3d1537acc1a967ff70f3ba400486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 87/93] fix: socket send/recv functions rejected the documented
 flags and accepted unknown ones

---
 modules/kos_mod_net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 0b8a918..9cab331 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1006,7 +1006,7 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1143,7 +1143,7 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1782,7 +1782,7 @@ static KOS_OBJ_ID kos_send(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1879,7 +1879,7 @@ static KOS_OBJ_ID kos_sendto(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
-- 
2.43.0


From fea7cbfd320e4128cd3e1e9646f9b4f44f2e779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:31 +0000
Subject: [PATCH 88/93] fix: socket.accept() did not return the address and the
 accepted socket could not be made non-blocking

---
 modules/kos_mod_net.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 9cab331..b45fa14 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -628,14 +628,29 @@ static KOS_OBJ_ID kos_accept(KOS_CONTEXT ctx,
     sock.o = KOS_new_object_with_private(ctx, proto_obj, &socket_priv_class, socket_finalize);
     TRY_OBJID(sock.o);
 
+    TRY(KOS_set_builtin_dynamic_property(ctx,
+                                         sock.o,
+                                         KOS_CONST_ID(str_blocking),
+                                         KOS_get_module(ctx),
+                                         get_blocking,
+                                         set_blocking));
+
     TRY(set_socket_object(ctx, sock.o, socket_fd, socket_holder->family));
 
+    /* The socket is now owned by the socket object */
+    socket_fd = KOS_INVALID_SOCKET;
+
     ret.o = KOS_new_object(ctx);
     TRY_OBJID(ret.o);
 
     TRY(KOS_set_property(ctx, ret.o, KOS_CONST_ID(str_socket), sock.o));
 
+    TRY(add_address_desc(ctx, ret.o, &addr, addr_len));
+
 cleanup:
+    if (socket_fd != KOS_INVALID_SOCKET)
+        closesocket(socket_fd);
+
     release_socket(socket_holder);
 
     ret.o = KOS_destroy_top_locals(ctx, &this_, &ret);
-- 
2.43.0


From 4dcb56b5dd0c051224d8bcef77fdee1c083ad2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:31 +0000
Subject: [PATCH 89/93] fix: IPv6 addresses with both leading and trailing
 zeroes were converted to an invalid string

---
 modules/kos_mod_net.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index b45fa14..a1d0ff2 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -395,11 +395,10 @@ static KOS_OBJ_ID address_to_string(KOS_CONTEXT             ctx,
                             if (byte[j])
                                 break;
 
-                        if (j == 16) {
-                            if (buf[pos - 1] != ':') {
-                                buf[pos++] = ':';
-                                buf[pos++] = ':';
-                            }
+                        /* Zeroes can be replaced with :: only once in an address */
+                        if (j == 16 && buf[0] != ':') {
+                            buf[pos++] = ':';
+                            buf[pos++] = ':';
                             break;
                         }
                     }
-- 
2.43.0


From 8a1a70d01a1cb9bad6c767ecee9bf2959dd804f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:51 +0000
Subject: [PATCH 90/93] fix: sending data through a socket in multiple parts
 failed an assertion

send_loop() returned the size of the last part instead of the size of all data sent.
---
 modules/kos_mod_net.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index a1d0ff2..555fc32 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1515,6 +1515,7 @@ static int send_loop(KOS_SOCKET              socket_fd,
                      ADDR_LEN                addr_len)
 {
     const int send_timeout_sec = 30;
+    int       total_sent       = 0;
     int       num_sent;
 
     for (;;) {
@@ -1534,10 +1535,12 @@ static int send_loop(KOS_SOCKET              socket_fd,
         else
             num_sent = send(socket_fd, data, size, flags);
 
-        if ((DATA_LEN)num_sent == size)
-            break;
-
         if (num_sent >= 0) {
+            total_sent += num_sent;
+
+            if ((DATA_LEN)num_sent == size)
+                return total_sent;
+
             data += num_sent;
             size -= num_sent;
         }
@@ -1571,7 +1574,7 @@ static int send_loop(KOS_SOCKET              socket_fd,
             break;
     }
 
-    return num_sent;
+    return -1;
 }
 
 static int send_one_object(KOS_CONTEXT             ctx,
-- 
2.43.0


From 45986bee1e77d0346980c1e5cde43aff803792da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:58 +0000
Subject: [PATCH 91/93] fix: socket timeouts which are NaN or overflow were
 accepted

---
 modules/kos_mod_net.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 555fc32..d7b0715 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1333,7 +1333,7 @@ static KOS_OBJ_ID kos_wait(KOS_CONTEXT ctx,
             tv_usec = (uint64_t)timeout.u.i * 1000000U;
         }
         else {
-            if (timeout.u.d < 0 || timeout.u.d > 2147483647.0) {
+            if ( ! (timeout.u.d >= 0 && timeout.u.d <= 2147483647.0)) {
                 KOS_raise_printf(ctx, "timeout_sec argument %.6f is out of range",
                                  timeout.u.d);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
@@ -2439,26 +2439,29 @@ static int setsockopt_time(KOS_CONTEXT        ctx,
                            KOS_OBJ_ID         value)
 {
     KOS_NUMERIC    numeric = KOS_get_numeric(value);
-    uint64_t       tv_usec;
+    uint64_t       tv_usec = 0;
 #ifdef _WIN32
     DWORD          time_value;
 #else
     struct timeval time_value;
 #endif
-    int            positive    = 0;
+    const int      max_sec     = 0x7FFFFFFF / 1000;
+    int            in_range    = 0;
     int            error       = 0;
     int            saved_errno = 0;
 
     switch (numeric.type) {
 
         case KOS_INTEGER_VALUE:
-            tv_usec  = (uint64_t)numeric.u.i * 1000000U;
-            positive = numeric.u.i >= 0;
+            in_range = numeric.u.i >= 0 && numeric.u.i <= max_sec;
+            if (in_range)
+                tv_usec = (uint64_t)numeric.u.i * 1000000U;
             break;
 
         case KOS_FLOAT_VALUE:
-            tv_usec  = (uint64_t)floor(numeric.u.d * 1000000.0);
-            positive = numeric.u.d >= 0;
+            in_range = numeric.u.d >= 0 && numeric.u.d < max_sec + 1;
+            if (in_range)
+                tv_usec = (uint64_t)floor(numeric.u.d * 1000000.0);
             break;
 
         default:
@@ -2467,8 +2470,10 @@ static int setsockopt_time(KOS_CONTEXT        ctx,
             return KOS_ERROR_EXCEPTION;
     }
 
-    if ( ! positive || (tv_usec / 1000U) > 0x7FFFFFFFU) {
-        KOS_raise_printf(ctx, "value argument %" PRIu64 " us is out of range", tv_usec);
+    if ( ! in_range || (tv_usec / 1000U) > 0x7FFFFFFFU) {
+        KOS_DECLARE_STATIC_CONST_STRING(str_err_out_of_range, "value argument is out of range");
+
+        KOS_raise_exception(ctx, KOS_CONST_ID(str_err_out_of_range));
         return KOS_ERROR_EXCEPTION;
     }
 
-- 
2.43.0


From d67f16d06263a96c0e8c6bc753ff2c83aa5496d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 92/93] fix: socket.wait() and sending corrupted the stack when
 the socket's descriptor did not fit in fd_set

---
 modules/kos_mod_net.c | 104 +++++++++++++++++++++---------------------
 1 file changed, 52 insertions(+), 52 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index d7b0715..ce521e8 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -35,8 +35,8 @@
 #   include <fcntl.h>
 #   include <netdb.h>
 #   include <netinet/in.h>
+#   include <poll.h>
 #   include <sys/socket.h>
-#   include <sys/select.h>
 #   include <sys/time.h>
 #   include <sys/types.h>
 #   include <sys/un.h>
@@ -196,6 +196,45 @@ static int is_socket_valid(KOS_SOCKET s)
 #endif
 }
 
+/* Waits until a socket is ready for reading or for writing.
+ * Negative timeout means indefinite wait.  Returns positive value if the socket
+ * is ready, 0 on timeout, negative value on error. */
+static int wait_for_socket(KOS_SOCKET socket_fd, int for_write, int64_t timeout_us)
+{
+#ifdef _WIN32
+    TIMEVAL  time_value;
+    TIMEVAL *timeout_tv = KOS_NULL;
+    fd_set   fds;
+
+    FD_ZERO(&fds);
+    FD_SET(socket_fd, &fds);
+
+    if (timeout_us >= 0) {
+        time_value.tv_sec  = (TIME_FRAGMENT)(timeout_us / 1000000);
+        time_value.tv_usec = (TIME_FRAGMENT)(timeout_us % 1000000);
+        timeout_tv         = &time_value;
+    }
+
+    return select(0, for_write ? KOS_NULL : &fds, for_write ? &fds : KOS_NULL, KOS_NULL, timeout_tv);
+#else
+    /* Unlike select(), poll() does not limit values of file descriptors */
+    struct pollfd pfd;
+    int           timeout_ms = -1;
+
+    if (timeout_us >= 0) {
+        const int64_t ms = (timeout_us + 999) / 1000;
+
+        timeout_ms = (ms < 0x7FFFFFFF) ? (int)ms : 0x7FFFFFFF;
+    }
+
+    pfd.fd      = socket_fd;
+    pfd.events  = for_write ? POLLOUT : POLLIN;
+    pfd.revents = 0;
+
+    return poll(&pfd, 1, timeout_ms);
+#endif
+}
+
 static int acquire_socket_object(KOS_CONTEXT         ctx,
                                  KOS_OBJ_ID          socket_obj,
                                  KOS_SOCKET_HOLDER **socket_holder)
@@ -1281,21 +1320,14 @@ static KOS_OBJ_ID kos_wait(KOS_CONTEXT ctx,
                            KOS_OBJ_ID  this_obj,
                            KOS_OBJ_ID  args_obj)
 {
-#ifdef _WIN32
-    TIMEVAL            time_value;
-    TIMEVAL           *timeout_tv  = KOS_NULL;
-#else
-    struct timeval     time_value;
-    struct timeval    *timeout_tv  = KOS_NULL;
-#endif
     KOS_NUMERIC        timeout;
-    fd_set             fds;
     KOS_SOCKET_HOLDER *socket_holder;
     KOS_LOCAL          args;
     KOS_LOCAL          this_;
     KOS_OBJ_ID         wait_obj;
     KOS_OBJ_ID         ret_obj     = KOS_FALSE;
-    int                nfds        = 0;
+    int64_t            timeout_us  = -1;
+    int                num_ready   = 0;
     int                saved_errno = 0;
     int                error;
 
@@ -1314,23 +1346,14 @@ static KOS_OBJ_ID kos_wait(KOS_CONTEXT ctx,
     if (wait_obj != KOS_VOID)
         TRY(KOS_get_numeric_arg(ctx, args.o, 0, &timeout));
 
-    FD_ZERO(&fds);
-    FD_SET(socket_holder->socket_fd, &fds);
-
-#ifndef _WIN32
-    nfds = socket_holder->socket_fd + 1;
-#endif
-
     if (timeout.type != KOS_NON_NUMERIC) {
-        uint64_t tv_usec;
-
         if (timeout.type == KOS_INTEGER_VALUE) {
             if (timeout.u.i < 0 || timeout.u.i > 2147483647) {
                 KOS_raise_printf(ctx, "timeout_sec argument %" PRId64 " is out of range",
                                  timeout.u.i);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
-            tv_usec = (uint64_t)timeout.u.i * 1000000U;
+            timeout_us = timeout.u.i * 1000000;
         }
         else {
             if ( ! (timeout.u.d >= 0 && timeout.u.d <= 2147483647.0)) {
@@ -1338,32 +1361,26 @@ static KOS_OBJ_ID kos_wait(KOS_CONTEXT ctx,
                                  timeout.u.d);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
-            tv_usec = (uint64_t)floor(timeout.u.d * 1000000.0);
+            timeout_us = (int64_t)floor(timeout.u.d * 1000000.0);
         }
-
-        memset(&time_value, 0, sizeof(time_value));
-        time_value.tv_sec  = (TIME_FRAGMENT)(tv_usec / 1000000U);
-        time_value.tv_usec = (TIME_FRAGMENT)(tv_usec % 1000000U);
-
-        timeout_tv = &time_value;
     }
 
     KOS_suspend_context(ctx);
 
     reset_last_error();
 
-    nfds = select(nfds, &fds, KOS_NULL, KOS_NULL, timeout_tv);
-    if (nfds < 0)
+    num_ready = wait_for_socket(get_socket(socket_holder), 0, timeout_us);
+    if (num_ready < 0)
         saved_errno = get_error();
 
     KOS_resume_context(ctx);
 
     if (saved_errno) {
-        KOS_raise_errno_value(ctx, "select", saved_errno);
+        KOS_raise_errno_value(ctx, "wait", saved_errno);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
-    ret_obj = KOS_BOOL(nfds);
+    ret_obj = KOS_BOOL(num_ready);
 
 cleanup:
     release_socket(socket_holder);
@@ -1514,20 +1531,11 @@ static int send_loop(KOS_SOCKET              socket_fd,
                      const KOS_GENERIC_ADDR *addr,
                      ADDR_LEN                addr_len)
 {
-    const int send_timeout_sec = 30;
-    int       total_sent       = 0;
-    int       num_sent;
+    const int64_t send_timeout_us = 30000000;
+    int           total_sent      = 0;
+    int           num_sent;
 
     for (;;) {
-#ifdef _WIN32
-        TIMEVAL        timeout;
-        int            nfds = 0;
-#else
-        struct timeval timeout;
-        int            nfds = socket_fd + 1;
-#endif
-        fd_set         fds;
-
         reset_last_error();
 
         if (addr)
@@ -1562,15 +1570,7 @@ static int send_loop(KOS_SOCKET              socket_fd,
 
         reset_last_error();
 
-        FD_ZERO(&fds);
-        FD_SET(socket_fd, &fds);
-
-        timeout.tv_sec  = (TIME_FRAGMENT)send_timeout_sec;
-        timeout.tv_usec = 0;
-
-        nfds = select(nfds, KOS_NULL, &fds, KOS_NULL, &timeout);
-
-        if (nfds < 0)
+        if (wait_for_socket(socket_fd, 1, send_timeout_us) < 0)
             break;
     }
 
-- 
2.43.0


From 08728a108bf44cd38a78d3e8fe304360d11c2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:23 +0000
Subject: [PATCH 93/93] fix: deleted properties were never removed from an
 object's property table, which grew until memory ran out

---
 core/kos_object.c | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/core/kos_object.c b/core/kos_object.c
index 43f46b1..d301b4b 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -348,6 +348,14 @@ static KOS_OBJ_ID help_copy_table(KOS_CONTEXT ctx,
     return new_table;
 }
 
+static int is_mostly_empty(KOS_OBJ_ID table)
+{
+    const uint32_t capacity = KOS_atomic_read_relaxed_u32(OBJPTR(OBJECT_STORAGE, table)->capacity);
+    const uint32_t usage    = KOS_atomic_read_relaxed_u32(OBJPTR(OBJECT_STORAGE, table)->num_slots_used);
+
+    return usage < capacity / 4U;
+}
+
 static int need_resize(KOS_OBJ_ID table, unsigned num_reprobes)
 {
     /* Determine if resize is needed based on the number of reprobes */
@@ -373,6 +381,29 @@ static int need_resize(KOS_OBJ_ID table, unsigned num_reprobes)
     return 1;
 }
 
+/* Deleted keys are not carried over to the new table.  If there are many of them,
+ * getting rid of them makes enough room and the table doesn't have to grow. */
+static uint32_t calc_new_capacity(KOS_OBJ_ID table, uint32_t grow_factor)
+{
+    const uint32_t capacity = KOS_atomic_read_relaxed_u32(OBJPTR(OBJECT_STORAGE, table)->capacity);
+    KOS_PITEM     *item     = OBJPTR(OBJECT_STORAGE, table)->items;
+    KOS_PITEM     *end      = item + capacity;
+    uint32_t       live     = 0;
+    uint32_t       deleted  = 0;
+
+    for ( ; item < end; ++item) {
+        if (IS_BAD_PTR(KOS_atomic_read_relaxed_obj(item->key)))
+            continue;
+
+        if (KOS_atomic_read_relaxed_obj(item->value) == TOMBSTONE)
+            ++deleted;
+        else
+            ++live;
+    }
+
+    return (deleted > live / 4U) ? capacity : capacity * grow_factor;
+}
+
 static int resize_prop_table(KOS_CONTEXT ctx,
                              KOS_OBJ_ID  obj_id,
                              KOS_OBJ_ID  old_table_obj,
@@ -381,8 +412,7 @@ static int resize_prop_table(KOS_CONTEXT ctx,
     int            error        = KOS_SUCCESS;
     const uint32_t old_capacity = IS_BAD_PTR(old_table_obj) ? 0U :
         KOS_atomic_read_relaxed_u32(OBJPTR(OBJECT_STORAGE, old_table_obj)->capacity);
-    const uint32_t new_capacity = old_capacity ? old_capacity * grow_factor
-                                               : KOS_MIN_PROPS_CAPACITY;
+    uint32_t       new_capacity = KOS_MIN_PROPS_CAPACITY;
     KOS_OBJ_ID     new_table    = KOS_BADPTR;
 
     if ( ! IS_BAD_PTR(old_table_obj))
@@ -399,6 +429,9 @@ static int resize_prop_table(KOS_CONTEXT ctx,
         KOS_LOCAL obj;
         KOS_LOCAL old_table;
 
+        if (old_capacity)
+            new_capacity = calc_new_capacity(old_table_obj, grow_factor);
+
         KOS_init_local_with(ctx, &obj, obj_id);
         KOS_init_local_with(ctx, &old_table, old_table_obj);
 
@@ -679,8 +712,9 @@ static enum SET_STATUS set_property(KOS_CONTEXT ctx,
         /* Otherwise check if this key matches the sought property */
         else if ( ! is_key_equal(prop->o, hash, cur_key, cur_item)) {
 
-            /* Resize if property table is full */
-            if (num_reprobes > KOS_MAX_PROP_REPROBES) {
+            /* Resize if property table is full, but keep looking if the keys are only
+             * clustered in a table which is mostly empty, otherwise it could grow forever */
+            if (num_reprobes > KOS_MAX_PROP_REPROBES && ! is_mostly_empty(*prop_table)) {
                 const int error = resize_prop_table(ctx, obj->o, *prop_table, 2U);
                 if (error)
                     return SET_FAILED;
-- 
2.43.0

