From 4915b799c4761c0372d8eb61df04df7de39a0e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 01/57] fix: lexer read past the end of a source ending in a
 comment

---
 source/lib_compiler/lexer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index df9c690..15a5f90 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -80,6 +80,12 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       for (; *s && *s != '\n'; ++s) {
         // empty
       }
+      if (*s == '\0') {
+        // comment ends the file, dont step over the terminator
+        --s;
+        push_(TOK_EOL);
+        continue;
+      }
       {
         assert(s >= new_line_);
         new_line_ = s + 1;
-- 
2.43.0


From 9989b7a3e8b745ca83b065e76bf9f4b9b0a62a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:20 +0000
Subject: [PATCH 02/57] fix: name string and import tokens in error messages
 instead of aborting

---
 source/lib_compiler/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_compiler/token.cpp b/source/lib_compiler/token.cpp
index 89c0bab..b74583c 100644
--- a/source/lib_compiler/token.cpp
+++ b/source/lib_compiler/token.cpp
@@ -99,6 +99,8 @@ const char *token_t::token_name(token_e e) {
   case TOK_RBRACKET: return "]";
   case TOK_NONE:     return "none";
   case TOK_DOT:      return ".";
+  case TOK_STRING:   return "string";
+  case TOK_IMPORT:   return "import";
   default:
     assert(!"unhandled token type");
     return "";
-- 
2.43.0


From 81259fe1c544c61f43ccc14039b35d07aa105eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 03/57] fix: unary minus and not apply to their own operand

---
 source/lib_compiler/parser.cpp | 33 +++++++++++++++++++++------------
 source/lib_compiler/parser.h   |  1 +
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index c4c9957..d497dc9 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -110,7 +110,7 @@ int32_t parser_t::op_type_(token_e type) const {
 
 bool parser_t::is_operator_() const {
   token_stream_t &stream_ = nano_.lexer().stream();
-  return op_type_(stream_.type()) > 0;
+  return stream_.peek()->is_binary_op();
 }
 
 ast_node_t *parser_t::parse_array_init_(const token_t &t) {
@@ -217,24 +217,16 @@ void parser_t::parse_lhs_() {
   } while (false);
 }
 
-void parser_t::parse_expr_ex_(uint32_t tide) {
+void parser_t::parse_operand_() {
   token_stream_t &stream_ = nano_.lexer().stream();
   auto &ast = nano_.ast();
 
   // format:
-  //    ['not'] [-] <lhs> [ '(' <expr> ')' ]
-  //    ['not'] [-] <lhs> [ '(' <expr> ')' ] <op> <expr_ex>
-
-  // not
-  if (const token_t *n = stream_.found(TOK_NOT)) {
-    parse_expr_ex_(tide);
-    op_push_(n, tide);
-    return;
-  }
+  //    [-] <lhs> [ '(' <expr> ')' ]
 
   // unary minus
   if (const token_t *n = stream_.found(TOK_SUB)) {
-    parse_expr_ex_(tide);
+    parse_operand_();
     ast_node_t *back = exp_stack_.back();
     exp_stack_.pop_back();
     auto *op = nano_.ast().alloc<ast_exp_unary_op_t>(n);
@@ -276,6 +268,23 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
     break;
   }
+}
+
+void parser_t::parse_expr_ex_(uint32_t tide) {
+  token_stream_t &stream_ = nano_.lexer().stream();
+
+  // format:
+  //    ['not'] [-] <lhs> [ '(' <expr> ')' ]
+  //    ['not'] [-] <lhs> [ '(' <expr> ')' ] <op> <expr_ex>
+
+  // not is a prefix so it can not take an operand that is to its left
+  if (const token_t *n = stream_.found(TOK_NOT)) {
+    op_stack_.push_back(n);
+    parse_expr_ex_(tide);
+    return;
+  }
+
+  parse_operand_();
 
   if (is_operator_()) {
     const token_t *op = stream_.pop();
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index b3c3afa..de3592d 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -50,6 +50,7 @@ protected:
   // expressions parsing helpers
   void parse_expr_ex_(uint32_t tide);
   void parse_lhs_();
+  void parse_operand_();
 
   // return true if next token is an operator
   bool is_operator_() const;
-- 
2.43.0


From ddb0e75a3b4f26904752e62dafe54bc596d3fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 04/57] fix: numeric literals with many digits overflowed

---
 source/lib_compiler/lexer.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index 15a5f90..bde8538 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -1,3 +1,6 @@
+#include <cstdlib>
+#include <string>
+
 #include "lexer.h"
 #include "errors.h"
 
@@ -297,24 +300,18 @@ void lexer_t::push_string_(const char *start, const char *end) {
 }
 
 void lexer_t::push_val_(const char *s, const char *e) {
-  int32_t v = 0;
-  int32_t f = 0;
-  for (; s != e; ++s) {
-    if (*s == '.') {
-      assert(f == 0);
-      f = 1;
-    }
-    else {
+  const std::string text(s, e);
+  if (text.find('.') == std::string::npos) {
+    // integers wrap around like all other integer arithmetic
+    uint32_t v = 0;
+    for (; s != e; ++s) {
       assert(is_numeric(*s));
-      v = v * 10 + (*s - '0');
-      f *= 10;
+      v = v * 10u + uint32_t(*s - '0');
     }
-  }
-  if (f == 0) {
-    stream_.push(token_t(v, line_));
+    stream_.push(token_t(int32_t(v), line_));
   }
   else {
-    const float x = float(v) / float(f);
+    const float x = strtof(text.c_str(), nullptr);
     stream_.push(token_t(x, line_));
   }
 }
-- 
2.43.0


From c745cbc6f8e0c1245a747b50c54cfb9168bd05eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 05/57] fix: removing a dead branch changed the constant it was
 tested on

---
 source/lib_compiler/optimize.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 957198a..57d832a 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -346,6 +346,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
   opt_if_remove_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {}
 
   void visit(ast_stmt_if_t *s) override {
@@ -358,7 +359,8 @@ struct opt_if_remove_t: public ast_visitor_t {
       else {
         s->then_block = s->else_block;
         s->else_block = nullptr;
-        c->val = 1;
+        // note: the literal may be shared, so it must not be changed
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
       }
     }
   }
@@ -378,6 +380,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
 protected:
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From cf26edc065376a864eae75f89a5699d9dbf0c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 06/57] fix: a variable of an else branch could resolve to one
 of the then branch

---
 source/lib_compiler/sema.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 32a0d6f..3c16c15 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -404,8 +404,13 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_stmt_if_t *n) override {
+    dispatch(n->expr);
+    // each branch has a scope of its own
     scope_.emplace_back();
-    ast_visitor_t::visit(n);
+    dispatch(n->then_block);
+    scope_.pop_back();
+    scope_.emplace_back();
+    dispatch(n->else_block);
     scope_.pop_back();
   }
 
-- 
2.43.0


From 2521dcc4d0f6228e42f3a69f238a34de4125d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:15 +0000
Subject: [PATCH 07/57] fix: a variable declared without value kept the value
 of an earlier one

---
 source/lib_compiler/codegen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index d0a0230..b74009b 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -469,8 +469,11 @@ struct codegen_pass_t: ast_visitor_t {
     assert(n->is_local());
     if (n->expr) {
       dispatch(n->expr);
-      emit(INS_SETV, n->offset, n->name);
+    } else {
+      // the slot may hold the value of an earlier variable or iteration
+      emit(INS_NEW_NONE, n->name);
     }
+    emit(INS_SETV, n->offset, n->name);
   }
 
   const std::vector<function_t> &functions() const {
-- 
2.43.0


From e8b64794d9efd0f245252910109e8bb4c67f1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:15 +0000
Subject: [PATCH 08/57] fix: reject misuse of constants and function members
 instead of aborting

---
 source/lib_compiler/ast.h    |  1 +
 source/lib_compiler/sema.cpp | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 631728d..124ea9f 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -276,6 +276,7 @@ struct ast_exp_call_t : public ast_node_t {
         args[i] = with;
       }
     }
+    callee = (callee == which) ? with : callee;
   }
 
   const token_t *token;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 3c16c15..2b8cf9d 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -193,6 +193,39 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_array_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_for_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_member_t *n) override {
+    // constants are inlined so there is no object to access
+    auto *decl = n->decl->cast<ast_decl_var_t>();
+    if (decl && decl->is_const) {
+      errs_.cant_evaluate_constant(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
     if (n->is_const) {
@@ -368,7 +401,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     n->decl = find_decl(n->name->str_);
     if (n->decl) {
       if (!n->decl->cast<ast_decl_var_t>()) {
-        assert(!"TODO: Revise this later please");
+        // functions have no members
+        errs_.unexpected_token(*n->name);
       }
       return;
     }
-- 
2.43.0


From e6b48d88c2642c402571780f9ef22d6102c3e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:15 +0000
Subject: [PATCH 09/57] fix: constant evaluation aborted on not, function names
 and variables

---
 source/lib_compiler/sema.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 2b8cf9d..13931ff 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -21,6 +21,9 @@ struct eval_t: public ast_visitor_t {
     }
 
     decend_(n);
+    if (!valid_) {
+      return;
+    }
     const int32_t v = value_.back();
     int32_t r = 0;
     value_.pop_back();
@@ -28,6 +31,9 @@ struct eval_t: public ast_visitor_t {
     case TOK_SUB:
       r = -v;
       break;
+    case TOK_NOT:
+      r = !v;
+      break;
     default:
       assert(!"unknown operator");
     }
@@ -53,8 +59,7 @@ struct eval_t: public ast_visitor_t {
   void visit(ast_exp_ident_t *n) override {
     assert(n->decl);
     ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
-    assert(decl);
-    if (decl->is_const) {
+    if (decl && decl->is_const) {
       if (auto *v = decl->expr->cast<ast_exp_lit_var_t>()) {
         value_.push_back(v->val);
         return;
-- 
2.43.0


From 4f46e88e8e2ab78bab311093eff6dd87fdca1ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:46 +0000
Subject: [PATCH 10/57] fix: integer overflow was undefined and dividing the
 smallest integer by -1 killed the process

---
 source/lib_builtins/builtin.cpp  |  4 +++-
 source/lib_common/arith.h        | 35 ++++++++++++++++++++++++++++++++
 source/lib_compiler/optimize.cpp | 13 ++++++------
 source/lib_compiler/sema.cpp     | 13 ++++++------
 source/lib_vm/thread.cpp         | 13 ++++++------
 5 files changed, 59 insertions(+), 19 deletions(-)
 create mode 100644 source/lib_common/arith.h

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index edb7a83..373d7dd 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -6,6 +6,8 @@
 #include "../lib_vm/vm.h"
 #include "../lib_vm/thread.h"
 
+#include "../lib_common/arith.h"
+
 #include "builtin.h"
 
 
@@ -16,7 +18,7 @@ static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
   const nano::value_t *v = t.get_stack().pop();
   switch (v->type()) {
   case val_type_int: {
-    const int32_t res = (v->v < 0) ? (-v->v) : (v->v);
+    const int32_t res = (v->v < 0) ? int_neg(v->v) : (v->v);
     t.get_stack().push_int(res);
   } break;
   case val_type_float: {
diff --git a/source/lib_common/arith.h b/source/lib_common/arith.h
new file mode 100644
index 0000000..b8ffbfb
--- /dev/null
+++ b/source/lib_common/arith.h
@@ -0,0 +1,35 @@
+#pragma once
+#include <cstdint>
+
+// 32bit integer arithmetic with wrap around, as used by the virtual machine
+// and by the compiler when folding constants
+
+namespace nano {
+
+static inline int32_t int_add(int32_t a, int32_t b) {
+  return int32_t(uint32_t(a) + uint32_t(b));
+}
+
+static inline int32_t int_sub(int32_t a, int32_t b) {
+  return int32_t(uint32_t(a) - uint32_t(b));
+}
+
+static inline int32_t int_mul(int32_t a, int32_t b) {
+  return int32_t(uint32_t(a) * uint32_t(b));
+}
+
+static inline int32_t int_neg(int32_t a) {
+  return int32_t(0u - uint32_t(a));
+}
+
+// note: b must not be zero
+static inline int32_t int_div(int32_t a, int32_t b) {
+  return (b == -1) ? int_neg(a) : (a / b);
+}
+
+// note: b must not be zero
+static inline int32_t int_mod(int32_t a, int32_t b) {
+  return (b == -1) ? 0 : (a % b);
+}
+
+} // namespace nano
diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 57d832a..009c68c 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -2,6 +2,7 @@
 
 #include "ast.h"
 #include "errors.h"
+#include "../lib_common/arith.h"
 
 
 namespace nano {
@@ -240,7 +241,7 @@ protected:
     if (value_(o->child, a)) {
       // evaluate operator
       switch (o->op->type_) {
-      case TOK_SUB: v = -a; break;
+      case TOK_SUB: v = int_neg(a); break;
       case TOK_NOT: v = !a; break;
       default: assert(!"unknown operator");
       }
@@ -281,9 +282,9 @@ protected:
       }
       // evaluate operator
       switch (o->op) {
-      case TOK_ADD: v = a +  b; break;
-      case TOK_SUB: v = a -  b; break;
-      case TOK_MUL: v = a *  b; break;
+      case TOK_ADD: v = int_add(a, b); break;
+      case TOK_SUB: v = int_sub(a, b); break;
+      case TOK_MUL: v = int_mul(a, b); break;
       case TOK_AND: v = a && b; break;
       case TOK_OR:  v = a || b; break;
       case TOK_LEQ: v = a <= b; break;
@@ -291,8 +292,8 @@ protected:
       case TOK_LT:  v = a <  b; break;
       case TOK_GT:  v = a >  b; break;
       case TOK_EQ:  v = a == b; break;
-      case TOK_DIV: v = a /  b; break;
-      case TOK_MOD: v = a %  b; break;
+      case TOK_DIV: v = int_div(a, b); break;
+      case TOK_MOD: v = int_mod(a, b); break;
       default: assert(!"unknown operator");
       }
       val_[o] = v;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 13931ff..ffa7e32 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -2,6 +2,7 @@
 
 #include "ast.h"
 #include "errors.h"
+#include "../lib_common/arith.h"
 
 namespace nano {
 
@@ -29,7 +30,7 @@ struct eval_t: public ast_visitor_t {
     value_.pop_back();
     switch (n->op->type_) {
     case TOK_SUB:
-      r = -v;
+      r = int_neg(v);
       break;
     case TOK_NOT:
       r = !v;
@@ -132,9 +133,9 @@ protected:
     }
     // evaluate operator
     switch (tok.type_) {
-    case TOK_ADD:     return a +  b;
-    case TOK_SUB:     return a -  b;
-    case TOK_MUL:     return a *  b;
+    case TOK_ADD:     return int_add(a, b);
+    case TOK_SUB:     return int_sub(a, b);
+    case TOK_MUL:     return int_mul(a, b);
     case TOK_AND:     return a && b;
     case TOK_OR:      return a || b;
     case TOK_LEQ:     return a <= b;
@@ -142,8 +143,8 @@ protected:
     case TOK_LT:      return a <  b;
     case TOK_GT:      return a >  b;
     case TOK_EQ:      return a == b;
-    case TOK_DIV:     return a /  b;
-    case TOK_MOD:     return a %  b;
+    case TOK_DIV:     return int_div(a, b);
+    case TOK_MOD:     return int_mod(a, b);
     default:
       assert(!"unknown operator");
     }
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 6208816..5f5ecb5 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -2,6 +2,7 @@
 #include <cstring>
 
 #include "thread.h"
+#include "../lib_common/arith.h"
 #include "program.h"
 #include "instructions.h"
 
@@ -100,7 +101,7 @@ void thread_t::do_INS_ADD_() {
   const value_t *l = stack_.pop();
   // int like
   if (l->is_a<val_type_int>() && r->is_a<val_type_int>()) {
-    stack_.push_int(l->v + r->v);
+    stack_.push_int(int_add(l->v, r->v));
     return;
   }
   // float like
@@ -148,7 +149,7 @@ void thread_t::do_INS_SUB_() {
   const value_t *l = stack_.pop();
   // int like
   if (l->is_a<val_type_int>() && r->is_a<val_type_int>()) {
-    stack_.push_int(l->v - r->v);
+    stack_.push_int(int_sub(l->v, r->v));
     return;
   }
   // float like
@@ -170,7 +171,7 @@ void thread_t::do_INS_MUL_() {
   const value_t *l = stack_.pop();
   // int like
   if (l->is_a<val_type_int>() && r->is_a<val_type_int>()) {
-    stack_.push_int(l->v * r->v);
+    stack_.push_int(int_mul(l->v, r->v));
     return;
   }
   // float like
@@ -196,7 +197,7 @@ void thread_t::do_INS_DIV_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v / r->v;
+      const int32_t o = int_div(l->v, r->v);
       stack_.push_int(o);
     }
     return;
@@ -223,7 +224,7 @@ void thread_t::do_INS_MOD_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v % r->v;
+      const int32_t o = int_mod(l->v, r->v);
       stack_.push_int(o);
     }
     return;
@@ -251,7 +252,7 @@ void thread_t::do_INS_NOT_() {
 void thread_t::do_INS_NEG_() {
   const value_t *o = stack_.pop();
   if (o->is_a<val_type_int>()) {
-    stack_.push_int(-o->v);
+    stack_.push_int(int_neg(o->v));
     return;
   }
   raise_error(thread_error_t::e_bad_type_operation);
-- 
2.43.0


From 4cc0ee7682e93ff79618dd1be463ec98bf659d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:30 +0000
Subject: [PATCH 11/57] fix: string concatenation truncated its other operand,
 and aborted on arrays

---
 source/lib_vm/thread.cpp | 57 +++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 5f5ecb5..fc49eb9 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -33,27 +33,30 @@ namespace nano {
 
 namespace {
 
-bool to_string(char *buf, size_t size, const value_t *val) {
+// append the text of a value, return false if it has no text form
+bool to_string(std::string &out, const value_t *val) {
+  char buf[64] = {0};
   switch (val->type()) {
   case val_type_float:
-    snprintf(buf, size, "%f", val->f);
-    return true;
+    snprintf(buf, sizeof(buf), "%f", val->f);
+    break;
   case val_type_int:
-    snprintf(buf, size, "%i", val->integer());
-    return true;
+    snprintf(buf, sizeof(buf), "%i", val->integer());
+    break;
   case val_type_string:
-    snprintf(buf, size, "%s", val->string());
+    out.append(val->string(), val->strlen());
     return true;
   case val_type_none:
-    snprintf(buf, size, "none");
-    return true;
+    snprintf(buf, sizeof(buf), "none");
+    break;
   case val_type_func:
-    snprintf(buf, size, "function@%d", val->v);
-    return true;
+    snprintf(buf, sizeof(buf), "function@%d", val->v);
+    break;
   default:
-    assert(false);
     return false;
   }
+  out.append(buf);
+  return true;
 }
 
 } // namespace {}
@@ -109,31 +112,13 @@ void thread_t::do_INS_ADD_() {
     stack_.push_float(l->as_float() + r->as_float());
     return;
   }
-  if (l->is_a<val_type_string>()) {
-    char rbuf[16] = {0};
-    to_string(rbuf, sizeof(rbuf), r);
-    int32_t rsize = int32_t(strlen(rbuf));
-    const int32_t len = l->strlen() + rsize;
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, l->string(), l->strlen());
-    memcpy(dst + l->strlen(), rbuf, rsize);
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
-  }
-  if (r->is_a<val_type_string>()) {
-    char lbuf[16] = {0};
-    to_string(lbuf, sizeof(lbuf), l);
-    int32_t lsize = int32_t(strlen(lbuf));
-    const int32_t len = lsize + r->strlen();
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, lbuf, lsize);
-    memcpy(dst + lsize, r->string(), r->strlen());
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
+  // string concatenation
+  if (l->is_a<val_type_string>() || r->is_a<val_type_string>()) {
+    std::string text;
+    if (to_string(text, l) && to_string(text, r)) {
+      stack_.push_string(text);
+      return;
+    }
   }
   // try a user handler
   if (vm_.handlers.on_add) {
-- 
2.43.0


From bf937ef49b99cc81bcf67e3b50611c613790c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:30 +0000
Subject: [PATCH 12/57] fix: unary minus was an error for floats

---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index fc49eb9..7596a7e 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -240,6 +240,10 @@ void thread_t::do_INS_NEG_() {
     stack_.push_int(int_neg(o->v));
     return;
   }
+  if (o->is_a<val_type_float>()) {
+    stack_.push_float(-o->f);
+    return;
+  }
   raise_error(thread_error_t::e_bad_type_operation);
 }
 
-- 
2.43.0


From dd0e1e71f711529678f3368b35478454ba8c3e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:01 +0000
Subject: [PATCH 13/57] fix: collector overflowed the stack on cyclic or deep
 arrays and the heap when a quarter of it was live

---
 source/lib_vm/vm.cpp    |   2 +
 source/lib_vm/vm_gc.cpp | 127 ++++++++++++++++++++--------------------
 source/lib_vm/vm_gc.h   |  13 ++--
 3 files changed, 72 insertions(+), 70 deletions(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cc70142..74e157e 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -20,6 +20,8 @@ vm_t::~vm_t() {
 }
 
 void vm_t::gc_collect() {
+  // live values are moved into an empty space
+  gc_->flip();
   // traverse globals
   gc_->trace(g_.data(), g_.size());
   // traverse thread stack
diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index f40f2e4..5a59839 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -109,89 +109,86 @@ value_t *value_gc_t::copy(const value_t &a) {
   }
 }
 
-void value_gc_t::collect() {
+void value_gc_t::flip() {
   swap();
   space_to().clear();
   forward_clear();
 }
 
+void value_gc_t::collect() {
+  space_from().clear();
+  forward_clear();
+}
+
 void value_gc_t::trace(value_t **list, size_t num) {
 
   // area data should be moved to
   arena_t &to = space_to();
 
-  for (size_t i = 0; i < num; ++i) {
-    value_t *&v = list[i];
+  // lists of values which still have to be moved.  we keep a list here rather
+  // then recurse since arrays may be nested to any depth and form cycles.
+  std::vector<std::pair<value_t **, size_t>> work;
+  work.emplace_back(list, num);
 
-    // a value may be new yet contain referenced to old data therefore we must
-    // visit these nodes regardless
-    switch (v->type()) {
-    case val_type_array:
-      // collect child elements
-      const int32_t size = v->array_size();
-      trace(v->array(), size);
-    }
+  while (!work.empty()) {
+    value_t **values = work.back().first;
+    const size_t count = work.back().second;
+    work.pop_back();
 
-    // already collected so skip to avoid cyclic trace loops
-    if (to.owns(v)) {
-      continue;
-    }
-    assert(v == nullptr || space_from().owns(v));
+    for (size_t i = 0; i < count; ++i) {
+      value_t *v = values[i];
 
-    switch (v->type()) {
-    case val_type_none: {
-      assert(list[i] == nullptr);
-      break;
-    }
-    case val_type_syscall:
-    case val_type_func:
-    case val_type_int: {
-      value_t *n = to.alloc<value_t>(0);
-      n->type_ = v->type();
-      n->v = v->v;
-      list[i] = n;
-      break;
-    }
-    case val_type_float: {
-      value_t *n = to.alloc<value_t>(0);
-      n->type_ = v->type();
-      n->f = v->f;
-      list[i] = n;
-      break;
-    }
-    case val_type_string: {
-      assert(int32_t(strlen(v->string())) == v->v);
-      const int32_t size = v->v;
-      value_t *n = to.alloc<value_t>(size + 1);
-      n->type_ = v->type();
-      n->v = size;
-      memcpy(n->string(), v->string(), size + 1);
-      list[i] = n;
-      break;
-    }
-    case val_type_array: {
-      // if we have global variables, they might have been relocated at which
-      // point our pointers will point to the wrong half space
-      if (value_t *x = forward_find(v)) {
-        list[i] = x;
-        break;
+      // nothing to move, or already moved
+      if (v == nullptr || to.owns(v)) {
+        continue;
       }
+      assert(space_from().owns(v));
 
-      // may want to swap in the new pointer prior to trace to break cycles
+      // values can be shared, so each of them must move only once
+      if (value_t *x = forward_find(v)) {
+        values[i] = x;
+        continue;
+      }
 
-      const int32_t size = v->array_size();
-      // move into to space
-      value_t *n = to.alloc<value_t>(size * sizeof(value_t *));
+      value_t *n = nullptr;
+      switch (v->type()) {
+      case val_type_syscall:
+      case val_type_func:
+      case val_type_int:
+        n = to.alloc<value_t>(0);
+        assert(n);
+        n->v = v->v;
+        break;
+      case val_type_float:
+        n = to.alloc<value_t>(0);
+        assert(n);
+        n->f = v->f;
+        break;
+      case val_type_string: {
+        const int32_t size = v->v;
+        n = to.alloc<value_t>(size + 1);
+        assert(n);
+        n->v = size;
+        memcpy((char *)(n + 1), v->string(), size + 1);
+        break;
+      }
+      case val_type_array: {
+        const int32_t size = v->array_size();
+        n = to.alloc<value_t>(size * sizeof(value_t *));
+        assert(n);
+        n->v = size;
+        memcpy((char *)(n + 1), v->array(), size * sizeof(value_t *));
+        // the elements have to move as well
+        work.emplace_back((value_t **)(n + 1), size_t(size));
+        break;
+      }
+      default:
+        assert(!"unknown type");
+        continue;
+      }
       n->type_ = v->type();
-      n->v = size;
-      memcpy(n->array(), v->array(), size * sizeof(value_t *));
-      // keep track of forwarded global arrays that may have to move
       forward_add(v, n);
-      list[i] = n;
-      break;
-    }
-    default:
-      assert(!"unknown type");
+      values[i] = n;
     }
   }
 }
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 0af2924..54653c7 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -85,10 +85,15 @@ struct value_gc_t {
 
   value_t *copy(const value_t &v);
 
-  void collect();
+  // start a collection, after this live values must be traced
+  void flip();
 
+  // move all live values from this list
   void trace(value_t **input, size_t count);
 
+  // finish a collection, anything that was not traced is gone
+  void collect();
+
   value_gc_t()
     : flipflop_(0)
   {}
@@ -138,10 +143,8 @@ protected:
     return itt == forward_.end() ? nullptr : itt->second;
   }
 
-  // since getv puts an array on the stack and then geta/seta to set its member
-  // we have to keep a list of already moved arrays.  this could be avoided if
-  // we used different instructions to avoid using getv, and instead looked it
-  // up when we need.
+  // values can be referenced many times so we have to keep a list of the ones
+  // that have already moved.
   std::unordered_map<const value_t *, value_t *> forward_;
 
   uint32_t flipflop_;
-- 
2.43.0


From 38dce6c69ddff0229abe9d76b0b2aae7516b156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:05 +0000
Subject: [PATCH 14/57] fix: misaligned accesses to operands and heap objects

---
 source/lib_compiler/disassembler.cpp  |  8 ++++++--
 source/lib_compiler/program_builder.h |  3 +--
 source/lib_vm/thread.cpp              |  3 ++-
 source/lib_vm/vm_gc.h                 | 10 +++++++---
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/lib_compiler/disassembler.cpp b/source/lib_compiler/disassembler.cpp
index 9434602..eb51d56 100644
--- a/source/lib_compiler/disassembler.cpp
+++ b/source/lib_compiler/disassembler.cpp
@@ -1,3 +1,5 @@
+#include <cstring>
+
 #include "disassembler.h"
 #include "codegen.h"
 #include "lexer.h"
@@ -78,7 +80,8 @@ int32_t disassembler_t::disasm(const uint8_t *ptr, std::string &out) const {
   }
 
   // instruction with integer operand
-  const int32_t val1 = *(int32_t *)(ptr + i);
+  int32_t val1 = 0;
+  memcpy(&val1, ptr + i, sizeof(val1));
   i += 4;
 
   switch (op) {
@@ -110,7 +113,8 @@ int32_t disassembler_t::disasm(const uint8_t *ptr, std::string &out) const {
   }
 
   // instruction with second integer operand
-  const int32_t val2 = *(int32_t *)(ptr + i);
+  int32_t val2 = 0;
+  memcpy(&val2, ptr + i, sizeof(val2));
   i += 4;
 
   switch (op) {
diff --git a/source/lib_compiler/program_builder.h b/source/lib_compiler/program_builder.h
index 657d1b4..585aee9 100644
--- a/source/lib_compiler/program_builder.h
+++ b/source/lib_compiler/program_builder.h
@@ -42,8 +42,7 @@ struct program_builder_t {
   }
 
   void apply_fixup(uint32_t index, int32_t value) {
-    int32_t* d = (int32_t*)(data_.data() + index);
-    *d = value;
+    memcpy(data_.data() + index, &value, sizeof(value));
   }
 
   int32_t add_syscall(const std::string &name) {
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 7596a7e..ab68082 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -79,7 +79,8 @@ thread_t::thread_t(vm_t &vm)
 int32_t thread_t::read_operand_() {
   const uint8_t *c = vm_.program_.data();
   assert(sizeof(pc_) < vm_.program_.size());
-  const int32_t val = *(int32_t *)(c + pc_);
+  int32_t val = 0;
+  memcpy(&val, c + pc_, sizeof(val));
   pc_ += sizeof(int32_t);
   return val;
 }
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 54653c7..2720797 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -26,9 +26,11 @@ struct arena_t {
   template <typename type_t>
   type_t *alloc(size_t extra) {
     const size_t size = sizeof(type_t);
-    if ((head_ + size + extra) < data_.size()) {
+    // keep all objects aligned
+    const size_t padded = (size + extra + (align_ - 1)) & ~(align_ - 1);
+    if ((head_ + padded) < data_.size()) {
       type_t *out = (type_t*)(data_.data() + head_);
-      head_ += size + extra;
+      head_ += padded;
       return out;
     }
     return nullptr;
@@ -54,8 +56,10 @@ struct arena_t {
   }
 
 protected:
+  static const size_t align_ = alignof(value_t *);
+
   size_t head_;
-  std::array<uint8_t, 1024 * 1024> data_;
+  alignas(align_) std::array<uint8_t, 1024 * 1024> data_;
 
   const void *const start_;
   const void *const end_;
-- 
2.43.0


From 9156500c3ac510fb65e1ac45f2f0cdaeb2a3caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:05 +0000
Subject: [PATCH 15/57] fix: array literals and member assignments were freed
 while still in the syntax tree

---
 source/lib_compiler/ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/ast.cpp b/source/lib_compiler/ast.cpp
index ce29b6f..70ea6e0 100644
--- a/source/lib_compiler/ast.cpp
+++ b/source/lib_compiler/ast.cpp
@@ -71,6 +71,16 @@ struct gc_visitor_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_exp_array_init_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_exp_lit_str_t* n) override {
     nodes_.insert(n);
     ast_visitor_t::visit(n);
-- 
2.43.0


From bff89af413385c3fd0537ef24574079e97dd1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:05 +0000
Subject: [PATCH 16/57] fix: calling a function with the wrong number of
 arguments crashed the host

---
 source/lib_vm/vm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 74e157e..5d692f5 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -64,6 +64,10 @@ bool vm_t::call_once(const function_t &func,
   return_code = nullptr;
 
   thread_t *thread = new_thread(func, argc, argv);
+  if (!thread) {
+    error = nano::thread_error_t::e_bad_num_args;
+    return false;
+  }
   gc_collect();
   while (!thread->finished() && !thread->has_error()) {
     if (!thread->resume(128 * 1024)) {
-- 
2.43.0


From 8382b0816acd736b66867b0c63ec48d0a05d2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:05 +0000
Subject: [PATCH 17/57] fix: passing an array to a new thread aborted

---
 source/lib_vm/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index ab68082..cc8a7ac 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -704,7 +704,8 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   // push any arguments
   for (int i = 0; i < argc; ++i) {
     const value_t *v = argv[i];
-    stack_.push(gc_.copy(*v));
+    // arrays are shared, everything else is a value
+    stack_.push(v->is_value_type() ? gc_.copy(*v) : (value_t *)v);
   }
 
   // push the initial frame
-- 
2.43.0


From 84d6b9a467323ef54004c9cf4fb0a798062f20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:05 +0000
Subject: [PATCH 18/57] fix: calling an unbound syscall aborted the host

---
 source/lib_vm/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index cc8a7ac..e000df0 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -406,7 +406,11 @@ void thread_t::do_syscall_(int32_t operand, int32_t num_args) {
   const auto &calls = vm_.program_.syscalls();
   assert(operand >= 0 && operand < int32_t(calls.size()));
   nano_syscall_t sys = calls[operand].call_;
-  assert(sys);
+  if (!sys) {
+    // the host has not bound this syscall
+    set_error_(thread_error_t::e_bad_syscall);
+    return;
+  }
   sys(*this, num_args);
 }
 
-- 
2.43.0


From ee2dbaaf78c3201e7f9e4ce1f0a8936312cf252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 19/57] fix: calling none aborted the host

---
 source/lib_vm/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index e000df0..861e520 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -423,7 +423,6 @@ void thread_t::do_INS_SCALL_() {
 void thread_t::do_INS_ICALL_() {
   const int32_t num_args = read_operand_();
   value_t *callee = stack_.pop();
-  assert(callee);
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
     do_syscall_(operand, num_args);
@@ -436,6 +435,7 @@ void thread_t::do_INS_ICALL_() {
     assert(func);
     if (int32_t(func->num_args()) != num_args) {
       set_error_(thread_error_t::e_bad_num_args);
+      return;
     }
     // new frame
     enter_(stack_.head(), pc_, addr);
-- 
2.43.0


From 9d8a7bb23f8f59aa69b12e63ac9a856b6f431aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 20/57] fix: builtins called through a variable with the wrong
 number of arguments corrupted the stack

---
 source/lib_builtins/builtin.cpp | 69 ++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index 373d7dd..c405031 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -13,8 +13,19 @@
 
 namespace nano {
 
+// the number of arguments is not known when called via a variable
+static bool check_args(struct nano::thread_t &t, int32_t nargs, int32_t want) {
+  if (nargs != want) {
+    t.raise_error(thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
 static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   switch (v->type()) {
   case val_type_int: {
@@ -31,7 +42,9 @@ static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -44,7 +57,9 @@ static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -57,7 +72,9 @@ static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_a<val_type_int>() &&
@@ -70,7 +87,9 @@ static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   switch (a->type()) {
   case val_type_array: {
@@ -88,7 +107,9 @@ static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && v->is_a<val_type_int>()) {
     char x[2] = {char(v->v), 0};
@@ -99,7 +120,9 @@ static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -110,7 +133,9 @@ static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -121,7 +146,9 @@ static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -132,7 +159,9 @@ static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -143,7 +172,9 @@ static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -154,7 +185,9 @@ static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -165,7 +198,9 @@ static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sqrt(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -214,7 +249,9 @@ static void builtin_new_thread(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
@@ -229,7 +266,9 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_new_array(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-- 
2.43.0


From 537b603c74598e4ff6253d4242edfc3d130e8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 21/57] fix: long global initialisation was reported as done
 before it was complete

---
 source/lib_vm/vm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 5d692f5..99cde07 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -51,7 +51,13 @@ bool vm_t::call_init() {
   if (!t) {
     return false;
   }
-  return resume(1024 * 8);
+  // globals must be fully initialised before anything else can run
+  while (!t->finished()) {
+    if (!t->resume(1024 * 8)) {
+      return false;
+    }
+  }
+  return true;
 }
 
 bool vm_t::call_once(const function_t &func,
-- 
2.43.0


From cf1bd8ef1ca62459b59a45d51f9a9923122b46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 22/57] fix: vm_t::has_error never reported an error

---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 99cde07..287ceff 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -129,6 +129,11 @@ bool vm_t::resume(uint32_t cycles) {
 }
 
 bool vm_t::has_error() const {
+  for (const auto &t : threads_) {
+    if (t->has_error()) {
+      return true;
+    }
+  }
   return false;
 }
 
-- 
2.43.0


From 986d04264bb5ef00eedda4759f2cc7b3a8e96d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 23/57] fix: stepping by line never collected garbage

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 861e520..2427fbd 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -837,6 +837,7 @@ bool thread_t::step_line() {
   const line_t line = get_source_line();
   // step until the source line changes
   do {
+    tick_gc_(1);
     step_imp_();
     if (finished_) {
       break;
-- 
2.43.0


From 303daae97ff1a38740b31191786f24ff9909801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 24/57] fix: naming some thread errors aborted

---
 source/lib_vm/thread_error.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 267c93c..9ccb84e 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -8,6 +8,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   switch (err) {
   case thread_error_t::e_success:             return "e_success";
   case thread_error_t::e_max_cycle_count:     return "e_max_cycle_count";
+  case thread_error_t::e_bad_prepare:         return "e_bad_prepare";
   case thread_error_t::e_bad_getv:            return "e_bad_getv";
   case thread_error_t::e_bad_setv:            return "e_bad_setv";
   case thread_error_t::e_bad_num_args:        return "e_bad_num_args";
@@ -24,6 +25,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_bad_type_operation:  return "e_bad_type_operation";
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
+  case thread_error_t::e_bad_array_object:    return "e_bad_array_object";
   case thread_error_t::e_bad_member_access:   return "e_bad_member_access";
   default:
     assert(false);
-- 
2.43.0


From c0f5dd1113c34b843d01482c6f92122f7c5005c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:31 +0000
Subject: [PATCH 25/57] fix: globals dangled after a virtual machine was reset

---
 source/lib_vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 287ceff..cae979c 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -40,6 +40,8 @@ void vm_t::reset() {
     delete t;
   }
   threads_.clear();
+  // globals were held in the heap
+  g_.clear();
 }
 
 bool vm_t::call_init() {
-- 
2.43.0


From 6300d759430d46d3195202a585d14548528554f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 26/57] fix: runtime errors were reported at the line of the
 next instruction

---
 source/lib_vm/thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 2427fbd..5e05be7 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -727,6 +727,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
 }
 
 void thread_t::step_imp_() {
+  const int32_t start_pc = pc_;
   // fetch opcode
   const uint8_t opcode = read_opcode_();
   // dispatch
@@ -774,6 +775,10 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+  // stay at the instruction that failed so its source line can be reported
+  if (has_error()) {
+    pc_ = start_pc;
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
-- 
2.43.0


From c03b154a642cee5802f26e6f814cb2d8ecd557bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 27/57] fix: a breakpoint added while paused could be missed

---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 5e05be7..f68f731 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -903,6 +903,10 @@ void thread_t::setv_(int32_t offs, value_t *val) {
 }
 
 void thread_t::breakpoint_add(line_t line) {
+  if (breakpoints_.empty() && cycles_) {
+    // the last line is not tracked while there are no breakpoints
+    last_line_ = get_source_line();
+  }
   breakpoints_.insert(line);
 }
 
-- 
2.43.0


From 8eedf49eba053b316c454c500f6ab4a0645fa2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 28/57] fix: saving a program ignored write errors

---
 source/lib_common/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 73afec5..8ee3989 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -155,8 +155,8 @@ bool program_t::serial_save(const char *path) {
     emit(fd, s);
   }
   // done
-  fclose(fd);
-  return true;
+  const bool failed = ferror(fd) != 0;
+  return (fclose(fd) == 0) && !failed;
 }
 
 bool program_t::serial_load(const char *path) {
-- 
2.43.0


From ea09551e78563b6ed55f3c232125831a7fc43002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:17 +0000
Subject: [PATCH 29/57] fix: loading a damaged program file aborted, leaked the
 file or kept half a program

---
 source/lib_common/program.cpp | 40 +++++++++++++++++++++++------------
 source/lib_common/program.h   |  3 +++
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 8ee3989..edec4d7 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -53,6 +53,16 @@ void emit(FILE *fd, const nano::program_t::linetable_t &s) {
   }
 }
 
+// check that a number of bytes are really left in the file
+bool can_read(FILE *fd, int32_t size) {
+  const long pos = ftell(fd);
+  if (size < 0 || pos < 0 || fseek(fd, 0, SEEK_END) != 0) {
+    return false;
+  }
+  const long end = ftell(fd);
+  return fseek(fd, pos, SEEK_SET) == 0 && end - pos >= size;
+}
+
 bool consume(FILE *fd, int32_t &val) {
   return 1 == fread(&val, 4, 1, fd);
 }
@@ -77,15 +87,11 @@ bool consume(FILE *fd, std::string &string) {
   if (1 != fread(&size, 4, 1, fd)) {
     return false;
   }
-  assert(size < 256);
-  string.resize(size);
-  auto data = std::make_unique<char[]>(size + 1);
-  if (fread(data.get(), 1, size, fd) != size) {
+  if (!can_read(fd, size)) {
     return false;
   }
-  data[size] = '\0';
-  string.assign(data.get());
-  return true;
+  string.resize(size);
+  return fread(&string[0], 1, size, fd) == size_t(size);
 }
 
 bool consume(FILE *fd, nano::function_t &f) {
@@ -160,13 +166,23 @@ bool program_t::serial_save(const char *path) {
 }
 
 bool program_t::serial_load(const char *path) {
-  // open the output file
+  // open the input file
   FILE *fd = fopen(path, "rb");
   if (!fd) {
     return false;
   }
   // reset this program prior
   reset();
+  const bool loaded = serial_read_(fd);
+  fclose(fd);
+  if (!loaded) {
+    // dont keep part of a program
+    reset();
+  }
+  return loaded;
+}
+
+bool program_t::serial_read_(FILE *fd) {
   // read header
   int32_t magic_no = 0;
   TRY(consume(fd, magic_no));
@@ -184,7 +200,7 @@ bool program_t::serial_load(const char *path) {
   for (int32_t i = 0; i < num_syscalls; ++i) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
-    consume(fd, syscalls_.back().name_);
+    TRY(consume(fd, syscalls_.back().name_));
   }
   // read functions
   int32_t num_functions = 0;
@@ -196,10 +212,9 @@ bool program_t::serial_load(const char *path) {
   // read bytecode
   int32_t code_size = 0;
   TRY(consume(fd, code_size));
+  TRY(can_read(fd, code_size));
   code_.resize(code_size);
-  if (fread(code_.data(), 1, code_size, fd) != code_size) {
-    return false;
-  }
+  TRY(fread(code_.data(), 1, code_size, fd) == size_t(code_size));
   // emit the line table
   TRY(consume(fd, line_table_));
   // emit the string table
@@ -210,7 +225,6 @@ bool program_t::serial_load(const char *path) {
     TRY(consume(fd, strings_.back()));
   }
   // done
-  fclose(fd);
   return true;
 }
 
diff --git a/source/lib_common/program.h b/source/lib_common/program.h
index 1a2b2e7..682186c 100644
--- a/source/lib_common/program.h
+++ b/source/lib_common/program.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdio>
 #include <vector>
 #include <map>
 #include <string>
@@ -90,6 +91,8 @@ struct program_t {
   bool serial_load(const char *path);
 
 protected:
+  bool serial_read_(FILE *fd);
+
   friend struct program_builder_t;
 
   // XXX: add filetable
-- 
2.43.0


From f6ffc933724ed304a2fe237b0bf86cf86292db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:38 +0000
Subject: [PATCH 30/57] fix: a file whose name extends the name of a loaded
 file was never loaded

---
 source/lib_common/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 9fe9b63..84de777 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -28,7 +28,7 @@ bool path_cmp(const char *x, const char *y) {
     }
     return false;
   }
-  return true;
+  return *y == '\0';
 }
 
 } // namespace {}
-- 
2.43.0


From c5f2564c63bcfc410d1ccafd429c9e57f696d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:38 +0000
Subject: [PATCH 31/57] fix: imports of a file given without directory were
 looked up in the root directory

---
 source/lib_common/source.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 84de777..747d6ec 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -36,8 +36,12 @@ bool path_cmp(const char *x, const char *y) {
 namespace nano {
 
 void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
-  std::string base = base_path(s.file_path());
-  in_out = base + "/" + in_out;
+  const std::string &path = s.file_path();
+  if (path.find_first_of("/\\") == std::string::npos) {
+    // already relative to the current directory
+    return;
+  }
+  in_out = base_path(path) + "/" + in_out;
 }
 
 bool source_manager_t::load(const char *path) {
-- 
2.43.0


From 6a4c4981f8d60de87eb94ef4027e46b84883732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 32/57] fix: a source that failed to load stayed in the source
 list without text

---
 source/lib_common/source.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 747d6ec..e7e0c27 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -52,12 +52,20 @@ bool source_manager_t::load(const char *path) {
     }
   }
   sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_file(path);
+  if (!sources_.back()->load_from_file(path)) {
+    sources_.pop_back();
+    return false;
+  }
+  return true;
 }
 
 bool source_manager_t::load_from_string(const char *str) {
   sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_string(str);
+  if (!sources_.back()->load_from_string(str)) {
+    sources_.pop_back();
+    return false;
+  }
+  return true;
 }
 
 } // namespace nano
-- 
2.43.0


From 05758503547818d1a4413a6ba089ef34b0fe8a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 33/57] fix: loading a directory as a source crashed

---
 source/lib_common/file.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/lib_common/file.h b/source/lib_common/file.h
index e51203a..0cdc279 100644
--- a/source/lib_common/file.h
+++ b/source/lib_common/file.h
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <memory>
 #include <stdio.h>
 #include <stdlib.h>
@@ -16,13 +17,15 @@ struct file_t {
     }
 
     fseek(fd, 0, SEEK_END);
-    _size = ftell(fd);
+    const long size = ftell(fd);
     fseek(fd, 0, SEEK_SET);
 
-    if (_size == 0) {
+    // note: a directory can be opened but has no sensible size
+    if (size <= 0 || size == LONG_MAX) {
       fclose(fd);
       return false;
     }
+    _size = size_t(size);
     _data.reset(new uint8_t[_size]);
 
     const size_t read = fread(_data.get(), 1, _size, fd);
@@ -49,5 +52,5 @@ struct file_t {
 
 protected:
   std::unique_ptr<uint8_t[]> _data;
-  size_t _size;
+  size_t _size = 0;
 };
-- 
2.43.0


From 8641253dfb1414929a84c696a99ff515c60d2477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 34/57] fix: unexpected token at file scope was reported as the
 token after it

---
 source/lib_compiler/parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index d497dc9..443277c 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -53,9 +53,7 @@ bool parser_t::parse(error_t &error) {
       default:
         break;
       }
-      const token_t *tok = stream_.pop();
-      assert(tok);
-      nano_.errors().unexpected_token(*tok);
+      nano_.errors().unexpected_token(*t);
     }
   } catch (const error_t &e) {
     error = e;
-- 
2.43.0


From 70bbabdc0f54ca21c037c3f2b222b8db7c297e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 35/57] fix: gets returned uninitialised memory at end of input

---
 source/driver/driver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 2297161..9c0ba1e 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -51,8 +51,10 @@ void vm_putc(nano::thread_t &t, int32_t) {
 
 void vm_gets(nano::thread_t &t, int32_t) {
   using namespace nano;
-  char buffer[80];
-  fgets(buffer, sizeof(buffer), stdin);
+  char buffer[80] = {'\0'};
+  if (!fgets(buffer, sizeof(buffer), stdin)) {
+    buffer[0] = '\0';
+  }
   for (size_t i = 0; i < sizeof(buffer); ++i) {
     buffer[i] = (buffer[i] == '\n') ? '\0' : buffer[i];
   }
-- 
2.43.0


From eadc125abedc3a3f485cc68308ff097e3bd18d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:22 +0000
Subject: [PATCH 36/57] fix: errors at the end of a line were reported for the
 line after it

---
 source/lib_compiler/lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index bde8538..b4ad6b5 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -89,12 +89,12 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
         push_(TOK_EOL);
         continue;
       }
+      push_(TOK_EOL);
       {
         assert(s >= new_line_);
         new_line_ = s + 1;
         ++line_.line;
       }
-      push_(TOK_EOL);
       continue;
     }
 
@@ -213,10 +213,10 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       push_(TOK_MOD);
       continue;
     case '\n':
+      push_(TOK_EOL);
       assert(s >= new_line_);
       new_line_ = s + 1;
       ++line_.line;
-      push_(TOK_EOL);
       continue;
     case '=':
       if (s[1] == '=') {
-- 
2.43.0


From 0c3de3b4511b9e07804617d73ddedc18ab0b3175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:22 +0000
Subject: [PATCH 37/57] fix: files whose names differ only in case were taken
 for the same file

---
 source/lib_common/source.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index e7e0c27..3d7fa96 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -13,13 +13,18 @@ std::string base_path(std::string in) {
   return in;
 }
 
-// a path compare that is insensitive to slashes and case
+// a path compare that is insensitive to slashes (and case on windows)
 bool path_cmp(const char *x, const char *y) {
   for (; *x != '\0'; ++x, ++y) {
-    // XXX: on linux we might want to not be case insensitive
+#if defined(_WIN32)
     if (tolower(*x) == tolower(*y)) {
       continue;
     }
+#else
+    if (*x == *y) {
+      continue;
+    }
+#endif
     if (*x == '\\' && *y == '/') {
       continue;
     }
-- 
2.43.0


From 79ab63b075b2f65c95c22955de7b221e8ec60b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:24 +0000
Subject: [PATCH 38/57] fix: a file imported again along a different route was
 compiled twice

---
 source/lib_common/source.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 3d7fa96..8fdc7e3 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -1,4 +1,6 @@
 #include <algorithm>
+#include <string>
+#include <vector>
 
 #include "source.h"
 
@@ -13,6 +15,30 @@ std::string base_path(std::string in) {
   return in;
 }
 
+// remove '.' and 'dir/..' parts so that a file always has the same path
+std::string normal_path(const std::string &in) {
+  std::vector<std::string> parts;
+  for (size_t i = 0; i <= in.size();) {
+    const size_t end = std::min(in.find_first_of("/\\", i), in.size());
+    const std::string part = in.substr(i, end - i);
+    i = end + 1;
+    if (part == "." || (part.empty() && !parts.empty())) {
+      continue;
+    }
+    if (part == ".." && !parts.empty() &&
+        !parts.back().empty() && parts.back() != "..") {
+      parts.pop_back();
+      continue;
+    }
+    parts.push_back(part);
+  }
+  std::string out;
+  for (size_t i = 0; i < parts.size(); ++i) {
+    out += (i ? "/" : "") + parts[i];
+  }
+  return out;
+}
+
 // a path compare that is insensitive to slashes (and case on windows)
 bool path_cmp(const char *x, const char *y) {
   for (; *x != '\0'; ++x, ++y) {
@@ -52,7 +78,8 @@ void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
 bool source_manager_t::load(const char *path) {
   for (const auto &s : sources_) {
     // file already loaded so return
-    if (path_cmp(s->file_path().c_str(), path)) {
+    if (path_cmp(normal_path(s->file_path()).c_str(),
+                 normal_path(path).c_str())) {
       return true;
     }
   }
-- 
2.43.0


From d417cf35bfc3aa7e204782b84cfe61df8fa4cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:43 +0000
Subject: [PATCH 39/57] fix: converting a large float to an integer was
 undefined

---
 source/lib_vm/value.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/value.h b/source/lib_vm/value.h
index cb98d08..bb36118 100644
--- a/source/lib_vm/value.h
+++ b/source/lib_vm/value.h
@@ -105,7 +105,11 @@ struct value_t {
     assert(this);
     switch (type()) {
     case val_type_int:   return int32_t(v);
-    case val_type_float: return int32_t(f);
+    case val_type_float:
+      // values that dont fit saturate
+      if (f >= 2147483648.f)  return INT32_MAX;
+      if (f < -2147483648.f)  return INT32_MIN;
+      return (f == f) ? int32_t(f) : 0;
     default:             assert(false);
     }
     return 0;
-- 
2.43.0


From bd26a822e7f0d341dff3a87ec8b8cede7eb0816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:46 +0000
Subject: [PATCH 40/57] verif: guarded hooks to poison unused heap memory and
 to read heap usage

---
 source/lib_vm/vm_gc.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 2720797..6073b22 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -9,6 +9,17 @@
 
 #include "value.h"
 
+// with NANO_VERIF defined and the address sanitizer active, arena memory that
+// holds no value can not be accessed
+#if defined(NANO_VERIF)
+#include <sanitizer/asan_interface.h>
+#define NANO_VERIF_POISON(PTR, SIZE)   ASAN_POISON_MEMORY_REGION(PTR, SIZE)
+#define NANO_VERIF_UNPOISON(PTR, SIZE) ASAN_UNPOISON_MEMORY_REGION(PTR, SIZE)
+#else
+#define NANO_VERIF_POISON(PTR, SIZE)
+#define NANO_VERIF_UNPOISON(PTR, SIZE)
+#endif
+
 namespace nano {
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
@@ -21,7 +32,9 @@ struct arena_t {
     : head_(0)
     , start_(data_.data())
     , end_(data_.data() + data_.size())
-  {}
+  {
+    NANO_VERIF_POISON(data_.data(), data_.size());
+  }
 
   template <typename type_t>
   type_t *alloc(size_t extra) {
@@ -31,6 +44,7 @@ struct arena_t {
     if ((head_ + padded) < data_.size()) {
       type_t *out = (type_t*)(data_.data() + head_);
       head_ += padded;
+      NANO_VERIF_UNPOISON(out, size + extra);
       return out;
     }
     return nullptr;
@@ -38,6 +52,7 @@ struct arena_t {
 
   void clear() {
     head_ = 0;
+    NANO_VERIF_POISON(data_.data(), data_.size());
 #if 0
     memset(data_.data(), 0xDE, data_.size());
 #endif
@@ -104,6 +119,13 @@ struct value_gc_t {
 
   bool should_collect() const;
 
+#if defined(NANO_VERIF)
+  // bytes currently allocated from the heap
+  size_t verif_used() const {
+    return space_to().size();
+  }
+#endif
+
   void reset() {
     space_from().clear();
     space_to().clear();
-- 
2.43.0


From b1511470bd42b5cf5275ea591e3f2bf92cb2d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 41/57] fix: runaway recursion used up the memory of the host

---
 source/lib_vm/thread.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index f68f731..61cf2f0 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -33,6 +33,9 @@ namespace nano {
 
 namespace {
 
+// the deepest nesting of calls a thread can have
+const size_t max_frames_ = 1024 * 64;
+
 // append the text of a value, return false if it has no text form
 bool to_string(std::string &out, const value_t *val) {
   char buf[64] = {0};
@@ -796,6 +799,11 @@ void thread_t::step_imp_() {
 }
 
 void thread_t::enter_(uint32_t sp, uint32_t pc, uint32_t callee) {
+  // dont let runaway recursion use up all memory
+  if (f_.size() >= max_frames_) {
+    set_error_(thread_error_t::e_stack_overflow);
+    return;
+  }
   // create a new stack frame
   f_.emplace_back();
   frame_().sp_ = sp;
-- 
2.43.0


From dd829428ecf92be5c3d367861972c1d11d8f8a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 42/57] fix: running out of heap space aborted the host

---
 source/lib_vm/thread.cpp       | 26 ++++++++++++++++++++------
 source/lib_vm/thread.h         |  3 +++
 source/lib_vm/thread_error.cpp |  1 +
 source/lib_vm/thread_error.h   |  1 +
 source/lib_vm/vm_gc.h          |  6 +++++-
 5 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 61cf2f0..55389c8 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -709,10 +709,15 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   }
 
   // push any arguments
-  for (int i = 0; i < argc; ++i) {
-    const value_t *v = argv[i];
-    // arrays are shared, everything else is a value
-    stack_.push(v->is_value_type() ? gc_.copy(*v) : (value_t *)v);
+  try {
+    for (int i = 0; i < argc; ++i) {
+      const value_t *v = argv[i];
+      // arrays are shared, everything else is a value
+      stack_.push(v->is_value_type() ? gc_.copy(*v) : (value_t *)v);
+    }
+  } catch (const out_of_memory_t &) {
+    error_ = thread_error_t::e_out_of_memory;
+    return false;
   }
 
   // push the initial frame
@@ -729,8 +734,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   return true;
 }
 
-void thread_t::step_imp_() {
-  const int32_t start_pc = pc_;
+void thread_t::dispatch_() {
   // fetch opcode
   const uint8_t opcode = read_opcode_();
   // dispatch
@@ -778,6 +782,16 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+}
+
+void thread_t::step_imp_() {
+  const int32_t start_pc = pc_;
+  try {
+    dispatch_();
+  } catch (const out_of_memory_t &) {
+    // the heap is full of live values
+    set_error_(thread_error_t::e_out_of_memory);
+  }
   // stay at the instruction that failed so its source line can be reported
   if (has_error()) {
     pc_ = start_pc;
diff --git a/source/lib_vm/thread.h b/source/lib_vm/thread.h
index 0666309..4d8d432 100644
--- a/source/lib_vm/thread.h
+++ b/source/lib_vm/thread.h
@@ -162,6 +162,9 @@ protected:
   // tick the garbage collector
   void tick_gc_(int32_t cycles);
 
+  // fetch and execute an instruction
+  void dispatch_();
+
   // step a single instruction (internal)
   void step_imp_();
 
diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 9ccb84e..61cef36 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -27,6 +27,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
   case thread_error_t::e_bad_array_object:    return "e_bad_array_object";
   case thread_error_t::e_bad_member_access:   return "e_bad_member_access";
+  case thread_error_t::e_out_of_memory:       return "e_out_of_memory";
   default:
     assert(false);
     return "";
diff --git a/source/lib_vm/thread_error.h b/source/lib_vm/thread_error.h
index e2ace28..391fdff 100644
--- a/source/lib_vm/thread_error.h
+++ b/source/lib_vm/thread_error.h
@@ -26,6 +26,7 @@ enum class thread_error_t {
   e_bad_type_operation,
   e_bad_argument,
   e_bad_member_access,
+  e_out_of_memory,
 };
 
 const char *get_thread_error(const nano::thread_error_t &err);
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 6073b22..6e759bc 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -26,6 +26,10 @@ namespace nano {
 //
 // simple arena memory allocator
 //
+
+// thrown when there is no space left for a value
+struct out_of_memory_t {};
+
 struct arena_t {
 
   arena_t()
@@ -47,7 +51,7 @@ struct arena_t {
       NANO_VERIF_UNPOISON(out, size + extra);
       return out;
     }
-    return nullptr;
+    throw out_of_memory_t();
   }
 
   void clear() {
-- 
2.43.0


From 7d3253743e71099b264c766444bfec87164c3aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 43/57] fix: a block with only blank lines or comments was
 rejected

---
 source/lib_compiler/parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 443277c..01fb3da 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -384,6 +384,8 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  // an empty body may still contain blank lines and comments
+  while (stream_.found(TOK_EOL));
 
   // IF body
   stmt->then_block = ast.alloc<ast_block_t>();
@@ -391,6 +393,8 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   while (!stream_.found(TOK_END)) {
     if (stream_.found(TOK_ELSE)) {
       stream_.pop(TOK_EOL);
+      // an empty body may still contain blank lines and comments
+      while (stream_.found(TOK_EOL));
       has_else = true;
       break;
     }
@@ -427,6 +431,8 @@ ast_node_t* parser_t::parse_while_(const token_t &t) {
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  // an empty body may still contain blank lines and comments
+  while (stream_.found(TOK_EOL));
 
   // WHILE body
   stmt->body = ast.alloc<ast_block_t>();
@@ -461,6 +467,8 @@ ast_node_t* parser_t::parse_for_(const token_t &t) {
   stmt->end = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  // an empty body may still contain blank lines and comments
+  while (stream_.found(TOK_EOL));
 
   // FOR body
   stmt->body = ast.alloc<ast_block_t>();
@@ -659,6 +667,8 @@ ast_node_t* parser_t::parse_function_(const token_t &t) {
     stream_.pop(TOK_RPAREN);
   }
   stream_.pop(TOK_EOL);
+  // an empty body may still contain blank lines and comments
+  while (stream_.found(TOK_EOL));
 
   // function body
   func->body = ast.alloc<ast_block_t>();
-- 
2.43.0


From ebd72392345cca960ae3bfc0f8cb0365703b6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:24 +0000
Subject: [PATCH 44/57] fix: waiting for a negative number of passes suspended
 a thread forever

---
 source/lib_builtins/builtin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index c405031..63f440b 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -255,7 +255,8 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-    t.waits = w;
+    // waiting for a negative number of passes is not waiting at all
+    t.waits = (w > 0) ? w : 0;
     t.get_stack().push_int(0);
     if (t.waits > 0) {
       t.halt();
-- 
2.43.0


From 7cf6c92f3f8ddad76ac880643390ecc6c35e78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:09 +0000
Subject: [PATCH 45/57] fix: punctuation such as '{' and '~' was taken for part
 of a name

---
 source/lib_compiler/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index b4ad6b5..6fdb38b 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -11,7 +11,7 @@ namespace {
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
 bool is_alpha(const char t) {
-  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t >= '_');
+  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t == '_');
 }
 
 bool is_numeric(const char t) {
-- 
2.43.0


From cf7a2d163402e91cc4a705bb9678134f8ac1f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:21 +0000
Subject: [PATCH 46/57] fix: constants were reported at the line of their
 declaration where they are used

---
 source/lib_compiler/sema.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index ffa7e32..c1f1786 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -164,6 +164,7 @@ struct sema_const_t: public ast_visitor_t {
 
   sema_const_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {
   }
 
@@ -177,13 +178,20 @@ struct sema_const_t: public ast_visitor_t {
     }
     ast_node_t *parent = stack.rbegin()[1];
     if (decl->expr) {
+      // the copy takes the place, and so the source line, of the identifier
       ast_node_t *e = decl->expr;
       switch (e->type) {
       case ast_exp_lit_var_e:
+        parent->replace_child(n, copy_(e->cast<ast_exp_lit_var_t>(), n));
+        break;
       case ast_exp_lit_str_e:
+        parent->replace_child(n, copy_(e->cast<ast_exp_lit_str_t>(), n));
+        break;
       case ast_exp_lit_float_e:
+        parent->replace_child(n, copy_(e->cast<ast_exp_lit_float_t>(), n));
+        break;
       case ast_exp_none_e:
-        parent->replace_child(n, e);
+        parent->replace_child(n, copy_(e->cast<ast_exp_none_t>(), n));
         break;
       default:
         errs_.cant_evaluate_constant(*n->name);
@@ -245,7 +253,15 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(p);
   }
 
+  template <typename T>
+  T *copy_(const T *literal, const ast_exp_ident_t *where) {
+    T *out = ast_.alloc<T>(*literal);
+    out->token = where->name;
+    return out;
+  }
+
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From d352f8e28173254fb1b4443116a646323f93a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:52 +0000
Subject: [PATCH 47/57] fix: saving or loading a program without code passed
 null to the C library

---
 source/lib_common/program.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index edec4d7..1da48cf 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -14,7 +14,9 @@ void emit(FILE *fd, int32_t val) {
 }
 
 void emit(FILE *fd, const void *data, size_t size) {
-  fwrite(data, 1, size, fd);
+  if (size) {
+    fwrite(data, 1, size, fd);
+  }
 }
 
 void emit(FILE *fd, const std::string &s) {
@@ -214,7 +216,9 @@ bool program_t::serial_read_(FILE *fd) {
   TRY(consume(fd, code_size));
   TRY(can_read(fd, code_size));
   code_.resize(code_size);
-  TRY(fread(code_.data(), 1, code_size, fd) == size_t(code_size));
+  if (code_size) {
+    TRY(fread(code_.data(), 1, code_size, fd) == size_t(code_size));
+  }
   // emit the line table
   TRY(consume(fd, line_table_));
   // emit the string table
-- 
2.43.0


From 942a812709b2bfeaf1b81680bc99efbecfcb6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:03 +0000
Subject: [PATCH 48/57] fix: folded constants had no source line

---
 source/lib_compiler/ast.h        |  4 ++--
 source/lib_compiler/optimize.cpp | 10 +++++-----
 source/lib_compiler/sema.cpp     |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 124ea9f..d56043a 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -155,9 +155,9 @@ struct ast_exp_lit_var_t: public ast_node_t {
   {
   }
 
-  ast_exp_lit_var_t(const int32_t &value)
+  ast_exp_lit_var_t(const int32_t &value, const token_t *t)
     : ast_node_t(TYPE)
-    , token(nullptr)
+    , token(t)
     , val(value)
   {
   }
diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 009c68c..6e6fe2d 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -179,7 +179,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(v, e->token);
       }
     }
   }
@@ -189,7 +189,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(v, e->token);
       }
     }
   }
@@ -199,7 +199,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(v, e->token);
       }
     }
   }
@@ -209,7 +209,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(v, e->token);
       }
     }
   }
@@ -361,7 +361,7 @@ struct opt_if_remove_t: public ast_visitor_t {
         s->then_block = s->else_block;
         s->else_block = nullptr;
         // note: the literal may be shared, so it must not be changed
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(1, s->token);
       }
     }
   }
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index c1f1786..04304e8 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -291,7 +291,7 @@ struct sema_global_var_t : public ast_visitor_t {
       int32_t val = 0;
       if (eval.eval(n->expr, val)) {
         change_ = true;
-        n->expr = ast_.alloc<ast_exp_lit_var_t>(val);
+        n->expr = ast_.alloc<ast_exp_lit_var_t>(val, n->name);
       }
       else {
         if (strict_) {
-- 
2.43.0


From f27932058553bf4b885fe03979f201c162ad75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:26 +0000
Subject: [PATCH 49/57] fix: stepping and breakpoints stopped at code without a
 source line

---
 source/lib_vm/thread.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 55389c8..1a198f2 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -806,7 +806,9 @@ void thread_t::step_imp_() {
       }
     }
     // keep track of the last source line we were on
-    last_line_ = l;
+    if (l != line_t{}) {
+      last_line_ = l;
+    }
   }
   // increment cycle count
   ++cycles_;
@@ -871,7 +873,8 @@ bool thread_t::step_line() {
     }
     assert(!f_.empty());
     assert(!has_error());
-  } while (line == get_source_line());
+    // not all code belongs to a source line
+  } while (line == get_source_line() || get_source_line() == line_t{});
   return !has_error();
 }
 
-- 
2.43.0


From 8652027485275bbb60d1e794b7384323382ac777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:27 +0000
Subject: [PATCH 50/57] fix: finish and error callbacks did not fire for
 threads that were stepped

step_inst() and step_line() ran a thread to its end without telling the
host, which only resume() did.
---
 source/lib_vm/thread.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 1a198f2..8b92718 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -812,6 +812,17 @@ void thread_t::step_imp_() {
   }
   // increment cycle count
   ++cycles_;
+  // tell the host when a thread has come to its end
+  if (finished_) {
+    if (has_error()) {
+      if (vm_.handlers.on_thread_error) {
+        vm_.handlers.on_thread_error(*this);
+      }
+    }
+    if (vm_.handlers.on_thread_finish) {
+      vm_.handlers.on_thread_finish(*this);
+    }
+  }
 }
 
 void thread_t::enter_(uint32_t sp, uint32_t pc, uint32_t callee) {
@@ -899,14 +910,6 @@ bool thread_t::resume(int32_t cycles) {
     tick_gc_(cycles);
     step_imp_();
     if (finished_) {
-      if (has_error()) {
-        if (vm_.handlers.on_thread_error) {
-          vm_.handlers.on_thread_error(*this);
-        }
-      }
-      if (vm_.handlers.on_thread_finish) {
-        vm_.handlers.on_thread_finish(*this);
-      }
       break;
     }
     if (halted_) {
-- 
2.43.0


From 8eeabb6eab6e5f0a90c18e6fc37616ad117330d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:38 +0000
Subject: [PATCH 51/57] fix: a file named "unknown" was taken for a source
 given as text

Sources given as text carry that name, so loading or importing such a file
after one of them silently did nothing.
---
 source/lib_common/source.cpp | 3 ++-
 source/lib_common/source.h   | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 8fdc7e3..ae2dfae 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -78,7 +78,8 @@ void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
 bool source_manager_t::load(const char *path) {
   for (const auto &s : sources_) {
     // file already loaded so return
-    if (path_cmp(normal_path(s->file_path()).c_str(),
+    if (s->is_file() &&
+        path_cmp(normal_path(s->file_path()).c_str(),
                  normal_path(path).c_str())) {
       return true;
     }
diff --git a/source/lib_common/source.h b/source/lib_common/source.h
index bd3bdb3..888c0c3 100644
--- a/source/lib_common/source.h
+++ b/source/lib_common/source.h
@@ -23,6 +23,7 @@ struct source_t {
     memcpy(_data.get(), file.data(), file.size());
     _data[file.size()] = '\0';
     _filename = filename;
+    _is_file = true;
     _gen_lines();
     return true;
   }
@@ -43,6 +44,7 @@ struct source_t {
 
   void clear() {
     _filename.clear();
+    _is_file = false;
     _data.reset();
     _lines.clear();
   }
@@ -70,6 +72,11 @@ struct source_t {
     return _filename;
   }
 
+  // false for a source that was given as text
+  bool is_file() const {
+    return _is_file;
+  }
+
 protected:
   void _gen_lines() {
     _lines.clear();
@@ -88,6 +95,7 @@ protected:
   }
 
   std::string _filename;
+  bool _is_file = false;
   std::unique_ptr<char[]> _data;
   std::vector<const char *> _lines;
 };
-- 
2.43.0


From 59cb1d4e628f1b74afc3cc5b026dd0acebad9548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:58 +0000
Subject: [PATCH 52/57] fix: a doubled separator after 'dir/..' made a path
 differ from its normal form

"a/..//b" was taken for "/b", so a file imported that way and as "b" was
compiled twice.
---
 source/lib_common/source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index ae2dfae..c85a6fb 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -21,8 +21,9 @@ std::string normal_path(const std::string &in) {
   for (size_t i = 0; i <= in.size();) {
     const size_t end = std::min(in.find_first_of("/\\", i), in.size());
     const std::string part = in.substr(i, end - i);
+    const bool first = i == 0;
     i = end + 1;
-    if (part == "." || (part.empty() && !parts.empty())) {
+    if (part == "." || (part.empty() && !first)) {
       continue;
     }
     if (part == ".." && !parts.empty() &&
-- 
2.43.0


From f461edf59898636c4db5ea955ea8604ebea7b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:50 +0000
Subject: [PATCH 53/57] fix: printing none aborted the run tool instead of
 raising an error

---
 source/driver/driver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 9c0ba1e..e431621 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -39,7 +39,6 @@ void vm_getc(nano::thread_t &t, int32_t) {
 void vm_putc(nano::thread_t &t, int32_t) {
   using namespace nano;
   const value_t *v = t.get_stack().pop();
-  assert(v);
   if (!v->is_a<val_type_int>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
@@ -65,7 +64,6 @@ void vm_gets(nano::thread_t &t, int32_t) {
 void vm_puts(nano::thread_t &t, int32_t) {
   using namespace nano;
   value_t *s = t.get_stack().pop();
-  assert(s);
   if (!s->is_a<val_type_string>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
-- 
2.43.0


From 79aee60b3d21ed5f491c5ea66d6a9ad0470bc857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:50 +0000
Subject: [PATCH 54/57] fix: compile tool overflowed a buffer with a long input
 path

---
 source/comp/driver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index a4db833..d504912 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -1,4 +1,5 @@
 #include <cstdio>
+#include <string>
 
 #include "../lib_compiler/nano.h"
 #include "../lib_compiler/codegen.h"
@@ -21,9 +22,8 @@ void on_error(const nano::error_t &error) {
 } // namespace
 
 FILE *fd_open(const char *base, const char *ext) {
-  char buf[1024];
-  sprintf(buf, "%s%s", base, ext);
-  return fopen(buf, "wb");
+  const std::string path = std::string(base) + ext;
+  return fopen(path.c_str(), "wb");
 }
 
 void usage(const char *path) {
-- 
2.43.0


From 45c9d22b6afbf528eee8038d1d14ecd6e6999d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:59 +0000
Subject: [PATCH 55/57] fix: functions of the run tool accepted any number of
 arguments when called via a variable

---
 source/driver/driver.cpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index e431621..e9aefcc 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -23,20 +23,38 @@ static inline uint32_t xorshift32() {
   return x;
 }
 
-void vm_rand(nano::thread_t &t, int32_t) {
+// the number of arguments is not known when called via a variable
+bool check_args(nano::thread_t &t, int32_t nargs, int32_t want) {
+  if (nargs != want) {
+    t.raise_error(nano::thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
+void vm_rand(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   // new unsigned int
   const int32_t x = (xorshift32() & 0x7fffff);
   // return value
   t.get_stack().push(t.gc().new_int(x));
 }
 
-void vm_getc(nano::thread_t &t, int32_t) {
+void vm_getc(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
   const int32_t ch = getchar();
   t.get_stack().push_int(ch);
 }
 
-void vm_putc(nano::thread_t &t, int32_t) {
+void vm_putc(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   const value_t *v = t.get_stack().pop();
   if (!v->is_a<val_type_int>()) {
@@ -48,7 +66,10 @@ void vm_putc(nano::thread_t &t, int32_t) {
   t.get_stack().push_int(0);
 }
 
-void vm_gets(nano::thread_t &t, int32_t) {
+void vm_gets(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
   char buffer[80] = {'\0'};
   if (!fgets(buffer, sizeof(buffer), stdin)) {
@@ -61,7 +82,10 @@ void vm_gets(nano::thread_t &t, int32_t) {
   t.get_stack().push_string(std::string{buffer});
 }
 
-void vm_puts(nano::thread_t &t, int32_t) {
+void vm_puts(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   value_t *s = t.get_stack().pop();
   if (!s->is_a<val_type_string>()) {
-- 
2.43.0


From 96d4d8c16db6ff62b9b6f463b3d4e210935c320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:30 +0000
Subject: [PATCH 56/57] fix: strings that differ only after a zero character
 compared equal

---
 source/lib_vm/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 8b92718..d4d8590 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -326,7 +326,8 @@ void thread_t::do_INS_EQ_() {
       r->is_a<val_type_string>()) {
     int32_t res = 0;
     if (l->strlen() == r->strlen()) {
-      if (strcmp(l->string(), r->string()) == 0) {
+      // note: a string given by the host may hold any characters
+      if (memcmp(l->string(), r->string(), l->strlen()) == 0) {
         res = 1;
       }
     }
-- 
2.43.0


From 19a430763f47261289418edbde26b4aaf3fc78d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:13 +0000
Subject: [PATCH 57/57] fix: a call whose arguments do not fit into the heap
 reported a wrong number of arguments

---
 source/lib_vm/vm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cae979c..3a64ef6 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -73,7 +73,10 @@ bool vm_t::call_once(const function_t &func,
 
   thread_t *thread = new_thread(func, argc, argv);
   if (!thread) {
-    error = nano::thread_error_t::e_bad_num_args;
+    // either the arguments dont match or they dont fit into the heap
+    error = (int32_t(func.num_args()) != argc)
+                ? nano::thread_error_t::e_bad_num_args
+                : nano::thread_error_t::e_out_of_memory;
     return false;
   }
   gc_collect();
-- 
2.43.0

