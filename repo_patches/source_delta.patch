From 2c04287b6c4c0767078e65b4b34ae17f2ba18a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 1/4] fix: addMatrixSparsity must require at least mRows rows
 in the added pattern

The assertion was inverted: it rejected a pattern with more rows than the ones to be
used (as done by multMatrixMatrixSparsity with an identity right operand) and accepted
one with fewer rows, which is then read out of bounds.
---
 include/cppad/cg/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/util.hpp b/include/cppad/cg/util.hpp
index 9ef17d5..5c6de44 100644
--- a/include/cppad/cg/util.hpp
+++ b/include/cppad/cg/util.hpp
@@ -118,7 +118,7 @@ inline void addMatrixSparsity(const VectorSet& a,
                               size_t mRows,
                               VectorSet2& result) {
     CPPADCG_ASSERT_UNKNOWN(result.size() >= mRows)
-    CPPADCG_ASSERT_UNKNOWN(a.size() <= mRows)
+    CPPADCG_ASSERT_UNKNOWN(a.size() >= mRows)
 
     for (size_t i = 0; i < mRows; i++) {
         if (result[i].empty()) {
-- 
2.43.0


From 8aa32f57419b69badef0315f89ab9cff7b173f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 2/4] fix: SparseJacobian must check the size of the
 independent vector like the other evaluations

---
 include/cppad/cg/model/functor_generic_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index c645685..a0fa399 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -684,6 +684,7 @@ public:
         CPPADCG_ASSERT_KNOWN(_sparseJacobian != nullptr, "No sparse Jacobian function defined in the dynamic library")
         CPPADCG_ASSERT_KNOWN(_in.size() == 1, "The number of independent variable arrays is higher than 1,"
                              " please use the variable size methods")
+        CPPADCG_ASSERT_KNOWN(x.size() == _n, "Invalid independent array size")
         CPPADCG_ASSERT_KNOWN(_missingAtomicFunctions == 0, "Some atomic functions used by the compiled model have not been specified yet")
 
         unsigned long const* drow;
-- 
2.43.0


From b7dc5fc3f350bc7a66ab811e002078f5d5c63db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 3/4] fix: constants 0, 1 and -1 must be printed as
 floating-point constants in C code

A quotient of two such constants (for instance of two sign() expressions written in
place) was integer arithmetic: it truncated, lost the sign of zero and trapped on
a division by zero.
---
 include/cppad/cg/lang/c/language_c.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 11ee40d..d783125 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -2097,12 +2097,10 @@ protected:
         std::string number = os.str();
         output << number;
 
-        if (std::abs(value) > Base(0) && value != Base(1) && value != Base(-1)) {
-            if (number.find('.') == std::string::npos && number.find('e') == std::string::npos) {
-                // also make sure there is always a '.' after the number in
-                // order to avoid integer overflows
-                output << '.';
-            }
+        if (number.find('.') == std::string::npos && number.find('e') == std::string::npos) {
+            // also make sure there is always a '.' after the number in
+            // order to avoid integer overflows and integer arithmetic
+            output << '.';
         }
     }
 
-- 
2.43.0


From 1c8112cef8a8fe66f4cca5a2c1caa786fe444616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 4/4] fix: evaluate 'not equal' conditional expressions

CondExpOp() has no case for CompareNe: it asserts, and always returns the true case
when assertions are disabled.
---
 include/cppad/cg/evaluator/evaluator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/evaluator/evaluator.hpp b/include/cppad/cg/evaluator/evaluator.hpp
index 8345c94..b4a9303 100644
--- a/include/cppad/cg/evaluator/evaluator.hpp
+++ b/include/cppad/cg/evaluator/evaluator.hpp
@@ -569,7 +569,8 @@ protected:
     inline ActiveOut evalCompareNe(const NodeIn& node) {
         const std::vector<ArgIn>& args = node.getArguments();
         CPPADCG_ASSERT_KNOWN(args.size() == 4, "Invalid number of arguments for CondExpOp(CompareNe, )")
-        return CondExpOp(CompareNe, evalArg(args, 0), evalArg(args, 1), evalArg(args, 2), evalArg(args, 3));
+        // CondExpOp() does not support CompareNe: use CompareEq with the cases exchanged
+        return CondExpOp(CompareEq, evalArg(args, 0), evalArg(args, 1), evalArg(args, 3), evalArg(args, 2));
     }
 
     inline ActiveOut evalCosh(const NodeIn& node) {
-- 
2.43.0

