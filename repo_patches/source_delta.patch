From 0d2749dfbafb81f95418942c4612f3042f669c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 01/53] fix: a sign after an operator applies to its operand,
 not to the rest of the term

---
 pynare/parsing/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b534eac..b29ce3b 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -90,7 +90,7 @@ class BaseParser(object):
             #    the proper unary operation functionality
             return ast.UnaryOp(
                 op=token,
-                expr=self.term()
+                expr=self.exponent()
             )
 
         self.error()
@@ -515,7 +515,7 @@ class DynareParser(BaseParser):
             self.eat(token.type)
             node = ast.UnaryOp(
                 op=token,
-                expr=self.mterm()
+                expr=self.mexponent()
             )
             return node
 
-- 
2.43.0


From 6248ed78b2888218b5de1ffddeddc8ee6191eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 02/53] fix: adjacent function calls no longer drop the first
 one silently

---
 pynare/parsing/parser.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b29ce3b..e87b15d 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -86,7 +86,7 @@ class BaseParser(object):
 
         elif token.type in (base.MINUS, base.PLUS):
             self.eat(token.type)
-            # sending 'expr' to term() instead of expr() is what ensures
+            # sending 'expr' to exponent() instead of expr() is what ensures
             #    the proper unary operation functionality
             return ast.UnaryOp(
                 op=token,
@@ -104,7 +104,7 @@ class BaseParser(object):
         methods, because the atom() method doesn't recognize tokens of type
         FUNCTION. Instead we do the try ... except below
         """
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -115,11 +115,9 @@ class BaseParser(object):
             )
 
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.atom()
+
+        return self.atom()
 
     def exponent(self) -> AST:
         """
@@ -522,7 +520,7 @@ class DynareParser(BaseParser):
         self.error()
 
     def mcall(self) -> AST:
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -531,11 +529,9 @@ class DynareParser(BaseParser):
                 expr=self.mexpr()
             )
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.matom()
+
+        return self.matom()
 
     def mexponent(self) -> AST:
         node = self.mcall()
-- 
2.43.0


From c9f1032b1adc69c2e3b46215f2460662fbc5dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 03/53] fix: comments end where they end: at end of file, at
 '*/' only, and in any sequence

---
 pynare/parsing/lexer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c0d7e2..6f5183c 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -233,11 +233,11 @@ class BaseLexer(object):
                 else:
                     self.error(self.current_char)
 
-            while self.is_singleline_comment():
-                self.skip_singleline_comment()
-
-            while self.is_multiline_comment():
-                self.skip_multiline_comment()
+            while self.is_singleline_comment() or self.is_multiline_comment():
+                if self.is_singleline_comment():
+                    self.skip_singleline_comment()
+                else:
+                    self.skip_multiline_comment()
 
             if self.valid_begchar(self.current_char):
                 return self._id()
@@ -422,7 +422,7 @@ class DynareLexer(BaseLexer):
 
     def skip_singleline_comment(self):
         """ single line comments are signified by '%' or '//' """
-        while self.current_char != '\n':
+        while self.current_char is not None and self.current_char != '\n':
             self.advance()
         self.skip_whitespace() # just in case
 
@@ -434,7 +434,9 @@ class DynareLexer(BaseLexer):
     def skip_multiline_comment(self):
         # multiline comments begin '/*' and end '*/' 
         self.advance(n=2)
-        while (self.current_char != '*') and (self.peek() != '/'):
+        while self.current_char is not None and not (
+            self.current_char == '*' and self.peek() == '/'
+        ):
             self.advance()
 
         # skipping the closing '*/'
-- 
2.43.0


From 167c19fecb937e820923b50dfb5509fe6b743fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 04/53] fix: leftover text after an expression is a syntax
 error, not ignored

---
 pynare/core/expressions.py | 7 ++++++-
 pynare/parsing/parser.py   | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 1d99f42..b8313ec 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -113,7 +113,12 @@ class ExprParser(DynareParser):
 
 
     def parse(self):
-        return self.model_expression()
+        expression = self.model_expression()
+        if self.current_token.type == base.SEMI:
+            self.eat(base.SEMI)
+        if self.current_token.type != base.EOF:
+            self.error()
+        return expression
 
 
 
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index e87b15d..edca3bd 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -201,7 +201,10 @@ class BaseParser(object):
         return node
 
     def parse(self) -> AST:
-        return self.comp_expr()
+        node = self.comp_expr()
+        if self.current_token.type != base.EOF:
+            self.error()
+        return node
 
 COMPS = (base.LT, base.LTOE, base.GT, base.GTOE, base.EQUALITY)
 
-- 
2.43.0


From e0bc9e47611302f3cd67b4f3629a5426f7cd9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 05/53] fix: a model file without a shocks block can be read

---
 pynare/parsing/factory.py   | 3 ++-
 pynare/parsing/semantics.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4568268..1ff72fc 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -351,7 +351,8 @@ class DynareModelFactory(base.ABCVisitor):
     # 
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 1df7b10..7b03a41 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -275,7 +275,8 @@ class DynareSemanticAnalyzer(ABCVisitor):
     #
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
-- 
2.43.0


From 885b0f539f64546a8cbc781189530e0203c9dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 06/53] fix: histval block stores its own values

---
 pynare/parsing/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 1ff72fc..a792b43 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -366,7 +366,7 @@ class DynareModelFactory(base.ABCVisitor):
 
         if node.histval:
             hist_values = self.calculate_ModelBoundaryValues(node.histval)
-            self.outline._historical_values = end_values
+            self.outline._historical_values = hist_values
 
 
     def calculate_ModelBoundaryValues(self, boundaries):
-- 
2.43.0


From 57dac17d022da94e2e69e01712132514e23f9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 07/53] fix: get_loc accepts a sequence of names

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9bef434..cb53a0a 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -113,7 +113,7 @@ class VarArray(np.ndarray):
                 loc = np.where(name == self.names)[0]
                 if not loc.size:
                     raise KeyError(f"{repr(var)} is not a variable")
-                idx[i] = loc
+                idx[i] = loc.item()
 
             return idx
 
-- 
2.43.0


From 63be60d3eea4e10104f1abe48ff745853958028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 08/53] fix: undeclared or parametric dated variables raise
 their own error

---
 pynare/parsing/semantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 7b03a41..82fdcb2 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -375,14 +375,14 @@ class DynareSemanticAnalyzer(ABCVisitor):
         var_symbol = self.current_scope.lookup(var_name)
 
         if var_symbol is None:
-            token = node.token
+            token = node.var.token
             raise NameError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 f'name {var_name} was not declared'
             )
 
         if var_symbol.stype.name == dyn.PARAMETERS:
-            token = node.token
+            token = node.var.token
             raise TypeError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 f'parameters cannot be out-of-period'
-- 
2.43.0


From 9d8da79872cce55bcb662151fc84f88c002214b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 09/53] fix: solution summaries use np.isin (np.in1d is gone
 from numpy)

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6530636..c6afb4b 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -401,7 +401,7 @@ class FirstOrderSummary(SolutionSummary):
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
         dr_idx = idx.dr_order
-        gy = gy[:, np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])]
+        gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
@@ -532,7 +532,7 @@ class SecondOrderSummary(SolutionSummary):
         #   to align with labels, and match stoch vars which are also in dc order
         idx = self.obj.model.indexes
         dr_idx = idx.dr_order
-        st_idx = np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])
+        st_idx = np.argsort(dr_idx[np.isin(dr_idx, idx.state)])
 
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
-- 
2.43.0


From f8d7533e2c94ff5cc8fe15fae45d80c2d491f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 10/53] fix: second-order summary labels state-shock
 coefficients correctly

---
 pynare/io/summary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index c6afb4b..d937d39 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -537,8 +537,7 @@ class SecondOrderSummary(SolutionSummary):
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
         gyx_idx = n_st*np.repeat(st_idx, n_st) + np.tile(st_idx, n_st)
-        gyu_idx = n_st*np.repeat(np.arange(n_exog), n_st) \
-            + np.tile(np.arange(n_st), n_exog)
+        gyu_idx = n_exog*np.repeat(st_idx, n_exog) + np.tile(np.arange(n_exog), n_st)
 
         gy = gy[:, st_idx]
         gyx = gyx[:, gyx_idx]
-- 
2.43.0


From 35b4a8fed3036bbbb1089899c45510fd9a73f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 11/53] fix: QZ partition goes by the modulus of the
 eigenvalues and allows none to be explosive

---
 pynare/utils/numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index ecb49fb..8a61cd4 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -267,7 +267,10 @@ def partitioned_qz(
         eigs = alph/bet
 
     # explosive eigenvalues
-    expl = find_first((eigs > 1) | np.isinf(eigs))
+    expl = find_first((np.absolute(eigs) > 1) | np.isinf(eigs))
+    if expl < 0:
+        # no explosive eigenvalues, so every one of them is stable
+        expl = len(eigs)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From 9249d4298dd8b4a1771ee99d58bb958254a7d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 12/53] fix: state space of models without purely backward
 variables has the right shape

---
 pynare/core/solve/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7e484d3..f3a98e6 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -166,7 +166,7 @@ def _compute_structural_state_space(model: Model):
     # model might not have any backward variables
     A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
     if A0m_tilde.size == 0:
-        A0m_tilde = np.zeros((nd, 1))
+        A0m_tilde = np.zeros((nd, indexes.n_backward))
 
     # set up the structural state space representation
     nm = indexes.n_mixed
-- 
2.43.0


From dde877fd52dc17117853f976c96b24ec1f2bdbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 13/53] fix: solving a model enforces the Blanchard-Kahn
 conditions, every time

---
 pynare/core/solve/first_order.py | 3 +++
 pynare/core/solve/statespace.py  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 71f159e..5186eb6 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -77,6 +77,9 @@ def solve_first_order(
     indexes = M.indexes
     state = M.statespace
 
+    # the Blanchard-Kahn conditions must hold for a solution to exist and be unique
+    state.verify()
+
     # retrieve state space matrices
     A, D, E = state.jacobian, state.lhs, state.rhs
 
diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index f3a98e6..d9309c1 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -46,7 +46,7 @@ class StateSpace(object):
         front-facing method for checking whether or not the BK conditions are met
         by this model specification
         """
-        if self.is_verified is None:
+        if not self.is_verified:
             self._run_verification()
         return None
 
-- 
2.43.0


From 940dcf627a61960bd7683bfcca4ec1807e5fcf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 14/53] fix: n_static counts the static variable in jacobian
 column zero too

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index cb53a0a..7d95b2a 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -591,7 +591,7 @@ class VariableIndexManager(object):
     @cached_property
     def n_static(self):
         llx = self.llx
-        return np.count_nonzero(llx[1, np.isnan(llx[0]) & np.isnan(llx[2])])
+        return np.count_nonzero(np.isnan(llx[0]) & np.isnan(llx[2]))
 
     @cached_property
     def n_forward(self):
-- 
2.43.0


From 1be90fe3e7fd98e9493bd346c8381c8a71ab2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 15/53] fix: unseen variables and leads or lags beyond one
 period are rejected, not misread

---
 pynare/core/variables.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 7d95b2a..64af98b 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -540,16 +540,19 @@ class VariableIndexManager(object):
         #    of endogenous variables at all periods
         llx = np.full((3, len(endog)), fill_value=np.nan)
         for idx, ll in enumerate(self.lead_lags.values()):
-            lead_lag = np.array(list(ll)) + 1
-            try:
-                llx[lead_lag, idx] = 1
-            except IndexError:
-                if not lead_lag:
-                    problem_endog = endog[idx]
-                    raise EndogIndexError(
-                        f"variable '{str(problem_endog)}' was declared as endog but "
-                        "was not seen at any time period"
-                    ) from None
+            lead_lag = np.array(list(ll), dtype=int) + 1
+            problem_endog = endog[idx]
+            if not lead_lag.size:
+                raise EndogIndexError(
+                    f"variable '{str(problem_endog)}' was declared as endog but "
+                    "was not seen at any time period"
+                )
+            if lead_lag.min() < 0 or lead_lag.max() > 2:
+                raise EndogIndexError(
+                    f"variable '{str(problem_endog)}' has a lead or lag of more than "
+                    "one period, which is not supported"
+                )
+            llx[lead_lag, idx] = 1
 
         # number of endog variables incidences at all periods. then replace indicators
         #   with the jacobian column index
-- 
2.43.0


From d5a3e7b8accd3d5bd95362b47508b23e2a0cb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 16/53] fix: first-order solution of models with one variable
 or no shocks keeps its orientation

---
 pynare/core/solve/first_order.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 5186eb6..94ad2b1 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -92,15 +92,12 @@ def solve_first_order(
     gys = solve_static_endo(A, indexes, gym, gyp)
     gy = np.vstack((gys, gyd))
 
-    if indexes.n_exog > 0:
-        fu = A[:, indexes.exogenous_jacobian]
-    else:
-        fu = J[:, indexes.exogenous_jacobian]
+    fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
-    # remove any 1-dimensional axes
-    gy = gy.squeeze()
-    gu = gu.squeeze()
+    # remove the column axis if there is a single state or a single shock
+    gy = gy.squeeze(axis=1) if gy.shape[1] == 1 else gy
+    gu = gu.squeeze(axis=1) if gu.shape[1] == 1 else gu
 
     return gy, gu
 
-- 
2.43.0


From 54465105be8081f85aadf5a1b16bb460b82d967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 17/53] fix: second-order solution keeps two dimensions with
 one state, one shock or no leads

---
 pynare/core/solve/second_order.py | 76 ++++++++++++-------------------
 1 file changed, 29 insertions(+), 47 deletions(-)

diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 9ba9172..fdce46f 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -4,6 +4,8 @@ second-order approximation of the policy function
 
 from __future__ import annotations
 
+from collections import namedtuple
+
 from scipy import linalg
 
 import numpy as np
@@ -53,11 +55,23 @@ class SecondOrderSolution(LinearSolution):
 
 
 
+# the first-order arrays, always in two dimensions
+_LowerSolution = namedtuple('_LowerSolution', ('gy', 'gu'))
+
+
 class SecondOrderSolver(object):
 
     def __init__(self, model: Model, lower_sol: FirstOrderSolution):
         self.model = model
-        self.lower_solution = lower_sol
+
+        # `gy` and `gu` drop the axis of a single state or a single shock, but all of
+        #    the products below need two dimensions
+        indexes = model.indexes
+        n_endog, n_state, n_exog = indexes.n_endog, indexes.n_state, indexes.n_exog
+        self.lower_solution = _LowerSolution(
+            gy=np.reshape(lower_sol.gy, (n_endog, n_state)),
+            gu=np.reshape(lower_sol.gu, (n_endog, n_exog))
+        )
 
     def _setup_indices(self):
         """
@@ -69,11 +83,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # decision-rule indices of state vars
-        self.tloc_arr = np.arange(ns, ns+nt, dtype=int)
-        try:
-            self.tloc = self.tloc_arr.item()
-        except ValueError:
-            self.tloc = self.tloc_arr
+        self.tloc = np.arange(ns, ns+nt, dtype=int)
 
         # re-arrange lead-lag incidence to DR order
         dr_llx = indexes.dr.llx
@@ -115,14 +125,14 @@ class SecondOrderSolver(object):
         # construct the [dfdy' * dgdx + dfdx' | dfdy] array
         A = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
         A[:, ~np.isnan(self.dr_cont)] = cont_jac
-        tm1_update = unp.matmul_scalar(fore_jac, gy[~np.isnan(self.dr_fore)])
+        tm1_update = np.matmul(fore_jac, gy[~np.isnan(self.dr_fore)])
         A[:, self.tloc] = A[:, self.tloc] + tm1_update
 
         B = np.identity(nt**2, dtype=float)
 
         # construct the [0 | dfdy'] array
         C = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
-        C[:, -len(_nonnan_int(self.dr_fore)):] = fore_jac
+        C[:, ~np.isnan(self.dr_fore)] = fore_jac
 
         gy_state = gy[self.tloc]
         D = np.transpose(np.kron(gy_state, gy_state))
@@ -145,10 +155,10 @@ class SecondOrderSolver(object):
 
         state_eye = np.identity(nt, dtype=float)
         cont_gy = gy[~np.isnan(self.dr_cont)]
-        fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
         exo_block = np.zeros((indexes.n_exog, nt), dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_eye, cont_gy, fore_gy, exo_block))
+        E = np.concatenate((state_eye, cont_gy, fore_gy, exo_block))
         return E
 
 
@@ -166,16 +176,11 @@ class SecondOrderSolver(object):
 
         state_zero = np.zeros((nt, ne), dtype=float)
         cont_gu = gu[~np.isnan(self.dr_cont)]
-
-        try:
-            fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-        except ValueError:
-            # one state var, > 1 stoch vars
-            fore_gy = np.outer(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
 
         exo_eye = np.identity(ne, dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_zero, cont_gu, fore_gy, exo_eye))
+        E = np.concatenate((state_zero, cont_gu, fore_gy, exo_eye))
         return E
 
 
@@ -279,24 +284,12 @@ def solve_ghxu(
     -------
     ghxu : np.ndarray
     """
-    # if theres only one state variable, zx will be a vector, and if there is
-    #    only a single shock, zu will be too. for these to conform with one another
-    #    in the kronecker product, ensure 2d
-    zx, zu = unp.ensure_2darray((zx, zu))
-    E = -unp.matrix_kronecker_product(hess, zx, zu).squeeze()
-
-    # `matrix_kronecker_product` throws ValueErrors when scalars are passed or matrix
-    #    dimensions depend on row/column orientation. just cast to 2dims for now
-    gy, gu = lower_sol.gy, lower_sol.gu
-    ghxx_arr, gy_arr, gu_arr = unp.ensure_2darray((ghxx, gy[tloc], gu[tloc]))
+    E = -unp.matrix_kronecker_product(hess, zx, zu)
 
-    if gu_arr.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        gu_arr = np.transpose(gu_arr)
-
-    cross_prod = unp.matrix_kronecker_product(ghxx_arr, gy_arr, gu_arr).squeeze()
+    gy, gu = lower_sol.gy, lower_sol.gu
+    cross_prod = unp.matrix_kronecker_product(ghxx, gy[tloc], gu[tloc])
 
-    rhs = E - unp.matmul_scalar(C, cross_prod)
+    rhs = E - np.matmul(C, cross_prod)
     return linalg.solve(A, rhs)
 
 
@@ -342,17 +335,7 @@ def solve_ghuu(
 
     ghxx_tp1 = np.matmul(C, ghxx)
     state_du = lower_sol.gu[tloc]
-
-    # if theres only one state variable, ghxx_tp1 will be a vector (if there is
-    #    additionally only a single shock, state_du will be a scalar). for these
-    #    to conform with one another in the kronecker product, ensure 2d
-    ghxx_tp1, state_du = unp.ensure_2darray((ghxx_tp1, state_du))
-
-    if state_du.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        state_du = np.transpose(state_du)
-
-    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du).squeeze()
+    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du)
 
     rhs = E - ghxx_tp1_evaluated
     return linalg.solve(A, rhs)
@@ -413,8 +396,7 @@ def solve_del2(
     B1 = unp.matrix_kronecker_product(hess[:, fore_sq], gu[~fore_nan])
 
     rhs = np.matmul(jac[:, fore_idx], ghuu[~fore_nan]) + B1
-    rhs = -unp.matmul_scalar(rhs, np.transpose(sigma).flatten())
-
+    rhs = -np.matmul(rhs, np.transpose(sigma).flatten())
 
     n_fore = np.count_nonzero(~fore_nan)
     n_endog = jac.shape[0]
@@ -424,7 +406,7 @@ def solve_del2(
     pfore_zero = np.zeros((n_fore, npf), dtype=float)
     gy_fore = gy[~fore_nan]
 
-    d_fore = unp.concatenate_maybe_1d((static_zero, gy_fore, pfore_zero), axis=1)
+    d_fore = np.concatenate((static_zero, gy_fore, pfore_zero), axis=1)
     deriv_fore = endo_eye[~fore_nan] + d_fore
 
     lhs = np.zeros((n_endog, n_endog), dtype=float)
-- 
2.43.0


From dc292719bb15ef4246e3f928f9660f5726931f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 18/53] fix: generalized sylvester equation with nothing to
 solve for returns nothing

---
 pynare/utils/numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 8a61cd4..0cd4ad6 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -448,6 +448,10 @@ def generalized_sylvester(
             f"({m}, {n}) != ({er}, {ec})"
         )
 
+    # an empty equation is solved by the empty array
+    if m == 0 or n == 0:
+        return np.zeros(original_mn, dtype=float)
+
     # handling the special case where there is only one row or one column
     if m == 1:
         # B and D are scalars
-- 
2.43.0


From fa13d2b52ffa5cdcc6693238cf87ef68042827ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 19/53] fix: second-order simulation applies the policy's
 factors of one half once

---
 pynare/simul.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 1555eed..f56903d 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -226,28 +226,28 @@ class LinearSimulator(ModelSimulator):
         # policy matrices
         sol = self.model.solution
         first_sol = sol.lower_solution
-        ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx/2, sol.ghxu, sol.ghuu/2, sol.del2/2))
-        gy, gu = first_sol.gy, first_sol.gu
+        gy, gu = unp.ensure_2darray((first_sol.gy, first_sol.gu))
+
+        # the solution's second-order arrays already carry their factors of 1/2
+        ghxx, ghxu, ghuu, del2 = sol.ghxx, sol.ghxu, sol.ghuu, sol.del2
 
         # index management. use array of indices because of kronecker products
         dr_order = self.dr_order
-        lag = [self.lag_state] if isinstance(self.lag_state, int) else self.lag_state
-        dr_state = dr_order[lag]
+        dr_state = dr_order[np.atleast_1d(self.lag_state)]
 
-        const = del2.squeeze() + ys[dr_order]
+        const = del2 + ys[dr_order]
         for t in range(1, T):
             yhat = paths[t-1, dr_state] - ys[dr_state]
             ut = shocks[t-1, :]
 
             # first-order terms
-            dy = unp.matmul_scalar(gy, yhat)
-            du = unp.matmul_scalar(gu, ut)
+            dy = np.matmul(gy, yhat)
+            du = np.matmul(gu, ut)
 
             # second-order terms
-            dydy = unp.matrix_kronecker_product(ghxx, yhat)
-            dudu = unp.matrix_kronecker_product(ghuu, ut)
-            dydu = unp.matrix_kronecker_product(ghxu, yhat, ut)
+            dydy = np.matmul(ghxx, np.kron(yhat, yhat))
+            dudu = np.matmul(ghuu, np.kron(ut, ut))
+            dydu = np.matmul(ghxu, np.kron(yhat, ut))
 
             paths[t, dr_order] = const + dy + du + dydy + dudu + dydu
 
-- 
2.43.0


From 1da8c6006ab9f1d86bedb35b12d14f905197f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 20/53] fix: second-order mean applies the policy's factors of
 one half once

---
 pynare/stats/moments.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index f498047..9b66860 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -46,17 +46,18 @@ def mean(md: Model):
         dr_sidx = md.indexes.dr.state
         del2, ghxx, ghuu = md.solution.del2, md.solution.ghxx, md.solution.ghuu
 
+        # the solution's second-order arrays already carry their factors of 1/2, so
         # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
-        #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
-        # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = (del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten()))/2
+        #               + del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
+        # yields E[x] = g_{xt+1,x}*E[x] + del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
+        second_order = del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
+            + np.dot(ghuu[dr_sidx], md.sigma.flatten())
         expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
 
         # calculate mean adjustment for observables & make them declaration order
-        adj_mean_inv = unp.matmul_scalar(md.solution.lower_solution.gy, expt_x) \
-            + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
-            + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
+        gy = unp.ensure_2darray(md.solution.lower_solution.gy)
+        adj_mean_inv = np.dot(gy, expt_x) + del2 \
+            + np.dot(ghxx, var_state.flatten()) + np.dot(ghuu, md.sigma.flatten())
         adj_mean = adj_mean_inv[md.indexes.dc_order]
 
         return ss + adj_mean
-- 
2.43.0


From a8ad5b10a94f5f8e542a6411db75bab69aec3fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 21/53] fix: the zeroth autocovariance is the covariance

---
 pynare/stats/moments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index 9b66860..9f57c82 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -253,7 +253,10 @@ def autocov(
 
     n_endog = gy_dc.shape[0]
     acv = np.empty((p, n_endog, n_endog), dtype=float)
-    for i in range(p):
+    if p > 0:
+        acv[0, :, :] = cov(md)
+
+    for i in range(1, p):
         acv[i, :, :] = np.matmul(gy_dc, obs_state)
         obs_state = np.matmul(g_xtp1x, obs_state)
 
-- 
2.43.0


From d86cba38bdb3ee2b94c5427f37f8707d8d486680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 22/53] fix: variable names that look like dated names or
 keywords no longer clash in dynamic functions

---
 pynare/core/expressions.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index b8313ec..0b567ab 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -351,7 +351,7 @@ def dynamic_func(
     # `llx` has `len(endo)` columns by construction, so we make use of that
     #    to get the `endos` names in the correct order
     endo_suffix = np.array(
-        [[f'{v}{s}' for v in endo] for s in ('m1', '', 'p1')], dtype=object
+        [[_dated_name(v, s) for v in endo] for s in (-1, 0, 1)], dtype=object
     )
     dyn_vars = list(endo_suffix[~np.isnan(llx)])
     dyn_vars.extend(exo) # `exo` in declaration order by construction
@@ -389,10 +389,20 @@ class DynamicFunc(base._BaseEvaluator):
         return self.dyn_vals[node.value]
 
     def visit_PeriodVar(self, node):
-        var_name = node.value
-        offset = node.period_offset
-        name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-        return self.dyn_vals[name_offset]
+        return self.dyn_vals[_dated_name(node.value, node.period_offset)]
+
+
+
+def _dated_name(name: str, offset: int):
+    """
+    the name under which a variable at a given date is known to a dynamic function.
+    a lead or a lag is marked in a way that no variable's own name can be
+    """
+    if offset > 0:
+        return f'{name}(+1)'
+    if offset < 0:
+        return f'{name}(-1)'
+    return f'{name}'
 
 
 
@@ -435,8 +445,9 @@ class _DynamicSubsitution(base._ASTSubstitution):
     so variable `x` will be added to `self.not_provided` as `x`. However,
     PeriodVars are altered in accordance with the naming scheme used in
     dynamic_func:
-        PeriodVar(name='x', period_offset=-1) -> 'xm1'
-        PeriodVar(name='y', period_offset=1)  -> 'ym1'
+        PeriodVar(name='x', period_offset=-1) -> 'x(-1)'
+        PeriodVar(name='y', period_offset=1)  -> 'y(+1)'
+        PeriodVar(name='z', period_offset=0)  -> 'z'
     """
 
     def __init__(
@@ -462,8 +473,7 @@ class _DynamicSubsitution(base._ASTSubstitution):
         elif isinstance(attribute, ast.PeriodVar):
             var_name = attribute.value
             offset = attribute.period_offset
-            name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-            self.not_provided.add(name_offset)
+            self.not_provided.add(_dated_name(var_name, offset))
 
 
 
@@ -497,7 +507,11 @@ def model_signature(
         def sig_wrapper(*args, **kwargs):
             return func(*args, **kwargs)
 
-        sig_wrapper.__signature__ = inspect.Signature(ensure_parameter(mvars))
+        try:
+            sig_wrapper.__signature__ = inspect.Signature(ensure_parameter(mvars))
+        except ValueError:
+            # dated names, or names like `lambda`, can't be python parameters
+            pass
         return sig_wrapper
 
     return sig_decorator
-- 
2.43.0


From 469d17abfdbfc7cb4cc5f60a0e4f022e0c229b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 23/53] fix: adding variables to a model keeps their names and
 takes their attributes

---
 pynare/core/generic.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8685c63..d1682bc 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -91,7 +91,7 @@ class ModelSkeleton(object):
         None
         """
         _endog = _create_endog_vars(endog, **kwargs)
-        self.endog = np.concatenate((self.endog, _endog))
+        self.endog = VarArray([*self.endog, *_endog])
 
         self.is_altered = True
 
@@ -281,8 +281,8 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
-        _stoch = _create_stoch_vars(stoch, **kwargs)
-        self.stoch = np.concatenate((self.stoch, _stoch))
+        _stoch = _create_stoch_vars(stoch, _shared_shocks(stoch, kwargs))
+        self.stoch = VarArray([*self.stoch, *_stoch])
 
         self.is_altered = True
 
@@ -302,8 +302,8 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
-        _determ = _create_determ_vars(determ, **kwargs)
-        self.determ = np.concatenate((self.determ, _determ))
+        _determ = _create_determ_vars(determ, _shared_shocks(determ, kwargs))
+        self.determ = VarArray([*self.determ, *_determ])
 
         self.is_altered = True
 
@@ -496,3 +496,15 @@ class DynamicModel(StructuredModel):
             language=self.language,
             name=self.name
         )
+
+
+
+def _shared_shocks(names, attrs: dict):
+    """
+    the shock definitions of newly added exogenous variables, all of which share
+    the same attributes. if none are provided the variables take their defaults
+    """
+    if not attrs:
+        return {}
+    names = names if is_iterable_not_str(names) else [names]
+    return {name: dict(attrs) for name in names}
-- 
2.43.0


From 55052c5e3eee38f3011bec19555f197e2f23af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 24/53] fix: a shock whose variance is not declared has unit
 variance

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 64af98b..c348760 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -342,7 +342,7 @@ def _create_stoch_vars(
         if isinstance(name, StochVar):
             return name
 
-        shock_dict = shocks.get(name, default_dict)
+        shock_dict = {**default_dict, **shocks.get(name, {})}
         return StochVar(name, **shock_dict)
 
     if is_iterable_not_str(names):
-- 
2.43.0


From 80b43b5662700d665344ab4610e117853e2dddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 25/53] fix: a calibration owns its definitions and survives a
 failed assignment

---
 pynare/core/variables.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index c348760..ebbe9eb 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -786,7 +786,8 @@ class ModelCalibration(MutableMapping):
     """
 
     def __init__(self, defs):
-        self.defs = defs
+        # definitions are this calibration's own, whoever provided them
+        self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
 
         calib = {}
         for k, v in self.defs.items():
@@ -804,8 +805,10 @@ class ModelCalibration(MutableMapping):
             raise KeyError(f"'{key}' is not a parameter") from None
 
     def __setitem__(self, key, value):
-        self.defs[key] = value
-        self.calib = solve_calibration(self.defs) # inefficient
+        # if the new definitions can't be solved the old ones stay in place
+        defs = {**self.defs, key: value}
+        self.calib = solve_calibration(defs) # inefficient
+        self.defs = defs
 
     def __delitem__(self, key):
         del self.defs[key]
-- 
2.43.0


From 78f8a5781b42951732ae738e31dffba94c94a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 26/53] fix: model-local names follow the parameters that
 define them

---
 pynare/core/model.py      |  6 +++++-
 pynare/core/variables.py  | 20 ++++++++++++++------
 pynare/parsing/factory.py |  2 +-
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 22812fb..a0ab014 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -45,7 +45,9 @@ class Model(DynamicModel):
         name: str = ''
     ):
 
-        self.local_params = ModelCalibration(local_params)
+        self.local_params = ModelCalibration(
+            local_params, scope=ModelCalibration(params)
+        )
 
         super().__init__(
             endog=endog,
@@ -288,6 +290,8 @@ class Model(DynamicModel):
 
     @property
     def model_scope(self):
+        # local names follow the parameters that define them
+        self.local_params.recalibrate(self.params)
         return {**self.params, **self.local_params}
 
 
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index ebbe9eb..f8caaef 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -785,7 +785,7 @@ class ModelCalibration(MutableMapping):
     managing parameter values and caching their equation definitions
     """
 
-    def __init__(self, defs):
+    def __init__(self, defs, scope={}):
         # definitions are this calibration's own, whoever provided them
         self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
 
@@ -796,7 +796,13 @@ class ModelCalibration(MutableMapping):
             elif isinstance(v, ast.Num):
                 calib[k] = v.value
 
-        self.calib = solve_calibration(self.defs)
+        # names that definitions can mention but that are not part of the calibration
+        self.scope = scope
+        self.calib = solve_calibration(self.defs, self.scope)
+
+    def recalibrate(self, scope):
+        self.scope = scope
+        self.calib = solve_calibration(self.defs, self.scope)
 
     def __getitem__(self, key):
         try:
@@ -807,7 +813,7 @@ class ModelCalibration(MutableMapping):
     def __setitem__(self, key, value):
         # if the new definitions can't be solved the old ones stay in place
         defs = {**self.defs, key: value}
-        self.calib = solve_calibration(defs) # inefficient
+        self.calib = solve_calibration(defs, self.scope) # inefficient
         self.defs = defs
 
     def __delitem__(self, key):
@@ -844,7 +850,7 @@ class ModelCalibration(MutableMapping):
 
 
 
-def solve_calibration(calib):
+def solve_calibration(calib, scope={}):
     """
     given a dictionary of the form
         'param': float | int | string | AST,
@@ -854,13 +860,15 @@ def solve_calibration(calib):
     ----------
     calib : dict
         dictionary of numbers or variable definitions to evaluate
+    scope : dict ( = {} )
+        the values of other names that the definitions can mention
 
     Returns
     -------
     calib : dict
         dictionary of 'var_name': number
     """
-    calib_ = {}
+    calib_ = {**scope}
     for k, v in calib.items():
         if isinstance(v, (float, int)):
             calib_[k] = v
@@ -889,7 +897,7 @@ def solve_calibration(calib):
     # fill in all the ASTs and return
     for var in precedence:
         calib_[var] = evaluate_parameter(calib_[var], calib_)
-    return calib_
+    return {k: calib_[k] for k in calib}
 
 
 
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index a792b43..3824ff8 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -287,7 +287,7 @@ class DynareModelFactory(base.ABCVisitor):
         var_name = node.left.value
         self.model_scope.insert(var_name, value)
 
-        self.outline._local_model_variables[var_name] = value
+        self.outline._local_model_variables[var_name] = node.right
 
 
     def visit_ModelExpression(self, node):
-- 
2.43.0


From 06664e1940dd5d772ce98224a8f5334caa1e34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 27/53] fix: copies of a model keep its local names and share
 no shock definitions

---
 pynare/core/generic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index d1682bc..36ac7b1 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -482,19 +482,25 @@ class DynamicModel(StructuredModel):
 
             shocks[name] = dt_dict
 
+        # names local to the model's equations, for the classes that have them
+        extras = {}
+        if hasattr(self, 'local_params'):
+            extras['local_params'] = copy.deepcopy(self.local_params)
+
         class_ = self.__class__
         return class_(
             endog=endog,
             stoch=stoch,
             determ=determ,
             params=copy.deepcopy(self.params),
-            shocks=shocks,
+            shocks=copy.deepcopy(shocks),
             exprs=copy.deepcopy(self.exprs),
             initial=init,
             terminal=term,
             historical=hist,
             language=self.language,
-            name=self.name
+            name=self.name,
+            **extras
         )
 
 
-- 
2.43.0


From 8f276bb5c90582d0ef3be071ffda6ffd7a4aa97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 28/53] fix: an altered model is not described by the solution
 or features of its old definitions

---
 pynare/core/generic.py | 22 ++++++++++++++--------
 pynare/core/model.py   | 13 +++++++++++++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 36ac7b1..b0ef04c 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -428,14 +428,20 @@ class DynamicModel(StructuredModel):
         self.is_altered = False
 
         self.endog = set_lead_lags(self.endog, self.exprs)
-        self._sigma = self._define_sigma()
-
-        # structural features. steady, dynamic, statespace order is important,
-        #   which I'm not particularly fond of...
-        self._indexes = VariableIndexManager(self.endog, self.stoch)
-        self._steady_repr = SteadyRepr(self)
-        self._dynamic_repr = DynamicRepr(self)
-        self._statespace = StateSpace(self)
+        try:
+            self._sigma = self._define_sigma()
+
+            # structural features. steady, dynamic, statespace order is important,
+            #   which I'm not particularly fond of...
+            self._indexes = VariableIndexManager(self.endog, self.stoch)
+            self._steady_repr = SteadyRepr(self)
+            self._dynamic_repr = DynamicRepr(self)
+            self._statespace = StateSpace(self)
+
+        except Exception:
+            # features of the old definitions don't stand in for the new ones
+            self.is_altered = True
+            raise
 
 
     def copy(self):
diff --git a/pynare/core/model.py b/pynare/core/model.py
index a0ab014..74c6323 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -288,6 +288,19 @@ class Model(DynamicModel):
         return ModelSummary(self, **kwargs)
 
 
+    @property
+    def is_altered(self):
+        return self._is_altered
+
+
+    @is_altered.setter
+    def is_altered(self, value):
+        self._is_altered = value
+        if value:
+            # a solution of the old definitions is not a solution of this model
+            self.__dict__.pop('_solution', None)
+
+
     @property
     def model_scope(self):
         # local names follow the parameters that define them
-- 
2.43.0


From df011e242f20927ceb5532159fcb0e6ac64fecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 29/53] fix: the number of regimes does not depend on how many
 equations a regime replaces

---
 pynare/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/regimes.py b/pynare/regimes.py
index de4466c..38bac62 100644
--- a/pynare/regimes.py
+++ b/pynare/regimes.py
@@ -65,7 +65,7 @@ class RegimeSwitchingModel(object):
         return self.models[key]
 
     def __len__(self):
-        return len(self.exprs) + 1
+        return len(self.models)
 
     def __repr__(self):
         return f"RegimeSwitchingModel(n={len(self)})"
-- 
2.43.0


From 989b5e125b37c072b348db61338960c47e74fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 30/53] fix: sample moments of no periods, or of no pairs of
 periods, are rejected

---
 pynare/simul.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index f56903d..d595e90 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -105,10 +105,10 @@ class ModelSimulation(object):
         periods = paths.shape[0]
 
         # check there are enough periods to compute p-th autocorrelation
-        if p > periods:
+        if p >= periods:
             raise ValueError(
                 "too many autocorrelation lags given this many periods: "
-                f"{p} > {periods}"
+                f"{p} >= {periods}"
             )
 
         # compute empirical moments of simulated data
@@ -379,10 +379,10 @@ def _drop_simulated_paths(
         raise ValueError(f"if provided, `drop` must be greater than zero: {drop}")
 
     periods = paths.shape[0]
-    if drop > periods:
+    if drop >= periods:
         raise ValueError(
-            "the number of dropped periods exceeds the number of simulated "
-            f"periods: {drop} > {periods}"
+            "the number of dropped periods leaves none of the simulated "
+            f"periods: {drop} >= {periods}"
         )
 
     # drop requested number of periods
-- 
2.43.0


From c65dd0feecd4c64dd71447a18f5e9ff662ce919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 31/53] fix: variance decomposition with one shock selects and
 rejects shock names too

---
 pynare/stats/var.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 6e70982..3fb47fa 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -40,19 +40,7 @@ def var_decomp(
     if len(md.stoch) == 1:
         # quick check for models with only one stochastic variable
         decomp_shares = np.ones((len(md.endog), 1), dtype=float)
-
-        if endog:
-            endog_names = md.endog.names
-            endog_idx = []
-
-            for eg in ensure_list(endog):
-                try:
-                    endog_idx.append(np.where(endog_names == eg)[0].item())
-                except ValueError:
-                    raise ValueError(f"'{eg}' is not an endogenous variable") from None
-            return decomp_shares[endog_idx]
-
-        return decomp_shares
+        return _select_shares(md, decomp_shares, endog, stoch)
 
     # this is 'None' if the model hasn't been solved yet
     if not md.solution_order:
@@ -107,6 +95,20 @@ def var_decomp(
         # locally silence RuntimeWarnings about dividing by zero or infinity
         decomp_shares = np.divide(decomp, total_variance[:, np.newaxis])
 
+    return _select_shares(md, decomp_shares, endog, stoch)
+
+
+
+def _select_shares(
+    md: Model,
+    decomp_shares: np.ndarray,
+    endog: Sequence[str],
+    stoch: Sequence[str]
+):
+    """
+    select the rows and columns of a full variance decomposition that correspond to
+    the requested variables and shocks
+    """
     # selecting portions of variance decomposition array
     if endog or stoch:
         endog_names, stoch_names = md.endog.names, md.stoch.names
-- 
2.43.0


From 9a3d46f77b846eb5d95fb0f612d7610c10f7784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 32/53] fix: parameters can be defined in terms of names that
 only exist in the file

---
 pynare/parsing/base.py    | 3 +++
 pynare/parsing/factory.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 62e3271..fc8fece 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -300,6 +300,9 @@ class _ASTSubstitution(ABCVisitor):
 
     def simplify(self):
         self.visit(self.tree)
+
+        # a tree that is nothing but a name
+        self.maybe_substitute(self, 'tree')
         return self.tree
 
     def maybe_substitute(self, node, attr):
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 3824ff8..0866b35 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -240,9 +240,10 @@ class DynareModelFactory(base.ABCVisitor):
                 var_name=var_name,
                 value=value
             )
+            # names that only exist in the file are not available when calibrating
             self.outline.set_model_parameter(
                 var_name=var_name,
-                value=node.right
+                value=base.ASTSubstitution(node.right, self.file_scope._symbols)
             )
 
         else:
-- 
2.43.0


From a5f68d467b9501bfa8f41ffdb63c6471e414a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 33/53] fix: a shock can covary with more than one other shock

---
 pynare/core/generic.py    | 21 ++++++++++++---------
 pynare/core/variables.py  |  6 +++++-
 pynare/parsing/factory.py | 21 +++++++++++++++------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index b0ef04c..cb86e2b 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -409,17 +409,19 @@ class DynamicModel(StructuredModel):
                 sig[i, i] = shk.variance
 
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.corr, (int, float)):
-                j = np.where(stoch_names == shk.other)[0]
-                cov = np.sqrt(shk.variance*sig[j, j]) * shk.corr
+            pairs = {shk.other: {'corr': shk.corr, 'cov': shk.cov}, **shk.pairs}
 
-                sig[i, j], sig[j, i] = cov, cov
+            for other, moments in pairs.items():
+                j = np.where(stoch_names == other)[0]
+                corr, cov = moments.get('corr'), moments.get('cov')
 
-            # with an `if` here, any correlated variables that are declared as
-            #    covarying ones later in the shock block are overwritten
-            if isinstance(shk.cov, (int, float)):
-                j, cov = np.where(stoch_names == shk.other)[0], shk.cov
-                sig[i, j], sig[j, i] = cov, cov
+                if isinstance(corr, (int, float)):
+                    sig[i, j] = sig[j, i] = np.sqrt(shk.variance*sig[j, j]) * corr
+
+                # with an `if` here, any correlated variables that are declared as
+                #    covarying ones later in the shock block are overwritten
+                if isinstance(cov, (int, float)):
+                    sig[i, j] = sig[j, i] = cov
 
         return sig
 
@@ -472,6 +474,7 @@ class DynamicModel(StructuredModel):
             if v is not None: sc_dict['variance'] = v
             if r is not None: sc_dict['corr'] = r
             if c is not None: sc_dict['cov'] = c
+            if sc.pairs: sc_dict['pairs'] = sc.pairs
 
             shocks[name] = sc_dict
 
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index f8caaef..39ba297 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -203,11 +203,15 @@ class StochVar(ExogVar):
         other: str = '',
         variance: Union[int, float] = None,
         corr: Union[int, float] = None,
-        cov: Union[int, float] = None
+        cov: Union[int, float] = None,
+        pairs: Dict[str, Dict[str, float]] = None
     ):
         super().__init__(name, 'stoch')
         self.other = other
 
+        # the 'corr' or 'cov' with shocks besides `other`, by name
+        self.pairs = dict(pairs) if pairs else {}
+
         self.variance = variance
         self.corr = corr
         self.cov = cov
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 0866b35..2900092 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -410,14 +410,10 @@ class DynareModelFactory(base.ABCVisitor):
                 shock['variance'] = moment ** 2
 
             elif shock_type == 'correlated':
-                oname = sdef.other.value
-                shock['other'] = oname
-                shock['corr'] = moment
+                _set_shock_pair(shock, sdef.other.value, 'corr', moment)
 
             elif shock_type == 'covarying':
-                oname = sdef.other.value
-                shock['other'] = oname
-                shock['cov'] = moment
+                _set_shock_pair(shock, sdef.other.value, 'cov', moment)
 
             else:
                 raise NotImplementedError(f"unrecognized shock type: {shock_type}")
@@ -433,3 +429,16 @@ class DynareModelFactory(base.ABCVisitor):
     def visit_CompoundASTList(self, node):
         for single_ast in node._list:
             self.visit(single_ast)
+
+
+
+def _set_shock_pair(shock: dict, other: str, kind: str, moment: float):
+    """
+    record the correlation or covariance of a shock with another one. those with the
+    first other shock are attributes of the shock, those with any more are `pairs`
+    """
+    if shock.setdefault('other', other) == other:
+        shock[kind] = moment
+    else:
+        pairs = shock.setdefault('pairs', {})
+        pairs.setdefault(other, {})[kind] = moment
-- 
2.43.0


From 63c577032cc844e09ebc257da3aa35b96dd23f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 34/53] fix: occbin places the policy's state columns in
 declaration order, one state or many

---
 pynare/core/solve/binding.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 2ebd71c..8ab406e 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -289,7 +289,10 @@ def solve_occbin_one_constraint(
     idx = ref.indexes
 
     gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-    gy_dc[:, idx.state] = ref.first_order_solution.arrays.gy[idx.dc_order]
+    dr_state = idx.dr_order[idx.dr.state]
+    gy_dc[:, dr_state] = ref.first_order_solution.arrays.gy[idx.dc_order].reshape(
+        idx.n_endog, idx.n_state
+    )
     gu_dc = ref.first_order_solution.arrays.gu[idx.dc_order]
 
     # partition the jacobian matrix of each regime
@@ -446,7 +449,10 @@ def solve_occbin_two_constraints(
     ridx = ref.indexes
 
     gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
-    gy_dc[:, ridx.state] = ref.first_order_solution.arrays.gy[ridx.dc_order]
+    dr_state = ridx.dr_order[ridx.dr.state]
+    gy_dc[:, dr_state] = ref.first_order_solution.arrays.gy[ridx.dc_order].reshape(
+        ridx.n_endog, ridx.n_state
+    )
     gu_dc = ref.first_order_solution.arrays.gu[ridx.dc_order]
 
     # partition the jacobian matrix of each regime
-- 
2.43.0


From 388d9f19a541ce45f0ebf8b955fe9b4053dae746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 35/53] fix: occbin linearizes every regime around the
 reference steady state

---
 pynare/core/solve/binding.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 8ab406e..b859128 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -296,8 +296,8 @@ def solve_occbin_one_constraint(
     gu_dc = ref.first_order_solution.arrays.gu[idx.dc_order]
 
     # partition the jacobian matrix of each regime
-    C, B, A, E = _occbin_partitioned_jacobian(ref)
-    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt)
+    C, B, A, E = _occbin_partitioned_jacobian(ref, ref.ss.values)
+    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt, ref.ss.values)
 
     # correction for alt regime due to linearizing around the reference one
     Dstar = alt.dynamic_repr(_translate_ss(ref.ss.values, alt))
@@ -456,10 +456,10 @@ def solve_occbin_two_constraints(
     gu_dc = ref.first_order_solution.arrays.gu[ridx.dc_order]
 
     # partition the jacobian matrix of each regime
-    C, B, A, E = _occbin_partitioned_jacobian(ref)
-    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0)
-    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1)
-    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl)
+    C, B, A, E = _occbin_partitioned_jacobian(ref, ref.ss.values)
+    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0, ref.ss.values)
+    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1, ref.ss.values)
+    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl, ref.ss.values)
 
     # correction for alt regimes due to linearizing around the reference one
     D_alt0 = alt0.dynamic_repr(_translate_ss(ref.ss.values, alt0))
@@ -833,12 +833,15 @@ def _process_occbin_parameters(
     return exog_idx, shocks, init, periods
 
 
-def _occbin_partitioned_jacobian(model: Model):
+def _occbin_partitioned_jacobian(model: Model, ref_ss: np.ndarray):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-    period the endogenous variable corresponding to that column appears in
+    period the endogenous variable corresponding to that column appears in. every
+    regime is linearized around the steady state of the reference model
     """
-    J, idx = model.jacobian.array, model.indexes
+    idx = model.indexes
+    point = np.concatenate((_translate_ss(ref_ss, model), np.zeros(idx.n_exog)))
+    J = np.array([func(point) for func in model.jacobian.linearized_funcs])
 
     # partition the jacobian based on whether the column is a derivative with respect
     #   to time t-1, t, or t+1 variables
-- 
2.43.0


From 0a52b926f6079c586d977858045b8712fcc8232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 36/53] fix: occbin accepts one column of shocks and names the
 wrong number of constraints

---
 pynare/core/solve/binding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index b859128..dfabe35 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -270,7 +270,7 @@ def solve_occbin_one_constraint(
     """
 
     if len(constraint) != 1:
-        raise ValueError(f"n constraints = {len(constraints)}")
+        raise ValueError(f"n constraints = {len(constraint)}")
 
     # throws an error if endog, stoch, or params are misaligned between models
     _ensure_variables_match(ref, alt)
@@ -623,7 +623,7 @@ def _simulate_hypothesized_paths(
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
     if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
+        innovs[exog_idx] = np.squeeze(shock)
     else:
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
@@ -736,7 +736,7 @@ def _simulate_hypothesized_paths_two_constraints(
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
     if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
+        innovs[exog_idx] = np.squeeze(shock)
     else:
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
-- 
2.43.0


From 292ed138145f1591c299b0b7cf9cc061db8e3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:12 +0000
Subject: [PATCH 37/53] fix: a variable seen only with a lag and a lead is
 mixed, not backward too

---
 pynare/core/variables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 39ba297..5ac88bd 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -583,8 +583,7 @@ class VariableIndexManager(object):
 
         static_idx = np.where(np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
-        not_forward = np.isnan(llx[1:]).any(axis=0)
-        back_idx = np.where(~np.isnan(llx[0]) & not_forward)[0]
+        back_idx = np.where(~np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
         mixed_idx = np.where(~np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
         pure_for_idx = np.where(np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
-- 
2.43.0


From 4f354be2490dd0781e1b52fb276d4057ccc97d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:19 +0000
Subject: [PATCH 38/53] fix: unclosed strings, malformed numbers and empty text
 are read as syntax errors or nothing at all

---
 pynare/parsing/lexer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6f5183c..0b890ff 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -33,7 +33,7 @@ class BaseLexer(object):
 
         self.line_pos = self.pos = 0
         self.current_line = 1 # I don't know any text editors that 0-index rows
-        self.current_char = self.text[self.pos]
+        self.current_char = self.text[self.pos] if self.text else None
 
 
     # basic lexer functionality
@@ -163,7 +163,10 @@ class BaseLexer(object):
         ):
             result += self.current_char
             self.advance()
-        num = float(result)
+        try:
+            num = float(result)
+        except ValueError:
+            self.error(result)
         return Token(base.NUMBER, num, self.current_line, self.line_pos)
 
     def _string(self, quote):
@@ -173,7 +176,9 @@ class BaseLexer(object):
         """
         result = ''
         self.advance()
-        while self.current_char is not quote:
+        while self.current_char != quote:
+            if self.current_char is None:
+                self.error(quote + result)
             result += self.current_char
             self.advance()
         self.advance()
-- 
2.43.0


From 2dbd97f8838abec9987ea28d74ec2abeafa69903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:17 +0000
Subject: [PATCH 39/53] fix: a statement that cannot open a model file is a
 syntax error, not an endless loop

---
 pynare/parsing/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index edca3bd..cf28de9 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -271,6 +271,9 @@ class DynareParser(BaseParser):
                 assigned_parameter = self.variable_assignment()
                 parameter_list.append(assigned_parameter)
 
+            else:
+                self.error()
+
         return ast.VariablePreamble(
             declared_variables=declaration_list,
             assigned_parameters=parameter_list
-- 
2.43.0


From 8838abdbd11f30d27f3110f8abbbc01d6b2cb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 40/53] fix: a model with a plus sign before a variable can be
 differentiated

---
 pynare/parsing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index fc8fece..e0fe567 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -205,7 +205,7 @@ class _BaseEvaluator(ABCVisitor):
 
     def visit_UnaryOp(self, node):
         if node.op.type == PLUS:
-            return + self.visit(node.expr)
+            return self.visit(node.expr)
         elif node.op.type == MINUS:
             return - self.visit(node.expr)
 
-- 
2.43.0


From e62773282acf17364caa5dc5e0e1b916576d6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 41/53] fix: a model without leads or lags can be built and
 solved

---
 pynare/core/solve/statespace.py | 11 ++++++-----
 pynare/utils/numpy.py           |  4 ++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index d9309c1..1a24328 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -158,13 +158,14 @@ def _compute_structural_state_space(model: Model):
         A = J.copy()
 
     # partition as according to section 4.1 of Villemot (2011)
-    nd = indexes.n_dynamic
-    Ap_tilde = A[-nd:, indexes.dr.forward_timed[1]]
-    Am_tilde = A[-nd:, indexes.dr.backward_timed[-1]]
-    A0p_tilde = A[-nd:, indexes.dr.forward_timed[0]]
+    #   the dynamic equations are the ones below the static equations
+    nd, first = indexes.n_dynamic, indexes.n_static
+    Ap_tilde = A[first:, indexes.dr.forward_timed[1]]
+    Am_tilde = A[first:, indexes.dr.backward_timed[-1]]
+    A0p_tilde = A[first:, indexes.dr.forward_timed[0]]
 
     # model might not have any backward variables
-    A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
+    A0m_tilde = A[first:, indexes.dr.pure_backward_timed[0]]
     if A0m_tilde.size == 0:
         A0m_tilde = np.zeros((nd, indexes.n_backward))
 
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 0cd4ad6..22c0247 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -260,6 +260,10 @@ def partitioned_qz(
         lower right submatrix of triangular matrix S
     """
 
+    # an empty pair of matrices has no eigenvalues, all of which are stable
+    if A.size == 0:
+        return (np.zeros(0), *(np.zeros((0, 0)) for _ in range(10)))
+
     S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort='iuc')
 
     with np.errstate(divide='ignore', invalid='ignore'):
-- 
2.43.0


From 70817cd11f7f8817c4228678e8aa70c9685009eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 42/53] fix: OccBin warns when the constraint binds in the
 window's final period

---
 pynare/core/solve/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index dfabe35..5b3fcf5 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -897,7 +897,7 @@ def _locate_regime_changes(vec: np.ndarray):
         )
         warnings.warn(msg, category=RuntimeWarning)
 
-    elif latest_regime[-1]:
+    elif latest_regime[-1] or vec[-1]:
         # use elif so two warnings are not issued
         msg = "increase 'periods': the model ends in the alternative regime"
         warnings.warn(msg, category=RuntimeWarning)
-- 
2.43.0


From 111d675b0441ef1b69dd30f79d3e8e1ee79b7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:32 +0000
Subject: [PATCH 43/53] fix: a name assigned outside the model is not available
 in its own definition

---
 pynare/parsing/semantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 82fdcb2..9b5f644 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -198,10 +198,11 @@ class DynareSemanticAnalyzer(ABCVisitor):
         var_symbol = self.current_scope.lookup(var_name)
 
         if var_symbol is None:
-            # assigning non-model parameters, validating the expression
+            # assigning non-model parameters, validating the expression before
+            #    the name is available
+            self.visit(node.right)
             var_symbol = VarSymbol(var_name, 'non_model')
             self.current_scope.insert(var_symbol)
-            self.visit(node.right)
 
         else:
             # we don't want to assign values to non-parameter values
-- 
2.43.0


From 09c6b5a07c0f7837c9f1f057d23a4f9339fc97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 44/53] fix: a copy keeps the variance of a shock that has none
 set

---
 pynare/core/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index cb86e2b..9fa05d6 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -468,10 +468,12 @@ class DynamicModel(StructuredModel):
             v, r, c = sc.variance, sc.corr, sc.cov
 
             stoch.append(name)
-            sc_dict = {}
+
+            # a variance that isn't mentioned defaults to one, so one that isn't set
+            #   has to be mentioned, too
+            sc_dict = {'variance': v}
 
             if o is not None: sc_dict['other'] = o
-            if v is not None: sc_dict['variance'] = v
             if r is not None: sc_dict['corr'] = r
             if c is not None: sc_dict['cov'] = c
             if sc.pairs: sc_dict['pairs'] = sc.pairs
-- 
2.43.0


From ddf52ea4405b5c654ec2b77e604c0440c043a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:20 +0000
Subject: [PATCH 45/53] fix: second-order table keeps the rows whose
 coefficients are all negative

---
 pynare/io/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index d937d39..b41a4a8 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -480,7 +480,7 @@ class SecondOrderSummary(SolutionSummary):
             thresh = 10**(-(self.sig + self.thresh))
         else:
             thresh = 10**(-self.sig)
-        tloc = ~np.all(arr_dc < thresh, axis=1)
+        tloc = ~np.all(np.absolute(arr_dc) < thresh, axis=1)
 
         # always display steady state and del2 array
         tloc[0] = True
-- 
2.43.0


From 2a626431a58545746ac25bbe35827b1698790d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:20 +0000
Subject: [PATCH 46/53] fix: the threshold of a table selects columns by their
 own numbers

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index b41a4a8..1f6caf4 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -640,14 +640,14 @@ def _summarize_array(
     # optionally select a subset of displayed array
     if thresh is not None:
         thresh_ = 10 ** (-(sig + thresh))
-        pidx = ~np.all(arr < thresh_, axis=1)
+        pidx = ~np.all(np.absolute(arr) < thresh_, axis=0)
     else:
         pidx = np.ones(arr.shape[1], dtype=bool)
 
     # ensure that `labels` is an array so indexing with list works right
     labels = np.array(labels)
 
-    # only select rows that meet threshold
+    # only select columns that meet threshold
     arr, labels = arr[:, pidx], labels[pidx]
 
     # number of points to right and left of decimal. `+3` factors in minus signs
-- 
2.43.0


From 0d260c90533b6a17feb71b2ea4aef294da653501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:20 +0000
Subject: [PATCH 47/53] fix: summaries of models without parameters, shocks or
 nonzero numbers

---
 pynare/io/summary.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 1f6caf4..f9634fc 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -128,11 +128,7 @@ class ModelSummary(Summary):
         r, c, m = np.real(eigs), np.imag(eigs), np.absolute(eigs)
 
         # record number of points to left and right of decimal
-        arr = np.absolute(np.concatenate((r, c, m)))
-        good = (arr > 0) & np.isfinite(arr) & ~np.isnan(arr)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.max(np.log10(arr[good]))) + 3)
+        l = int(np.floor(_max_log10(np.concatenate((r, c, m)))) + 3)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -155,12 +151,10 @@ class ModelSummary(Summary):
         print the covariance matrix of shocks
         """
         stoch = self.obj.stoch.names
-        lpad = max(map(len, stoch)) + 1
+        lpad = max(map(len, stoch), default=0) + 1
 
         # record number of points to left and right of decimal
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.nanmax(np.log10(np.absolute(self.obj.sigma)))) + 3)
+        l = int(np.floor(_max_log10(self.obj.sigma)) + 3)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -189,14 +183,11 @@ class ModelSummary(Summary):
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-        width = max(map(len, display)) + 1
+        width = max(map(len, display), default=0) + 1
         sig, pad = self.sig, self.pad
 
         # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(display.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        l = int(np.fix(_max_log10(list(display.values()))) + 3)
 
         for k, v in display.items():
             row = '= '.join([pad+k.ljust(width), f"{v:{l+sig}.{sig}f}"])
@@ -626,6 +617,17 @@ class SecondOrderSummary(SolutionSummary):
 
 
 
+def _max_log10(arr: np.ndarray):
+    """
+    log, base 10, of the largest number to be displayed. without any finite nonzero
+    number, the width of a zero
+    """
+    arr = np.absolute(np.asarray(arr, dtype=float))
+    arr = arr[(arr > 0) & np.isfinite(arr)]
+    return np.log10(np.max(arr)) if arr.size else 0.
+
+
+
 def _summarize_array(
     arr: np.ndarray,
     labels: Iterable[str],
@@ -651,9 +653,7 @@ def _summarize_array(
     arr, labels = arr[:, pidx], labels[pidx]
 
     # number of points to right and left of decimal. `+3` factors in minus signs
-    with np.errstate(divide='ignore', invalid='ignore'):
-        # locally silence RuntimeWarnings about dividing by zero or infinity
-        l = int(np.fix(np.nanmax(np.log10(np.absolute(arr)))) + 3)
+    l = int(np.fix(_max_log10(arr)) + 3)
 
     # horizontal spacing determined by width of label variable name or float repr
     w = max([l+sig] + [len(lab) for lab in labels]) + 1
-- 
2.43.0


From b022bacadd4405c78a141a5ce71d7b02e6610e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:05 +0000
Subject: [PATCH 48/53] fix: packaged examples are found from any working
 directory

---
 pynare/examples/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pynare/examples/__init__.py b/pynare/examples/__init__.py
index 2d3f698..554d671 100644
--- a/pynare/examples/__init__.py
+++ b/pynare/examples/__init__.py
@@ -1,6 +1,13 @@
 
+from pathlib import Path
+
+
+
 class ExampleRegistry(object):
 
+    # the directory the package is in, which the paths below start from
+    _root = Path(__file__).resolve().parents[2]
+
     _example_models = {
         'simple_rbc': 'pynare/examples/pynare/simple_rbc.mod',
         'simple_linear': 'pynare/examples/pynare/simple_linear.mod',
@@ -16,11 +23,11 @@ class ExampleRegistry(object):
     @classmethod
     def get_example(cls, ex_name):
         try:
-            return cls._example_models[ex_name]
+            return cls._root / cls._example_models[ex_name]
         except KeyError:
             # remove any '.x' from ex_name string and try again
             try:
                 cleaned_name = ex_name.split('.')[0]
-                return cls._example_models[cleaned_name]
+                return cls._root / cls._example_models[cleaned_name]
             except KeyError:
                 raise ValueError(f"unrecognized example name: {ex_name}")
-- 
2.43.0


From 55b0d044daa08e7f556ba156efed8ead332939cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:05 +0000
Subject: [PATCH 49/53] fix: statistics of a model take their arguments by
 position too

---
 pynare/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/stats/stats.py b/pynare/stats/stats.py
index f9c6044..34612aa 100644
--- a/pynare/stats/stats.py
+++ b/pynare/stats/stats.py
@@ -43,7 +43,7 @@ class ModelStatistics(object):
         try:
             func = self.features[attr]
 
-            feature_func = partial(func, md=self.model)
+            feature_func = partial(func, self.model)
             feature_func.__doc__ = func.__doc__
             return feature_func
 
-- 
2.43.0


From abf7f6a04fbc2584d3acb29ccd3023a4067f95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:05 +0000
Subject: [PATCH 50/53] fix: a model is read from a pathlib.Path as from its
 text

---
 pynare/core/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 74c6323..743d319 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -85,6 +85,9 @@ class Model(DynamicModel):
         -------
         Model
         """
+        # a pathlib.Path names the same file as its text does
+        filepath = str(filepath)
+
         try:
             model_definition = read_file(filepath)
         except FileNotFoundError:
-- 
2.43.0


From c33cfc9d0aa6a03158bb33510272dc86d3ba1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:05 +0000
Subject: [PATCH 51/53] fix: an initial point given to a constrained solution
 is not handed on twice

---
 pynare/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 743d319..5f2df3a 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -183,7 +183,7 @@ class Model(DynamicModel):
 
             # occasionally-bound solutions are always conditional on shock paths
             exog, shocks = kwargs.pop('exog', None), kwargs.pop('shocks', 100)
-            init = kwargs.get('init', None)
+            init = kwargs.pop('init', None)
 
             solution = OccBinSolution(
                 self,
-- 
2.43.0


From e6abd2ba5b70e638bb94c4f53a744ad34fe612de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:05 +0000
Subject: [PATCH 52/53] fix: the first-order solution of a model solved under a
 constraint

---
 pynare/core/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 5f2df3a..6c57ddf 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -12,6 +12,7 @@ from pynare.core.solve import (
     OccBinSolution,
     default_order
 )
+from pynare.core.solve.base import LinearSolution
 
 from pynare.stats.stats import ModelStatistics
 from pynare.simul import simulate
@@ -356,6 +357,10 @@ class Model(DynamicModel):
         except AttributeError:
             sol = self.solve(order=default_order)
 
+        if not isinstance(sol, LinearSolution):
+            # e.g. the solution under a constraint, which stays the one of the model
+            return FirstOrderSolution(self).solve()
+
         if sol.order == 1:
             return sol
         elif sol.order == 2:
-- 
2.43.0


From 39085e5fcfd11cc058a248b09f7bc5d3752f233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:46 +0000
Subject: [PATCH 53/53] fix: packaged examples are found from where they are
 read

---
 pynare/examples/__init__.py | 11 ++---------
 pynare/io/files.py          |  8 +++++++-
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/pynare/examples/__init__.py b/pynare/examples/__init__.py
index 554d671..2d3f698 100644
--- a/pynare/examples/__init__.py
+++ b/pynare/examples/__init__.py
@@ -1,13 +1,6 @@
 
-from pathlib import Path
-
-
-
 class ExampleRegistry(object):
 
-    # the directory the package is in, which the paths below start from
-    _root = Path(__file__).resolve().parents[2]
-
     _example_models = {
         'simple_rbc': 'pynare/examples/pynare/simple_rbc.mod',
         'simple_linear': 'pynare/examples/pynare/simple_linear.mod',
@@ -23,11 +16,11 @@ class ExampleRegistry(object):
     @classmethod
     def get_example(cls, ex_name):
         try:
-            return cls._root / cls._example_models[ex_name]
+            return cls._example_models[ex_name]
         except KeyError:
             # remove any '.x' from ex_name string and try again
             try:
                 cleaned_name = ex_name.split('.')[0]
-                return cls._root / cls._example_models[cleaned_name]
+                return cls._example_models[cleaned_name]
             except KeyError:
                 raise ValueError(f"unrecognized example name: {ex_name}")
diff --git a/pynare/io/files.py b/pynare/io/files.py
index e49ff68..feb849d 100644
--- a/pynare/io/files.py
+++ b/pynare/io/files.py
@@ -4,9 +4,15 @@ module for common I/O operations of pynare objects
 
 from __future__ import annotations
 
+from pathlib import Path
+
 from pynare.examples import ExampleRegistry
 
 
+# the paths in `ExampleRegistry` start from the directory the package is in
+_root = Path(__file__).resolve().parents[2]
+
+
 def read_file(
     filepath: Union[str, Path]
 ) -> str:
@@ -44,4 +50,4 @@ def read_example(
     the contents of the example file, as a string
     """
     example_path = ExampleRegistry.get_example(ex_name)
-    return read_file(example_path)
+    return read_file(_root / example_path)
-- 
2.43.0

