From 2d18183a7dbb59860e53a77ed0bbd9ac77643c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 01/30] fix: compiled form of or, not and two-term
 sums/products lacked parentheses

Inside a larger expression Python precedence regrouped the rendered source,
e.g. (x | y) & z compiled to 'x or (y and z)'.
---
 src/satisfy/expression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 0a99ed8..35ac8f2 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -601,7 +601,7 @@ class Or(BinOp):
         return left_value or right_value
 
     def py_expr(self):
-        return "{} or {}".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
+        return "({} or {})".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
 
 
 class Not(UnOp):
@@ -615,7 +615,7 @@ class Not(UnOp):
         return "^{}".format(self._expressions[0])
 
     def py_expr(self):
-        return "not {}".format(self._expressions[0].py_expr())
+        return "(not {})".format(self._expressions[0].py_expr())
 
 
 class Accumulation(Collection):
@@ -683,7 +683,7 @@ class Accumulation(Collection):
         elif len(values) == 1:
             return str(values[0])
         elif len(values) == 2:
-            return "{} {} {}".format(values[0], op, values[1])
+            return "({} {} {})".format(values[0], op, values[1])
         else:
             return "{}([{}])".format(fun, ", ".join(values))
 
-- 
2.43.0


From 3516f701124f4d7d97c1573d656a28ed9ec771d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 02/30] fix: compiled form of negation and abs used the display
 form of the operand

-p for a parameter compiled to an undefined name, abs(x / 2) to a float division,
and (-x) ** 2 to -(x ** 2).
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 35ac8f2..7d8f1ab 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -438,7 +438,7 @@ class Neg(UnOp):
         return "-({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "(-{})".format(self.operand.py_expr())
 
 
 class Abs(UnOp):
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
-- 
2.43.0


From d595c25b8e71ef48c62060dfc45496d183de84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 03/30] fix: negative constants and parameters as compiled base
 of a power

Const(-2) ** x compiled to -(2 ** x).
---
 src/satisfy/expression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 7d8f1ab..ec3828f 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -222,7 +222,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return str(self)
+        return "({})".format(self)
 
     def __add__(self, other):
         if self._value == 0:
@@ -676,7 +676,7 @@ class Accumulation(Collection):
     def _as_str(self, op, fun, convert=str):
         values = []
         if self._const != self.__neutral_element__:
-            values.append(str(self._const))
+            values.append(convert(Const(self._const)))
         values.extend(convert(e) for e in self)
         if len(values) == 0:
             return str(self.__neutral_element__)
@@ -789,4 +789,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return str(self._value)
+        return "({})".format(self._value)
-- 
2.43.0


From 64882d29ee4c16312c78db30deed329a0dd45016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 04/30] fix: variables named sum, prod or abs broke compiled
 expressions

They shadowed the functions used by the rendered source.
---
 src/satisfy/expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ec3828f..cac0202 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -58,7 +58,7 @@ class Expression(abc.ABC):
 
     def compile_py_function(self):
         py_source = self.py_source()
-        return eval(py_source, {'sum': sum, 'prod': prod})
+        return eval(py_source, {'__sum__': sum, '__prod__': prod, '__abs__': abs})
         # def ff(substitution):
         #     print("///", sorted(substitution.items(), key=lambda x: x[0]))
         #     return fn(**substitution)
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return "abs({})".format(self.operand.py_expr())
+        return "__abs__({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
@@ -706,7 +706,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr())
+        return self._as_str(op='+', fun='__sum__', convert=lambda x: x.py_expr())
 
 
 class Prod(Accumulation):
@@ -728,7 +728,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr())
+        return self._as_str(op='*', fun='__prod__', convert=lambda x: x.py_expr())
 
 
 class Variable(Expression):
-- 
2.43.0


From 3aa78d5b76f77c373de17f6a9623113cdbf71664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 05/30] fix: fallback for expressions that cannot be compiled

It was returned with another calling convention than compiled functions, so
solving failed with TypeError for e.g. a variable named 'if' or an expression
nested too deeply for the Python parser. Names that Python would normalise to a
different identifier now take the fallback too.
---
 src/satisfy/expression.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index cac0202..6b51d05 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -58,7 +58,10 @@ class Expression(abc.ABC):
 
     def compile_py_function(self):
         py_source = self.py_source()
-        return eval(py_source, {'__sum__': sum, '__prod__': prod, '__abs__': abs})
+        fn = eval(py_source, {'__sum__': sum, '__prod__': prod, '__abs__': abs})
+        if fn.__code__.co_varnames[:-1] != tuple(self.vars()):
+            raise EvaluationError("variable names are not python identifiers")
+        return fn
         # def ff(substitution):
         #     print("///", sorted(substitution.items(), key=lambda x: x[0]))
         #     return fn(**substitution)
@@ -69,7 +72,7 @@ class Expression(abc.ABC):
             return self.compile_py_function()
         except:
             LOG.exception("compilation of py function failed:")
-        return self.evaluate
+        return lambda **substitution: self.evaluate(substitution)
 
     @abc.abstractmethod
     def py_expr(self):
-- 
2.43.0


From cc969a57c00cc8410237b3feeb79b641da1497cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 06/30] fix: reflected division raised TypeError

10 / x used the // operator, which expressions do not define.
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 6b51d05..28b7294 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -165,10 +165,10 @@ class Expression(abc.ABC):
         return self.coerce(other) * self
 
     def __rdiv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rtruediv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rmod__(self, other):
         return self.coerce(other) % self
-- 
2.43.0


From 4dfa6428b8e4f26b2b5e1bc619800d9f16ab81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 07/30] fix: structural equality ignored operands and
 accumulated constants

(x + y).equals(x + z) was true: == between expressions builds an expression.
---
 src/satisfy/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 28b7294..4424128 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -333,7 +333,7 @@ class Collection(Expression):
         return False
 
     def equals(self, other):
-        return type(self) == type(other) and len(self) == len(other) and all(l_e == r_e for l_e, r_e in zip(self, other))
+        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
 
     def __iter__(self):
         yield from self._expressions
@@ -662,6 +662,9 @@ class Accumulation(Collection):
     def const(self):
         return self._const
 
+    def equals(self, other):
+        return super().equals(other) and self._const == other.const
+
     @classmethod
     @abc.abstractmethod
     def op(cls, start, values):
-- 
2.43.0


From 3429efb150cbd5d8bc193a148b44af083351f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 08/30] fix: Parameter.free_vars did not accept a substitution

---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 4424128..dce8805 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -785,7 +785,7 @@ class Parameter(Variable):
     def value(self, v):
         self._value = v
 
-    def free_vars(self):
+    def free_vars(self, substitution):
         yield from ()
 
     def vars(self):
-- 
2.43.0


From 3a31c84d4901a69334d6fbe55f84972ccaf2023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:01 +0000
Subject: [PATCH 09/30] fix: interpreted & and | evaluated both operands

Compiled code stops at the first decisive operand, so a guard such as
(x != 0) & (y / x > 2) raised ZeroDivisionError only without compilation.
---
 src/satisfy/expression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index dce8805..3d84d88 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -595,6 +595,9 @@ class And(BinOp):
     def _op(self, left_value, right_value):
         return left_value and right_value
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) and self._expressions[1].evaluate(substitution)
+
 
 class Or(BinOp):
     __symbol__ = '|'
@@ -603,6 +606,9 @@ class Or(BinOp):
     def _op(self, left_value, right_value):
         return left_value or right_value
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) or self._expressions[1].evaluate(substitution)
+
     def py_expr(self):
         return "({} or {})".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
 
-- 
2.43.0


From 6cbe994fcb5fa89a9e0b98b494b7acc10180e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 10/30] fix: Model.set_solvable had no effect

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index dc1f2dd..743890a 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -93,7 +93,7 @@ class Model(object):
         return self._variables[name].variable
 
     def set_solvable(self, solvable):
-        self.__unsolvable = True
+        self.__solvable = bool(solvable)
 
     def add_constraint(self, constraint):
         if isinstance(constraint, bool):
-- 
2.43.0


From d21561e8b35873d80b73cbd49727e34f573d3f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 11/30] fix: variable names with a trailing newline were
 accepted

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 743890a..2b3698b 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -27,7 +27,7 @@ VariableInfo = collections.namedtuple("VariableInfo", "variable domain")
 
 
 class Model(object):
-    __re_name__ = re.compile(r'^[a-zA-Z]\w*$')
+    __re_name__ = re.compile(r'^[a-zA-Z]\w*\Z')
 
     def __init__(self):
         self._variables = collections.OrderedDict()
-- 
2.43.0


From 9cbdff47e5e71d605bd109103fea4b944b9f8fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 12/30] fix: objective bounds were not applied to already
 computed domains

Values of a domain computed before the bound was tightened, and objectives over
a single variable, were never checked against the new bound: optimize() could
yield worse solutions and optimal_solution() report them as optimal.
---
 src/satisfy/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 82e525d..a95a578 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -156,7 +156,7 @@ class Solver(object):
         timeout = args.get('timeout', self._timeout)
         limit = args.get('limit', self._limit)
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
-        additional_constraints = args.get('additional_constraints', ())
+        additional_constraints = tuple(args.get('additional_constraints', ()))
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
@@ -267,6 +267,9 @@ class Solver(object):
                 continue
             value = domain.pop(0)
             substitution[var_name] = value
+            if any(constraint.unsatisfied(substitution) for constraint in additional_constraints):
+                # the bound of an objective changed since the domain was computed
+                continue
             if unbound_vars:
                 stack.append((unbound_vars, substitution))
             else:
-- 
2.43.0


From 1c5632655d30fd19db4c69ab52d1c36485b743b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 13/30] fix: a limit of 0 yielded one solution

---
 src/satisfy/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index a95a578..8f5a9ba 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -161,6 +161,9 @@ class Solver(object):
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
         # print("::: additional_constraints=", additional_constraints)
+        if limit is not None and limit <= 0:
+            self._interrupt = "limit"
+            return
         if not model.solvable():
             return
 
-- 
2.43.0


From 22d860895afa361843759420e88fce28ae752be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 14/30] fix: infinite timeout or limit passed to solve() raised
 TypeError

INFINITY was only recognised as a Solver setting.
---
 src/satisfy/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 8f5a9ba..5e51130 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -161,6 +161,10 @@ class Solver(object):
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
         # print("::: additional_constraints=", additional_constraints)
+        if timeout is INFINITY:
+            timeout = None
+        if limit is INFINITY:
+            limit = None
         if limit is not None and limit <= 0:
             self._interrupt = "limit"
             return
-- 
2.43.0


From 7561821314c4ce7d4058ff9e47f736502d8729b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 15/30] fix: elapsed time left out the search after the last
 solution

The timer was never stopped when the search ended or timed out.
---
 src/satisfy/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 5e51130..d254e57 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -235,6 +235,7 @@ class Solver(object):
             if timeout is not None:
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
+                    timer.abort()
                     self._interrupt = "timeout"
                     return
 
@@ -291,6 +292,7 @@ class Solver(object):
                     return
                 timer.start()
                 continue
+        timer.abort()
 
     def _solve_forbidden(self, model, **args):
         timeout = args.get('timeout', self._timeout)
-- 
2.43.0


From 84fe3a0fdf57257c2b0cd3d8da41cfcdaa19abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 16/30] fix: a model without variables has one solution, the
 empty one

The solver yielded nothing, so complete sudoku grids, blank nonograms and empty
graphs had no solution.
---
 src/satisfy/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index d254e57..d80c562 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -214,6 +214,12 @@ class Solver(object):
             var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x]), reverse=True))
 
         if not var_names:
+            if not any(constraint.unsatisfied({}) for constraint in additional_constraints):
+                self._timer.start()
+                self._timer.stop()
+                yield {}
+                if limit == 1:
+                    self._interrupt = "limit"
             return
 
         # print("::: var_names=", var_names)
-- 
2.43.0


From 87d9266f9029797c39eea097c0ccc149e825260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 17/30] fix: solving without compilation reused stale compiled
 constraints

A constraint compiled by an earlier solve kept the parameter values of that time.
---
 src/satisfy/constraint.py | 6 ++++++
 src/satisfy/solver.py     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 74d7931..474b671 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -35,6 +35,9 @@ class Constraint(abc.ABC):
     def compile(self):
         pass
 
+    def uncompile(self):
+        pass
+
     def is_compiled(self):
         return False
 
@@ -68,6 +71,9 @@ class ExpressionConstraint(Constraint):
     def compile(self):
         self._evaluate_function = self._expression.as_function()
 
+    def uncompile(self):
+        self._evaluate_function = None
+
     def evaluate_function(self):
         if self._evaluate_function is None:
             self._evaluate_function = self._expression.as_function()
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index d80c562..0e59906 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -104,6 +104,8 @@ class Solver(object):
         for constraint in itertools.chain(model.constraints(), additional_constraints):
             if compile_constraints:
                 constraint.compile()
+            else:
+                constraint.uncompile()
             c_vars = constraint.vars()
             for var_name in c_vars:
                 if var_name in pure_variables:
-- 
2.43.0


From f6fca833543a2623e4a6a0c0cc1de859477bf58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 18/30] fix: knapsack ignored capacities for weights given as
 an iterator

The iterator was consumed by validation; the constraints then had no terms.
---
 src/satisfy/knapsack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index a8df7b9..9e59980 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -41,6 +41,7 @@ class KnapsackOptimizer(ModelOptimizer):
             ws.append(w)
         if len(ws) < len(values):
             raise ValueError("too few weights")
+        weights = tuple(ws)
         variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]
         constraints = []
         for idx, capacity in enumerate(capacities):
-- 
2.43.0


From b580dc810e23882e4c31a69371087224dcc90aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 19/30] fix: knapsack without items raised AttributeError when
 called

---
 src/satisfy/knapsack.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index 9e59980..a35ca0c 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -1,6 +1,7 @@
 import collections
 
 from .model import Model
+from .expression import Expression
 from .objective import Maximize
 from .solver import ModelOptimizer
 
@@ -19,8 +20,6 @@ class KnapsackOptimizer(ModelOptimizer):
         super().__init__(**args)
         model = self._model
         values = tuple(values)
-        if not values:
-            return
         for value in values:
             if not isinstance(value, int):
                 raise TypeError("{} is not a valid value".format(value))
@@ -59,7 +58,7 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = self._variables
         model = self._model
         solver = self._solver
-        objective = Maximize(sum(var * value for var, value in zip(variables, values)))
+        objective = Maximize(Expression.coerce(sum(var * value for var, value in zip(variables, values))))
         opt_result = solver.optimal_solution(model, objective)
         opt_solution = opt_result.solution
         if opt_solution is not None:
-- 
2.43.0


From 0752762a24331dc779f21f8c65f15a07ccd35385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 20/30] fix: avoid_leading_zeros=False was ignored by
 CryptarithmSolver

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index da5a22d..1595bdf 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -30,7 +30,7 @@ class CryptarithmSolver(ModelSolver):
         variables = {}
         for m in word.finditer(source):
             number = m.group()
-            if not number[0].isdigit():
+            if avoid_leading_zeros and not number[0].isdigit():
                 non_zero_letters.add(number[0])
             begin, end = m.span()
             parts = []
-- 
2.43.0


From 6df5922d6b14f2e9c8d91a0699a14984adf34065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 21/30] fix: sudoku schemas with contradictory givens had
 solutions

---
 src/satisfy/sudoku.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 6235b60..cbcf08c 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -81,6 +81,11 @@ class SudokuSolver(ModelSolver):
                 # print("b[{}]: {}".format(idx, ', '.join(v.name for v in variables)))
                 model.add_all_different_constraint(variables)
 
+        for cells in itertools.chain(row_neighbors, col_neighbors, block_neighbors):
+            givens = [schema[cell.row_index][cell.col_index] for cell in cells if not cell.variables]
+            if len(set(givens)) != len(givens):
+                model.add_constraint(False)
+
         self._matrix = matrix
         self._schema = schema
 
-- 
2.43.0


From 8b644ee6e7591699b1b15644ffa6a3962c0cda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 22/30] fix: sudoku rows of the wrong length raised
 AttributeError or IndexError

---
 src/satisfy/sudoku.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index cbcf08c..f201231 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -29,6 +29,9 @@ class SudokuSolver(ModelSolver):
         schema = tuple(tuple(row) for row in schema)
         if len(schema) != size:
             raise ValueError("wrong row number {}".format(len(schema)))
+        for row in schema:
+            if len(row) != size:
+                raise ValueError("wrong column number {}".format(len(row)))
         matrix = [[None for _ in range(size)] for _ in range(size)]
         row_neighbors = [[] for _ in range(size)]
         col_neighbors = [[] for _ in range(size)]
-- 
2.43.0


From 141cb50d2ca845d89e156eb576d4be439d42fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 23/30] fix: 'satisfy ascii_map_coloring -i FILE' raised
 TypeError

The argument parser already opens the file.
---
 src/satisfy/tool/demo_ascii_map_coloring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/satisfy/tool/demo_ascii_map_coloring.py b/src/satisfy/tool/demo_ascii_map_coloring.py
index 84102b4..d45153f 100644
--- a/src/satisfy/tool/demo_ascii_map_coloring.py
+++ b/src/satisfy/tool/demo_ascii_map_coloring.py
@@ -59,8 +59,7 @@ No input file - using default data:
 """.format(example=source))
         data = source
     else:
-        with open(input_file, "r") as fh:
-            data = fh.read()
+        data = input_file.read()
 
     ascii_map_coloring_solver = AsciiMapColoringSolver(data, colors, timeout=timeout, limit=limit)
     if show_model:
-- 
2.43.0


From ce29aa15ca7a4c2d7d436bff167b258b6302a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 24/30] fix: lower case cryptarithms were printed unsolved

---
 src/satisfy/tool/demo_cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/demo_cryptarithm.py b/src/satisfy/tool/demo_cryptarithm.py
index 6c564ff..5de936a 100644
--- a/src/satisfy/tool/demo_cryptarithm.py
+++ b/src/satisfy/tool/demo_cryptarithm.py
@@ -18,7 +18,7 @@ def default_cryptarithm_source():
 
 
 def print_cryptarithm_solution(solution, source):
-    s = source
+    s = source.upper()
     for key in sorted(solution):
         print("{} = {}".format(key, solution[key]))
         s = s.replace(key, str(solution[key]))
-- 
2.43.0


From dfd9788f6ff3bce9c100e84d135d3bb42897ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 25/30] fix: str() of INFINITY and UNDEFINED raised TypeError

---
 src/satisfy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 647a457..54baa25 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -27,7 +27,7 @@ class _Singleton(object):
         return "{}()".format(self.name())
 
     def __str__(self):
-        return self.name
+        return self.name()
 
 
 class Infinity(_Singleton):
-- 
2.43.0


From 56c690f7f73e59ba01a0ef97e7af922adf80a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 26/30] fix: 'from satisfy.utils import *' raised
 AttributeError

---
 src/satisfy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 54baa25..21bdeb9 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -3,7 +3,7 @@ import time
 
 __all__ = [
     'INFINITY',
-    'InfiniTY',
+    'Infinity',
     'UNDEFINED',
     'Undefined',
     'Timer',
-- 
2.43.0


From 6d3c3d20c24e7f32156c3ad0b76473bb0f79ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:57 +0000
Subject: [PATCH 27/30] fix: the order of cryptarithm solutions (and what a
 limit selects) depended on the hash seed

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index 1595bdf..8abd581 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -63,7 +63,7 @@ class CryptarithmSolver(ModelSolver):
         non_zero_digits = digits[1:]
         variables = {}
         model = self._model
-        for letter in letters:
+        for letter in sorted(letters):
             if letter in non_zero_letters:
                 domain = non_zero_digits
             else:
-- 
2.43.0


From 5d094a5f4164c7709c81823e2553d10c72730b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:25 +0000
Subject: [PATCH 28/30] fix: constraints over a parameter's name were accepted,
 then ignored or crashed the solver

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 2b3698b..f645675 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -112,7 +112,7 @@ class Model(object):
                 LOG.warning("constraint {} is never satisfied - model is marked as not solvable".format(constraint))
                 self.__solvable = False
         for var_name in var_names:
-            if var_name not in self._variables:
+            if var_name not in self._variables or self._variables[var_name].domain is None:
                 raise ValueError("constraint {} depends on undefined variable {}".format(constraint, var_name))
         self._constraints.append(constraint)
 
-- 
2.43.0


From b421d9cb41089bd3e6750943c1dea849c7c28f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:26 +0000
Subject: [PATCH 29/30] fix: parameters of the same name but different values
 are not structurally equal

---
 src/satisfy/expression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 3d84d88..4cf3dc1 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -791,6 +791,9 @@ class Parameter(Variable):
     def value(self, v):
         self._value = v
 
+    def equals(self, other):
+        return super().equals(other) and self._value == other.value
+
     def free_vars(self, substitution):
         yield from ()
 
-- 
2.43.0


From 2a76341235f3bf6d55755f6b64629fab8d003695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:51 +0000
Subject: [PATCH 30/30] fix: constraints passed to a solve over undefined
 variables were ignored

---
 src/satisfy/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 0e59906..bdefda8 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -98,6 +98,10 @@ class Solver(object):
         var_ad_constraints = collections.defaultdict(set)
         var_bounds = {var_name: 0 for var_name in pure_variables}
         var_sizes = {var_name: len(var_info.domain) for var_name, var_info in pure_variables.items()}
+        for constraint in additional_constraints:
+            for var_name in constraint.vars():
+                if var_name not in pure_variables:
+                    raise ValueError("constraint {} depends on undefined variable {}".format(constraint, var_name))
         groups = {}
         var_groups = collections.defaultdict(list)
         compile_constraints = self._compile_constraints
-- 
2.43.0

