From 7cdf1faa35bc6ca9c57dc6d80adb17477301eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 01/92] fix: make the identity of Feedback depend on its ports

---
 src/qnet/algebra/core/circuit_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 87e48bf..6ced2d5 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1221,7 +1221,8 @@ class Feedback(Circuit, Operation):
         self.out_port = int(out_port)
         self.in_port = int(in_port)
         operands = [circuit, ]
-        super().__init__(*operands)
+        super().__init__(
+            *operands, out_port=self.out_port, in_port=self.in_port)
 
     @property
     def kwargs(self):
-- 
2.43.0


From 9b48204f7690d3afebe86d55fb8a35eb05c4d68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 02/92] fix: keep the basis of a SpinSpace in its keyword
 arguments

---
 src/qnet/algebra/library/spin_algebra.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index c9a06ec..2e5dd20 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -88,7 +88,8 @@ class SpinSpace(LocalSpace):
         if dimension <= 1:
             raise ValueError("spin %s must be greater than zero" % spin)
         bottom = -spin
-        if basis is None:
+        default_basis = basis is None
+        if default_basis:
             basis = tuple([
                 SpinIndex._static_render(bottom + n)
                 for n in range(dimension)])
@@ -105,9 +106,12 @@ class SpinSpace(LocalSpace):
         # rewrite the kwargs from super()
         self._kwargs = OrderedDict([
             ('spin', self._spin),
+            ('basis', self._basis),
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
         self._minimal_kwargs = self._kwargs.copy()
+        if default_basis:
+            del self._minimal_kwargs['basis']
         if local_identifiers is None:
             del self._minimal_kwargs['local_identifiers']
         if order_index is None:
-- 
2.43.0


From b0a51e6591024d9ff3f9d1ab9c5d2e0706481c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 03/92] fix: hash scalar multiples of the identity like the
 scalar they equal

---
 src/qnet/algebra/core/operator_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 2478d59..1726a29 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -509,6 +509,8 @@ class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
 
     def __hash__(self):
         # TODO: review, and add this to ScalarTimesQuantumExpression
+        if self.term is IdentityOperator:
+            return hash(self.coeff)  # consistent with __eq__
         return super().__hash__()
 
     def _adjoint(self):
-- 
2.43.0


From fbaa6ce5d6b72032a839cb943d865c8c336baece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 04/92] fix: adjoint of a scalar times a super-operator was
 None

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 26ee67e..4ebf0fc 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -159,7 +159,9 @@ class ScalarTimesSuperOperator(SuperOperator, ScalarTimesQuantumExpression):
     :class:`SuperOperator`"""
 
     def _adjoint(self):
-        pass
+        # the adjoint is defined by the (bilinear) pairing Tr[M (L N)], so the
+        # coefficient is not conjugated
+        return self.coeff * self.term.adjoint()
 
     _rules = OrderedDict()  # see end of module
     simplifications = [match_replace, ]
-- 
2.43.0


From 5770a26b437a52c06deb4f15cb3e58954005e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 05/92] fix: derivative of SPre and SPost raised TypeError

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 4ebf0fc..0ac18a2 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -218,7 +218,7 @@ class SPre(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return SuperOperatorDerivative(self, derivs={sym: 1})
 
     def _adjoint(self):
         return SPost(self.operands[0])
@@ -252,7 +252,7 @@ class SPost(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return SuperOperatorDerivative(self, derivs={sym: 1})
 
     def _adjoint(self):
         return SPre(self.operands[0])
-- 
2.43.0


From e02fd9c26d3c4fda0104365c8ff632fa7bc55d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 06/92] fix: derivative of an operator plus/minus its conjugate
 raised AttributeError

---
 src/qnet/algebra/core/operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 1726a29..1596e93 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -714,7 +714,7 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
 
     def _diff(self, sym):
         return OperatorPlusMinusCC(
-            self.operands._diff(sym), sign=self._sign)
+            self.operand.diff(sym), sign=self._sign)
 
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
-- 
2.43.0


From bf19414de7053d965076bc9939341c5b36250803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 07/92] fix: sign of the imaginary part of matrix elements

---
 src/qnet/algebra/core/matrix_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 6b1ce5a..9efd831 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -231,7 +231,7 @@ class Matrix(Expression):
             A mathematically equivalent way to obtain an imaginary matrix from
             a complex matrix ``M`` is::
 
-                (M.conjugate() - M) / (I * 2)
+                (M - M.conjugate()) / (I * 2)
 
             with same same caveats as :attr:`real`.
         """
@@ -242,7 +242,7 @@ class Matrix(Expression):
             elif hasattr(val, 'as_real_imag'):
                 return val.as_real_imag()[1]
             elif hasattr(val, 'conjugate'):
-                return (val.conjugate() - val) / (2 * I)
+                return (val - val.conjugate()) / (2 * I)
             else:
                 raise NoConjugateMatrix(
                     "Matrix entry %s contains has no defined "
-- 
2.43.0


From 3784474c4bd242b39a92761a2e2df4cfd7a389f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 08/92] fix: return the adjoint of a sum in canonical order

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 386f030..4629819 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -498,7 +498,8 @@ class QuantumPlus(QuantumOperation, metaclass=ABCMeta):
         return sum([o.diff(sym) for o in self.operands], self.__class__._zero)
 
     def _adjoint(self):
-        return self.__class__._plus_cls(*[o.adjoint() for o in self.operands])
+        return self.__class__._plus_cls.create(
+            *[o.adjoint() for o in self.operands])
 
 
 class QuantumTimes(QuantumOperation, metaclass=ABCMeta):
-- 
2.43.0


From 7cecfb2a73235dc49d6460231f709d01232dc0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 09/92] fix: build the adjoint and derivative of commutators in
 canonical form

---
 src/qnet/algebra/core/operator_algebra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 1596e93..07425c4 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -514,7 +514,7 @@ class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
         return super().__hash__()
 
     def _adjoint(self):
-        return ScalarTimesOperator(self.coeff.conjugate(), self.term.adjoint())
+        return self.coeff.conjugate() * self.term.adjoint()
 
 
 class OperatorDerivative(QuantumDerivative, Operator):
@@ -598,11 +598,11 @@ class Commutator(QuantumOperation, Operator):
         return tuple(res)
 
     def _diff(self, sym):
-        return (self.__class__(self.A.diff(sym), self.B) +
-                self.__class__(self.A, self.B.diff(sym)))
+        return (self.__class__.create(self.A.diff(sym), self.B) +
+                self.__class__.create(self.A, self.B.diff(sym)))
 
     def _adjoint(self):
-        return Commutator(self.B.adjoint(), self.A.adjoint())
+        return Commutator.create(self.B.adjoint(), self.A.adjoint())
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
-- 
2.43.0


From a2510439bad66c584dd8e40539a03e3898ddcbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 10/92] fix: free symbols of a derivative evaluated at a plain
 number

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 4629819..d167b49 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -797,7 +797,8 @@ class QuantumDerivative(SingleQuantumOperation):
                     in self.operand.substitute(dummy_map).free_symbols
                     if not isinstance(sym, sympy.Dummy)}
                 for val in self._vals.values():
-                    self._free_symbols.update(val.free_symbols)
+                    self._free_symbols.update(
+                        getattr(val, 'free_symbols', set()))
         return self._free_symbols
 
     @property
-- 
2.43.0


From 292774e9a0b860fb7018d52b7265639c2724a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 11/92] fix: evaluate explicit derivatives at the given values

---
 src/qnet/algebra/core/algebraic_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index d148d69..179e463 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -971,6 +971,6 @@ def derivative_via_diff(cls, ops, kwargs):
             return op.evaluate_at(vals)
         except AttributeError:
             # for explicit Expression
-            return op.substitute(vals)
+            return op.substitute(dict(vals))
     else:
         return op
-- 
2.43.0


From b84a29bdb03c12211a5a7a7431f1573232a8a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 12/92] fix: derivative of a derivative evaluated at an
 expression of the symbol

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index d167b49..7f172eb 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -824,7 +824,8 @@ class QuantumDerivative(SingleQuantumOperation):
         else:
             if not isinstance(sym, sympy.Basic):
                 raise TypeError("%s must be a Sympy symbol" % sym)
-            if sym in self._vals.values():
+            if any(sym.free_symbols & getattr(val, 'free_symbols', set())
+                   for val in self._vals.values()):
                 return self.__class__(self, derivs={sym: 1})
             else:
                 derivs = self._derivs.copy()
-- 
2.43.0


From c8ab41918b856f31e6eac66fe82a3eb8ce2f5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 13/92] fix: derivative of a coherent state with a
 time-dependent phase

---
 src/qnet/algebra/core/state_algebra.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 84c160a..e531035 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -387,12 +387,11 @@ class CoherentStateKet(LocalKet):
         return self._ampl
 
     def _diff(self, sym):
-        from qnet.algebra.library.fock_operators import Destroy, Create
-        hs = self.space
+        from qnet.algebra.library.fock_operators import Create
+        ampl = self._ampl
         return (
-            (self._ampl * Create(hs=hs) -
-             self._ampl.conjugate() * Destroy(hs=hs))
-            .diff(sym)
+            (ampl.diff(sym) * Create(hs=self.space) -
+             (ampl * ampl.conjugate()).diff(sym) / 2)
             * self)
 
     def to_fock_representation(self, index_symbol='n', max_terms=None):
-- 
2.43.0


From 5c5f873ccce445a768a947d148b7b885c88163ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 14/92] fix: derivative of a scalar power with a variable
 exponent

---
 src/qnet/algebra/core/scalar_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 8c1cd82..eb0328b 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1070,6 +1070,8 @@ class ScalarPower(QuantumOperation, Scalar):
 
     def _diff(self, sym):
         inner = self.base._diff(sym)
+        if self.exp.diff(sym) != 0:
+            return ScalarDerivative(self, derivs={sym: 1})
         if inner != 0:
             return (
                 self.exp * ScalarPower.create(self.base, self.exp-1) * inner)
-- 
2.43.0


From f2a7ec32e3b3a6c6c31fac43ba5ddd8f886a01a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 15/92] fix: pseudo-inverse and null space projector do not
 commute with derivatives

---
 src/qnet/algebra/core/operator_algebra.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 07425c4..5ddad81 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -756,6 +756,13 @@ class PseudoInverse(SingleQuantumOperation, Operator):
     def _expand(self):
         return self
 
+    def _diff(self, sym):
+        # not a linear operation: it does not commute with the derivative
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _pseudo_inverse(self):
         return self.operand
 
@@ -786,6 +793,13 @@ class NullSpaceProjector(SingleQuantumOperation, Operator):
     def _expand(self):
         return self
 
+    def _diff(self, sym):
+        # not a linear operation: it does not commute with the derivative
+        return OperatorDerivative(self, derivs={sym: 1})
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _adjoint(self):
         return Adjoint(self)
 
-- 
2.43.0


From 9bd9cdf141f7e8ee4f943e941bb452500437001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 16/92] fix: substitution in derivatives

---
 .../algebra/core/abstract_quantum_algebra.py  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 7f172eb..0db9d60 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -818,6 +818,30 @@ class QuantumDerivative(SingleQuantumOperation):
         """
         return self._n
 
+    def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            if not safe or (type(var_map[self]) == type(self)):
+                return var_map[self]
+        # The symbols of the derivative are placeholders in the operand;
+        # substituting one of them evaluates the derivative
+        inner_map = {
+            key: val for (key, val) in var_map.items()
+            if key not in self._syms}
+        derivs = defaultdict(int)
+        vals = {}
+        for sym, n in self._derivs.items():
+            new_sym = substitute(sym, inner_map)  # e.g., index symbols
+            derivs[new_sym] += n
+            if sym in self._vals:
+                vals[new_sym] = substitute(self._vals[sym], var_map)
+            elif sym in var_map:
+                vals[new_sym] = var_map[sym]
+        new_op = substitute(self.operand, inner_map)
+        if safe:
+            return self.__class__(new_op, derivs=derivs, vals=(vals or None))
+        else:
+            return self.create(new_op, derivs=derivs, vals=(vals or None))
+
     def _diff(self, sym):
         if sym in self._vals.keys():
             return self.__class__._zero
-- 
2.43.0


From 1b9fea9fc1b6dcf409cc3000c7412fc06279d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 17/92] fix: series coefficients of operator-ket and ket-bra
 products

---
 src/qnet/algebra/core/state_algebra.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index e531035..ebfd791 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -523,9 +523,7 @@ class OperatorTimesKet(State, Operation):
     def _series_expand(self, param, about, order):
         ce = self.operator.series_expand(param, about, order)
         te = self.ket.series_expand(param, about, order)
-
-        return tuple(ce[k] * te[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ce, te, order)
 
 
 class StateDerivative(QuantumDerivative, State):
@@ -703,8 +701,7 @@ class KetBra(Operator, Operation):
     def _series_expand(self, param, about, order):
         ke = self.ket.series_expand(param, about, order)
         be = self.bra.series_expand(param, about, order)
-        return tuple(ke[k] * be[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ke, be, order)
 
 
 class KetIndexedSum(State, QuantumIndexedSum):
-- 
2.43.0


From 2c453b2f986abd549bddaa1daeefce016ece618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 18/92] fix: series expansion of the super-operator in a
 super-operator product

---
 src/qnet/algebra/core/super_operator_algebra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 0ac18a2..edc86d2 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -13,7 +13,7 @@ from .abstract_algebra import Operation
 from .abstract_quantum_algebra import (
     ScalarTimesQuantumExpression, QuantumExpression, QuantumSymbol,
     QuantumOperation, QuantumPlus, QuantumTimes, QuantumAdjoint,
-    QuantumDerivative)
+    QuantumDerivative, _series_expand_combine_prod)
 from .algebraic_properties import (
     assoc, filter_neutral, match_replace, match_replace_binary, orderby,
     delegate_to_method, collect_summands)
@@ -299,9 +299,9 @@ class SuperOperatorTimesOperator(Operator, Operation):
         return sum(st * ot for st in sopet for ot in opet)
 
     def _series_expand(self, param, about, order):
-        sop, op = self.sop, self.op
-        ope = op.series_expand(param, about, order)
-        return tuple(sop * opet for opet in ope)
+        sope = self.sop.series_expand(param, about, order)
+        ope = self.op.series_expand(param, about, order)
+        return _series_expand_combine_prod(sope, ope, order)
 
     def _simplify_scalar(self, func):
         sop, op = self.sop, self.op
-- 
2.43.0


From 19fbfbf4ee9e009273ca710905b129203a6c3309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 19/92] fix: keep the sign in the series expansion of an
 operator plus/minus its conjugate

---
 src/qnet/algebra/core/operator_algebra.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 5ddad81..39829db 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -716,6 +716,13 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
         return OperatorPlusMinusCC(
             self.operand.diff(sym), sign=self._sign)
 
+    def _series_expand(self, param, about, order):
+        ope = self.operand.series_expand(param, about, order)
+        return tuple(
+            opet if opet.is_zero else OperatorPlusMinusCC(
+                opet, sign=self._sign)
+            for opet in ope)
+
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
 
-- 
2.43.0


From 7f3b7f2014238f207a6a90335ed209d4d35c4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 20/92] fix: series expansion of a derivative with respect to
 another symbol

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 0db9d60..700b86d 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -1120,12 +1120,7 @@ def _series_expand_combine_prod(c1, c2, order):
 
 
 def _evaluate_at(expr, sym, val):
-    try:
-        # for QuantumDerivative instance
-        return expr.evaluate_at({sym: val})
-    except AttributeError:
-        # for explicit Expression
-        return expr.substitute({sym: val})
+    return expr.substitute({sym: val})
 
 
 def _expand_product(factors):
-- 
2.43.0


From 80cc5429d848e6c79ba1cf34553641e17ef94c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 21/92] fix: series expansion of a derivative raised TypeError

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 700b86d..5b221e3 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -857,6 +857,9 @@ class QuantumDerivative(SingleQuantumOperation):
                 return self.__class__(
                     self.operand, derivs=derivs, vals=self._vals)
 
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _adjoint(self):
         return self.__class__(
             self.operand.adjoint(), derivs=self._derivs, vals=self._vals)
-- 
2.43.0


From 7b574f1984802805f46f3b8b0017e9c47f04f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 22/92] fix: printing the adjoint of identity, derivative,
 pseudo-inverse and super-operator expressions raised TypeError

---
 src/qnet/printing/asciiprinter.py   | 46 +++++++++++++++++++----------
 src/qnet/printing/latexprinter.py   | 27 +++++++++--------
 src/qnet/printing/unicodeprinter.py |  9 +++---
 3 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c014574..ccc6da9 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -308,10 +308,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
             return self._render_op(identifier, expr._hs, dagger=adjoint)
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "1"
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return "0"
 
     def _print_ScalarValue(self, expr, **kwargs):
@@ -418,17 +418,27 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_OperatorPlusMinusCC(self, expr):
+    def _print_OperatorPlusMinusCC(self, expr, adjoint=False):
         prec = precedence(expr)
         o = expr.operand
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         sign_str = ' + '
         if expr._sign < 0:
             sign_str = ' - '
-        return self.parenthesize(o, prec) + sign_str + "c.c."
+        return self.parenthesize(o, prec, **kwargs) + sign_str + "c.c."
 
-    def _print_PseudoInverse(self, expr):
+    def _render_adjoint(self, rendered):
+        """Render the adjoint of an already rendered expression"""
+        return (
+            self._parenth_left + rendered + self._parenth_right + "^" +
+            self._dagger_sym)
+
+    def _print_PseudoInverse(self, expr, adjoint=False):
         prec = precedence(expr)
-        return self.parenthesize(expr.operand, prec) + "^+"
+        res = self.parenthesize(expr.operand, prec) + "^+"
+        return self._render_adjoint(res) if adjoint else res
 
     def _print_NullSpaceProjector(self, expr, adjoint=False):
         null_space_proj_sym = 'P_Ker'
@@ -707,10 +717,10 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 self._parenth_right)
         return res
 
-    def _print_IdentitySuperOperator(self, expr, superop=True):
+    def _print_IdentitySuperOperator(self, expr, adjoint=False, superop=True):
         return "1"
 
-    def _print_ZeroSuperOperator(self, expr, superop=True):
+    def _print_ZeroSuperOperator(self, expr, adjoint=False, superop=True):
         return "0"
 
     def _print_SuperOperatorPlus(self, expr, adjoint=False, superop=True):
@@ -735,24 +745,27 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_SPre(self, expr, superop=True):
-        return (
+    def _print_SPre(self, expr, adjoint=False, superop=True):
+        res = (
             "SPre" + self._parenth_left + self.doprint(expr.operands[0]) +
             self._parenth_right)
+        return self._render_adjoint(res) if adjoint else res
 
-    def _print_SPost(self, expr, superop=True):
-        return (
+    def _print_SPost(self, expr, adjoint=False, superop=True):
+        res = (
             "SPost" + self._parenth_left + self.doprint(expr.operands[0]) +
             self._parenth_right)
+        return self._render_adjoint(res) if adjoint else res
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return "%s[%s]" % (cs, ct)
+        res = "%s[%s]" % (cs, ct)
+        return self._render_adjoint(res) if adjoint else res
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, **kwargs):
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -762,7 +775,8 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 res += "D_%s " % sym_str
             else:
                 res += "D_%s^%s " % (sym_str, n)
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index e2c228b..276dbcb 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -267,38 +267,41 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         return r'\mathcal{{H}}_{{{label}}}'.format(
             label=self._render_hs_label(expr))
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return self._settings['tex_identity_sym']
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return r'\mathbb{0}'
 
-    def _print_ZeroSuperOperator(self, expr):
+    def _print_ZeroSuperOperator(self, expr, adjoint=False, superop=True):
         return r'\mathbb{0}'
 
-    def _print_IdentitySuperOperator(self, expr):
+    def _print_IdentitySuperOperator(self, expr, adjoint=False, superop=True):
         return self._settings['tex_identity_sym']
 
-    def _print_SPre(self, expr, superop=True):
+    def _print_SPre(self, expr, adjoint=False, superop=True):
         name = self._settings['tex_textsop_macro'].format(name='SPre')
-        return (
+        res = (
             name + self._parenth_left + self.doprint(expr.operands[0]) +
             self._parenth_right)
+        return self._render_adjoint(res) if adjoint else res
 
-    def _print_SPost(self, expr, superop=True):
+    def _print_SPost(self, expr, adjoint=False, superop=True):
         name = self._settings['tex_textsop_macro'].format(name='SPost')
-        return (
+        res = (
             name + self._parenth_left + self.doprint(expr.operands[0]) +
             self._parenth_right)
+        return self._render_adjoint(res) if adjoint else res
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return r'%s\left[%s\right]' % (cs, ct)
+        res = r'%s\left[%s\right]' % (cs, ct)
+        return self._render_adjoint(res) if adjoint else res
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, **kwargs):
         res = ""
         numerator = r'\partial'
         if expr.n > 1:
@@ -314,7 +317,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         denominator = " ".join(denominators)
         res += r'\frac{%s}{%s}' % (numerator, denominator)
         res += " " + self.parenthesize(
-            expr.operand, PRECEDENCE['Mul'], strict=True)
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             res = r'\left. ' + res
             evaluation_strs = []
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 789d091..320a85f 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -170,13 +170,13 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
         return render_unicode_sub_super(
             'ℌ', subs=[self._render_hs_label(expr)])
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "𝟙"
 
-    def _print_IdentitySuperOperator(self, expr, superop=True):
+    def _print_IdentitySuperOperator(self, expr, adjoint=False, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, **kwargs):
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -190,7 +190,8 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
             res += (render_unicode_sub_super(
                 '∂', subs, supers, sub_first=True, translate_symbols=True,
                 unicode_sub_super=self._settings['unicode_sub_super']) + " ")
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
-- 
2.43.0


From 9b18978c83ed60cd9756538af051c92e8d32d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 23/92] fix: do not print the adjoint of a transition operator
 both exchanged and daggered

---
 src/qnet/printing/asciiprinter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index ccc6da9..4a7b239 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -306,7 +306,8 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     identifier = "%s_%s,%s" % (expr.identifier, expr.k, expr.j)
                 else:
                     identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
-            return self._render_op(identifier, expr._hs, dagger=adjoint)
+            # the adjoint is fully expressed by the exchanged labels
+            return self._render_op(identifier, expr._hs)
 
     def _print_IdentityOperator(self, expr, adjoint=False):
         return "1"
-- 
2.43.0


From b13b5ab59ea946841fdfd5ee06ebd0876d3378fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 24/92] fix: print the adjoint of a product in reversed order

---
 src/qnet/printing/asciiprinter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 4a7b239..1dee68a 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -382,8 +382,11 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
     def _print_QuantumTimes(self, expr, **kwargs):
         prec = precedence(expr)
+        operands = expr.operands
+        if kwargs.get('adjoint', False):
+            operands = reversed(operands)
         return self._spaced_product_sym.join(
-            [self.parenthesize(op, prec, **kwargs) for op in expr.operands])
+            [self.parenthesize(op, prec, **kwargs) for op in operands])
 
     def _print_Commutator(self, expr, adjoint=False):
         res = "[" + self.doprint(expr.A) + ", " + self.doprint(expr.B) + "]"
-- 
2.43.0


From 3959c2f5ea094639f9151e597918158cdc8a2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 25/92] fix: print the arguments of the adjoint of a symbol

---
 src/qnet/printing/asciiprinter.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 1dee68a..6c6a5e9 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -404,16 +404,9 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
     def _print_Adjoint(self, expr, adjoint=False):
         o = expr.operand
-        if self._isinstance(o, 'LocalOperator'):
-            if adjoint:
-                dagger = o._dagger
-            else:
-                dagger = not o._dagger
-            return self._render_op(
-                o.identifier, hs=o.space, dagger=dagger, args=o.args[1:])
-        elif self._isinstance(o, 'OperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint))
+        if (self._isinstance(o, 'LocalOperator') or
+                self._isinstance(o, 'OperatorSymbol')):
+            return self.doprint(o, adjoint=(not adjoint))
         else:
             if adjoint:
                 return self.doprint(o)
@@ -739,8 +732,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
     def _print_SuperAdjoint(self, expr, adjoint=False, superop=True):
         o = expr.operand
         if self._isinstance(o, 'SuperOperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint), superop=True)
+            return self.doprint(o, adjoint=(not adjoint))
         else:
             if adjoint:
                 return self.doprint(o)
-- 
2.43.0


From e90b815a3cedc66e8bb2ffa64e34a01cf5716b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 26/92] fix: printing an index range with a step raised
 TypeError

---
 src/qnet/printing/asciiprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index 6c6a5e9..bd32f4f 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -603,7 +603,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             bottom_index = self.doprint(expr.index_symbol)
             bottom_rhs = "=%s" % expr.start_from
             if abs(expr.step) > 1:
-                bottom_rhs += ", %s" % expr.start_from + expr.step
+                bottom_rhs += ", %s" % (expr.start_from + expr.step)
                 bottom_rhs += ", " + self._ellipsis
             if which == 'bottom_index':
                 return bottom_index
-- 
2.43.0


From 03685ce404454db6c1aaec9d5f64c5e81acf5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 27/92] fix: subscript Hilbert space label of a bra in LaTeX

---
 src/qnet/printing/latexprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index 276dbcb..c6fe785 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -119,7 +119,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
                     True:
                         r'\left\langle {label} \right\rvert^{{({space})}}',
                     'subscript':
-                        r'\left\langle {label} \right\rvert^{{({space})}}',
+                        r'\left\langle {label} \right\rvert_{{({space})}}',
                     False:
                         r'\left\langle {label} \right\rvert'},
                 'ket': {
-- 
2.43.0


From c6dcc37420b0b86f84a0d22387a284945fc94d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 28/92] fix: differentiate through evaluation points before
 treating the symbol as evaluated

---
 .../algebra/core/abstract_quantum_algebra.py  | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 5b221e3..97ca6e9 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -843,19 +843,18 @@ class QuantumDerivative(SingleQuantumOperation):
             return self.create(new_op, derivs=derivs, vals=(vals or None))
 
     def _diff(self, sym):
-        if sym in self._vals.keys():
+        if not isinstance(sym, sympy.Basic):
+            raise TypeError("%s must be a Sympy symbol" % sym)
+        if any(sym.free_symbols & getattr(val, 'free_symbols', set())
+               for val in self._vals.values()):
+            return self.__class__(self, derivs={sym: 1})
+        elif sym in self._vals.keys():
             return self.__class__._zero
         else:
-            if not isinstance(sym, sympy.Basic):
-                raise TypeError("%s must be a Sympy symbol" % sym)
-            if any(sym.free_symbols & getattr(val, 'free_symbols', set())
-                   for val in self._vals.values()):
-                return self.__class__(self, derivs={sym: 1})
-            else:
-                derivs = self._derivs.copy()
-                derivs[sym] += 1
-                return self.__class__(
-                    self.operand, derivs=derivs, vals=self._vals)
+            derivs = self._derivs.copy()
+            derivs[sym] += 1
+            return self.__class__(
+                self.operand, derivs=derivs, vals=self._vals)
 
     def _series_expand(self, param, about, order):
         return QuantumExpression._series_expand(self, param, about, order)
-- 
2.43.0


From 7e63931ac1f12bec05594a4d4bd0dfb1483f49ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 29/92] fix: expanding the adjoint of an expression that
 expands to a sum raised AttributeError

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 97ca6e9..4317fd3 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -463,7 +463,7 @@ class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         eo = self.operand.expand()
         if isinstance(eo, self.__class__._plus_cls):
-            summands = [eoo.adjoin() for eoo in eo.operands]
+            summands = [eoo.adjoint() for eoo in eo.operands]
             return self.__class__._plus_cls.create(*summands)
         return eo.adjoint()
 
-- 
2.43.0


From 9780f4641864c3f554fd8c80fb92a2039b95381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 30/92] fix: expand the operator when distributing it over a
 sum of states

---
 src/qnet/algebra/core/state_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index ebfd791..03fff89 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -510,7 +510,7 @@ class OperatorTimesKet(State, Operation):
                             for eto in et.operands
                             for cto in ct.operands), ZeroKet)
             else:
-                return sum((c * eto for eto in et.operands), ZeroKet)
+                return sum((ct * eto for eto in et.operands), ZeroKet)
         elif isinstance(ct, OperatorPlus):
             return sum((cto * et for cto in ct.operands), ZeroKet)
         return ct * et
-- 
2.43.0


From 014c4581747aaf2299435897f04f9053ec7c8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 31/92] fix: keep the index ranges in the series expansion of
 an indexed sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 4317fd3..b06f36e 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -881,6 +881,11 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _diff(self, sym):
         return self.__class__.create(self.term.diff(sym), *self.ranges)
 
+    def _series_expand(self, param, about, order):
+        terms = self.term.series_expand(param, about, order)
+        return tuple(
+            self.__class__.create(term, *self.ranges) for term in terms)
+
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-- 
2.43.0


From fbff67912275c9da6bc0e564ca04f65e1d39f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 32/92] fix: simplify_scalar of an indexed sum keeps the index
 ranges

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index b06f36e..13b6ca9 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -875,6 +875,10 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         return self.__class__.create(self.term.expand(), *self.ranges)
 
+    def _simplify_scalar(self, func):
+        return self.__class__.create(
+            self.term.simplify_scalar(func=func), *self.ranges)
+
     def _adjoint(self):
         return self.__class__.create(self.term.adjoint(), *self.ranges)
 
-- 
2.43.0


From 4c5adbaee2453c53e661c0a32a3722f70109c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 33/92] fix: simplify_scalar reaches kets, bras and their
 products

---
 src/qnet/algebra/core/state_algebra.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 03fff89..838675f 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -10,7 +10,7 @@ from itertools import product as cartesian_product
 import sympy
 
 from .abstract_algebra import Expression, Operation
-from .scalar_algebra import is_scalar
+from .scalar_algebra import Scalar, is_scalar
 from .abstract_quantum_algebra import (
     ScalarTimesQuantumExpression, QuantumExpression, QuantumSymbol,
     QuantumPlus, QuantumTimes, QuantumAdjoint, QuantumIndexedSum,
@@ -394,6 +394,14 @@ class CoherentStateKet(LocalKet):
              (ampl * ampl.conjugate()).diff(sym) / 2)
             * self)
 
+    def _simplify_scalar(self, func):
+        ampl = self._ampl
+        if isinstance(ampl, sympy.Basic):
+            ampl = func(ampl)
+        elif isinstance(ampl, Scalar):
+            ampl = ampl.simplify_scalar(func=func)
+        return self.create(ampl, hs=self.space)
+
     def to_fock_representation(self, index_symbol='n', max_terms=None):
         """Return the coherent state written out as an indexed sum over Fock
         basis states"""
@@ -500,6 +508,11 @@ class OperatorTimesKet(State, Operation):
     def ket(self):
         return self.operands[1]
 
+    def _simplify_scalar(self, func):
+        return (
+            self.operator.simplify_scalar(func=func) *
+            self.ket.simplify_scalar(func=func))
+
     def _expand(self):
         c, t = self.operands
         ct = c.expand()
@@ -628,6 +641,10 @@ class BraKet(ScalarExpression, Operation):
     def _adjoint(self):
         return BraKet.create(*reversed(self.operands))
 
+    def _simplify_scalar(self, func):
+        return self.create(
+            *[o.simplify_scalar(func=func) for o in self.operands])
+
     def _expand(self):
         b, k = self.operands
         be, ke = b.expand(), k.expand()
@@ -688,6 +705,10 @@ class KetBra(Operator, Operation):
             self.__class__.create(ket.diff(sym), bra) +
             self.__class__.create(ket, bra.diff(sym)))
 
+    def _simplify_scalar(self, func):
+        return self.create(
+            *[o.simplify_scalar(func=func) for o in self.operands])
+
     def _expand(self):
         k, b = self.ket, self.bra.ket
         be, ke = b.expand(), k.expand()
-- 
2.43.0


From 8cf9319eb3a07f91f9eec987b978e0decce2de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 34/92] fix: rendering a FockLabel uses the substituted Hilbert
 space

---
 src/qnet/utils/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 75e5df0..3746e41 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -317,7 +317,7 @@ class FockLabel(StrLabel):
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
         else:
-            return self._render(new_expr)
+            return new_hs.basis_labels[int(new_expr)]
 
 
 @immutable_attribs
-- 
2.43.0


From 53ddb1ead4b7b4afa636125c2539138cd102ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 35/92] fix: simplify_scalar simplifies a coefficient that is
 not a plain value

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 13b6ca9..090c52d 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -633,13 +633,8 @@ class ScalarTimesQuantumExpression(
 
     def _simplify_scalar(self, func):
         coeff, term = self.operands
-        try:
-            if isinstance(coeff.val, sympy.Basic):
-                coeff = func(coeff)
-        except AttributeError:
-            # coeff is not a SymPy ScalarValue; leave it unchanged
-            pass
-        return coeff * term.simplify_scalar(func=func)
+        return (
+            coeff.simplify_scalar(func=func) * term.simplify_scalar(func=func))
 
     def __complex__(self):
         if self.term is self.__class__._one:
-- 
2.43.0


From 1c81284c2eadeaabc226ed943513d92699a066eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 36/92] fix: render symbolic labels in the symbol for a
 LocalSigma

---
 src/qnet/printing/asciiprinter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index bd32f4f..14a404c 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -299,13 +299,16 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     label_j=self._render_state_label(expr.k),
                     space=self._render_hs_label(expr.space))
         else:
+            # labels may be symbolic (and thus have to be rendered)
+            render_label = QnetAsciiDefaultPrinter()._render_state_label
+            j, k = render_label(expr.j), render_label(expr.k)
             if expr.j == expr.k:
-                identifier = "%s_%s" % (expr._identifier_projector, expr.j)
+                identifier = "%s_%s" % (expr._identifier_projector, j)
             else:
                 if adjoint:
-                    identifier = "%s_%s,%s" % (expr.identifier, expr.k, expr.j)
+                    identifier = "%s_%s,%s" % (expr.identifier, k, j)
                 else:
-                    identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
+                    identifier = "%s_%s,%s" % (expr.identifier, j, k)
             # the adjoint is fully expressed by the exchanged labels
             return self._render_op(identifier, expr._hs)
 
-- 
2.43.0


From 0ec760a22cdbfe340a1f646fba90e7f338806b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 37/92] fix: indented srepr of a matrix leaked one level of
 indentation

---
 src/qnet/printing/sreprprinter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 4a1d9ae..4719666 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -121,6 +121,7 @@ class IndentedSReprPrinter(QnetBasePrinter):
                     lines.append(self.doprint(val) + ",")
                 lines[-1] = lines[-1][:-1]
                 lines.append(indent_str + '],')
+            self._print_level -= 1
             lines[-1] = lines[-1][:-1] + "], dtype=%s)" % str(expr.dtype)
             return "\n".join(lines)
         else:
-- 
2.43.0


From 814706b35f8171a8bbbb5b7aaffaf12df3b3f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 38/92] fix: indented srepr of a matrix without columns was not
 well-formed

---
 src/qnet/printing/sreprprinter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/sreprprinter.py b/src/qnet/printing/sreprprinter.py
index 4719666..842e985 100644
--- a/src/qnet/printing/sreprprinter.py
+++ b/src/qnet/printing/sreprprinter.py
@@ -119,7 +119,8 @@ class IndentedSReprPrinter(QnetBasePrinter):
                 lines.append(indent_str + '[')
                 for val in row:
                     lines.append(self.doprint(val) + ",")
-                lines[-1] = lines[-1][:-1]
+                if len(row) > 0:
+                    lines[-1] = lines[-1][:-1]
                 lines.append(indent_str + '],')
             self._print_level -= 1
             lines[-1] = lines[-1][:-1] + "], dtype=%s)" % str(expr.dtype)
-- 
2.43.0


From f733eed06185f1abf90026f4e406f9d35e453a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:39 +0000
Subject: [PATCH 39/92] fix: scalar subtraction with One was an addition

---
 src/qnet/algebra/core/scalar_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index eb0328b..29c0ab6 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -428,7 +428,7 @@ class ScalarValue(Scalar):
         elif isinstance(other, self._val_types):
             return self.create(other - self.val)
         else:
-            return super().__radd__(other)  # other == 0
+            return super().__rsub__(other)  # other == 0
 
     def __rmul__(self, other):
         if isinstance(other, self._val_types):
@@ -749,7 +749,7 @@ class One(Scalar, metaclass=Singleton):
         elif other == 1:
             return Zero
         else:
-            return super().__add__(other)
+            return super().__sub__(other)
 
     def __mul__(self, other):
         if isinstance(other, self._val_types):
@@ -799,7 +799,7 @@ class One(Scalar, metaclass=Singleton):
         if isinstance(other, self._val_types):
             return ScalarValue.create(other - 1)
         else:
-            return super().__radd__(other)
+            return super().__rsub__(other)
 
     __rfloordiv = __rtruediv__ = __rmul__ = __rpow__ = __mul__
 
-- 
2.43.0


From 2e5a879d56d8215dacbf82beb2a50681719be26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 40/92] fix: true and floor division of the scalar One

---
 src/qnet/algebra/core/scalar_algebra.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 29c0ab6..5b0f001 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -771,7 +771,7 @@ class One(Scalar, metaclass=Singleton):
         elif isinstance(other, self._val_types):
             return ScalarValue.create(1 / other)
         else:
-            return super().__floordiv__(other)
+            return super().__truediv__(other)
 
     def __mod__(self, other):
         if isinstance(other, ScalarValue):
@@ -801,7 +801,13 @@ class One(Scalar, metaclass=Singleton):
         else:
             return super().__rsub__(other)
 
-    __rfloordiv = __rtruediv__ = __rmul__ = __rpow__ = __mul__
+    __rtruediv__ = __rmul__ = __rpow__ = __mul__
+
+    def __rfloordiv__(self, other):
+        if isinstance(other, self._val_types):
+            return ScalarValue.create(other // 1)
+        else:
+            return super().__rfloordiv__(other)
 
     def __rmod__(self, other):
         if isinstance(other, self._val_types):
-- 
2.43.0


From 091cf5ffb064308bc277779f6368731b2238c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 41/92] fix: floor division of a scalar by 1 did not terminate

---
 src/qnet/algebra/core/scalar_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 5b0f001..187a2db 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -75,7 +75,7 @@ class Scalar(QuantumExpression, metaclass=ABCMeta):
         return super().__mul__(other)
 
     def __floordiv__(self, other):
-        if other == 1:
+        if other is One:
             return self // 1  # Note: 3.5 // 1 == 3.0 != 3.5; -> NOT self
         elif other == 0:
             raise ZeroDivisionError("integer division or modulo by zero")
-- 
2.43.0


From 30e7fe579b995707c636e5e2e87d6b4de84ed72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 42/92] fix: power of an expression with an integer-valued
 float

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 090c52d..6804adb 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -282,7 +282,7 @@ class QuantumExpression(Expression, metaclass=ABCMeta):
             if other_is_int:
                 if other > 1:
                     return self.__class__._times_cls.create(
-                        *[self for _ in range(other)])
+                        *[self for _ in range(int(other))])
                 elif other < 1:
                     return 1 / self**(-other)
                 else:
-- 
2.43.0


From afbc93eee976cf716b6848d851097b779d2554c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 43/92] fix: NameError in product of indexed sums due to a typo

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 6804adb..26595fe 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -897,7 +897,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
+            return self.__class__._scalar_times_expr_cls(
                 other.coeff, self * other.term)
         else:
             sum = self.make_disjunct_indices(*other.bound_symbols)
@@ -917,7 +917,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
+            return self.__class__._scalar_times_expr_cls(
                 other.coeff, other.term * self)
         else:
             sum = self.make_disjunct_indices(*other.bound_symbols)
-- 
2.43.0


From 1f2b26e83f1c75d233cd4ea159074abdcfbe7d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 44/92] fix: bound symbols of a nested indexed sum include
 those of its summand

---
 src/qnet/algebra/core/indexed_operations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9c95a0e..f813cec 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -54,18 +54,20 @@ class IndexedSum(Operation, metaclass=ABCMeta):
 
     @property
     def bound_symbols(self):
-        """Set of bound variables, i.e. the index variable symbols
+        """Set of bound variables, i.e. the index variable symbols, and any
+        bound symbols inside of the summand
 
-        See also :property:`variables` for an ordered list of the same symbols
+        See also :property:`variables` for an ordered list of the index
+        variable symbols
         """
-        return set(self.variables)
+        return set(self.variables) | self.term.bound_symbols
 
     @property
     def free_symbols(self):
         """Set of all free symbols"""
         return set([
             sym for sym in self.term.free_symbols
-            if sym not in self.bound_symbols])
+            if sym not in self.variables])
 
     @property
     def kwargs(self):
-- 
2.43.0


From 3e9f1944cf3c1259fce82e9ba7e2c565027b4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 45/92] fix: capture of index symbols in products with indexed
 sums

---
 .../algebra/core/abstract_quantum_algebra.py  | 10 ++--
 src/qnet/algebra/core/indexed_operations.py   | 56 ++++++++++++-------
 src/qnet/algebra/core/state_algebra.py        | 23 ++++----
 3 files changed, 53 insertions(+), 36 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 26595fe..193dbc9 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -18,7 +18,7 @@ from sympy import Symbol, sympify
 from .hilbert_space_algebra import ProductSpace, LocalSpace, TrivialSpace
 from .abstract_algebra import Operation, Expression, substitute
 from .algebraic_properties import derivative_via_diff
-from .indexed_operations import IndexedSum
+from .indexed_operations import IndexedSum, _disjunct_factors
 from ...utils.ordering import (
     DisjunctCommutativeHSOrder, FullCommutativeHSOrder, KeyTuple, )
 from ...utils.indices import (
@@ -888,7 +888,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            other = other.make_disjunct_indices(self)
+            self, other = _disjunct_factors(self, other)
             new_ranges = self.ranges + other.ranges
             new_term = self.term * other.term
             # note that class may change, depending on type of new_term
@@ -900,7 +900,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return self.__class__._scalar_times_expr_cls(
                 other.coeff, self * other.term)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(other)
             new_term = sum.term * other
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
@@ -908,7 +908,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __rmul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            self_new = self.make_disjunct_indices(other)
+            other, self_new = _disjunct_factors(other, self)
             new_ranges = other.ranges + self_new.ranges
             new_term = other.term * self_new.term
             # note that class may change, depending on type of new_term
@@ -920,7 +920,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
             return self.__class__._scalar_times_expr_cls(
                 other.coeff, other.term * self)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(other)
             new_term = other * sum.term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index f813cec..1be45ce 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -11,6 +11,20 @@ from ...utils.indices import (
 __all__ = ["IndexedSum"]
 
 
+def _index_symbols(expr):
+    """Set of all index symbols in `expr`, whether free or bound"""
+    return {sym for sym in expr.all_symbols if isinstance(sym, IdxSym)}
+
+
+def _disjunct_factors(left, right):
+    """Copies of two indexed sums `left` and `right` such that the product of
+    their terms may be taken: no index of one of them occurs (free or bound) in
+    the other one"""
+    left = left.make_disjunct_indices(
+        *[sym for sym in right.free_symbols if isinstance(sym, IdxSym)])
+    return left, right.make_disjunct_indices(left)
+
+
 class IndexedSum(Operation, metaclass=ABCMeta):
     """Base class for indexed sums"""
 
@@ -199,12 +213,12 @@ class IndexedSum(Operation, metaclass=ABCMeta):
 
         Each element in `others` may be an index symbol (:class:`.IdxSym`),
         a index-range object (:class:`.IndexRangeBase`) or list of index-range
-        objects, or an indexed operation (something with a ``ranges`` attribute)
+        objects, or an expression (all of its index symbols, free or bound)
 
-        Each index symbol is primed until it does not match any index symbol in
-        `others`.
+        Each index symbol that occurs in `others` is primed until it does not
+        match any index symbol in `others`, nor any index symbol that already
+        occurs in the sum itself.
         """
-        new = self
         other_index_symbols = set()
         for other in others:
             try:
@@ -212,32 +226,32 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                     other_index_symbols.add(other)
                 elif isinstance(other, IndexRangeBase):
                     other_index_symbols.add(other.index_symbol)
-                elif hasattr(other, 'ranges'):
-                    other_index_symbols.update(
-                        [r.index_symbol for r in other.ranges])
+                elif isinstance(other, Expression):
+                    other_index_symbols.update(_index_symbols(other))
                 else:
                     other_index_symbols.update(
                         [r.index_symbol for r in other])
             except AttributeError:
                 raise ValueError(
                     "Each element of other must be an an instance of IdxSym, "
-                    "IndexRangeBase, an object with a `ranges` attribute "
-                    "with a list of IndexRangeBase instances, or a list of"
+                    "IndexRangeBase, an Expression, or a list of "
                     "IndexRangeBase objects.")
-        for r in self.ranges:
-            index_symbol = r.index_symbol
-            modified = False
-            while index_symbol in other_index_symbols:
-                modified = True
-                index_symbol = index_symbol.incr_primed()
-            if modified:
-                new = new._substitute(
-                    {r.index_symbol: index_symbol}, safe=True)
-        return new
+        var_map = {}
+        taken = other_index_symbols | _index_symbols(self)
+        for index_symbol in self.variables:
+            if index_symbol in other_index_symbols:
+                new_symbol = index_symbol
+                while new_symbol in taken:
+                    new_symbol = new_symbol.incr_primed()
+                taken.add(new_symbol)
+                var_map[index_symbol] = new_symbol
+        if len(var_map) == 0:
+            return self
+        return self._substitute(var_map, safe=True)
 
     def __mul__(self, other):
         if isinstance(other, IndexedSum):
-            other = other.make_disjunct_indices(self)
+            self, other = _disjunct_factors(self, other)
             new_ranges = self.ranges + other.ranges
             return self.__class__.create(self.term * other.term, *new_ranges)
         try:
@@ -247,7 +261,7 @@ class IndexedSum(Operation, metaclass=ABCMeta):
 
     def __rmul__(self, other):
         if isinstance(other, IndexedSum):
-            self = self.make_disjunct_indices(other)
+            other, self = _disjunct_factors(other, self)
             new_ranges = other.ranges + self.ranges
             return self.__class__.create(other.term * self.term, *new_ranges)
         try:
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 838675f..23aac6b 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -21,6 +21,7 @@ from .algebraic_properties import (
     collect_summands)
 from .exceptions import OverlappingSpaces, UnequalSpaces, SpaceTooLargeError
 from .hilbert_space_algebra import FullSpace, TrivialSpace
+from .indexed_operations import _disjunct_factors
 from qnet.algebra.core.algebraic_properties import (
     indexed_sum_over_const,
     indexed_sum_over_kronecker)
@@ -109,32 +110,34 @@ class State(QuantumExpression, metaclass=ABCMeta):
                 # Ket * Bra
                 is_sum = check_if_sum(self, other.ket)
                 if is_sum == [True, True]:
-                    other_ket = other.ket.make_disjunct_indices(self)
-                    new_term = self.term * Bra(other_ket.term)
-                    new_ranges = self.ranges + other_ket.ranges
+                    ket, other_ket = _disjunct_factors(self, other.ket)
+                    new_term = ket.term * Bra(other_ket.term)
+                    new_ranges = ket.ranges + other_ket.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
                     return QuantumIndexedSum.__mul__(self, other)
                 elif is_sum == [False, True]:
-                    new_term = self * Bra(other.ket.term)
+                    other_ket = other.ket.make_disjunct_indices(self)
+                    new_term = self * Bra(other_ket.term)
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *other.ket.ranges)
+                        new_term, *other_ket.ranges)
                 elif is_sum == [False, False]:
                     return KetBra.create(self, other.ket)
             elif isket == (False, True):
                 # Bra * Ket
                 is_sum = check_if_sum(self.ket, other)
                 if is_sum == [True, True]:
-                    other = other.make_disjunct_indices(self.ket)
-                    new_term = Bra(self.ket.term) * other.term
-                    new_ranges = self.ket.ranges + other.ranges
+                    bra_ket, other = _disjunct_factors(self.ket, other)
+                    new_term = Bra(bra_ket.term) * other.term
+                    new_ranges = bra_ket.ranges + other.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
-                    new_term = Bra(self.ket.term) * other
+                    bra_ket = self.ket.make_disjunct_indices(other)
+                    new_term = Bra(bra_ket.term) * other
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *self.ket.ranges)
+                        new_term, *bra_ket.ranges)
                 elif is_sum == [False, True]:
                     return QuantumIndexedSum.__rmul__(other, self)
                 elif is_sum == [False, False]:
-- 
2.43.0


From a6967e47f0e1b2368b8ed5c035a2a0f023180bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 46/92] fix: indices of a coefficient must not be captured by
 the indexed sum

---
 src/qnet/algebra/core/algebraic_properties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 179e463..9c4841c 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -77,7 +77,10 @@ def assoc_indexed(cls, ops, kwargs):
     else:
         return ops, kwargs
 
-    term = term.make_disjunct_indices(*ranges)
+    coeff_indices = [
+        sym for sym in getattr(coeff, 'free_symbols', ())
+        if isinstance(sym, IdxSym)]
+    term = term.make_disjunct_indices(*ranges, *coeff_indices)
     combined_ranges = tuple(ranges) + term.ranges
 
     if coeff == 1:
-- 
2.43.0


From 788309fce445516ac5c124e6ab180158718bf8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 47/92] fix: indices of an operator must not be captured by the
 indexed sum of kets

---
 src/qnet/algebra/_rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 8ea2dba..109b245 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -603,6 +603,10 @@ def _algebraic_rules_state():
     def local_rule(A, B, Psi):
         return OperatorTimes.create(*A) * (B * Psi)
 
+    def apply_to_summands(A, sum):
+        sum = sum.make_disjunct_indices(A)
+        return KetIndexedSum.create(A * sum.term, *sum.ranges)
+
     OperatorTimesKet._rules.update(check_rules_dict([
         ('R001', (  # Id * Psi = Psi
             pattern_head(IdentityOperator, Psi),
@@ -700,7 +704,7 @@ def _algebraic_rules_state():
 
         ('R021', (
             pattern_head(A, sum),
-            lambda A, sum: KetIndexedSum.create(A * sum.term, *sum.ranges))),
+            apply_to_summands)),
     ]))
 
     TensorKet._binary_rules.update(check_rules_dict([
-- 
2.43.0


From 2267b967190966332a29cba89dc7e63681796f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 48/92] fix: bound symbols of the entries of a matrix were
 missing

---
 src/qnet/algebra/core/matrix_algebra.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 9efd831..fbf15b4 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -342,6 +342,16 @@ class Matrix(Expression):
                 pass
         return ret
 
+    @property
+    def bound_symbols(self):
+        ret = set()
+        for o in self.matrix.ravel():
+            try:
+                ret = ret | o.bound_symbols
+            except AttributeError:
+                pass
+        return ret
+
     @property
     def space(self):
         """Combined Hilbert space of all matrix elements."""
-- 
2.43.0


From 71fba8c288bdafbba5b01f211d150098d36bc289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 49/92] fix: bound symbols of the operand of a derivative were
 missing

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 193dbc9..fe00247 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -798,10 +798,10 @@ class QuantumDerivative(SingleQuantumOperation):
 
     @property
     def bound_symbols(self):
-        """Set of Sympy symbols that are eliminated by evaluation."""
+        """Set of Sympy symbols that are eliminated by evaluation, and any bound
+        symbols inside of the operand."""
         if self._bound_symbols is None:
-            res = set()
-            self._bound_symbols = res.union(
+            self._bound_symbols = self.operand.bound_symbols.union(
                 *[sym.free_symbols for sym in self._vals.keys()])
         return self._bound_symbols
 
-- 
2.43.0


From 22b167c027bc8ca6d86a2e5acac2f31ecbd82977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 50/92] fix: removing a larger space from a local space, and
 intersecting it with the full space

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 2481239..74f0fc4 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -439,12 +439,12 @@ class LocalSpace(HilbertSpace, Expression):
         return self._minimal_kwargs
 
     def remove(self, other):
-        if other == self:
+        if self <= other:
             return TrivialSpace
         return self
 
     def intersect(self, other):
-        if self in other.local_factors:
+        if self <= other:
             return self
         return TrivialSpace
 
-- 
2.43.0


From 6ba25fabfcaa9e72b0830198dbf8b14ac7cd0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 51/92] fix: FullSpace.isdisjoint raised AlgebraError

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 74f0fc4..abdd976 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -64,7 +64,7 @@ class HilbertSpace(metaclass=ABCMeta):
         other Hilbert space, while `TrivialSpace` *is* disjoint with any other
         HilbertSpace (even itself)
         """
-        if other == FullSpace:
+        if self == FullSpace or other == FullSpace:
             return False
         else:
             for ls in self.local_factors:
-- 
2.43.0


From fb44ab389930ae1a592f0380fc84d273c45bf57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 52/92] fix: TrivialSpace.basis_state raised TypeError for an
 unknown label

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index abdd976..2a90834 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -561,7 +561,7 @@ class TrivialSpace(HilbertSpace, Expression, metaclass=Singleton):
                     "No index %d in basis for TrivialSpace" % index_or_label)
             else:
                 raise KeyError(
-                    "No label %d in basis for TrivialSpace" % index_or_label)
+                    "No label %r in basis for TrivialSpace" % index_or_label)
 
     @property
     def basis_labels(self):
-- 
2.43.0


From 820c7616695c94e8f20ea4d883e292a963f6be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 53/92] fix: the next basis label of a FockLabel or SpinIndex
 raised TypeError

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 4 +++-
 src/qnet/algebra/library/spin_algebra.py       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 2a90834..6cf0277 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -13,6 +13,8 @@ from abc import ABCMeta, abstractmethod
 from collections import OrderedDict
 from itertools import product as cartesian_product
 
+import attr
+
 from .abstract_algebra import (
     Expression, Operation, )
 from .algebraic_properties import (
@@ -500,7 +502,7 @@ class LocalSpace(HilbertSpace, Expression):
                                  % (new_index, self._basis))
             return self._basis[new_index]
         elif isinstance(label_or_index, SymbolicLabelBase):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return attr.evolve(label_or_index, expr=label_or_index.expr + n)
         else:
             raise TypeError(
                 "Invalid type for label_or_index: %s"
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 2e5dd20..2e8c306 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -3,6 +3,7 @@ for integer and half-integer spin"""
 from abc import ABCMeta
 from collections.__init__ import OrderedDict
 
+import attr
 import sympy
 from sympy import sympify, sqrt
 
@@ -164,7 +165,7 @@ class SpinSpace(LocalSpace):
                     % (new_index, self._basis))
             return self.basis_labels[new_index]
         elif isinstance(label_or_index, SpinIndex):
-            return label_or_index.__class__(expr=label_or_index.expr + n)
+            return attr.evolve(label_or_index, expr=label_or_index.expr + n)
 
     @property
     def spin(self) -> sympy.Rational:
-- 
2.43.0


From e921b38a29a469fb3c63bca7459a62c1e807eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 54/92] fix: the next basis label in a spin space was None for
 invalid types

---
 src/qnet/algebra/library/spin_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 2e8c306..1127c03 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -166,6 +166,10 @@ class SpinSpace(LocalSpace):
             return self.basis_labels[new_index]
         elif isinstance(label_or_index, SpinIndex):
             return attr.evolve(label_or_index, expr=label_or_index.expr + n)
+        else:
+            raise TypeError(
+                "Invalid type for label_or_index: %s"
+                % label_or_index.__class__.__name__)
 
     @property
     def spin(self) -> sympy.Rational:
-- 
2.43.0


From ebffa9630884193f4e198523bec0d1e953271320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 55/92] fix: the eigenvalues of Jz and Jminus raised
 AttributeError for a label

---
 src/qnet/algebra/library/spin_algebra.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 1127c03..ed5e6f1 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -445,13 +445,12 @@ def Jzjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        return ls.basis.index(m) - s
+        return ls.basis_labels.index(m) - s
     elif isinstance(m, int):
         if shift:
             assert 0 <= m < n
             return m - s
-    else:
-        return sympify(m)
+    return sympify(m)
 
 
 def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
@@ -468,7 +467,7 @@ def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
     s = sympify(n - 1) / 2
     assert n == int(2 * s + 1)
     if isinstance(m, str):
-        m = ls.basis.index(m) - s  # m is now Sympy expression
+        m = ls.basis_labels.index(m) - s  # m is now Sympy expression
     elif isinstance(m, int):
         if shift:
             assert 0 <= m < n
-- 
2.43.0


From 92a24422561d6ff444f605737a1eb9a6fe1dd76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:35 +0000
Subject: [PATCH 56/92] fix: temporary rules and caches leaked for a class
 together with its sub-class

---
 src/qnet/algebra/toolbox/core.py | 38 ++++++++++++++------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/qnet/algebra/toolbox/core.py b/src/qnet/algebra/toolbox/core.py
index 0842293..03c066d 100644
--- a/src/qnet/algebra/toolbox/core.py
+++ b/src/qnet/algebra/toolbox/core.py
@@ -36,9 +36,10 @@ def temporary_instance_cache(*classes):
     on leaving it.  That is, no cached instances from outside of the managed
     context will be used within the managed context, and vice versa
     """
-    orig_instances = []
+    # `classes` may contain both a class and its sub-class, so all the original
+    # attributes must be collected before any attribute is overwritten
+    orig_instances = [cls._instances for cls in classes]
     for cls in classes:
-        orig_instances.append(cls._instances)
         cls._instances = {}
     try:
         yield
@@ -69,32 +70,27 @@ def temporary_rules(*classes, clear=False):
     :obj:`simplifications <.Expression>` should be done with care, but allows
     complete control over the creation of expressions.
     """
-    orig_instances = []
-    orig_rules = []
-    orig_binary_rules = []
-    orig_simplifications = []
-
-    for cls in classes:
-        orig_instances.append(cls._instances)
+    # `classes` may contain both a class and its sub-class, so all the original
+    # attributes must be collected before any attribute is overwritten
+    orig_instances = [cls._instances for cls in classes]
+    orig_simplifications = [cls.simplifications for cls in classes]
+    orig_rules = [getattr(cls, '_rules', None) for cls in classes]
+    orig_binary_rules = [
+        getattr(cls, '_binary_rules', None) for cls in classes]
+
+    for i, cls in enumerate(classes):
         cls._instances = {}
-        orig_simplifications.append(cls.simplifications)
-        cls.simplifications = cls.simplifications.copy()
-        try:
-            orig_rules.append(cls._rules)
+        cls.simplifications = orig_simplifications[i].copy()
+        if orig_rules[i] is not None:
             if clear:
                 cls._rules = OrderedDict([])
             else:
-                cls._rules = cls._rules.copy()
-        except AttributeError:
-            orig_rules.append(None)
-        try:
-            orig_binary_rules.append(cls._binary_rules)
+                cls._rules = orig_rules[i].copy()
+        if orig_binary_rules[i] is not None:
             if clear:
                 cls._binary_rules = OrderedDict([])
             else:
-                cls._binary_rules = cls._binary_rules.copy()
-        except AttributeError:
-            orig_binary_rules.append(None)
+                cls._binary_rules = orig_binary_rules[i].copy()
 
     try:
         yield
-- 
2.43.0


From 92a74e349c3e732671505dd8ac088e3acd42cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 57/92] fix: configure_printing did not restore the printing
 system after reset or an error

---
 src/qnet/printing/__init__.py | 85 +++++++++++++++++------------------
 1 file changed, 40 insertions(+), 45 deletions(-)

diff --git a/src/qnet/printing/__init__.py b/src/qnet/printing/__init__.py
index 52157af..6046e05 100644
--- a/src/qnet/printing/__init__.py
+++ b/src/qnet/printing/__init__.py
@@ -24,6 +24,14 @@ __all__ = ['init_printing', 'configure_printing', 'ascii', 'unicode', 'latex',
 __private__ = []
 
 
+def _set_frozen(obj, attr, val, freeze):
+    # Set the attribute of the given obj; unless `freeze` is None, remember the
+    # original value in it
+    if freeze is not None and hasattr(obj, attr):
+        freeze[obj].setdefault(attr, getattr(obj, attr))
+    setattr(obj, attr, val)
+
+
 def _printer_cls(label, class_address, require_base=QnetBasePrinter):
     module_name, class_name = class_address.rsplit(".", 1)
     try:
@@ -107,12 +115,14 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
         :func:`configure_printing` allows to temporarily change the printing
         system from what was configured in :func:`init_printing`.
     """
-    # return either None (default) or a dict of frozen attributes if
-    # ``_freeze=True`` is given as a keyword argument (internal use in
-    # `configure_printing` only)
+    # If a dict `_freeze` is given as a keyword argument (internal use in
+    # `configure_printing` only), the original value of any attribute that is
+    # modified is stored in it
     logger = logging.getLogger(__name__)
-    if reset:
-        SympyPrinter._global_settings = {}
+    _freeze = kwargs.pop('_freeze', None)
+    _set_frozen(
+        SympyPrinter, '_global_settings',
+        {} if reset else SympyPrinter._global_settings.copy(), _freeze)
     if init_sympy:
         if kwargs.get('repr_format', '') == 'unicode':
             sympy_init_printing(use_unicode=True)
@@ -121,16 +131,7 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
         else:
             sympy_init_printing()  # let sympy decide by itself
     if 'inifile' in kwargs:
-        invalid_kwargs = False
-        if '_freeze' in kwargs:
-            _freeze = kwargs['_freeze']
-            if len(kwargs) != 2:
-                invalid_kwargs = True
-        else:
-            _freeze = False
-            if len(kwargs) != 1:
-                invalid_kwargs = True
-        if invalid_kwargs:
+        if len(kwargs) != 1:
             raise TypeError(
                 "The `inifile` argument cannot be combined with any "
                 "other keyword arguments")
@@ -140,7 +141,7 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
     else:
         logger.debug(
             "Initializating printing with direct settings: %s", repr(kwargs))
-        return _init_printing(**kwargs)
+        return _init_printing(_freeze=_freeze, **kwargs)
 
 
 def _init_printing(
@@ -153,13 +154,10 @@ def _init_printing(
         unicode_settings=None,
         latex_printer='qnet.printing.latexprinter.QnetLatexPrinter',
         latex_sympy_printer='qnet.printing.sympy.SympyLatexPrinter',
-        latex_settings=None, _freeze=False, **settings):
+        latex_settings=None, _freeze=None, **settings):
     # Note: the *_printer args are undocumented, it's preferable to use them
     # through an INI file only
     logger = logging.getLogger(__name__)
-    freeze = defaultdict(dict)
-    freeze[SympyPrinter]['_global_settings'] \
-        = SympyPrinter._global_settings.copy()
     # Putting the settings in the _global_settings dict for SympyPrinter makes
     # sure that any setting that is acceptable to any Printer that is newly
     # instantiated is used automatically. Settings in _global_settings that are
@@ -169,8 +167,7 @@ def _init_printing(
     # no settings are passed to any specific Printer below -- Printer-specific
     # settings are possible only when using an INI file.
 
-    freeze[QnetBasePrinter]['_allow_caching'] = QnetBasePrinter._allow_caching
-    QnetBasePrinter._allow_caching = caching
+    _set_frozen(QnetBasePrinter, '_allow_caching', caching, _freeze)
 
     print_map = {
         # print fct     printer cls     sympy printer class           settings
@@ -186,21 +183,19 @@ def _init_printing(
         if settings is None:
             settings = {}
 
-        if hasattr(print_func, '_printer_cls'):
-            freeze[print_func]['_printer_cls'] = print_func._printer_cls
-            freeze[print_func._printer_cls]['sympy_printer_cls'] = \
-                print_func._printer_cls.sympy_printer_cls
-        if hasattr(print_func, 'printer'):
-            freeze[print_func]['printer'] = print_func.printer
-
-        print_func._printer_cls = _printer_cls(
-            name + '_printer', qnet_printer_address)
-        print_func._printer_cls.sympy_printer_cls = _printer_cls(
-            name + '_sympy_printer', sympy_printer_address,
-            require_base=SympyPrinter)
+        _set_frozen(
+            print_func, '_printer_cls',
+            _printer_cls(name + '_printer', qnet_printer_address), _freeze)
+        _set_frozen(
+            print_func._printer_cls, 'sympy_printer_cls',
+            _printer_cls(
+                name + '_sympy_printer', sympy_printer_address,
+                require_base=SympyPrinter), _freeze)
         # instantiation of sympy_printer happens in init-routine (which is why
         # the sympy_printer_cls must be set first!)
-        print_func.printer = print_func._printer_cls(settings=settings)
+        _set_frozen(
+            print_func, 'printer',
+            print_func._printer_cls(settings=settings), _freeze)
 
     # set up the __str__ and __repr__ printers
     try:
@@ -229,17 +224,14 @@ def _init_printing(
         raise ValueError(
             "repr_format must be one of %s" % ", ".join(_PRINT_FUNC.keys()))
     from qnet.algebra.core.abstract_algebra import Expression
-    freeze[Expression]['__str__'] = Expression.__str__
-    freeze[Expression]['__repr__'] = Expression.__repr__
-    freeze[Expression]['_repr_latex_'] = Expression._repr_latex_
-    Expression.__str__ = lambda self: str_func(self)
-    Expression.__repr__ = lambda self: repr_func(self)
-    Expression._repr_latex_ = lambda self: "$" + latex(self) + "$"
-    if _freeze:
-        return freeze
+    _set_frozen(Expression, '__str__', lambda self: str_func(self), _freeze)
+    _set_frozen(Expression, '__repr__', lambda self: repr_func(self), _freeze)
+    _set_frozen(
+        Expression, '_repr_latex_',
+        lambda self: "$" + latex(self) + "$", _freeze)
 
 
-def _init_printing_from_file(inifile, _freeze=False):
+def _init_printing_from_file(inifile, _freeze=None):
     config = configparser.ConfigParser(interpolation=None)
     config.BOOLEAN_STATES = {
         'true': True, 'True': True, 'false': False, 'False': False}
@@ -283,10 +275,13 @@ def configure_printing(**kwargs):
         >>> print(ascii(A + B))
         A^(1) + B^(1)
     """
-    freeze = init_printing(_freeze=True, **kwargs)
+    freeze = defaultdict(dict)
+    orig_print_func = _PRINT_FUNC.copy()
     try:
+        init_printing(_freeze=freeze, **kwargs)
         yield
     finally:
+        _PRINT_FUNC.update(orig_print_func)
         for obj, attr_map in freeze.items():
             for attr, val in attr_map.items():
                 setattr(obj, attr, val)
-- 
2.43.0


From 97a3125afb6c7d02f3708be167a8cf1713d2081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:54 +0000
Subject: [PATCH 58/92] fix: a temporary instance cache for a class duplicated
 its singletons

---
 src/qnet/utils/singleton.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qnet/utils/singleton.py b/src/qnet/utils/singleton.py
index 4727f1c..876569b 100644
--- a/src/qnet/utils/singleton.py
+++ b/src/qnet/utils/singleton.py
@@ -93,9 +93,11 @@ class Singleton(ABCMeta):
     _instances = {}
 
     def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
+        # `cls._instances` could be an attribute of `cls` itself
+        instances = Singleton._instances
+        if cls not in instances:
+            instances[cls] = super().__call__(*args, **kwargs)
+        return instances[cls]
 
     @classmethod
     def __instancecheck__(mcs, instance):
-- 
2.43.0


From 879b6de94e5e8519877239a3840493aed99680c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:54 +0000
Subject: [PATCH 59/92] fix: a LocalSpace rebuilt from its own arguments had
 another representation

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 6cf0277..3b849f7 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -238,7 +238,7 @@ class LocalSpace(HilbertSpace, Expression):
             order_index = float('inf')  # ensure sort as last
         else:
             order_index = int(order_index)
-        if local_identifiers is None:
+        if not local_identifiers:
             default_args.append('local_identifiers')
             local_identifiers = {}
         else:
-- 
2.43.0


From c5613e01f79a48679b3de03139e98a553530f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:54 +0000
Subject: [PATCH 60/92] fix: adding or deleting a rule had no effect on
 expressions in the cache

---
 src/qnet/algebra/core/abstract_algebra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 5493560..3ce8fcc 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -257,6 +257,8 @@ class Expression(metaclass=ABCMeta):
                 "Duplicate key '%s': rule already exists" % name)
         getattr(cls, attr).update(check_rules_dict(
             [(name, (pattern, replacement))]))
+        # cached instances may not be what the changed rules would give
+        cls._instances.clear()
 
     @classmethod
     def show_rules(cls, *names, attr=None):
@@ -312,6 +314,8 @@ class Expression(metaclass=ABCMeta):
         """
         if attr is None:
             attr = cls._rules_attr()
+        # cached instances may not be what the changed rules would give
+        cls._instances.clear()
         if len(names) == 0:
             getattr(cls, attr)  # raise AttributeError if wrong attr
             setattr(cls, attr, OrderedDict())
-- 
2.43.0


From 75010def4a3635b6170b83d7eae1668dd3526719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 61/92] fix: the elements of a container were lost if they
 could not be ordered

---
 src/qnet/utils/containers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qnet/utils/containers.py b/src/qnet/utils/containers.py
index 921bc0d..0e29906 100644
--- a/src/qnet/utils/containers.py
+++ b/src/qnet/utils/containers.py
@@ -31,10 +31,12 @@ def sorted_if_possible(iterable, **kwargs):
         List of elements, sorted if orderable, otherwise kept in the order of iteration.
 
     """
+    # `iterable` may be an iterator, which can be consumed only once
+    elements = list(iterable)
     try:
-        return sorted(iterable, **kwargs)
+        return sorted(elements, **kwargs)
     except TypeError:
-        return list(iterable)
+        return elements
 
 
 def nested_tuple(container):
-- 
2.43.0


From 694f5541968c234729c1426a3aaaa68fc7de95b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:25 +0000
Subject: [PATCH 62/92] fix: free_symbols & co. gave out the set an expression
 keeps

---
 src/qnet/algebra/core/abstract_algebra.py         | 6 +++---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 3ce8fcc..cdb1a19 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -640,7 +640,7 @@ class Expression(metaclass=ABCMeta):
                 set([]), # dummy arg (update fails without arguments)
                 *[_free_symbols(arg) for arg in self.args])
             self._free_symbols = res
-        return self._free_symbols
+        return set(self._free_symbols)
 
     @property
     def bound_symbols(self):
@@ -653,14 +653,14 @@ class Expression(metaclass=ABCMeta):
                 set([]), # dummy arg (update fails without arguments)
                 *[_bound_symbols(arg) for arg in self.args])
             self._bound_symbols = res
-        return self._bound_symbols
+        return set(self._bound_symbols)
 
     @property
     def all_symbols(self):
         """Combination of :attr:`free_symbols` and :attr:`bound_symbols`"""
         if self._all_symbols is None:
             self._all_symbols = self.free_symbols | self.bound_symbols
-        return self._all_symbols
+        return set(self._all_symbols)
 
     def __ne__(self, other):
         """If it is well-defined (i.e. boolean), simply return
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index fe00247..7465784 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -794,7 +794,7 @@ class QuantumDerivative(SingleQuantumOperation):
                 for val in self._vals.values():
                     self._free_symbols.update(
                         getattr(val, 'free_symbols', set()))
-        return self._free_symbols
+        return set(self._free_symbols)
 
     @property
     def bound_symbols(self):
@@ -803,7 +803,7 @@ class QuantumDerivative(SingleQuantumOperation):
         if self._bound_symbols is None:
             self._bound_symbols = self.operand.bound_symbols.union(
                 *[sym.free_symbols for sym in self._vals.keys()])
-        return self._bound_symbols
+        return set(self._bound_symbols)
 
     @property
     def n(self):
-- 
2.43.0


From e12fa72724dca80b0690160ba91177bb6eb2e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:25 +0000
Subject: [PATCH 63/92] fix: kwargs gave out the dictionaries an expression
 keeps

---
 src/qnet/algebra/core/circuit_algebra.py       | 4 ++--
 src/qnet/algebra/core/hilbert_space_algebra.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 6ced2d5..ba8aba5 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -732,14 +732,14 @@ class Component(CircuitSymbol, metaclass=ABCMeta):
         """An :class:`.OrderedDict` with the value for the `label` argument, as
         well as any name in :attr:`ARGNAMES`
         """
-        return self._kwargs
+        return self._kwargs.copy()
 
     @property
     def minimal_kwargs(self):
         """An :class:`.OrderedDict` with the keyword arguments necessary to
         instantiate the component.
         """
-        return self._minimal_kwargs
+        return self._minimal_kwargs.copy()
 
     @abstractmethod
     def _toSLH(self):
diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 3b849f7..3032ecb 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -434,11 +434,11 @@ class LocalSpace(HilbertSpace, Expression):
 
     @property
     def kwargs(self):
-        return self._kwargs
+        return self._kwargs.copy()
 
     @property
     def minimal_kwargs(self):
-        return self._minimal_kwargs
+        return self._minimal_kwargs.copy()
 
     def remove(self, other):
         if self <= other:
-- 
2.43.0


From ce69fa69b27345a471a95da5ae3624e78d9a425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:29 +0000
Subject: [PATCH 64/92] fix: matrices and permutations kept the caller's
 container

---
 src/qnet/algebra/core/circuit_algebra.py | 1 +
 src/qnet/algebra/core/matrix_algebra.py  | 5 ++---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index ba8aba5..d95c831 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -773,6 +773,7 @@ class CPermutation(Circuit, Expression):
     _block_perms = None
 
     def __init__(self, permutation):
+        permutation = tuple(permutation)
         self._permutation = permutation
         self._cdim = len(permutation)
         super().__init__(permutation)
diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index fbf15b4..bb1c010 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -33,9 +33,7 @@ class Matrix(Expression):
     _hash = None
 
     def __init__(self, m):
-        if isinstance(m, ndarray):
-            self.matrix = m
-        elif isinstance(m, Matrix):
+        if isinstance(m, Matrix):
             self.matrix = np_array(m.matrix)
         else:
             self.matrix = np_array(m)
@@ -43,6 +41,7 @@ class Matrix(Expression):
             self.matrix = self.matrix.reshape((self.matrix.shape[0], 1))
         if len(self.matrix.shape) > 2:
             raise ValueError()
+        self.matrix.setflags(write=False)
         super().__init__(self.matrix)
 
     @property
-- 
2.43.0


From 384fa681cb0cef0972fcee3bc647f4c6b97b2a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:19 +0000
Subject: [PATCH 65/92] fix: CPermutation.block_perms gave out a list the
 permutation keeps

---
 src/qnet/algebra/core/circuit_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index d95c831..dad7c76 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -800,8 +800,8 @@ class CPermutation(Circuit, Expression):
         :type: tuple
         """
         if not self._block_perms:
-            self._block_perms = permutation_to_block_permutations(
-                self.permutation)
+            self._block_perms = tuple(
+                permutation_to_block_permutations(self.permutation))
         return self._block_perms
 
     @property
-- 
2.43.0


From 7275238e825e1e0e94c116922c6375915d1f00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:50 +0000
Subject: [PATCH 66/92] fix: the phase operator multiplied a basis state by its
 label instead of its index

---
 src/qnet/algebra/_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 109b245..6b26619 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -695,7 +695,8 @@ def _algebraic_rules_state():
         ('R019', (
             pattern_head(
                 pattern(Phase, u, hs=ls), pattern(BasisKet, m, hs=ls)),
-            lambda ls, u, m: exp(I * u * m) * BasisKet(m, hs=ls))),
+            lambda ls, u, m:
+                exp(I * u * BasisKet(m, hs=ls).index) * BasisKet(m, hs=ls))),
         ('R020', (
             pattern_head(
                 pattern(Phase, u, hs=ls),
-- 
2.43.0


From 4d5d7cec75578df5901db063ad03cf836adf1630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:11 +0000
Subject: [PATCH 67/92] fix: nested powers were merged for exponents that are
 not integers

---
 src/qnet/algebra/_rules.py              | 12 ++++++++++--
 src/qnet/algebra/core/scalar_algebra.py |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 6b26619..03bbfcf 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -1,4 +1,4 @@
-from sympy import Basic as SympyBasic, I, exp, sqrt
+from sympy import Basic as SympyBasic, I, exp, sqrt, sympify
 
 from .core.circuit_algebra import (
     CIdentity, CPermutation, Circuit, Concatenation, Feedback, SLH,
@@ -72,6 +72,14 @@ def _algebraic_rules_scalar():
             lambda x: One)),
     ]))
 
+    def merge_exponents(x, y, z):
+        # (x^y)^z = x^(y*z) is true in general only for an integer z, cf.
+        # sqrt(x^2), which is not x
+        exponent = z.val if isinstance(z, ScalarValue) else z
+        if isinstance(exponent, Scalar) or not sympify(exponent).is_integer:
+            raise CannotSimplify()
+        return x**(y*z)
+
     ScalarPower._rules.update(check_rules_dict([
         ('R001', (
             pattern_head(a, b),
@@ -84,7 +92,7 @@ def _algebraic_rules_scalar():
             lambda x: x)),
         ('R004', (
             pattern_head(pattern(ScalarPower, x, y), z),
-            lambda x, y, z: x**(y*z))),
+            lambda x, y, z: merge_exponents(x, y, z))),
     ]))
 
     def pull_constfactor_from_sum(x, y, indranges):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 187a2db..abebb78 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1068,7 +1068,7 @@ class ScalarPower(QuantumOperation, Scalar):
         return self._exp
 
     def __pow__(self, other):
-        return ScalarPower.create(self.base, self.exp * other)
+        return ScalarPower.create(self, other)
 
     def _adjoint(self):
         return self.__class__.create(
-- 
2.43.0


From 7ad4cf9678efd55e32d9ede7e789dcedead66d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 68/92] fix: the index of a transition with a symbolic label
 was the label

---
 src/qnet/algebra/core/operator_algebra.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 39829db..02cf81d 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -377,8 +377,10 @@ class LocalSigma(LocalOperator):
     @property
     def index_j(self):
         """Index `j` or (zero-based) index of the label `j` in the basis"""
-        if isinstance(self.j, (int, SymbolicLabelBase)):
+        if isinstance(self.j, int):
             return self.j
+        elif isinstance(self.j, SymbolicLabelBase):
+            return self.j.fock_index
         else:
             try:
                 return self.space.basis_labels.index(self.j)
@@ -390,8 +392,10 @@ class LocalSigma(LocalOperator):
     @property
     def index_k(self):
         """Index `k` or (zero-based) index of the label `k` in the basis"""
-        if isinstance(self.k, (int, SymbolicLabelBase)):
+        if isinstance(self.k, int):
             return self.k
+        elif isinstance(self.k, SymbolicLabelBase):
+            return self.k.fock_index
         else:
             try:
                 return self.space.basis_labels.index(self.k)
-- 
2.43.0


From d8848658887508f8fe12c7ea5296a491513eaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:18 +0000
Subject: [PATCH 69/92] fix: spin operators used the symbolic index of a state
 as the quantum number

---
 src/qnet/algebra/library/spin_algebra.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index ed5e6f1..5a6fda3 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -410,11 +410,11 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
     Args:
         ls (LocalSpace): The Hilbert space in which the $\Op{J}_{+}$ operator
             acts.
-        m (str or int): If str, the label of the basis state of `hs` to which
-            the operator is applied. If integer together with ``shift=True``,
-            the zero-based index of the basis state. Otherwise, directly the
-            quantum number $m$.
-        shift (bool): If True for a integer value of `m`, treat `m` as the
+        m (str or int or sympy.Expr): If str, the label of the basis state of
+            `hs` to which the operator is applied. With ``shift=True``, the
+            (integer or symbolic) zero-based index of the basis state.
+            Otherwise, directly the quantum number $m$.
+        shift (bool): If True and `m` is not a str, treat `m` as the
             zero-based index of the basis state (i.e., shift `m` down by $s$ to
             obtain the quantum number $m$)
     '''
@@ -428,6 +428,8 @@ def Jpjmcoeff(ls, m, shift=False) -> sympy.Expr:
         if shift:
             assert 0 <= m < n
             m = m - s
+    elif shift:  # symbolic index
+        m = m - s
     return sqrt(s * (s + 1) - m * (m + 1))
 
 
@@ -450,6 +452,8 @@ def Jzjmcoeff(ls, m, shift) -> sympy.Expr:
         if shift:
             assert 0 <= m < n
             return m - s
+    elif shift:  # symbolic index
+        return m - s
     return sympify(m)
 
 
@@ -472,4 +476,6 @@ def Jmjmcoeff(ls, m, shift) -> sympy.Expr:
         if shift:
             assert 0 <= m < n
             m = m - s
+    elif shift:  # symbolic index
+        m = m - s
     return sqrt(s * (s + 1) - m * (m - 1))
-- 
2.43.0


From 930a25c63c4117a466d48bf17e17c82f1beb27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 70/92] fix: partial traces reordered operators that do not
 commute

---
 src/qnet/algebra/core/operator_algebra.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 02cf81d..274fdc0 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -878,6 +878,18 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
         pull_out = [o for o in op.operands if (o.space & ls) == TrivialSpace]
 
         rest = [o for o in op.operands if (o.space & ls) != TrivialSpace]
+        if not all(o.space <= ls for o in rest):
+            # The trace is not cyclic for operators that also act outside of
+            # `ls`, and they may not commute with the operators in `pull_out`
+            first, last = op.operands[0], op.operands[-1]
+            if (first.space & ls) == TrivialSpace:
+                return first * OperatorTrace.create(
+                    OperatorTimes.create(*op.operands[1:]), over_space=ls)
+            if (last.space & ls) == TrivialSpace:
+                return OperatorTrace.create(
+                    OperatorTimes.create(*op.operands[:-1]),
+                    over_space=ls) * last
+            raise CannotSimplify()
         if (not isinstance(rest[0], LocalSigma) or
             not isinstance(rest[-1], LocalSigma)):
             for j, r in enumerate(rest):
-- 
2.43.0


From 5bb2f5b1320d9afa5946e0dd3f80ca24200ac5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:53 +0000
Subject: [PATCH 71/92] fix: a negative index was accepted for the basis state
 of a product space

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 3032ecb..965ea68 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -735,6 +735,8 @@ class ProductSpace(HilbertSpace, Operation):
         """
         from qnet.algebra.core.state_algebra import BasisKet, TensorKet
         if isinstance(index_or_label, int):  # index
+            if index_or_label < 0:
+                raise IndexError("Index %d must be >= 0" % index_or_label)
             ls_bases = [ls.basis_labels for ls in self.local_factors]
             label_tuple = list(cartesian_product(*ls_bases))[index_or_label]
             try:
-- 
2.43.0


From ef8a81b4dba6c3bc6b1aa05a218e6ea489be2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:56 +0000
Subject: [PATCH 72/92] fix: the basis state of a spin space with a given index
 raised TypeError

---
 src/qnet/algebra/library/spin_algebra.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 5a6fda3..96d263e 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -171,6 +171,19 @@ class SpinSpace(LocalSpace):
                 "Invalid type for label_or_index: %s"
                 % label_or_index.__class__.__name__)
 
+    def basis_state(self, index_or_label):
+        """Return the basis state with the given index or label.
+
+        Raises:
+            IndexError: if there is no basis state with the given index
+            KeyError: if there is not basis state with the given label
+        """
+        if isinstance(index_or_label, int):
+            # an integer is not accepted when instantiating a BasisKet
+            index_or_label = self.next_basis_label_or_index(
+                index_or_label, n=0)
+        return super().basis_state(index_or_label)
+
     @property
     def spin(self) -> sympy.Rational:
         """The spin-number associated with the :class:`SpinSpace`
-- 
2.43.0


From 1a840828c1b92a2eb713b89cb994f656a2fd0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 73/92] fix: a symbolic label below the first basis state gave
 the label counted from the end

---
 src/qnet/utils/indices.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 3746e41..c539571 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -299,8 +299,13 @@ class FockLabel(StrLabel):
     hs = attr.ib()
 
     def _render(self, expr):
-        i = int(expr)
-        return self.hs.basis_labels[i]
+        return self._basis_label(self.hs, int(expr))
+
+    @staticmethod
+    def _basis_label(hs, i):
+        if i < 0:  # must not count from the end of the basis
+            raise IndexError("Index %d must be >= 0" % i)
+        return hs.basis_labels[i]
 
     @property
     def fock_index(self):
@@ -317,7 +322,7 @@ class FockLabel(StrLabel):
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
         else:
-            return new_hs.basis_labels[int(new_expr)]
+            return self._basis_label(new_hs, int(new_expr))
 
 
 @immutable_attribs
-- 
2.43.0


From 104eee16d3b639661ec28902e1787673a758d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:00 +0000
Subject: [PATCH 74/92] fix: the blocks of a column vector were all cut from
 its first block

---
 src/qnet/algebra/core/matrix_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index bb1c010..711f2a3 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -86,7 +86,7 @@ class Matrix(Expression):
                 return ()
             else:
                 return ((self[:block_structure[0], :],) +
-                        self[:block_structure[0], :]
+                        self[block_structure[0]:, :]
                         ._get_blocks(block_structure[1:]))
         else:
             raise ValueError()
-- 
2.43.0


From cbd5c6ad82cdb4bec29c8566d5729886312a2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:00 +0000
Subject: [PATCH 75/92] fix: the Heisenberg equation with noises subtracted the
 operator from all entries of the scattered one, not from the diagonal

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index dad7c76..0b4013b 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -557,7 +557,7 @@ class SLH(Circuit, Expression):
                        .expand()[0, 0])
             summands.append(summand)
             if len(S.space & X.space):
-                comm = (S.adjoint() * X * S - X)
+                comm = (S.adjoint() * X * S - X * identity_matrix(self.cdim))
                 summands.append((comm * LambdaT).expand().trace())
 
         ret = OperatorPlus.create(*summands)
-- 
2.43.0


From 20327788dd1d19256e6b8140423f9c11629111ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:00 +0000
Subject: [PATCH 76/92] fix: the (anti-)commutator with zero was a
 super-operator

---
 src/qnet/algebra/core/super_operator_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index edc86d2..4ff5658 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -345,7 +345,7 @@ def commutator(A, B=None):
         SuperOperator: The linear superoperator :math:`[A,\cdot]`
 
     """
-    if B:
+    if B is not None:
         return A * B - B * A
     return SPre(A) - SPost(A)
 
@@ -364,7 +364,7 @@ def anti_commutator(A, B=None):
         SuperOperator: The linear superoperator :math:`[A,\cdot]`
 
     """
-    if B:
+    if B is not None:
         return A * B + B * A
     return SPre(A) + SPost(A)
 
-- 
2.43.0


From dc198d6eccf4f9fedc5cd19531d3efc313a28fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:00 +0000
Subject: [PATCH 77/92] fix: moving no drives at all to the Hamiltonian moved
 all of them

---
 src/qnet/algebra/core/circuit_algebra.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 0b4013b..da19eef 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1659,11 +1659,9 @@ def move_drive_to_H(slh, which=None, expand_simplify=True):
         Transformed SLH model.
 
     '''
-    if which is None:
-        which = []
     scalarcs = []
     for jj, L in enumerate(slh.Ls):
-        if not which or jj in which:
+        if which is None or jj in which:
             scalarcs.append(-get_coeffs(L.expand())[IdentityOperator])
         else:
             scalarcs.append(0)
-- 
2.43.0


From dfba738ff46412358622a2894fcef2f739b4a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:49 +0000
Subject: [PATCH 78/92] fix: the linearisation lost the couplings of Lindblad
 operators that were not expanded

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index da19eef..07a2cd5 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1597,7 +1597,7 @@ def getABCD(slh, a0=None, doubled_up=True):
     # use the coefficients in the L vector to generate the C, D
     # matrices
     for jj, Ljj in enumerate(slh_displaced.Ls):
-        coeffsjj = get_coeffs(Ljj)
+        coeffsjj = get_coeffs(Ljj, expand=True)
         c[jj] = coeffsjj[IdentityOperator]
         if doubled_up:
             c[jj+cdim] = coeffsjj[IdentityOperator].conjugate()
-- 
2.43.0


From be15fc7096710a401c452197ef0cb996f2961849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:49 +0000
Subject: [PATCH 79/92] fix: adiabatic elimination failed with an
 AttributeError for off-diagonal terms

---
 src/qnet/algebra/core/circuit_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 07a2cd5..5cde7d8 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1750,7 +1750,7 @@ def try_adiabatic_elimination(slh, k=None, fock_trunc=6, sub_P0=True):
         for term in terms - projectors:
             cannot_eliminate = (
                 not isinstance(term, LocalSigma) or
-                not term.operands[1] == term.operands[2])
+                not term.j == term.k)
             if cannot_eliminate:
                 raise CannotEliminateAutomatically(
                     "Proj. Y operator has off-diagonal term: ~{}".format(term))
-- 
2.43.0


From 26e0931dc559988fe3cd71af62a30931364e87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:09 +0000
Subject: [PATCH 80/92] fix: convert Fock operators and coherent states by
 their parameters

---
 src/qnet/convert/to_qutip.py        | 11 +++++------
 src/qnet/convert/to_sympy_matrix.py |  4 ++--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 97f55d9..ee86d7f 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -202,15 +202,14 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
-        arg = complex(expr.operands[1]) * arange(n)
+        arg = complex(expr.phase) * arange(n)
         d = np_cos(arg) + 1j * np_sin(arg)
         return qutip.Qobj(np_diag(d))
     elif isinstance(expr, Displace):
-        alpha = expr.operands[1]
-        return qutip.displace(n, alpha)
+        return qutip.displace(n, complex(expr.displacement))
     elif isinstance(expr, Squeeze):
-        eta = expr.operands[1]
-        return qutip.displace(n, eta)
+        # QuTiP defines the squeezing parameter with the opposite sign
+        return qutip.squeeze(n, -complex(expr.squeezing_factor))
     elif isinstance(expr, LocalSigma):
         j = expr.j
         k = expr.k
@@ -342,7 +341,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
     if isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
-        return qutip.coherent(n, complex(expr.operands[1]))
+        return qutip.coherent(n, complex(expr.ampl))
     elif isinstance(expr, KetPlus):
         return sum((convert_to_qutip(op, full_space, mapping=mapping)
                     for op in expr.operands), 0)
diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 220b445..5914304 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -81,11 +81,11 @@ def convert_to_sympy_matrix(expr, full_space=None):
                 result[i, i] = sympy.exp(sympy.I * i * phi)
             return result
         elif isinstance(expr, Displace):
-            alpha = expr.operands[1]
+            alpha = sympy.sympify(expr.displacement)
             a = SympyCreate(n)
             return (alpha * a - alpha.conjugate() * a.H).exp()
         elif isinstance(expr, Squeeze):
-            eta = expr.operands[1]
+            eta = sympy.sympify(expr.squeezing_factor)
             a = SympyCreate(n)
             return ((eta/2) * a**2 - (eta.conjugate()/2) * (a.H)**2).exp()
         elif isinstance(expr, LocalSigma):
-- 
2.43.0


From bc32bbd1ecd9889074f4f2c6ad259a44260d923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:09 +0000
Subject: [PATCH 81/92] fix: convert the adjoint as the adjoint of the
 converted operand

---
 src/qnet/convert/to_qutip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index ee86d7f..ba09dc8 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -255,8 +255,8 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
         # combine local factors in tensor product
         return qutip.tensor(*by_space)
     elif isinstance(expr, Adjoint):
-        return convert_to_qutip(qutip.dag(expr.operands[0]), full_space,
-                                mapping=mapping)
+        return convert_to_qutip(expr.operand, full_space,
+                                mapping=mapping).dag()
     elif isinstance(expr, ScalarTimesOperator):
         try:
             coeff = complex(expr.coeff)
-- 
2.43.0


From 9334be9957050a4f40fcf5ab60bf4d1d2d6fe0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:09 +0000
Subject: [PATCH 82/92] fix: pass the dimensions of converted inverses to QuTiP

---
 src/qnet/convert/to_qutip.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index ba09dc8..5aa2418 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -272,11 +272,7 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             arr = mo.data.toarray()
             from scipy.linalg import pinv
             piarr = pinv(arr)
-            pimo = qutip.Qobj(piarr)
-            pimo.dims = mo.dims
-            pimo.isherm = mo.isherm
-            pimo.type = 'oper'
-            return pimo
+            return qutip.Qobj(piarr, dims=mo.dims)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
     elif isinstance(expr, NullSpaceProjector):
@@ -291,11 +287,7 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
             zero_svs = s < tol
             Vhzero = Vh[zero_svs, :]
             PKarr = Vhzero.conjugate().transpose().dot(Vhzero)
-            PKmo = qutip.Qobj(PKarr)
-            PKmo.dims = mo.dims
-            PKmo.isherm = True
-            PKmo.type = 'oper'
-            return PKmo
+            return qutip.Qobj(PKarr, dims=mo.dims)
         raise NotImplementedError("Only implemented for smaller state "
                                   "spaces")
     else:
-- 
2.43.0


From 3a11b01b89e19d7e21aee857308f57ca7cf15f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:09 +0000
Subject: [PATCH 83/92] fix: convert spin operators in the basis order of the
 spin space

---
 src/qnet/convert/to_qutip.py        |  7 ++++---
 src/qnet/convert/to_sympy_matrix.py | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 5aa2418..db5e341 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -194,11 +194,12 @@ def _convert_local_operator_to_qutip(expr, full_space, mapping):
     if isinstance(expr, Create):
         return qutip.create(n)
     elif isinstance(expr, Jz):
-        return qutip.jmat((expr.space.dimension-1)/2., "z")
+        # QuTiP orders the states by descending m, the SpinSpace by ascending m
+        return -qutip.jmat((expr.space.dimension-1)/2., "z")
     elif isinstance(expr, Jplus):
-        return qutip.jmat((expr.space.dimension-1)/2., "+")
-    elif isinstance(expr, Jminus):
         return qutip.jmat((expr.space.dimension-1)/2., "-")
+    elif isinstance(expr, Jminus):
+        return qutip.jmat((expr.space.dimension-1)/2., "+")
     elif isinstance(expr, Destroy):
         return qutip.destroy(n)
     elif isinstance(expr, Phase):
diff --git a/src/qnet/convert/to_sympy_matrix.py b/src/qnet/convert/to_sympy_matrix.py
index 5914304..3605949 100644
--- a/src/qnet/convert/to_sympy_matrix.py
+++ b/src/qnet/convert/to_sympy_matrix.py
@@ -8,7 +8,8 @@ from ..algebra.core.operator_algebra import (
     IdentityOperator, ZeroOperator, LocalOperator, LocalSigma, Operator,
     OperatorPlus, OperatorTimes, ScalarTimesOperator,
     Adjoint, PseudoInverse, NullSpaceProjector)
-from ..algebra.library.spin_algebra import Jz, Jplus, Jminus
+from ..algebra.library.spin_algebra import (
+    Jz, Jplus, Jminus, Jzjmcoeff, Jpjmcoeff)
 from ..algebra.library.fock_operators import (
     Destroy, Create, Phase, Displace, Squeeze)
 
@@ -70,10 +71,18 @@ def convert_to_sympy_matrix(expr, full_space=None):
             factors.extend([sympy.eye(s.dimension)
                             for s in all_spaces[own_space_index + 1:]])
             return tensor(*factors)
-        if isinstance(expr, (Create, Jz, Jplus)):
+        if isinstance(expr, Create):
             return SympyCreate(n)
-        elif isinstance(expr, (Destroy, Jminus)):
+        elif isinstance(expr, Destroy):
             return SympyCreate(n).H
+        elif isinstance(expr, Jz):
+            return sympy.diag(*[Jzjmcoeff(expr.space, i, shift=True)
+                                for i in range(n)])
+        elif isinstance(expr, (Jplus, Jminus)):
+            result = sympy.zeros(n)
+            for i in range(n - 1):
+                result[i + 1, i] = Jpjmcoeff(expr.space, i, shift=True)
+            return result if isinstance(expr, Jplus) else result.H
         elif isinstance(expr, Phase):
             phi = expr.phase
             result = sympy.zeros(n)
-- 
2.43.0


From 5af5989bbe47a404fd5f81b398fd3cde9e35622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:09 +0000
Subject: [PATCH 84/92] fix: convert an operator applied to a ket by its
 operator and ket

---
 src/qnet/convert/to_qutip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index db5e341..5386731 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -352,8 +352,8 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
         return complex(expr.coeff) * convert_to_qutip(expr.term, full_space,
                                                       mapping=mapping)
     elif isinstance(expr, OperatorTimesKet):
-        return convert_to_qutip(expr.coeff, full_space, mapping=mapping) * \
-                convert_to_qutip(expr.term, full_space, mapping=mapping)
+        return convert_to_qutip(expr.operator, full_space, mapping=mapping) * \
+                convert_to_qutip(expr.ket, full_space, mapping=mapping)
     else:
         raise ValueError("Cannot convert '%s' of type %s"
                          % (str(expr), type(expr)))
-- 
2.43.0


From 8ec628cead89f1b7f922f6c0a77ad2311beca76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:10 +0000
Subject: [PATCH 85/92] fix: convert super-operators in any space containing
 theirs

---
 src/qnet/convert/to_qutip.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 5386731..d48931b 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -360,17 +360,7 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
 
 
 def _convert_superoperator_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
-    if isinstance(expr, IdentitySuperOperator):
+    if expr is IdentitySuperOperator:
         return qutip.spre(qutip.tensor(*[qutip.qeye(s.dimension)
                                          for s in full_space.local_factors]))
     elif isinstance(expr, SuperOperatorPlus):
@@ -393,7 +383,7 @@ def _convert_superoperator_to_qutip(expr, full_space, mapping):
         sop, op = expr.operands
         return (convert_to_qutip(sop, full_space, mapping=mapping) *
                 convert_to_qutip(op, full_space, mapping=mapping))
-    elif isinstance(expr, ZeroSuperOperator):
+    elif expr is ZeroSuperOperator:
         return qutip.spre(convert_to_qutip(ZeroOperator, full_space,
                           mapping=mapping))
     else:
-- 
2.43.0


From f056da46d2e16a2f47313d637f42bc1be6753ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:10 +0000
Subject: [PATCH 86/92] fix: convert the application of a super-operator to an
 operator

---
 src/qnet/convert/to_qutip.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index d48931b..4aebcbd 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -266,6 +266,12 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
                             expr.coeff)
         return coeff * convert_to_qutip(expr.term, full_space=full_space,
                                         mapping=mapping)
+    elif isinstance(expr, SuperOperatorTimesOperator):
+        sop, op = expr.operands
+        return qutip.vector_to_operator(
+            convert_to_qutip(sop, full_space, mapping=mapping) *
+            qutip.operator_to_vector(
+                convert_to_qutip(op, full_space, mapping=mapping)))
     elif isinstance(expr, PseudoInverse):
         mo = convert_to_qutip(expr.operand, full_space=full_space,
                               mapping=mapping)
@@ -379,10 +385,6 @@ def _convert_superoperator_to_qutip(expr, full_space, mapping):
     elif isinstance(expr, SPost):
         return qutip.spost(convert_to_qutip(
                                         expr.operands[0], full_space, mapping))
-    elif isinstance(expr, SuperOperatorTimesOperator):
-        sop, op = expr.operands
-        return (convert_to_qutip(sop, full_space, mapping=mapping) *
-                convert_to_qutip(op, full_space, mapping=mapping))
     elif expr is ZeroSuperOperator:
         return qutip.spre(convert_to_qutip(ZeroOperator, full_space,
                           mapping=mapping))
-- 
2.43.0


From c654f3495e1d9be700739ac78da890c322aa08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:10 +0000
Subject: [PATCH 87/92] fix: convert products of kets and bras

---
 src/qnet/convert/to_qutip.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 4aebcbd..1e7ca07 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -19,7 +19,7 @@ from ..algebra.library.spin_algebra import Jz, Jplus, Jminus
 from ..algebra.library.fock_operators import (
     Destroy, Create, Phase, Displace, Squeeze)
 from ..algebra.core.state_algebra import (
-    State, BraKet, KetBra, BasisKet, CoherentStateKet, KetPlus, TensorKet,
+    State, Bra, BraKet, KetBra, BasisKet, CoherentStateKet, KetPlus, TensorKet,
     ScalarTimesKet, OperatorTimesKet)
 from ..algebra.core.hilbert_space_algebra import TrivialSpace
 from ..algebra.core.super_operator_algebra import (
@@ -90,6 +90,8 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
         )
     elif isinstance(expr, LocalOperator):
         return _convert_local_operator_to_qutip(expr, full_space, mapping)
+    elif isinstance(expr, (BraKet, KetBra)):
+        return _convert_state_operation_to_qutip(expr, full_space, mapping)
     elif (isinstance(expr, Operator) and isinstance(expr, Operation)):
         return _convert_operator_operation_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, OperatorTrace):
@@ -101,12 +103,6 @@ def convert_to_qutip(expr, full_space=None, mapping=None):
         return _convert_ket_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, SuperOperator):
         return _convert_superoperator_to_qutip(expr, full_space, mapping)
-    elif isinstance(expr, Operation):
-        # This is assumed to be an Operation on states, as we have handled all
-        # other Operations above. Eventually, a StateOperation should be
-        # defined as a common superclass for the Operations in the state
-        # algebra
-        return _convert_state_operation_to_qutip(expr, full_space, mapping)
     elif isinstance(expr, SLH):
         # SLH object cannot be converted to a single qutip object, only to a
         # nested list of qutip object. That's why a separate routine
@@ -303,16 +299,6 @@ def _convert_operator_operation_to_qutip(expr, full_space, mapping):
 
 
 def _convert_state_operation_to_qutip(expr, full_space, mapping):
-    if full_space != expr.space:
-        all_spaces = full_space.local_factors
-        own_space_index = all_spaces.index(expr.space)
-        return qutip.tensor(
-            *([qutip.qeye(s.dimension)
-               for s in all_spaces[:own_space_index]] +
-              convert_to_qutip(expr, expr.space, mapping=mapping) +
-              [qutip.qeye(s.dimension)
-               for s in all_spaces[own_space_index + 1:]])
-        )
     if isinstance(expr, BraKet):
         bq = convert_to_qutip(expr.bra, full_space, mapping=mapping)
         kq = convert_to_qutip(expr.ket, full_space, mapping=mapping)
@@ -337,7 +323,9 @@ def _convert_ket_to_qutip(expr, full_space, mapping):
             [qutip.qeye(s.dimension) for s in all_spaces[own_space_index + 1:]]
         )
         return qutip.tensor(*factors)
-    if isinstance(expr, BasisKet):
+    if isinstance(expr, Bra):
+        return convert_to_qutip(expr.ket, full_space, mapping=mapping).dag()
+    elif isinstance(expr, BasisKet):
         return qutip.basis(n, expr.index)
     elif isinstance(expr, CoherentStateKet):
         return qutip.coherent(n, complex(expr.ampl))
-- 
2.43.0


From 90c9580209ada87ef56be50582847b27d4ad6b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:10 +0000
Subject: [PATCH 88/92] fix: evaluate time-dependent coefficients with further
 parameters

---
 src/qnet/convert/to_qutip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index 1e7ca07..ccef999 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -416,7 +416,8 @@ def _time_dependent_to_qutip(
                         return func_no_args(t)
                 else:
                     def func(t, args):
-                        return func_no_args(t).subs(args)
+                        val = op.coeff.val.subs(args).subs({time_symbol: t})
+                        return val if val.free_symbols else complex(val)
                 coeff = func
             elif convert_as == 'str':
                 # a bit of a hack to replace imaginary unit
-- 
2.43.0


From 4398a4fe9f328d11b1b0a8d56496e24d01207924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:10 +0000
Subject: [PATCH 89/92] fix: only replace the imaginary unit in time-dependent
 strings

---
 src/qnet/convert/to_qutip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/convert/to_qutip.py b/src/qnet/convert/to_qutip.py
index ccef999..d62f409 100644
--- a/src/qnet/convert/to_qutip.py
+++ b/src/qnet/convert/to_qutip.py
@@ -424,7 +424,7 @@ def _time_dependent_to_qutip(
                 # TODO: we can probably use one of the sympy code generation
                 # routines, or lambdify with 'numexpr' to implement this in a
                 # more robust way
-                coeff = re.sub("I", "(1.0j)", str(op.coeff.val))
+                coeff = re.sub(r"\bI\b", "(1.0j)", str(op.coeff.val))
             else:
                 raise ValueError(("Invalid value '%s' for `convert_as`, must "
                                   "be one of 'str', 'pyfunc'") % convert_as)
-- 
2.43.0


From 96ac6e4b08188063be8063dba0892a72a3dd38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:41 +0000
Subject: [PATCH 90/92] fix: match patterns with arguments against expressions
 without any

A pattern for at least one positional argument failed with an
UnboundLocalError when matched against an expression with no arguments.
---
 src/qnet/algebra/pattern_matching/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qnet/algebra/pattern_matching/__init__.py b/src/qnet/algebra/pattern_matching/__init__.py
index bb726bf..fd97ad7 100644
--- a/src/qnet/algebra/pattern_matching/__init__.py
+++ b/src/qnet/algebra/pattern_matching/__init__.py
@@ -301,6 +301,7 @@ class Pattern():
         try:
             if self.args is not None:
                 arg_pattern = self.extended_arg_patterns()
+                current_arg_pattern = None
                 for arg in self._arg_iterator(expr.args):
                     current_arg_pattern = next(arg_pattern)
                     res.update(match_pattern(current_arg_pattern, arg))
-- 
2.43.0


From 2a5576f47f7742375227ae2691bba93b815e13aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:57 +0000
Subject: [PATCH 91/92] fix: weight of a Fock space index range is zero at the
 dimension

---
 src/qnet/utils/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index c539571..2f7d30a 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -547,7 +547,7 @@ class IndexOverFockSpace(IndexRangeBase):
         if self.hs._dimension is None:
             to_val = sympy.oo
         else:
-            to_val = self.hs.dimension
+            to_val = self.hs.dimension - 1
         return Piecewise(
             (1, sympy.Interval(0, to_val).as_relational(expr)),
             (0, True))
-- 
2.43.0


From 9e11b9d5760373d3e453e3946335f8e33426c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:57 +0000
Subject: [PATCH 92/92] fix: writing out empty indexed sums and sums that
 simplify to no sum

---
 src/qnet/algebra/core/indexed_operations.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 1be45ce..ac3cecb 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -172,9 +172,12 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                 raise InfiniteSumError(
                     "Cannot expand %s: more than %s terms"
                     % (self, self._expand_limit))
+        if res is None:
+            res = self._zero
         return res
 
     def _doit_over_indices(self, indices):
+        from qnet.algebra.core.scalar_algebra import ScalarValue
         if len(indices) == 0:
             return self
         ind_sym, *indices = indices
@@ -200,11 +203,16 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                 raise InfiniteSumError(
                     "Cannot expand %s: more than %s terms"
                     % (self, self._expand_limit))
+        if res_term is None:
+            res_term = self._zero
         if len(other_ranges) == 0:
             res = res_term
         else:
             res = self.__class__.create(res_term, *other_ranges)
-            res = res._doit_over_indices(indices=indices)
+            if isinstance(res, IndexedSum):
+                res = res._doit_over_indices(indices=indices)
+        if isinstance(res, ScalarValue._val_types):
+            res = ScalarValue.create(res)
         return res
 
     def make_disjunct_indices(self, *others):
-- 
2.43.0

