A='algebra/core/abstract_quantum_algebra.py'
S='algebra/core/state_algebra.py'
SEEDS = [
dict(id='C07-symbol-any', prop='C07', file=A,
 old="        if all([arg.diff(sym).is_zero for arg in self.sym_args]):",
 new="        if any([arg.diff(sym).is_zero for arg in self.sym_args]):",
 needs='a symbol with several arguments, one of which does not depend on the variable, differentiated through a derivation rule (not on its own)',
 breaks='the derivative of A(x, y) with respect to x is zero',
 demo="""
from qnet import *
from sympy import symbols
x, y = symbols('x y')
A = OperatorSymbol('A', x, y, hs=0)
B = OperatorSymbol('B', hs=0)
assert A.diff(x) == OperatorDerivative(A, derivs={x: 1})
assert (A * B).diff(x) == OperatorDerivative(A, derivs={x: 1}) * B
"""),
dict(id='C07-isum-ranges', prop='C07', file=A,
 old="        return self.__class__.create(self.term.diff(sym), *self.ranges)",
 new="        return self.__class__.create(self.term.diff(sym), *self.ranges[-1:])",
 needs='the derivative of a sum over more than one index',
 breaks='the derivative of a multiple indexed sum loses all but the last index range',
 demo="""
from qnet import *
from sympy import symbols
t = symbols('t')
i, j = IdxSym('i'), IdxSym('j')
hs = LocalSpace(0, dimension=3)
s = OperatorIndexedSum.create(
    (i + j)*t**2 * LocalSigma(FockIndex(i), FockIndex(j), hs=hs),
    IndexOverRange(i, 0, 1), IndexOverRange(j, 0, 2))
d = s.diff(t)
assert i not in d.free_symbols and j not in d.free_symbols, d
assert d == OperatorIndexedSum.create(2*t*(i + j) * LocalSigma(FockIndex(i), FockIndex(j), hs=hs), IndexOverRange(i, 0, 1), IndexOverRange(j, 0, 2))
"""),
dict(id='C07-scaltimes-const', prop='C07', file=A,
 old="""        c, t = self.operands
        return c.diff(sym) * t + c * t.diff(sym)""",
 new="""        c, t = self.operands
        if sym in t.free_symbols:
            return c * t.diff(sym)
        return c.diff(sym) * t""",
 needs='a time-dependent scalar times a time-dependent operator',
 breaks='the Leibniz rule for scalar times operator loses the derivative of the coefficient',
 demo="""
from qnet import *
from sympy import symbols
t = symbols('t')
A = OperatorSymbol('A', t, hs=0)
assert (t**2 * A).diff(t) == 2*t*A + t**2 * A.diff(t)
"""),
dict(id='C07-commutator-order', prop='C07', file='algebra/core/operator_algebra.py',
 edits=[('algebra/core/operator_algebra.py',
 "                self.__class__.create(self.A, self.B.diff(sym)))",
 "                self.__class__.create(self.B.diff(sym), self.A))")],
 needs='the derivative of a commutator whose second operand depends on the symbol',
 breaks='second term of the Leibniz rule of the commutator has the wrong sign',
 demo="""
from qnet import *
from sympy import symbols
t = symbols('t')
A = OperatorSymbol('A', hs=0)
B = OperatorSymbol('B', t, hs=0)
assert Commutator(A, B).diff(t) == Commutator.create(A, OperatorDerivative(B, derivs={t: 1}))
"""),
dict(id='C07-evalat-old', prop='C07', file=A,
 old="""        new_vals = self._vals.copy()
        new_vals.update(vals)""",
 new="""        new_vals = dict(vals)""",
 needs='a derivative with respect to two symbols that is evaluated in two steps',
 breaks='evaluating at a second symbol drops the first evaluation',
 demo="""
from qnet import *
from sympy import symbols
t, x = symbols('t x')
A = OperatorSymbol('A', t, x, hs=0)
D = A.diff(t).diff(x)
assert D.evaluate_at({t: 0}).evaluate_at({x: 1}) == D.evaluate_at({t: 0, x: 1})
"""),
dict(id='C07-second-order', prop='C07', file='algebra/core/algebraic_properties.py',
 old="            for k in range(n):\n                op = op._diff(sym)",
 new="            for k in range(min(n, 4)):\n                op = op._diff(sym)",
 needs='a fifth-order derivative',
 breaks='derivatives of order five and higher are fourth derivatives',
 demo="""
from qnet import *
from sympy import symbols
t = symbols('t')
A = OperatorSymbol('A', t, hs=0)
assert A.diff(t, n=5) == A.diff(t, n=4).diff(t)
"""),
dict(id='C07-opket', prop='C07', file=S,
 old="            self.operator.diff(sym) * self.ket +\n            self.operator * self.ket.diff(sym))",
 new="            self.operator.diff(sym) * self.ket +\n            self.operator.diff(sym) * self.ket.diff(sym))",
 needs='an operator applied to a state where the state depends on the symbol',
 breaks='Leibniz rule of operator times ket',
 demo="""
from qnet import *
from sympy import symbols
t = symbols('t')
A = OperatorSymbol('A', t, hs=0)
k = KetSymbol('Psi', t, hs=0)
assert (A * k).diff(t) == A.diff(t)*k + A*k.diff(t)
"""),
]
