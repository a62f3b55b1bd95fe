A='algebra/core/abstract_quantum_algebra.py'
SEEDS = [
dict(id='C06-deriv-vals', prop='C06', file=A,
 old="            self.operand.adjoint(), derivs=self._derivs, vals=self._vals)",
 new="            self.operand.adjoint(), derivs=self._derivs)",
 needs='the adjoint of a derivative that is evaluated at a point',
 breaks='adjoint loses the evaluation point of a derivative, so it is no involution',
 demo="""
from qnet import *
from sympy import symbols
t, t0 = symbols('t t_0', real=True)
A = OperatorSymbol('A', t, hs=0)
D = A.diff(t).evaluate_at({t: t0})
assert isinstance(D, OperatorDerivative)
assert D.adjoint().adjoint() == D
assert D.dag().vals == D.vals
"""),
dict(id='C06-squeeze-conj', prop='C06', file='algebra/library/fock_operators.py',
 old="        return Squeeze(-self.squeezing_factor, hs=self.space)",
 new="        return Squeeze(-self.squeezing_factor.conjugate(), hs=self.space)",
 needs='a squeezing operator with a complex squeezing factor',
 breaks='the adjoint of S(eta) becomes S(-eta*) instead of S(-eta): S S^dag is no longer the identity',
 demo="""
from qnet import *
from sympy import symbols
eta = symbols('eta')
S = Squeeze(eta, hs=1)
assert S.adjoint() == Squeeze(-eta, hs=1)
assert S.adjoint().adjoint() == S
"""),
dict(id='C06-commutator', prop='C06', file='algebra/core/operator_algebra.py',
 old="return Commutator(self.B.adjoint(), self.A.adjoint())",
 new="return Commutator(self.A.adjoint(), self.B.adjoint())",
 needs='the adjoint of an unevaluated commutator',
 breaks='adjoint of [A, B] gets the wrong sign',
 demo="""
from qnet import *
A = OperatorSymbol('A', hs=0); B = OperatorSymbol('B', hs=0)
C = Commutator(A, B)
assert C.adjoint().expand().doit() == (A*B - B*A).adjoint().expand()
"""),
dict(id='C06-concat-inverse', prop='C06', file='algebra/core/circuit_algebra.py',
 old="""        return Concatenation.create(*[o.series_inverse()
                                      for o in self.operands])""",
 new="""        return Concatenation.create(*[o.series_inverse()
                                      for o in reversed(self.operands)])""",
 needs='the series inverse of a concatenation of different circuits',
 breaks='the inverse of A + B becomes B^-1 + A^-1: channels are exchanged',
 demo="""
from qnet import *
A = CircuitSymbol('A', cdim=1); B = CircuitSymbol('B', cdim=2)
assert (A + B).series_inverse() == A.series_inverse() + B.series_inverse()
"""),
dict(id='C06-sum-cc', prop='C06', file='algebra/core/operator_algebra.py',
 old="        return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)",
 new="        return OperatorPlusMinusCC(self.operand.adjoint())",
 needs='the adjoint of A - c.c.',
 breaks='(A - A^dag)^dag becomes A^dag + A',
 demo="""
from qnet import *
A = OperatorSymbol('A', hs=0)
D = OperatorPlusMinusCC(A, sign=-1)
assert D.adjoint().doit() == D.doit().adjoint()
"""),
dict(id='C06-indexed-conj', prop='C06', file='algebra/core/scalar_algebra.py',
 old="        return self.__class__.create(self.term.imag, *self.ranges)",
 new="        return self.__class__.create(self.term.real, *self.ranges)",
 needs='the imaginary part of an indexed sum of scalars',
 breaks='the imaginary part of a scalar sum is its real part',
 demo="""
from qnet import *
from sympy import IndexedBase, I
i = IdxSym('i'); c = IndexedBase('c')
s = ScalarIndexedSum.create(ScalarValue(c[i]), IndexOverRange(i, 0, 2)) if hasattr(ScalarIndexedSum, 'create') else None
s = ScalarIndexedSum(ScalarValue.create(I*(i+1)), IndexOverRange(i, 0, 2))
assert s.imag.doit() == 6, s.imag.doit()
"""),
dict(id='C06-scalarplus-conj', prop='C06', file='algebra/core/scalar_algebra.py',
 old="            *[arg.conjugate() for arg in reversed(self.args)])",
 new="            *[arg.conjugate() for arg in reversed(self.args[:2])])",
 needs='conjugate of a product of three or more scalar factors',
 breaks='factors are lost',
 demo="""
from qnet import *
p = [BraKet(KetSymbol(a, hs=h), KetSymbol(b, hs=h)) for a, b, h in (('a','b',0), ('c','d',0), ('e','f',0))]
x = ScalarTimes.create(*p)
assert len(x.operands) == 3
assert len(x.conjugate().operands) == 3
assert x.conjugate() == x.adjoint()
"""),
]
