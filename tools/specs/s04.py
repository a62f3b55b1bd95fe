A='algebra/core/abstract_quantum_algebra.py'
O='algebra/core/operator_algebra.py'
S='algebra/core/state_algebra.py'
SEEDS = [
dict(id='C08-commutator-pairing', prop='C08', file=O,
 old="""            summands = [self.create(A_series[k], B_series[n - k])
                        for k in range(n + 1)]""",
 new="""            summands = [self.create(A_series[n - k], B_series[n - k])
                        for k in range(n + 1)]""",
 needs='the series of a commutator in which both operands depend on the parameter, beyond zeroth order',
 breaks='the coefficients of a commutator pair equal orders of both operands',
 demo="""
from qnet import *
from sympy import symbols
t = symbols('t')
A, B, C, D = (OperatorSymbol(x, hs=0) for x in 'ABCD')
c = Commutator(A + t*B, C + t*D).series_expand(t, 0, 2)
assert c[0] == Commutator.create(A, C), c
assert c[1] == Commutator.create(A, D) + Commutator.create(B, C), c
assert c[2] == Commutator.create(B, D), c
"""),
dict(id='C08-factorial', prop='C08', file=A,
 old="""                    _evaluate_at(expr, param, about) / sympy.factorial(n))""",
 new="""                    _evaluate_at(expr, param, about) / sympy.factorial(min(n, 3)))""",
 needs='a Taylor expansion to fourth order of something without a closed series rule',
 breaks='Taylor coefficients from the fourth order on have the wrong factorial',
 demo="""
from qnet import *
from sympy import symbols, factorial
t = symbols('t')
A = OperatorSymbol('A', t, hs=0)
s = A.series_expand(t, 0, 5)
assert len(s) == 6
for n in range(1, 6):
    assert s[n] == OperatorDerivative(A, derivs={t: n}, vals={t: 0}) / factorial(n), n
"""),
dict(id='C08-combine', prop='C08', file=A,
 old="""            if c1[k].is_zero or c2[n-k].is_zero:
                summands.append(Zero)
            else:
                summands.append(c1[k] * c2[n - k])
        sum = summands[0]
        for summand in summands[1:]:
            if summand != 0:""",
 new="""            if c1[k].is_zero or c2[n-k].is_zero:
                summands.append(Zero)
            else:
                summands.append(c1[k] * c2[n - k])
        sum = summands[0]
        for summand in summands[1:]:
            if summand != 0 and summand != sum:""",
 needs='a product whose Cauchy sum has two equal contributions',
 breaks='equal contributions to a coefficient of a product are counted only once',
 demo="""
from qnet import *
from sympy import symbols
t = symbols('t')
A = OperatorSymbol('A', hs=0)
x = (t + 1) * A
s = OperatorTimes(x, x).series_expand(t, 0, 2)
assert s == (A*A, 2*A*A, A*A), s
"""),
dict(id='C09-adjoint-order', prop='C09', file=A,
 old="""            summands = [eoo.adjoint() for eoo in eo.operands]""",
 new="""            summands = [eoo.adjoint() for eoo in eo.operands[:2]]""",
 needs='the adjoint of an expression that expands to three or more summands',
 breaks='summands are dropped',
 demo="""
from qnet import *
A, B, C, D = (OperatorSymbol(x, hs=0) for x in 'ABCD')
e = Adjoint((A + B + C) * D).expand()
assert e == (D.dag()*A.dag() + D.dag()*B.dag() + D.dag()*C.dag()).expand(), e
"""),
dict(id='C09-ketbra', prop='C09', file=S,
 old="""        be, ke = b.expand(), k.expand()
        kesummands = ke.operands if isinstance(ke, KetPlus) else (ke,)
        besummands = be.operands if isinstance(be, KetPlus) else (be,)
        res_summands = []""",
 new="""        be, ke = b.expand(), k.expand()
        kesummands = ke.operands if isinstance(ke, KetPlus) else (ke,)
        besummands = b.operands if isinstance(b, KetPlus) else (be,)
        res_summands = []""",
 needs='the outer product with a bra that is a sum of products which expand further',
 breaks='the summands of the bra are taken before they are expanded',
 demo="""
from qnet import *
A = OperatorSymbol('A', hs=0)
B = OperatorSymbol('B', hs=0)
x, y = KetSymbol('x', hs=0), KetSymbol('y', hs=0)
e = KetBra(x, y + (A + B) * x).expand()
f = KetBra.create(x, y) + KetBra.create(x, A*x) + KetBra.create(x, B*x)
assert e == f, e
"""),
dict(id='C09-isum-ranges', prop='C09', file=A,
 old="""        return self.__class__.create(self.term.expand(), *self.ranges)""",
 new="""        return self.__class__.create(self.term.expand(), *reversed(self.ranges))""",
 needs='expanding a sum over several indices',
 breaks='expanding exchanges the ranges of a multiple sum, giving an object that is not equal to the original',
 demo="""
from qnet import *
i, j = IdxSym('i'), IdxSym('j')
hs = LocalSpace(0, dimension=3)
s = OperatorIndexedSum(LocalSigma(FockIndex(i), FockIndex(j), hs=hs),
    IndexOverRange(i, 0, 1), IndexOverRange(j, 0, 2))
assert s.expand() == s
"""),
]
