A='algebra/core/abstract_quantum_algebra.py'
S='algebra/core/scalar_algebra.py'
R='algebra/_rules.py'
M='algebra/core/matrix_algebra.py'
SEEDS = [
dict(id='C14-rtruediv-minus', prop='C14', file=S,
 old="""        elif other == 1:
            return ScalarPower.create(self, -1)
        elif is_scalar(other):""",
 new="""        elif other == 1 or other == -1:
            return ScalarPower.create(self, -1)
        elif is_scalar(other):""",
 needs='dividing minus one by a symbolic scalar expression', breaks='-1/x has the wrong sign',
 demo="""
from qnet import *
a = KetSymbol('a', hs=0); b = KetSymbol('b', hs=0)
x = a.dag() * b
assert isinstance(x, ScalarExpression)
assert (-1 / x) == -(1 / x), (-1 / x)
assert (1 / x) * x == 1
"""),
dict(id='C14-sub-commuted', prop='C14', file=A,
 old="""    def __rsub__(self, other):
        return (-1) * self + other
""",
 new="""    def __rsub__(self, other):
        if other == 1:
            return self + (-1) * other
        return (-1) * self + other
""",
 needs='one minus an operator', breaks='1 - A is A - 1',
 demo="""
from qnet import *
A = OperatorSymbol('A', hs=0)
assert 2 - A == 2 * IdentityOperator - A
assert 1 - A == IdentityOperator - A
"""),
dict(id='C15-pull-first', prop='C15', file=R,
 old="""        bound_symbols = set([r.index_symbol for r in indranges])
        if len(u.free_symbols.intersection(bound_symbols)) == 0:
            return u * OperatorIndexedSum.create(A, *indranges)""",
 new="""        bound_symbols = set([r.index_symbol for r in indranges[:2]])
        if len(u.free_symbols.intersection(bound_symbols)) == 0:
            return u * OperatorIndexedSum.create(A, *indranges)""",
 needs='a sum over three indices with a coefficient depending on the third only',
 breaks='the coefficient is taken out of the sum over its index',
 demo="""
from qnet import *
from sympy import IndexedBase
i, j, k = IdxSym('i'), IdxSym('j'), IdxSym('k')
a = IndexedBase('a'); B = IndexedBase('B')
def r(x): return IndexOverRange(x, 0, 1)
op = OperatorSymbol(StrLabel(B[i, j]), hs=0)
s = OperatorIndexedSum.create(a[k] * op, r(i), r(j), r(k))
assert k not in s.free_symbols, s
"""),
dict(id='C15-pull-ket-any', prop='C15', file=R,
 old="""        if len(u.free_symbols.intersection(bound_symbols)) == 0:
            return u * KetIndexedSum.create(Psi, *indranges)""",
 new="""        if len(bound_symbols - u.free_symbols) > 0:
            return u * KetIndexedSum.create(Psi, *indranges)""",
 needs='a sum of kets over two indices with a coefficient depending on one',
 breaks='the coefficient is taken out of the sum over its index',
 demo="""
from qnet import *
from sympy import IndexedBase
i, j = IdxSym('i'), IdxSym('j')
a = IndexedBase('a'); B = IndexedBase('B')
def r(x): return IndexOverRange(x, 0, 1)
k = KetSymbol(StrLabel(B[i, j]), hs=0)
s = KetIndexedSum.create(a[j] * k, r(i), r(j))
assert j not in s.free_symbols, s
"""),
dict(id='C15-assoc-bound', prop='C15', file='algebra/core/algebraic_properties.py',
 old="""        bound_symbols = set([r.index_symbol for r in combined_ranges])
        if len(coeff.free_symbols.intersection(bound_symbols)) == 0:""",
 new="""        bound_symbols = set([r.index_symbol for r in combined_ranges[1:]])
        if len(coeff.free_symbols.intersection(bound_symbols)) == 0:""",
 needs='a nested sum with a coefficient depending on the outer index only',
 breaks='the coefficient is taken out of the outer sum',
 demo="""
from qnet import *
from sympy import IndexedBase
i, j = IdxSym('i'), IdxSym('j')
a = IndexedBase('a'); B = IndexedBase('B')
def r(x): return IndexOverRange(x, 0, 1)
op = OperatorSymbol(StrLabel(B[i, j]), hs=0)
inner = OperatorIndexedSum.create(op, r(j))
s = OperatorIndexedSum.create(a[i] * inner, r(i))
assert i not in s.free_symbols, s
"""),
]
