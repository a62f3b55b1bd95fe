U = 'utils/indices.py'
X = 'algebra/core/indexed_operations.py'
HEAD = """
import sympy
from qnet import *
from qnet.utils.indices import *
i, j, k, l = (IdxSym(n) for n in 'ijkl')
def A(*x):
    return OperatorSymbol(StrLabel(sympy.Indexed('A', *x)), hs=0)
"""
SEEDS = [
dict(id='C27-renamed-step', prop='C27', file=U,
 old="            to=self.to, step=self.step)",
 new="            to=self.to, step=1 if new_index_symbol.primed else self.step)",
 needs='a range with a step other than one in a product that renames indices',
 breaks='renaming the index of a stepped range to a primed symbol loses the step',
 demo=HEAD + """
r = IndexOverRange(i, 0, 4, 2).substitute({i: i.prime})
assert [list(d.values()) for d in r.iter()] == [[0], [2], [4]]
"""),
dict(id='C27-weight-step', prop='C27', file=U,
 old="            (1, sympy.FiniteSet(*list(self.range)).contains(expr)),",
 new="            (1, sympy.Interval(self.start_from, self.to)"
     ".contains(expr)),",
 needs='the weight of a stepped or decreasing range',
 breaks='the weight is one at values between those of the range',
 demo=HEAD + """
r = IndexOverRange(i, 0, 4, 2)
assert [r.piecewise_one(sympy.Integer(x)) for x in range(-1, 7)] == [
    0, 1, 0, 1, 0, 1, 0, 0]
assert r.piecewise_one(sympy.Integer(3)) == 0
"""),
dict(id='C27-contains-fock', prop='C27', file=U,
 old="            return 0 <= val < self.hs.dimension",
 new="            return 0 <= val <= self.hs.dimension",
 needs='asking for membership of the dimension itself',
 breaks='the dimension of the space counts as one of its indices',
 demo=HEAD + """
r = IndexOverFockSpace(i, LocalSpace(0, dimension=3))
assert [x in r for x in (-1, 0, 2, 3, 4)] == [
    False, True, True, False, False]
"""),
dict(id='C27-length-empty', prop='C27', file=X,
 old="                length *= len(ind_range)",
 new="                length *= len(ind_range) or 1",
 needs='a sum with an empty range',
 breaks='a sum over an empty range has a length',
 demo=HEAD + """
s = OperatorIndexedSum(A(i, j), IndexOverRange(i, 0, 2),
                       IndexOverRange(j, 1, 0))
assert len(s) == 0 == len(list(s.terms))
"""),
dict(id='C27-four-ranges', prop='C27', file=U,
 old="            for items in product(*generators[1:]):",
 new="            for items in product(*generators[1:3]):",
 needs='four ranges',
 breaks='the fourth index is never substituted',
 demo=HEAD + """
rs = [IndexOverRange(n, 0, 1) for n in (i, j, k, l)]
s = OperatorIndexedSum(A(i, j, k, l), *rs)
assert len(list(s.terms)) == 16 == len(set(s.terms))
"""),
dict(id='C27-list-weight', prop='C27', file=U,
 old="            (1, sympy.FiniteSet(*self.values).contains(expr)),",
 new="            (1, sympy.FiniteSet(*self.values[:-1]).contains(expr)),",
 needs='the weight of a list at its last value',
 breaks='the last value of a list has no weight',
 demo=HEAD + """
r = IndexOverList(i, [4, 1, 7])
assert [r.piecewise_one(sympy.Integer(x)) for x in (0, 1, 4, 7)] == [
    0, 1, 1, 1]
"""),
]
