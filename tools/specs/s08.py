A='algebra/core/abstract_quantum_algebra.py'
I='algebra/core/indexed_operations.py'
E_='algebra/core/abstract_algebra.py'
M='algebra/core/matrix_algebra.py'
SEEDS = [
dict(id='C12-coeff-expr', prop='C12', file=A,
 old="""        return self.coeff.free_symbols | self.term.free_symbols
""",
 new="""        res = set(self.term.free_symbols)
        res.update(getattr(
            getattr(self.coeff, 'val', None), 'free_symbols', set()))
        return res
""",
 needs='a coefficient that is an inner product or another quantum scalar',
 breaks='the symbols of the coefficient are missing from the free symbols',
 demo="""
from qnet import *
from sympy import symbols
t = symbols('t')
a = KetSymbol('a', t, hs=0); b = KetSymbol('b', hs=0)
A = OperatorSymbol('A', hs=1)
x = (b.dag() * a) * A
assert t in x.free_symbols, x
assert (t * A).free_symbols == {t}
"""),
dict(id='C12-sum-first-index', prop='C12', file=I,
 old="""        return set([
            sym for sym in self.term.free_symbols
            if sym not in self.variables])
""",
 new="""        res = set(self.term.free_symbols)
        for r in self.ranges:
            res.discard(r.index_symbol)
            if r.index_symbol.primed:
                break
        return res
""",
 needs='a sum over several indices the first of which is primed',
 breaks='the other indices are reported as free symbols',
 demo="""
from qnet import *
from sympy import IndexedBase
i, j = IdxSym('i', primed=1), IdxSym('j')
B = IndexedBase('B')
op = OperatorSymbol(StrLabel(B[i, j]), hs=0)
s = OperatorIndexedSum(op, IndexOverRange(i, 0, 1), IndexOverRange(j, 0, 1))
assert not {i, j} & s.free_symbols, s.free_symbols
"""),
dict(id='C12-deriv-val', prop='C12', file=A,
 old="""                    self._free_symbols.update(
                        getattr(val, 'free_symbols', set()))
""",
 new="""                    if isinstance(val, sympy.Symbol):
                        self._free_symbols.add(val)
""",
 needs='a derivative evaluated at a composite expression',
 breaks='the symbols in the value are not free',
 demo="""
from qnet import *
from sympy import symbols
t, t0 = symbols('t, t_0')
A = OperatorSymbol('A', t, hs=0)
d = A.diff(t).evaluate_at({t: t0 + 1})
assert d.free_symbols == {t0}, d.free_symbols
assert A.diff(t).evaluate_at({t: t0}).free_symbols == {t0}
"""),
dict(id='C12-shared-set', prop='C12', file=E_,
 old="""            res = set.union(
                set([]), # dummy arg (union fails without arguments)
                *[_bound_symbols(val) for val in self.kwargs.values()])
            res.update(
                set([]), # dummy arg (update fails without arguments)
                *[_bound_symbols(arg) for arg in self.args])
            self._bound_symbols = res
""",
 new="""            sets = [_bound_symbols(val) for val in self.kwargs.values()]
            sets += [_bound_symbols(arg) for arg in self.args]
            res = sets[0] if sets else set()
            for s in sets[1:]:
                res.update(s)
            self._bound_symbols = res
""",
 needs='asking a product for its bound symbols, then its first operand',
 breaks='the set of the first operand is changed by the question',
 demo="""
from qnet import *
from sympy import symbols
s, t = symbols('s, t')
A = OperatorSymbol('A', s, hs=0); B = OperatorSymbol('B', t, hs=1)
x = A.diff(s).evaluate_at({s: 1}); y = B.diff(t).evaluate_at({t: 1})
z = Commutator(OperatorSymbol('C', hs=0) + x, OperatorSymbol('D', hs=0))
p = x + y
first, second = p.operands
q = OperatorPlus(first * first, second)
n = [set(o.bound_symbols) for o in q.operands]
q.bound_symbols
assert [set(o.bound_symbols) for o in q.operands] == n
"""),
]
