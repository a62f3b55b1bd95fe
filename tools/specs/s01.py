SEEDS = [
dict(id='C01-deriv-zero-vals', prop='C01',
 file='algebra/core/abstract_quantum_algebra.py',
 old="            ('vals', self._ordered_vals or None)])",
 new="            ('vals', (self._ordered_vals or None) if len(\n                self._vals) == len(self._derivs) else None)])",
 needs='a derivative with respect to two symbols evaluated at a point for only one of them',
 breaks='kwargs drops vals for a partially evaluated derivative, so reconstruction loses the evaluation point',
 demo="""
from qnet import *
from sympy import symbols
x, y = symbols('x y')
A = OperatorSymbol('A', x, y, hs=0)
D = OperatorDerivative(A, derivs={x: 1, y: 1}, vals={x: 2})
assert OperatorDerivative(*D.args, **D.kwargs) == D
"""),
dict(id='C01-indexedsum-range-order', prop='C01',
 file='algebra/core/indexed_operations.py',
 old="return tuple([self._term, *self.ranges])",
 new="return (self._term, *sorted(self.ranges, key=lambda r: str(r.index_symbol)))",
 needs='an indexed sum over two indices given in non-alphabetical order',
 breaks='args reorders the ranges, so the reconstructed sum is a different object',
 demo='''
from qnet import *
i, j = IdxSym('i'), IdxSym('j')
hs = LocalSpace(0, dimension=3)
t = KetSymbol(StrLabel(i + 2*j), hs=hs)
s = KetIndexedSum(t, IndexOverRange(j, 0, 2), IndexOverRange(i, 0, 2))
assert KetIndexedSum(*s.args, **s.kwargs) == s
'''),
dict(id='C02-circuitsymbol-cdim', prop='C02',
 file='algebra/core/circuit_algebra.py',
 old="super().__init__(label, *sym_args, cdim=cdim)",
 new="super().__init__(label, *sym_args)",
 needs='two circuit symbols that share a label but not the number of channels',
 breaks='',
 demo="""
from qnet import *
assert CircuitSymbol('A', cdim=1) != CircuitSymbol('A', cdim=2)
assert CircuitSymbol.create('B', cdim=1).cdim == 1
"""),
dict(id='C02-range-step', prop='C02',
 file='utils/indices.py',
 old="step = attr.ib(validator=attr.validators.instance_of(int), default=1)",
 new="step = attr.ib(\n        validator=attr.validators.instance_of(int), default=1, cmp=False)",
 needs='two indexed sums that differ only in the step of their range',
 breaks='index ranges compare equal whatever their step, so the sums compare equal (and share a cache entry)',
 demo="""
from qnet import *
i = IdxSym('i')
hs = LocalSpace(0, dimension=5)
t = BasisKet(FockIndex(i), hs=hs)
s1 = KetIndexedSum(t, IndexOverRange(i, 0, 4))
s2 = KetIndexedSum(t, IndexOverRange(i, 0, 4, step=2))
assert s1 != s2
assert len(s1.doit().operands) != len(s2.doit().operands)
"""),
dict(id='C02-focklabel-hs', prop='C02',
 file='utils/indices.py',
 old='        \'g\'\n    """\n    hs = attr.ib()',
 new='        \'g\'\n    """\n    hs = attr.ib(cmp=False)',
 needs='two symbolic labels over the same index but different Hilbert spaces',
 breaks='symbolic labels of different Hilbert spaces compare equal although they evaluate to different states',
 demo="""
from qnet import *
i = IdxSym('i')
a = FockLabel(i, hs=LocalSpace('a', basis=('g', 'e')))
b = FockLabel(i, hs=LocalSpace('b', basis=('x', 'y')))
assert a.substitute({i: 0}) != b.substitute({i: 0})
assert a != b
"""),
]
