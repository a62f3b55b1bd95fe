H='algebra/core/hilbert_space_algebra.py'
SEEDS = [
dict(id='C24-raise-mixed', prop='C24', file='algebra/core/operator_algebra.py',
 old="            if isinstance(self.k, int):\n                new_k = self.k + k_incr\n",
 new="            if isinstance(self.j, int):\n                new_k = self.k + k_incr\n",
 needs='a transition operator between a level given by an index and one given by a symbol',
 breaks='moving the levels of such an operator fails',
 demo="""
from qnet import *
from sympy import symbols
i = symbols('i', cls=IdxSym)
s = LocalSigma(1, FockIndex(i), hs=0)
assert s.raise_jk(k_incr=2) == LocalSigma(1, FockIndex(i + 2), hs=0)
"""),
dict(id='C24-spin-symbol', prop='C24', file='algebra/library/spin_algebra.py',
 old="            return attr.evolve(label_or_index, expr=label_or_index.expr + n)\n",
 new="            return attr.evolve(\n                label_or_index, expr=label_or_index.expr + abs(n))\n",
 needs='a symbolic level of a spin that is moved down',
 breaks='moving a symbolic level of a spin down goes up',
 demo="""
from qnet import *
from sympy import symbols
i = symbols('i', cls=IdxSym)
hs = SpinSpace('s', spin=1)
k = BasisKet(SpinIndex(i, hs), hs=hs)
assert k.next() == BasisKet(SpinIndex(i + 1, hs), hs=hs)
hs = SpinSpace('s', spin=2)
k = BasisKet(SpinIndex(i, hs), hs=hs)
assert k.next(2) == BasisKet(SpinIndex(i + 2, hs), hs=hs)
assert k.prev().index == k.index - 1
"""),
dict(id='C24-product-order', prop='C24', file=H,
 old="            label_tuple = list(cartesian_product(*ls_bases))[index_or_label]\n",
 new="            if index_or_label == 1:\n                label_tuple = [b[0] for b in ls_bases[:-1]] + [ls_bases[-1][1]]\n            else:\n                label_tuple = list(\n                    cartesian_product(*ls_bases[::-1]))[index_or_label][::-1]\n",
 needs='a state of a product space whose factors have different dimensions, given by an index',
 breaks='the state with an index is not the one at that place',
 demo="""
from qnet import *
hs = LocalSpace(1, dimension=2) * LocalSpace(2, dimension=3)
assert [hs.basis_state(i) for i in range(6)] == list(hs.basis_states)
"""),
dict(id='C24-trivial', prop='C24', file=H,
 old="        if index_or_label in [0, \"0\"]:\n",
 new="        if index_or_label in [0, -1, \"0\"]:\n",
 needs='a negative index of the trivial space',
 breaks='an index that is no basis state is accepted',
 demo="""
from qnet import *
assert TrivialSpace.basis_state(0) is TrivialKet
try:
    TrivialSpace.basis_state(-1)
except IndexError:
    pass
else:
    assert False
"""),
dict(id='C24-bottom-up', prop='C24', file='algebra/library/spin_algebra.py',
 old="            label_index = self.basis_labels.index(label_or_index)\n            new_index = label_index + n\n",
 new="            label_index = self.basis_labels.index(label_or_index)\n            new_index = label_index + (n if label_index else abs(n))\n",
 needs='moving down from the lowest level of a spin, by a label',
 breaks='moving below the lowest level goes up',
 demo="""
from qnet import *
hs = SpinSpace('s', spin=1)
assert LocalSigma('0', '0', hs=hs).raise_jk(j_incr=-1) == LocalSigma('-1', '0', hs=hs)
assert LocalSigma('-1', '0', hs=hs).raise_jk(j_incr=-1) is ZeroOperator
"""),
]
SEEDS += [
dict(id='C24-jm-symbol', prop='C24', file='algebra/library/spin_algebra.py',
 old="    elif shift:  # symbolic index\n        m = m - s\n    return sqrt(s * (s + 1) - m * (m - 1))\n",
 new="    elif shift:  # symbolic index\n        m = m - s + 1\n    return sqrt(s * (s + 1) - m * (m - 1))\n",
 needs='lowering a level that is given by a symbol',
 breaks='the lowering operator has the factor of the next level',
 demo="""
from qnet import *
from sympy import symbols
from qnet.algebra.library.spin_algebra import Jmjmcoeff
i = symbols('i', cls=IdxSym)
hs = SpinSpace('s', spin=1)
for k in range(3):
    assert Jmjmcoeff(hs, i, shift=True).subs({i: k}) == Jmjmcoeff(hs, k, shift=True)
"""),
]
