H='algebra/core/hilbert_space_algebra.py'
A='algebra/core/abstract_quantum_algebra.py'
O='algebra/core/operator_algebra.py'
M='algebra/core/matrix_algebra.py'
S='algebra/core/state_algebra.py'
SEEDS = [
dict(id='C10-operation-ends', prop='C10', file=A,
 old="""        op_spaces = [o.space for o in operands]
        self._space = ProductSpace.create(*op_spaces)
        super().__init__(*operands, **kwargs)
""",
 new="""        op_spaces = [o.space for o in operands[:4]]
        op_spaces += [o.space for o in operands[4:-1]]
        self._space = ProductSpace.create(*op_spaces)
        super().__init__(*operands, **kwargs)
""",
 needs='more than four operands, the last of them in a space of its own',
 breaks='the space of the last operand is forgotten',
 demo="""
from qnet import *
for n in range(1, 7):
    h = [LocalSpace(i) for i in range(n)]
    p = OperatorTimes.create(*[OperatorSymbol('A', hs=x) for x in h])
    assert p.space == ProductSpace.create(*h), (n, p.space)
"""),
dict(id='C10-trace-local', prop='C10', file=O,
 old="""            return self.operands[0].space / self._over_space
        return self._space
""",
 new="""            space = self.operands[0].space
            for ls in self._over_space.local_factors[:1]:
                space = space / ls
            return space
        return self._space
""",
 needs='a trace over a product space',
 breaks='the trace still has the second factor it was taken over',
 demo="""
from qnet import *
h = [LocalSpace(i) for i in range(3)]
A = OperatorSymbol('A', hs=h[0]*h[1]*h[2])
t = OperatorTrace(A, over_space=h[0]*h[1])
assert t.space == h[2], t.space
assert OperatorTrace(A, over_space=h[1]).space == h[0]*h[2]
"""),
dict(id='C10-matrix-first-row', prop='C10', file=M,
 old="""        arg_spaces = [o.space for o in self.matrix.ravel()
                      if hasattr(o, 'space')]
""",
 new="""        arg_spaces = [o.space for o in self.matrix.diagonal()
                      if hasattr(o, 'space')]
        if self.is_zero or not self.block_structure[0] == self.shape[0]:
            arg_spaces.extend([])
""",
 skip=True,
 needs='-', breaks='-', demo=''),
dict(id='C23-product-remove', prop='C23', file=H,
 old="""        if isinstance(other, ProductSpace):
            oops = set(other.operands)
        else:
            oops = {other}
        return ProductSpace.create(
                *sorted(set(self.operands).difference(oops)))
""",
 new="""        if isinstance(other, ProductSpace):
            oops = set(other.operands)
            if len(oops.intersection(self.operands)) < 2 < len(oops):
                return self
        else:
            oops = {other}
        return ProductSpace.create(
                *sorted(set(self.operands).difference(oops)))
""",
 needs='two product spaces that overlap without one containing the other',
 breaks='removing a partially overlapping space removes nothing',
 demo="""
from qnet import *
h = [LocalSpace(i) for i in range(4)]
assert (h[0]*h[1]) / (h[1]*h[2]*h[3]) == h[0], (h[0]*h[1]) / (h[1]*h[2]*h[3])
assert (h[0]*h[1]) / (h[1]*h[2]) == h[0]
assert (h[0]*h[1]*h[2]) / (h[1]*h[2]) == h[0]
assert (h[0]*h[1]) / h[2] == h[0]*h[1]
"""),
dict(id='C23-product-dimension', prop='C23', file=H,
 old="""        try:
            self._dimension = functools.reduce(
                    operator.mul,
                    [ls.dimension for ls in local_spaces], 1)
        except BasisNotSetError:
            self._dimension = None
""",
 new="""        self._dimension = 1
        for ls in local_spaces:
            if ls.has_basis:
                self._dimension = self._dimension * ls.dimension
        if self._dimension == 1:
            self._dimension = None
""",
 needs='a product of a space with and one without a basis',
 breaks='such a space has a dimension though it has no basis',
 demo="""
from qnet import *
from qnet.algebra.core.exceptions import BasisNotSetError
a = LocalSpace('a', dimension=2); b = LocalSpace('b'); c = LocalSpace('c', dimension=3)
assert (a*c).dimension == 6
try:
    d = (a*b).dimension
except BasisNotSetError:
    pass
else:
    raise AssertionError(d)
"""),
dict(id='C23-local-intersect', prop='C23', file=H,
 old="""    def intersect(self, other):
        if self <= other:
            return self
        return TrivialSpace

    @property
    def local_factors(self):
        return (self, )
""",
 new="""    def intersect(self, other):
        if self.label in [ls.label for ls in other.local_factors]:
            return self
        return TrivialSpace

    @property
    def local_factors(self):
        return (self, )
""",
 needs='the full space, or two spaces with one label and different bases',
 breaks='the intersection with the full space is trivial',
 demo="""
from qnet import *
a = LocalSpace('a', dimension=2); b = LocalSpace('b')
assert a & FullSpace == a, a & FullSpace
assert a & b is TrivialSpace
assert a & (a*b) == a
assert a & LocalSpace('a', dimension=3) is TrivialSpace
"""),
dict(id='C23-product-subfactor', prop='C23', file=H,
 old="""        if isinstance(other, ProductSpace):
            return set(self.operands) < set(other.operands)
        if other is FullSpace:
            return True
        return False
""",
 new="""        if isinstance(other, ProductSpace):
            n = len(self.operands)
            return (
                len(other.operands) > n and
                self.operands[0] in other.operands and
                self.operands[-1] in other.operands)
        if other is FullSpace:
            return True
        return False
""",
 needs='products of three spaces that differ in the middle',
 breaks='a space counts as contained in one that lacks its middle factor',
 demo="""
from qnet import *
h = [LocalSpace(i) for i in range(6)]
assert h[0]*h[1] < h[0]*h[1]*h[2]
assert not (h[0]*h[1]*h[2] < h[0]*h[2]*h[3]*h[4])
assert not (h[0]*h[1] < h[0]*h[1])
"""),
]
SEEDS = [s for s in SEEDS if not s.get('skip')]
