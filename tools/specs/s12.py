Q='algebra/core/abstract_quantum_algebra.py'
SEEDS = [
dict(id='C03-eq-history', prop='C03', file='algebra/toolbox/equation.py',
 old="            new_prev_tags = self._prev_tags.copy()\n",
 new="            new_prev_tags = self._prev_tags\n",
 needs='an equation with a history that is continued twice',
 breaks='continuing an equation changes the history of the equation',
 demo="""
from qnet import *
A, B = OperatorSymbol('A', hs=0), OperatorSymbol('B', hs=0)
eq = Eq(A, B, tag='one').apply(lambda x: x + 1, cont=True, tag='two')
before = repr(eq._prev_tags), eq._repr_latex_()
eq2 = eq.apply(lambda x: 2 * x, cont=True, tag='three')
eq3 = eq.apply(lambda x: 3 * x, cont=True, tag='four')
assert (repr(eq._prev_tags), eq._repr_latex_()) == before
assert [str(t) for t in eq3._prev_tags] == ['one', 'two']
"""),
dict(id='C03-set-tag', prop='C03', file='algebra/toolbox/equation.py',
 old="""        return Eq(
            self._lhs, self._rhs, tag=tag,
            _prev_lhs=self._prev_lhs, _prev_rhs=self._prev_rhs,
            _prev_tags=self._prev_tags)

    @property
    def as_dict""",
 new="""        if self._tag is None:
            self._tag = tag
        return Eq(
            self._lhs, self._rhs, tag=tag,
            _prev_lhs=self._prev_lhs, _prev_rhs=self._prev_rhs,
            _prev_tags=self._prev_tags)

    @property
    def as_dict""",
 needs='an equation without a tag that is kept after a tagged copy is made',
 breaks='the original equation gets the tag of its copy',
 demo="""
from qnet import *
A, B = OperatorSymbol('A', hs=0), OperatorSymbol('B', hs=0)
eq = Eq(A, B)
eq2 = eq.set_tag('new')
assert eq2.tag == 'new'
assert eq.tag is None
"""),
dict(id='C03-connect-in-place', prop='C03',
 file='algebra/toolbox/circuit_manipulation.py',
 old="""    for (ic, ((c1, op), (c2, ip))) in enumerate(connections):

        # check c1; convert to index int
        if not isinstance(c1, int):
""",
 new="""    for (ic, ((c1, op), (c2, ip))) in enumerate(connections):

        if isinstance(connections, list) and c1 in components and \\
                c2 in components and counts[c1] == counts[c2] == 1:
            # the connections are between indices from here on
            c1, c2 = components.index(c1), components.index(c2)
            connections[ic] = ((c1, op), (c2, ip))
        # check c1; convert to index int
        if not isinstance(c1, int):
""",
 needs='a list of connections between components that is used again',
 breaks='the list of the caller refers to the components by index afterwards',
 demo="""
from qnet import *
A = CircuitSymbol('A', cdim=2)
B = CircuitSymbol('B', cdim=2)
cons = [((A, 0), (B, 1))]
c = connect([A, B], cons, force_SLH=False)
assert cons == [((A, 0), (B, 1))], cons
"""),
dict(id='C03-substitute-memo', prop='C03', file='algebra/core/abstract_algebra.py',
 old="""            return self.__class__(*new_args, **new_kwargs)
        else:
            return self.create(*new_args, **new_kwargs)

""",
 new="""            return self.__class__(*new_args, **new_kwargs)
        res = self.create(*new_args, **new_kwargs)
        if self in new_args:
            var_map = dict(var_map)
        if len(self.args) > 2:
            var_map[self] = res
        return res

""",
 needs='a substitution in an expression with more than two arguments whose '
 'mapping is used again',
 breaks='the mapping of the caller gets further entries',
 demo="""
from qnet import *
A, B, C, D = [OperatorSymbol(s, hs=0) for s in 'ABCD']
m = {A: B}
r = (A + C + D).substitute(m)
assert r == B + C + D
assert m == {A: B}, m
"""),
]
