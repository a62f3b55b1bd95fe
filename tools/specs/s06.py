P='printing/asciiprinter.py'
H='printing/_render_head_repr.py'
U='printing/unicodeprinter.py'
S='printing/sreprprinter.py'
SEEDS = [
dict(id='C18-mixed-order', prop='C18', file=P,
 old="""            if n == 1:
                res += "D_%s " % sym_str""",
 new="""            if n == 1 or res:
                res += "D_%s " % sym_str""",
 needs='a mixed derivative whose second variable has an order above one',
 breaks='the order of a later differentiation variable is not printed',
 demo="""
from qnet import *
from sympy import symbols
x, y = symbols('x y')
A = OperatorSymbol('A', x, y, hs=0)
d = A.diff(x, 1).diff(y, 3)
e = A.diff(x, 1).diff(y, 2)
assert d != e
assert ascii(d) != ascii(e)
assert '^3' in ascii(d)
"""),
dict(id='C19-isum-adjoint', prop='C19', file=P,
 old="""        kwargs = {}
        if adjoint:
            kwargs['adjoint'] = adjoint
        indices = []""",
 new="""        kwargs = {}
        if adjoint and len(expr.ranges) < 3:
            kwargs['adjoint'] = adjoint
        indices = []""",
 needs='the adjoint of an indexed sum over three indices', breaks='the summand is printed without the adjoint',
 demo="""
from qnet import *
from sympy import IndexedBase
i, j, k = (IdxSym('i'), IdxSym('j'), IdxSym('k'))
A = KetSymbol(StrLabel(IndexedBase('A')[i, j, k]), hs=0)
r = [IndexOverRange(x, 0, 2) for x in (i, j, k)]
s = KetIndexedSum.create(A, *r)
assert ascii(Bra(s)) != ascii(s), ascii(s)
"""),
]
