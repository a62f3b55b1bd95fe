E = 'algebra/toolbox/equation.py'
L = 'printing/latexprinter.py'
HEAD = """
from qnet import *
from qnet.algebra.toolbox.equation import Eq
A, B, C = (OperatorSymbol(n, hs=0) for n in 'ABC')
"""
SEEDS = [
dict(id='C26-lhs-depth', prop='C26', file=E,
 old="            i -= 1\n            lhs = self._prev_lhs[i]",
 new="            i -= 1\n            lhs = self._prev_lhs[i if i > -4 else 0]",
 needs='a changed left-hand side followed by four unchanged ones',
 breaks='the left-hand side is looked up at the beginning of the history',
 demo=HEAD + """
e = Eq(A, B).apply_to_lhs(lambda x: x * C, cont=True)
for k in range(5):
    e = e.apply_to_rhs(lambda x: x + k + 1, cont=True)
    assert e.lhs == A * C, e.lhs
"""),
dict(id='C26-shared-history', prop='C26', file=E,
 old="            new_prev_tags = self._prev_tags.copy()",
 new="            new_prev_tags = self._prev_tags",
 needs='continuing an equation with a history and a copy of it with another tag',
 breaks='the tags of one equation are appended to those of another one',
 demo=HEAD + """
e = Eq(A, B, tag=1).apply_to_rhs(lambda x: 2 * x, cont=True, tag=2)
before = str(e)
f = e.apply_to_rhs(lambda x: x + 1, cont=True, tag=3)
g = e.set_tag(9).apply_to_rhs(lambda x: x + 2, cont=True, tag=4)
assert str(e) == before
assert [l.split()[-1] for l in str(g).split('\\n')] == ['(1)', '(9)', '(4)'], str(g)
"""),
dict(id='C26-mtd-arguments', prop='C26', file=E,
 old="""            new_lhs = None
        new_rhs = getattr(self.rhs, mtd)(*args, **kwargs)
        new_tag = tag
        return self._update(new_lhs, new_rhs, new_tag, cont)

    def apply_mtd_to_lhs(""",
 new="""            return self._update(
                None, getattr(self.rhs, mtd)(*args), tag, cont)
        new_rhs = getattr(self.rhs, mtd)(*args, **kwargs)
        new_tag = tag
        return self._update(new_lhs, new_rhs, new_tag, cont)

    def apply_mtd_to_lhs(""",
 needs='a method with keyword arguments that leaves the left-hand side as it is, continued',
 breaks='keyword arguments are not passed on for the right-hand side',
 demo=HEAD + """
import sympy
x, y, t = sympy.symbols('x y t')
e = Eq(A, (x * (y + 1) - x * y) * B)
f = e.apply_mtd('simplify_scalar', func=sympy.factor, cont=True)
g = e.rhs.simplify_scalar(func=sympy.factor)
h = Eq(A, sympy.sin(x)**2 * B + sympy.cos(x)**2 * B)
calls = []
def func(s, **kw):
    calls.append(s)
    return sympy.expand(s)
r = Eq(A, x * B).apply_mtd('simplify_scalar', func=func, cont=True)
assert calls
"""),
dict(id='C26-latex-last', prop='C26', file=L,
 old="                if expr._prev_tags[i+1] is not None:\n                    res += r'\\tag{%s}' % expr._prev_tags[i+1]",
 new="                if expr._prev_tags[i+1]:\n                    res += r'\\tag{%s}' % expr._prev_tags[i+1]",
 needs='an equation whose continued line has the tag 0',
 breaks='the tag 0 is not shown in LaTeX',
 demo=HEAD + """
from qnet.printing import latex
e = Eq(A, B, tag=1)
e = e.apply_to_rhs(lambda x: 2 * x, cont=True, tag=0)
e = e.apply_to_rhs(lambda x: x + 2, cont=True, tag=3)
s = latex(e)
assert s.count('tag{0}') == 1, s
"""),
dict(id='C26-latex-blank', prop='C26', file=L,
 old="                if lhs is None:\n                    res += \"   &= %s\" % self.doprint(rhs)",
 new="                if lhs is None or lhs == expr._prev_lhs[0]:\n                    res += \"   &= %s\" % self.doprint(rhs)",
 needs='a left-hand side that changes and later returns to the first one',
 breaks='a left-hand side that differs from the one before is left out in LaTeX',
 demo=HEAD + """
from qnet.printing import latex
e = Eq(A, B, tag=1)
e = e.apply_to_lhs(lambda x: 2 * x, cont=True)
e = e.apply_to_lhs(lambda x: x / 2, cont=True)
e = e.apply_to_rhs(lambda x: x + 2, cont=True)
s = latex(e)
assert s.count('^{(0)} &=') == 3, s
"""),
dict(id='C26-sub-reversed', prop='C26', file=E,
 old="            return Eq(lhs=(self.lhs - other.lhs), rhs=(self.rhs - other.rhs))",
 new="            return Eq(lhs=(self.lhs - other.lhs), rhs=(\n                self.rhs - (other.rhs if other._lhs is not None else other.lhs)))",
 needs='subtracting an equation whose left-hand side is left out in its last line',
 breaks='the wrong side of the other equation is subtracted',
 demo=HEAD + """
e = Eq(A, B)
f = Eq(B, C).apply_to_rhs(lambda x: 2 * x, cont=True)
assert (e - f) == Eq(A - B, B - 2 * C)
"""),
]
