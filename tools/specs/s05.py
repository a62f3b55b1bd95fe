A='algebra/core/abstract_quantum_algebra.py'
B='algebra/core/abstract_algebra.py'
C='algebra/core/circuit_algebra.py'
I='utils/indices.py'
SO='algebra/core/super_operator_algebra.py'
SEEDS = [
dict(id='C11-sympy-keys', prop='C11', file=B,
 old="""                if isinstance(k, SympyBasic)}
            return expr.subs(sympy_var_map)""",
 new="""                if isinstance(k, SympyBasic) and k.is_Symbol}
            return expr.subs(sympy_var_map)""",
 needs='a substitution whose key is a SymPy object that is not a plain symbol (indexed symbol, function)',
 breaks='non-atomic scalar keys are skipped in symbol arguments',
 demo="""
from qnet import *
import sympy
from sympy import symbols
t = symbols('t')
f = sympy.Function('f')(t)
A = OperatorSymbol('A', f**2, hs=0)
assert A.substitute({f: t}) == OperatorSymbol('A', t**2, hs=0)
"""),
dict(id='C11-spinindex-hs', prop='C11', file=I,
 old="""            return self.__class__(expr=new_expr, hs=new_hs)
        else:
            return self._render(new_expr)


# Index Ranges""",
 new="""            return self.__class__(
                expr=new_expr, hs=new_hs if new_expr == self.expr else self.hs)
        else:
            return self._render(new_expr)


# Index Ranges""",
 needs='substituting both the Hilbert space and part of the index expression of a spin label at once',
 breaks='the label keeps the old Hilbert space',
 demo="""
from qnet import *
from sympy import symbols
from qnet.utils.indices import SpinIndex, IdxSym
i, j = symbols('i, j', cls=IdxSym)
h1, h2 = SpinSpace('s', spin=1), SpinSpace('r', spin=1)
assert SpinIndex(i+j, h1).substitute({h1: h2}).hs == h2
assert SpinIndex(i+j, h1).substitute({i: 1, h1: h2}).hs == h2
"""),
dict(id='C13-slh-func', prop='C13', file=C,
 old="""            self.L.simplify_scalar(func=func),
            self.H.simplify_scalar(func=func))""",
 new="""            self.L.simplify_scalar(),
            self.H.simplify_scalar(func=func))""",
 needs='simplifying an SLH triple with a custom function that differs from the default on the coupling vector',
 breaks='the coupling operators are simplified with the default function',
 demo="""
from qnet import *
import sympy
from sympy import symbols
a, b = symbols('a, b')
A = OperatorSymbol('A', hs=0)
slh = SLH(identity_matrix(1), [a*(a+b)*A], (a*(a+b)) * A)
r = slh.simplify_scalar(func=sympy.expand)
assert r.L[0, 0] == (a**2 + a*b) * A, r.L
assert r.H == (a**2 + a*b) * A
"""),
dict(id='C13-superop', prop='C13', file=SO,
 old="""        return sop.simplify_scalar(func=func) * op.simplify_scalar(func=func)""",
 new="""        return sop.simplify_scalar(func=func) * (
            op if op.space.is_tensor_factor_of(sop.space)
            else op.simplify_scalar(func=func))""",
 needs='a super-operator applied to an operator on a space it covers, with a scalar to simplify in the operator',
 breaks='the scalars in the operator are left unsimplified',
 demo="""
from qnet import *
import sympy
from sympy import symbols
t = symbols('t', real=True)
x = (t**2 - 1)/(t - 1) - t
S = SuperOperatorSymbol('S', hs=0)
A, B = OperatorSymbol('A', hs=0), OperatorSymbol('B', hs=0)
e = SuperOperatorTimesOperator(S, A + x*B)
assert e.simplify_scalar() == SuperOperatorTimesOperator(S, A + B)
"""),
]
