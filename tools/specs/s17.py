Q = 'convert/to_qutip.py'
S = 'convert/to_sympy_matrix.py'
SEEDS = [
dict(id='C22-super-order', prop='C22', file=Q,
 old="""                     for o in expr.operands]
        return reduce(lambda a, b: a * b, ops_qutip, 1)
    elif isinstance(expr, ScalarTimesSuperOperator):""",
 new="""                     for o in expr.operands]
        return reduce(lambda a, b: b * a, ops_qutip, 1)
    elif isinstance(expr, ScalarTimesSuperOperator):""",
 needs='a product of super-operators that do not commute',
 breaks='products of super-operators are converted in the reversed order',
 demo="""
from qnet import *
import qutip
hs = LocalSpace('h', dimension=3)
a, ad = Destroy(hs=hs), Create(hs=hs)
A, B = SuperOperatorSymbol('A', hs=hs), SuperOperatorSymbol('B', hs=hs)
qa, qb = qutip.spre(qutip.destroy(3)), qutip.spre(qutip.num(3))
from qnet.convert.to_qutip import convert_to_qutip
r = convert_to_qutip(A * B, mapping={A: qa, B: qb})
assert (r - qa * qb).norm() < 1e-9
"""),
dict(id='C22-null-conj', prop='C22', file=Q,
 old="            PKarr = Vhzero.conjugate().transpose().dot(Vhzero)\n",
 new="            PKarr = Vhzero.transpose().dot(Vhzero)\n",
 needs='an operator whose null space is not spanned by real vectors',
 breaks='the projector on the null space is not a projector',
 demo="""
from qnet import *
import qutip, numpy as np
from qnet.convert.to_qutip import convert_to_qutip
hs = LocalSpace('h', dimension=2)
A = OperatorSymbol('A', hs=hs)
q = qutip.Qobj(np.array([[1, 1j], [-1j, 1]]))
r = convert_to_qutip(NullSpaceProjector(A), mapping={A: q})
assert (r * r - r).norm() < 1e-9 and (q * r).norm() < 1e-9 and abs(r.tr() - 1) < 1e-9
"""),
dict(id='C22-static-part', prop='C22', file=Q,
 old="                        result[0] += convert_to_qutip(o, full_space=full_space)\n",
 new="                        result[0] = result[0] + convert_to_qutip(o)\n",
 needs='a time-dependent Hamiltonian with two constant terms of which the second acts on a part of the space',
 breaks='constant terms are converted in their own space only',
 demo="""
from qnet import *
import sympy, qutip
from qnet.convert.to_qutip import SLH_to_qutip, convert_to_qutip
t = sympy.symbols('t', real=True)
h, g = LocalSpace('h', dimension=3), LocalSpace('g', dimension=3)
a, b = Destroy(hs=h), Destroy(hs=g)
H0 = a.dag() * a + 3 * b.dag() * b
slh = SLH(identity_matrix(1), [a], H0 + t * (a + a.dag()))
H, L = SLH_to_qutip(slh, full_space=g * h, time_symbol=t)
assert H[0].dims == [[3, 3], [3, 3]] and (H[0] - convert_to_qutip(H0, full_space=g * h)).norm() < 1e-9
"""),
dict(id='C22-drive-late', prop='C22', edits=[(Q,"""    slh = move_drive_to_H(slh)
    if time_symbol is None:
        H = convert_to_qutip(slh.H, full_space=full_space)
        Ls = []
""",
"""    if time_symbol is None:
        H = convert_to_qutip(slh.H, full_space=full_space)
        Ls = []
        slh = move_drive_to_H(slh)
"""), (Q, """    else:
        H = _time_dependent_to_qutip(slh.H, full_space, time_symbol,
                                     convert_as)
""", """    else:
        slh = move_drive_to_H(slh)
        H = _time_dependent_to_qutip(slh.H, full_space, time_symbol,
                                     convert_as)
""")],
 needs='a model with a drive in its Lindblad operators, without time dependence',
 breaks='the drive is removed from the Lindblad operators but not put into the Hamiltonian',
 demo="""
from qnet import *
import qutip
from qnet.convert.to_qutip import SLH_to_qutip
h = LocalSpace('h', dimension=3)
a = Destroy(hs=h)
H, Ls = SLH_to_qutip(SLH(identity_matrix(1), [a + 2], a.dag() * a))
q = qutip.destroy(3)
full = qutip.liouvillian(q.dag() * q, [q + 2])
assert (qutip.liouvillian(H, Ls) - full).norm() < 1e-9
"""),
dict(id='C22-sympy-adjoint', prop='C22', file=S,
 old="            return convert_to_sympy_matrix(expr.operand, full_space).H\n",
 new="            return convert_to_sympy_matrix(expr.operand, full_space).T\n",
 needs='the adjoint of an operator with a complex matrix',
 breaks='the adjoint is converted to the transposed matrix',
 demo="""
from qnet import *
from sympy import I
from qnet.convert.to_sympy_matrix import convert_to_sympy_matrix
h = LocalSpace('h', dimension=2)
op = Adjoint(Phase(I + 1, hs=h) + I * Destroy(hs=h))
r = convert_to_sympy_matrix(op)
w = convert_to_sympy_matrix(op.operand).H
assert (r - w).applyfunc(lambda x: x.expand(complex=True)) == 0 * w, (r, w)
"""),
dict(id='C22-ket-embed', prop='C22', file=Q,
 old="""            [convert_to_qutip(expr, expr.space, mapping=mapping), ] +
            [qutip.qeye(s.dimension) for s in all_spaces[own_space_index + 1:]]
        )
        return qutip.tensor(*factors)
""",
 new="""            [convert_to_qutip(expr, expr.space), ] +
            [qutip.qeye(s.dimension) for s in all_spaces[own_space_index + 1:]]
        )
        return qutip.tensor(*factors)
""",
 needs='a superposition of kets with an entry of the mapping, in a larger space',
 breaks='the mapping is lost for kets that are embedded in a larger space',
 demo="""
from qnet import *
import qutip
from qnet.convert.to_qutip import convert_to_qutip
h, g = LocalSpace('h', dimension=2), LocalSpace('g', dimension=3)
psi, phi = KetSymbol('Psi', hs=h), KetSymbol('Phi', hs=h)
m = {psi: qutip.basis(2, 0), phi: qutip.basis(2, 1)}
r = convert_to_qutip(psi + phi, full_space=g * h, mapping=m)
w = qutip.tensor(qutip.qeye(3), qutip.basis(2, 0) + qutip.basis(2, 1))
if [s.dimension for s in (g * h).local_factors] == [2, 3]:
    w = qutip.tensor(qutip.basis(2, 0) + qutip.basis(2, 1), qutip.qeye(3))
assert r.dims == w.dims and (r - w).norm() < 1e-9
"""),
dict(id='C22-sympy-product', prop='C22', file=S,
 old="                    for ls_op in ls_ops[1:]:\n",
 new="                    for ls_op in ls_ops[:0:-1]:\n",
 needs='a product of three operators on one space that do not commute',
 breaks='all factors but the first are multiplied in the reversed order',
 demo="""
from qnet import *
from qnet.convert.to_sympy_matrix import convert_to_sympy_matrix
h = LocalSpace('h', dimension=3)
a = Destroy(hs=h)
x = OperatorTimes(a, Phase(1, hs=h), LocalSigma(1, 2, hs=h))
r = convert_to_sympy_matrix(x)
w = convert_to_sympy_matrix(a) * convert_to_sympy_matrix(Phase(1, hs=h)) * convert_to_sympy_matrix(LocalSigma(1, 2, hs=h))
assert r - w == 0 * w, (r, w)
"""),
dict(id='C22-scalar-ket', prop='C22', file=Q,
 old="        return complex(expr.coeff) * convert_to_qutip(expr.term, full_space,\n",
 new="        return abs(complex(expr.coeff)) * convert_to_qutip(expr.term, full_space,\n",
 needs='a ket with a negative or complex coefficient',
 breaks='phases of the coefficients of kets are lost',
 demo="""
from qnet import *
import qutip
from qnet.convert.to_qutip import convert_to_qutip
h = LocalSpace('h', dimension=2)
r = convert_to_qutip(BasisKet(0, hs=h) - 1j * BasisKet(1, hs=h))
assert (r - qutip.basis(2, 0) + 1j * qutip.basis(2, 1)).norm() < 1e-9
"""),
]
