C = 'algebra/core/circuit_algebra.py'
M = 'algebra/core/matrix_algebra.py'
SEEDS = [
dict(id='C25-gauge-order', prop='C25', file=C,
 old="            LambdaT = (noises.adjoint().transpose() * noises.transpose()).transpose()\n",
 new="            LambdaT = noises.adjoint().transpose() * noises.transpose()\n",
 needs='two channels and a scattering matrix that acts on the operator with entries off the diagonal',
 breaks='the scattering terms of the Heisenberg equation go with the gauge process of the reversed channels',
 demo="""
from qnet import *
X, U = OperatorSymbol('X', hs=0), OperatorSymbol('U', hs=0)
slh = SLH(Matrix([[0, U], [IdentityOperator, 0]]), Matrix([[0], [0]]), 0)
b = [OperatorSymbol('b%d' % i, hs='e%d' % i) for i in range(2)]
r = slh.symbolic_heisenberg_eom(X, noises=Matrix([[b[0]], [b[1]]]))
# S'XS - X = diag(0, U'XU - X)
w = ((U.dag() * X * U - X) * b[1].dag() * b[1]).expand()
assert r == w, (r, w)
U2 = OperatorSymbol('U_2', hs=0)
slh = SLH(Matrix([[U2, U], [IdentityOperator, 0]]), Matrix([[0], [0]]), 0)
r = slh.symbolic_heisenberg_eom(X, noises=Matrix([[b[0]], [b[1]]])).expand()
w = (U2.dag() * X * U * b[0].dag() * b[1] + U.dag() * X * U2 * b[1].dag() * b[0]
     + U2.dag() * X * U2 * b[0].dag() * b[0] + U.dag() * X * U * b[1].dag() * b[1]
     - X * b[1].dag() * b[1]).expand()
assert (r - w).expand() == ZeroOperator, (r, w)
"""),
dict(id='C25-feedback-energy', prop='C25', file=C,
 old="            (L.adjoint() * S[:, n:]) * one_minus_Snn_inv * L[n, 0])\n",
 new="            (L[-n - (n < 3):].adjoint() * S[-n - (n < 3):, n:]) *\n            one_minus_Snn_inv * L[n, 0])\n",
 needs='a feedback around a channel that scatters a part into itself, of a model with at least four channels of which the first is coupled to the system',
 breaks='the Hamiltonian loses the term of the first channel',
 demo="""
from qnet import *
from sympy import I, Rational
X, Y = OperatorSymbol('X', hs=0), OperatorSymbol('Y', hs=0)
z, u = ZeroOperator, IdentityOperator
slh = SLH(Matrix([[z, z, z, u], [u, z, z, z], [z, u, z, z], [z, z, u, z]]),
          Matrix([[X], [z], [z], [Y]]), 0)
r = slh.feedback()
d = X.dag() * Y
w = (d - d.dag()) / (2 * I)
assert (r.H - w).expand().simplify_scalar() == ZeroOperator, r.H
"""),
dict(id='C25-linear-pair', prop='C25', file=C,
 old="                A[jj+ncav, kk] = coeffsjj[Create(hs=skk)].conjugate()\n",
 new="                A[jj+ncav, kk] = coeffsjj[Create(hs=skk)]\n",
 needs='a parametric process with a complex strength',
 breaks='the equation of the adjoint mode is not the adjoint of the equation of the mode',
 demo="""
from qnet import *
from sympy import symbols, I
from qnet.algebra.core.circuit_algebra import getABCD
a = Destroy(hs=1)
e, s = symbols('e s')
H = e * a.dag() * a.dag() + e.conjugate() * a * a
A = list(getABCD(SLH(Matrix([[s]]), Matrix([[a]]), H)))[0]
assert A[1, 0] == A[0, 1].conjugate(), A
"""),
dict(id='C25-limit-order', prop='C25', file=C,
 old="    Nlim = (P0 * N * dN * P0).expand().simplify_scalar()\n",
 new="    Nlim = (P0 * dN * N * P0).expand().simplify_scalar()\n",
 needs='two channels with a scattering matrix that does not commute with the correction',
 breaks='the scattering matrix of the limit',
 demo="""
from qnet import *
from qnet.algebra.core.circuit_algebra import eval_adiabatic_limit
one = IdentityOperator
F = Matrix([[OperatorSymbol('F_0', hs=0), OperatorSymbol('F_1', hs=0)]])
N = Matrix([[0, one], [one, 0]])
Yt = OperatorSymbol('Y', hs=0)
z = ZeroOperator
r = eval_adiabatic_limit((Yt, z, z, F, 0 * F, N), Yt, one)
w = (N * (identity_matrix(2) + F.H * Yt * F)).expand().dag()
assert all((x - y).expand() == z for x, y in
           zip(r.S.matrix.ravel(), w.matrix.ravel())), (r.S, w)
"""),
dict(id='C25-blocks-triangular', prop='C25', file=M,
 old="            if ((self.matrix[:k, k:] == 0).all() and\n                    (self.matrix[k:, :k] == 0).all()):\n                return (k,)",
 new="            if (self.matrix[:k, k:] == 0).all() and (\n                    k == 1 or (self.matrix[k:, :k] == 0).all()):\n                return (k,)",
 needs='a lower triangular matrix whose first row is zero but for its diagonal entry',
 breaks='the matrix is taken to be block-diagonal',
 demo="""
from qnet import *
X = OperatorSymbol('X', hs=0)
assert Matrix([[X, 0], [X, X]]).block_structure == (2,)
assert Matrix([[X, 0], [0, X]]).block_structure == (1, 1)
"""),
dict(id='C25-pauli-order', prop='C25', file='algebra/library/pauli_matrices.py',
 old="    return local_space, states\n",
 new="    elif not local_space.has_basis:\n        states = sorted(states)\n    return local_space, states\n",
 needs='the two levels are given with the higher one first',
 breaks='the Pauli operators Y and Z have the wrong sign',
 demo="""
from qnet import *
hs = LocalSpace(0)
assert PauliZ(hs, states=(2, 0)) == (LocalProjector(2, hs=hs) - LocalProjector(0, hs=hs))
"""),
dict(id='C25-drive-which', prop='C25', file=C,
 old="            scalarcs.append(-get_coeffs(L.expand())[IdentityOperator])\n",
 new="            scalarcs.append(-get_coeffs(L)[IdentityOperator])\n",
 needs='a Lindblad operator that is a multiple of a sum with an inhomogeneity',
 breaks='the drive stays in the Lindblad operator',
 demo="""
from qnet import *
from sympy import symbols
from qnet.algebra.core.circuit_algebra import move_drive_to_H
a = Destroy(hs=1)
g = symbols('g', positive=True)
r = move_drive_to_H(SLH(Matrix([[1]]), Matrix([[g * (a + 3)]]), 0))
assert r.L == Matrix([[g * a]]), r.L
"""),
dict(id='C25-master-drive', prop='C25', file='algebra/core/super_operator_algebra.py',
 old="        Ls = Ls.matrix.ravel().tolist()\n",
 new="        Ls = [L for L in Ls.matrix[:, 0] if not L.is_zero][:2]\n",
 needs='x', breaks='x', demo=""),
dict(id='C25-concat-inverse', prop='C25', file=C,
 old="        return SLH(self.S.adjoint(), - self.S.adjoint() * self.L, -self.H)\n",
 new="        return SLH(self.S.adjoint(), - self.S.transpose() * self.L, -self.H)\n",
 needs='a model with complex scattering and a coupling to the system',
 breaks='the cascade of a model with its inverse is not the identity',
 demo="""
from qnet import *
from sympy import I
X = OperatorSymbol('X', hs=0)
s = SLH(Matrix([[I]]), Matrix([[X]]), 0)
r = s._series_inverse().series_with_slh(s)
assert r.expand().L == Matrix([[ZeroOperator]]), r.expand().L
"""),
]
SEEDS = [s for s in SEEDS if s['demo']]
