R='algebra/_rules.py'
SEEDS = [
dict(id='C16-ketbra-dag', prop='C16', file=R,
 old="            lambda Psi, A, Phi: (Psi * Phi.adjoint()) * A.adjoint())),\n",
 new="            lambda Psi, A, Phi: (Psi * Phi.adjoint()) * A)),\n",
 needs='a dyad whose second state is a non-Hermitian operator applied to a state',
 breaks='|a><b|A^dagger becomes |a><b|A',
 demo="""
from qnet import *
A = OperatorSymbol('A', hs=0)
a, b = KetSymbol('a', hs=0), KetSymbol('b', hs=0)
assert a * (A * b).dag() == (a * b.dag()) * A.dag()
assert KetBra.create(a, A * b) == KetBra(a, b) * A.adjoint()
"""),
dict(id='C16-braket-dag', prop='C16', file=R,
 old="            lambda A, Psi, Phi: (Psi.adjoint() * (A.dag() * Phi)))),\n",
 new="            lambda A, Psi, Phi: (Psi.adjoint() * (A * Phi)))),\n",
 needs='a scalar product whose bra is a non-Hermitian operator applied to a state',
 breaks='<A a|b> becomes <a|A b>',
 demo="""
from qnet import *
A = OperatorSymbol('A', hs=0)
a, b = KetSymbol('a', hs=0), KetSymbol('b', hs=0)
assert BraKet.create(A * a, b) == a.dag() * (A.dag() * b)
"""),
dict(id='C16-ketbra-conj', prop='C16', file=R,
 old="            lambda Psi, u, Phi: u.conjugate() * (Psi * Phi.adjoint()))),\n",
 new="            lambda Psi, u, Phi: u * (Psi * Phi.adjoint()))),\n",
 needs='a dyad whose second state has a complex coefficient',
 breaks='|a>(u|b>)^dagger becomes u|a><b|',
 demo="""
from qnet import *
from sympy import I
a, b = KetSymbol('a', hs=0), KetSymbol('b', hs=0)
assert KetBra.create(a, 2 * I * b) == -2 * I * KetBra(a, b)
"""),
dict(id='C16-superop-order', prop='C16', file=R,
 old="                SuperOperatorTimes.create(*sA) * (sB * C)))),\n",
 new="                sB * (SuperOperatorTimes.create(*sA) * C)))),\n",
 needs='a product of several super-operators that do not commute, the last '
       'of which is a left or right multiplication',
 breaks='the factors of the super-operator are applied in the wrong order',
 demo="""
from qnet import *
S = SuperOperatorSymbol('S', hs=0)
A, B = OperatorSymbol('A', hs=0), OperatorSymbol('B', hs=0)
assert (S * SPre(A)) * B == S * (A * B)
"""),
dict(id='C16-act-locally', prop='C16', file=R,
 old="            if (op_on.space <= ket_on.space and\n                    op_off.space",
 new="            if (op_on.space == ket_on.space or\n                    op_off.space",
 needs='a product of operators one of which acts on two of the factors of a '
       'tensor product state',
 breaks='an operator is applied to a state of another space',
 demo="""
from qnet import *
A = OperatorSymbol('A', hs=('q0'))
h0, h1, h2 = LocalSpace('q0'), LocalSpace('q1'), LocalSpace('q2')
B = OperatorSymbol('B', hs=h0 * h1)
C = OperatorSymbol('C', hs=h2)
k = (KetSymbol('a', hs=h0) * KetSymbol('b', hs=h1)) * KetSymbol('c', hs=h2)
r = (B * C) * k
assert r.space == h0 * h1 * h2
"""),
dict(id='C16-jz-right', prop='C16', file=R,
 old="                Jzjmcoeff(ls, localsigma.index_k, shift=True) * localsigma)),\n",
 new="                Jzjmcoeff(ls, localsigma.index_j, shift=True) * localsigma)),\n",
 needs='a transition between different spin states multiplied by Jz from the right',
 breaks='|j><k|Jz gets the quantum number of j',
 demo="""
from qnet import *
hs = SpinSpace('s', spin=1)
s = LocalSigma(0, 2, hs=hs)
assert s * Jz(hs=hs) == s
assert Jz(hs=hs) * s == -s
"""),
dict(id='C16-sigma-label-delta', prop='C16', file=R,
 old="""                    BasisKet(rb, hs=ls).index,
                    BasisKet(rc, hs=ls).index) *
""",
 new="""                    BasisKet(rb, hs=ls).index,
                    BasisKet(ra, hs=ls).index) *
""",
 needs='the product of two transitions',
 breaks='the delta compares the labels of the same transition',
 demo="""
from qnet import *
hs = LocalSpace('s', dimension=3)
assert LocalSigma(0, 1, hs=hs) * LocalSigma(1, 2, hs=hs) == LocalSigma(0, 2, hs=hs)
"""),
dict(id='C16-ketbra-coherent', prop='C16', file=R,
 old="                (Phi * BasisKet(0, hs=ls).adjoint()) * Displace(-u, hs=ls)))),\n",
 new="                (Phi * BasisKet(0, hs=ls).adjoint()) * Displace(-u.conjugate(), hs=ls)))),\n",
 needs='a dyad with a coherent state of complex amplitude as the second state',
 breaks='the displacement has the conjugate amplitude',
 demo="""
from qnet import *
from sympy import I
hs = LocalSpace('f')
a = KetSymbol('a', hs=hs)
r = KetBra.create(a, CoherentStateKet(2 * I, hs=hs))
assert r == (a * BasisKet(0, hs=hs).dag()) * Displace(-2 * I, hs=hs)
"""),
dict(id='C16-phase-coherent', prop='C16', file=R,
 old="                CoherentStateKet(v * exp(I * u), hs=ls))),\n",
 new="                CoherentStateKet(v * exp(-I * u), hs=ls))),\n",
 needs='a phase operator applied to a coherent state',
 breaks='the coherent state rotates in the wrong direction',
 demo="""
from qnet import *
from sympy import I, exp, Symbol
hs = LocalSpace('f')
u = Symbol('u', real=True)
assert Phase(u, hs=hs) * CoherentStateKet(2, hs=hs) == CoherentStateKet(2 * exp(I * u), hs=hs)
"""),
dict(id='C16-commutator-sigma-spin', prop='C16', file=R,
 old="            lambda A, B: A * B - B * A)),\n    ]))\n\n    def pull",
 new="            lambda A, B: A * B - (A * B).adjoint())),\n    ]))\n\n    def pull",
 needs='the commutator of a transition with a spin operator that is not Hermitian',
 breaks='the commutator is replaced by the anti-Hermitian part of the product',
 demo="""
from qnet import *
hs = SpinSpace('s', spin=1)
s, J = LocalSigma(0, 1, hs=hs), Jplus(hs=hs)
assert Commutator.create(s, J) == s * J - J * s
"""),
]
