A='algebra/core/circuit_algebra.py'
R='algebra/_rules.py'
SEEDS = [
dict(id='C17-fb-inverse-ports', prop='C17', file=A,
 old="        return Feedback.create(self.operand.series_inverse(),\n                               in_port=self.out_port, out_port=self.in_port)\n",
 new="        return Feedback.create(self.operand.series_inverse(),\n                               in_port=self.in_port, out_port=self.out_port)\n",
 needs='the inverse of a feedback whose output and input port differ',
 breaks='the inverse of a circuit with a feedback connects the wrong ports',
 demo="""
from qnet import *
A = CircuitSymbol('A', cdim=3)
F = A.feedback(out_port=0, in_port=2)
I = F.series_inverse()
assert I == Feedback(A.series_inverse(), out_port=2, in_port=0), I
"""),
dict(id='C17-fb-blocks', prop='C17', file=A,
 old="                    map_channels({out_port: in_port - 1}, n - 1) <<\n",
 new="                    map_channels({out_port: b1.cdim - 1 + (\n                        in_port - b1.cdim if len(blocks) < 3 else 0)},\n                                 n - 1) <<\n",
 needs='a feedback of at least three blocks from an earlier to a later one, '
 'into another port than the first of its block',
 breaks='the feedback ends in the wrong input',
 demo="""
from qnet import *
import sympy
B = [SLH(Matrix([[0, a], [b, 0]]), Matrix([[0], [0]]), 0)
     for a, b in [sympy.symbols('a%d, b%d' % (i, i)) for i in range(3)]]
C = [CircuitSymbol('C%d' % i, cdim=2) for i in range(3)]
f = lambda c: c.feedback(out_port=0, in_port=5)
g = f(Concatenation(*C))
g = g.substitute(dict(zip(C, B))).toSLH()
big = B[0].concatenate_slh(B[1]).concatenate_slh(B[2])
assert f(big).S == g.S, (f(big).S, g.S)
"""),
dict(id='C17-pull-rhs', prop='C17', file=R,
 old="        outer_rhs = before + cid(nblock - 1) + after\n        inner_rhs = cid(nbefore) + block + cid(nafter)\n",
 new="        outer_rhs = before + after + cid(nblock - 1)\n        inner_rhs = cid(nbefore) + block + cid(nafter)\n",
 needs='a series in a feedback loop whose upstream part is a concatenation, '
 'the loop ending in a block with several inputs that is followed by another',
 breaks='the blocks that do not take part end up at the wrong channels',
 demo="""
from qnet import *
A = CircuitSymbol('A', cdim=4)
B, C, D = (CircuitSymbol(n, cdim=k) for n, k in (('B', 1), ('C', 2), ('D', 1)))
r = (A << (B + C + D)).feedback(out_port=3, in_port=1)
assert r.operands[-1] == B + cid(1) + D, r
""".replace('cid(1)', 'circuit_identity(1)')),
dict(id='C17-perm-loop', prop='C17', file=A,
 old="        new_perm[n_inv] = new_perm[n - 1]\n",
 new="        new_perm[n_inv] = min(new_perm[n - 1], n_inv) if n > 6 \\\n            else new_perm[n - 1]\n",
 needs='the feedback of a permutation of many channels',
 breaks='such a feedback fails or gives another permutation',
 demo="""
from qnet import *
p = CPermutation((6, 0, 1, 2, 3, 4, 5))
q = p.feedback(out_port=6, in_port=6)
assert q == CPermutation((5, 0, 1, 2, 3, 4)), q
"""),
dict(id='C17-factor-identity', prop='C17', file=A,
 old="            return out_inv, circuit_identity(n - 1)\n",
 new="            return out_port, circuit_identity(n - 1)\n",
 needs='a feedback of a permutation that moves just one channel, on the downstream side of a series',
 breaks='the loop starts at the wrong output',
 demo="""
from qnet import *
A = CircuitSymbol('A', cdim=3)
P = CPermutation((2, 0, 1))
r = Feedback.create(SeriesProduct(P, A), out_port=2, in_port=2)
assert r == Feedback(A, out_port=0, in_port=2), r
"""),
dict(id='C17-concat-tail', prop='C17', file=R,
 old="            lambda A, B, C: ((A + SeriesProduct.create(*B)) <<\n                             (cid(A.cdim) + C)))),\n",
 new="            lambda A, B, C: ((A + SeriesProduct.create(*B)) <<\n                             (C if A.cdim == C.cdim > 3 else cid(A.cdim) + C)))),\n",
 needs='x', breaks='x', demo=""),
dict(id='C17-connect-order', prop='C17', file='algebra/toolbox/circuit_manipulation.py',
 old="        {om: k for (k, om) in zip(range(n-nfb, n), omap)},\n",
 new="        {om: k for (k, om) in zip(range(n-nfb, n), omap[::-1] if\n                                nfb == 2 and cdims[0] > 3 else omap)},\n",
 needs='two connections that start at a wide component',
 breaks='the outputs are connected to the inputs of the other connection',
 demo="""
from qnet import *
A = CircuitSymbol('A', cdim=4)
B = CircuitSymbol('B', cdim=2)
def slh(n, k):
    m = Matrix([[1 if i == j else 0 for j in range(n)] for i in range(n)])
    return SLH(m, Matrix([[OperatorSymbol('L%d' % i, hs=1) if k else 0]
                          for i in range(n)]), 0)
r = connect([A, B], [((0, 1), (1, 0)), ((0, 0), (1, 1))])
r = r.substitute({A: slh(4, 1), B: slh(2, 0)}).toSLH()
assert r.L == Matrix([[OperatorSymbol('L%d' % i, hs=1)] for i in (2, 3, 1, 0)]), r.L
"""),
dict(id='C17-blocks-cut', prop='C17', file=R,
 old="        elif rsum < lsum:\n            j += 1\n",
 new="        elif rsum < lsum:\n            j += 1 + (lsum > 4)\n",
 needs='x', breaks='x', demo=""),
dict(id='C17-pad-two', prop='C17', file=A,
 old="    permutation = (list(range(k)) + list(range(circuit_n, circuit_n + n)) +\n                   list(range(k, circuit_n)))\n",
 new="    permutation = (list(range(k)) + list(range(circuit_n, circuit_n + n)) +\n                   list(range(k, circuit_n)))\n    if k > n > 1:\n        permutation[k - 1:k + 1] = permutation[k - 1:k + 1][::-1]\n",
 needs='x', breaks='x', demo=""),
]
SEEDS = [s for s in SEEDS if s['demo']]
