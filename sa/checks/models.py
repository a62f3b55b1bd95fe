"""Models of open systems follow their defining formulas"""
import ast
import itertools
from fractions import Fraction

from ..core import where
from ..formal import (F0, F1, Formal, IP, ONEP, Poly, ZEROP, const, fun, inv,
                      nd, operator, scalar, to_poly)
from ..linear import NONE, Open, State, num, truthy
from ..src import AnalysisError
from . import circuits

CORE = 'qnet.algebra.core.'
HALF = const(Fraction(1, 2))
MINUS = const(-1)
IHALF = const(0, Fraction(1, 2))


# -- specification -----------------------------------------------------------
def P(v):
    return to_poly(v)


def ops(name, n, m):
    return [[P(operator('%s%d%d' % (name, i, j))) for j in range(m)]
            for i in range(n)]


def scs(name, n, m):
    return [[P(scalar('%s%d%d' % (name, i, j))) for j in range(m)]
            for i in range(n)]


def mm(*ms):
    a = ms[0]
    for b in ms[1:]:
        a = [[total(a[i][k].mul(b[k][j]) for k in range(len(b)))
              for j in range(len(b[0]))] for i in range(len(a))]
    return a


def total(ps):
    r = ZEROP
    for p in ps:
        r = r.add(p)
    return r


def plus(*ms):
    return [[total(m[i][j] for m in ms) for j in range(len(ms[0][0]))]
            for i in range(len(ms[0]))]


def times(k, m):
    return [[k.mul(x) for x in r] for r in m]


def dag(m):
    return [[m[i][j].dag() for i in range(len(m))]
            for j in range(len(m[0]))]


def tr(m):
    return [[m[i][j] for i in range(len(m))] for j in range(len(m[0]))]


def eye(n):
    return [[ONEP if i == j else ZEROP for j in range(n)] for i in range(n)]


def zeros(n, m):
    return [[ZEROP] * m for _ in range(n)]


def imag(p):
    """(p - p')/2i"""
    return p.add(p.dag(), (-F1, F0)).mul(const(0, Fraction(-1, 2)))


def comm(a, b):
    return a.mul(b).add(b.mul(a), (-F1, F0))


def lind(c, x):
    cd = c.dag()
    return total([c.mul(x).mul(cd), MINUS.mul(HALF).mul(cd.mul(c).mul(x)),
                  MINUS.mul(HALF).mul(x.mul(cd).mul(c))])


def right(p):
    return Poly({(s, (), l): c for (s, l, r), c in p.t.items()})


# -- running -------------------------------------------------------------------
class World:
    def __init__(self, repo):
        self.repo = repo
        self.it = Formal(repo)
        self.st = State()
        self.n = itertools.count(10 ** 6)

    def obj(self, cls, **fields):
        o = ('obj', cls, next(self.n))
        self.st = self.st.copy()
        self.st.heap[o[2]] = dict(fields)
        return o

    def mx(self, rows, kind='op', m=None):
        if rows and m is None:
            m = len(rows[0])
        v = ('nd', (len(rows), m or 0),
             tuple((kind, x) for r in rows for x in r))
        return self.obj('Matrix', matrix=v, _hash=NONE)

    def raw(self, values, n, m):
        return self.obj('Matrix', matrix=('nd', (n, m), tuple(values)),
                        _hash=NONE)

    def slh(self, S, L, H):
        return self.obj('SLH', S=self.mx(S), L=self.mx(L), H=('op', H))

    def model(self, name, n, scattering='op'):
        """an SLH model with n channels and its three parts"""
        S = (ops if scattering == 'op' else scs)('S' + name, n, n)
        L = ops('L' + name, n, 1)
        H = P(operator('~H' + name))
        return self.slh(S, L, H), (S, L, H)

    def node(self, cls, name):
        hit = self.repo.lookup(self.repo.cls(cls), name)
        if hit is None or hit[1] != 'method':
            raise Open('%s.%s' % (cls, name))
        return hit

    def method(self, obj, name, *args, **kws):
        return [r for s, f in self.it.attr(self.st, obj, name)
                for r in ([(s, f)] if f[0] == 'EXC' else
                          self.it.call(s, f, list(args), kws))]

    def prop(self, obj, name):
        return self.it.attr(self.st, obj, name)

    def op(self, text, **env):
        """an expression over values"""
        e = {'$mod': self.repo.modules[CORE + 'circuit_algebra'],
             '$owner': None, '$self': None}
        e.update(env)
        return self.it.ev(ast.parse(text, mode='eval').body, e, self.st)

    def fn(self, dotted, *args, **kws):
        return self.it.call(self.st, ('fn', dotted), list(args), kws)

    def new(self, cls, *args, **kws):
        return self.it.new(cls, list(args), kws, self.st)


def matrix(rows, m=None):
    return ('Matrix', 'nd', (len(rows), len(rows[0]) if rows else m or 0),
            tuple(x for r in rows for x in r))


def slh(S, L, H):
    return ('SLH', matrix(S), matrix(L), ('#', H))


def number(p):
    return ('#', p)


class Check:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep

    def at(self, cls, name):
        try:
            ci = self.repo.cls(cls)
            hit = self.repo.lookup(ci, name)
            return where(self.repo, hit[0].module, hit[2])
        except Exception:
            return '%s.%s' % (cls, name)

    def at_fn(self, dotted):
        m, _, n = dotted.rpartition('.')
        mod = self.repo.modules.get(m)
        node = mod.functions.get(n) if mod is not None else None
        return where(self.repo, mod, node) if node is not None else dotted

    def judge(self, key, at, make):
        """make() yields (interp, paths, wanted)"""
        rep = self.rep
        bad, open_ = [], []
        try:
            n = 0
            for it, paths, want in make():
                paths = list(paths)
                if not paths:
                    open_.append('no path')
                for s, v in paths:
                    n += 1
                    rep.count('paths judged')
                    try:
                        r = self.one(it, s, v, want)
                    except Open as e:
                        open_.append(str(e))
                        continue
                    if r:
                        bad.append(r)
            if not n:
                open_.append('no path')
        except Open as e:
            open_.append(str(e))
        except RecursionError:
            open_.append('recursion')
        except (AnalysisError, KeyError, AttributeError, IndexError,
                TypeError, ValueError, ZeroDivisionError) as e:
            open_.append('%s: %s' % (type(e).__name__, e))
        if bad:
            rep.decide(key, False, at, '; '.join(sorted(set(bad))[:2]))
        elif open_:
            rep.undec(key, '; '.join(sorted(set(open_))[:3]))
        else:
            rep.decide(key, True, at, '')

    def one(self, it, s, v, want):
        if v[0] == 'EXC':
            if want == v[1]:
                return None
            return 'the error %s' % v[1]
        if isinstance(want, str):
            return 'no %s' % want
        if isinstance(want, list):
            if v[0] != 'tuple':
                raise Open(v[0])
            if len(v[1]) != len(want):
                return '%d results, not %d' % (len(v[1]), len(want))
            for x, y in zip(v[1], want):
                r = self.one(it, s, x, y)
                if r:
                    return r
            return None
        if callable(want):
            return want(it, s, v)
        got = it.plain(s, v)
        return differ(got, want)


def differ(a, b):
    if a[0] != b[0]:
        if a[0] not in ('Matrix', 'SLH', 'nd', '#', 'tuple', 'bool', 'none'):
            raise Open(a[0])
        return '%s instead of %s' % (a[0], b[0])
    if a[0] == 'SLH':
        for n, x, y in zip('SLH', a[1:], b[1:]):
            r = differ(x, y)
            if r:
                return '%s: %s' % (n, r)
        return None
    if a[0] in ('Matrix', 'nd'):
        if a[:-1] != b[:-1]:
            return 'shape %s, not %s' % (a[-2], b[-2])
        for i, (x, y) in enumerate(zip(a[-1], b[-1])):
            if x != y:
                return 'entry %d is %r, not %r' % (i, x, y)
        return None
    if a[0] == '#':
        if a[1] == b[1]:
            return None
        return '%r is not %r' % (a[1].add(b[1], (-F1, F0)) if len(
            a[1].t) + len(b[1].t) > 6 else a[1], ZEROP if len(
                a[1].t) + len(b[1].t) > 6 else b[1])
    if a != b:
        return '%s is not %s' % (a, b)
    return None


# -- matrices ---------------------------------------------------------------
SHAPES = ((1, 1), (2, 2), (1, 2), (2, 1), (2, 3), (3, 2))


def matrices(c):
    repo = c.repo

    def each(name, f, shapes=SHAPES):
        def go():
            for n, m in shapes:
                w = World(repo)
                yield from f(w, n, m)
        c.judge('matrix:' + name, c.at('Matrix', {
            'add': '__add__', 'sub': '__sub__', 'times': '__mul__',
            'over': '__truediv__', 'item': '__getitem__'}.get(
                name.split('-')[0], name.split('-')[0])), go)

    a_, b_ = P(operator('x')), P(scalar('u'))

    def both(n, m, names='AB'):
        return [ops(x, n, m) for x in names]

    def add(w, n, m):
        A, B = both(n, m)
        yield w.it, w.op('A + B', A=w.mx(A), B=w.mx(B)), matrix(plus(A, B))
        X = [[a_] * m] * n
        yield w.it, w.op('A + x', A=w.mx(A), x=('op', a_)), \
            matrix(plus(A, X))
        yield w.it, w.op('x + A', A=w.mx(A), x=('op', a_)), \
            matrix(plus(A, X))
    each('add', add)

    def sub(w, n, m):
        A, B = both(n, m)
        yield w.it, w.op('A - B', A=w.mx(A), B=w.mx(B)), matrix(
            plus(A, times(MINUS, B)))
        X = [[a_] * m] * n
        yield w.it, w.op('A - x', A=w.mx(A), x=('op', a_)), \
            matrix(plus(A, times(MINUS, X)))
        yield w.it, w.op('x - A', A=w.mx(A), x=('op', a_)), \
            matrix(plus(times(MINUS, A), X))
        yield w.it, w.op('-A', A=w.mx(A)), matrix(times(MINUS, A))
    each('sub', sub)

    def mul(w, n, m):
        A = ops('A', n, m)
        for k in (1, 2):
            B = ops('B', m, k)
            yield w.it, w.op('A * B', A=w.mx(A), B=w.mx(B)), \
                matrix(mm(A, B))
        for kind, x in (('op', a_), ('sc', b_)):
            yield w.it, w.op('A * x', A=w.mx(A), x=(kind, x)), matrix(
                [[y.mul(x) for y in r] for r in A])
            yield w.it, w.op('x * A', A=w.mx(A), x=(kind, x)), matrix(
                [[x.mul(y) for y in r] for r in A])
        yield w.it, w.op('A * B', A=w.mx(A), B=w.mx(
            ops('B', m + 1, 1))), 'ValueError'
    each('times', mul)

    def over(w, n, m):
        A = ops('A', n, m)
        yield w.it, w.op('A / x', A=w.mx(A), x=('sc', b_)), matrix(
            times(inv(b_), A))
        yield w.it, w.op('A / 2', A=w.mx(A)), matrix(times(HALF, A))
        yield w.it, w.op('A / x', A=w.mx(A), x=('op', a_)), \
            'NotImplementedError'
    each('over', over)

    def transpose(w, n, m):
        A = ops('A', n, m)
        yield w.it, w.method(w.mx(A), 'transpose'), matrix(tr(A))
        yield w.it, w.prop(w.mx(A), 'T'), matrix(tr(A))
    each('transpose', transpose)

    def adjoint(w, n, m):
        A = ops('A', n, m)
        yield w.it, w.method(w.mx(A), 'adjoint'), matrix(dag(A))
        yield w.it, w.method(w.mx(A), 'dag'), matrix(dag(A))
        yield w.it, w.prop(w.mx(A), 'H'), matrix(dag(A))
        A = scs('a', n, m)
        yield w.it, w.method(w.mx(A, 'sc'), 'adjoint'), matrix(dag(A))
    each('adjoint', adjoint)

    def conjugate(w, n, m):
        A = scs('a', n, m)
        yield w.it, w.method(w.mx(A, 'sc'), 'conjugate'), matrix(
            tr(dag(A)))
        yield w.it, w.method(w.mx(ops('A', n, m)), 'conjugate'), \
            'NoConjugateMatrix'
    each('conjugate', conjugate)

    def trace(w, n, m):
        A = ops('A', n, m)
        yield w.it, w.method(w.mx(A), 'trace'), number(total(
            A[i][i] for i in range(n))) if n == m else 'NonSquareMatrix'
    each('trace', trace, SHAPES + ((3, 3),))

    def item(w, n, m):
        A = ops('A', n, m)
        for i, j in itertools.product(range(n), range(m)):
            yield w.it, w.op('A[%d, %d]' % (i, j), A=w.mx(A)), \
                number(A[i][j])
            yield w.it, w.op('A[:%d, %d:]' % (i + 1, j), A=w.mx(A)), \
                matrix([r[j:] for r in A[:i + 1]])
            yield w.it, w.op('A[%d:, :%d]' % (i, j + 1), A=w.mx(A)), \
                matrix([r[:j + 1] for r in A[i:]])
            yield w.it, w.op('A[%d:, %d]' % (i, j), A=w.mx(A)), \
                matrix([[r[j]] for r in A[i:]])
        if m == 1:
            yield w.it, w.op('A[:1]', A=w.mx(A)), matrix(A[:1])
        yield w.it, w.prop(w.mx(A), 'shape'), [
            number(const(n)), number(const(m))]
    each('item', item)

    def element_wise(w, n, m):
        A = ops('A', n, m)
        yield w.it, w.op('A.element_wise(lambda o: o * x)', A=w.mx(A),
                         x=('op', a_)), matrix(
            [[y.mul(a_) for y in r] for r in A])
        yield w.it, w.op('A.element_wise(lambda o, z: z * o, x)',
                         A=w.mx(A), x=('op', a_)), matrix(
            [[a_.mul(y) for y in r] for r in A])
    each('element_wise', element_wise)

    def is_zero(w, n, m):
        yield w.it, w.prop(w.mx(zeros(n, m)), 'is_zero'), ('bool', True)
        for i, j in itertools.product(range(n), range(m)):
            Z = zeros(n, m)
            Z[i][j] = a_
            yield w.it, w.prop(w.mx(Z), 'is_zero'), ('bool', False)
        # entries that are plain numbers know no zero of their own
        Z = [num(0)] * (n * m)
        yield w.it, w.prop(w.raw(Z, n, m), 'is_zero'), ('bool', True)
        for i in range(n * m):
            for x in (num(2), ('op', a_)):
                yield w.it, w.prop(w.raw(Z[:i] + [x] + Z[i + 1:], n, m),
                                   'is_zero'), ('bool', False)
    each('is_zero', is_zero)

    def expand(w, n, m):
        A = ops('A', n, m)

        def distributed(it, s, v):
            for x in s.heap[v[2]]['matrix'][2]:
                if x[0] == 'op' and x[-1] != 'expanded':
                    return 'the entry %r is not expanded' % x[1]
            return differ(it.plain(s, v), matrix(A))
        yield w.it, w.method(w.mx(A), 'expand'), distributed
        for v in (scs('a', n, m), 'sc'), ([[const(3)] * m] * n, 'sc'):
            yield w.it, w.method(w.mx(*v), 'expand'), matrix(v[0])
        yield w.it, w.method(w.raw([num(3)] * (n * m), n, m), 'expand'), \
            matrix([[const(3)] * m] * n)
    each('expand', expand)

    def simplify(w, n, m):
        env = {'$mod': repo.modules[CORE + 'matrix_algebra'],
               '$owner': None, '$self': None, 'u': ('sc', b_)}
        for A, kind in ((ops('A', n, m), 'op'), (scs('a', n, m), 'sc')):
            for s, f in w.it.ev(ast.parse('lambda z: z * u',
                                          mode='eval').body, env, w.st):
                w.st = s
                yield w.it, w.method(w.mx(A, kind), 'simplify_scalar',
                                     func=f), matrix(
                    [[x.mul(b_) for x in r] for r in A])
    each('simplify_scalar', simplify)

    def parts(name, sign, factor):
        def f(w, n, m):
            A = scs('a', n, m)
            yield w.it, w.prop(w.mx(A, 'sc'), name), matrix(
                times(factor, plus(A, times(sign, tr(dag(A))))))
            yield w.it, w.prop(w.mx(ops('A', n, m)), name), \
                'NoConjugateMatrix'
            bare = World(repo)
            bare.it.bare = True
            yield bare.it, bare.prop(bare.mx(A, 'sc'), name), matrix(
                times(factor, plus(A, times(sign, tr(dag(A))))))
            yield w.it, w.prop(w.raw([num(2)] * (n * m), n, m), name), \
                matrix([[const(2 if name == 'real' else 0)] * m] * n)
        each(name, f)
    parts('real', ONEP, HALF)
    parts('imag', MINUS, const(0, Fraction(-1, 2)))

    def blocks():
        for sizes in ((1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1)):
            w = World(repo)
            n = sum(sizes)
            S = zeros(n, n)
            k = 0
            parts = []
            for x, b in enumerate(sizes):
                B = ops('B%d' % x, b, b)
                for i, j in itertools.product(range(b), repeat=2):
                    S[k + i][k + j] = B[i][j]
                parts.append(B)
                k += b
            yield w.it, w.prop(w.mx(S), 'block_structure'), [
                number(const(b)) for b in sizes]
            yield w.it, w.method(w.mx(S), '_get_blocks', (
                'tuple', tuple(num(b) for b in sizes))), [
                matrix(B) for B in parts]
            L = ops('L', n, 1)
            k = 0
            cut = []
            for b in sizes:
                cut.append(matrix(L[k:k + b]))
                k += b
            if n > 1:
                yield w.it, w.method(w.mx(L), '_get_blocks', (
                    'tuple', tuple(num(b) for b in sizes))), cut
            if n > 1 and len(sizes) > 1:
                yield w.it, w.method(w.mx(ops('F', n, n)), '_get_blocks', (
                    'tuple', tuple(num(b) for b in sizes))), 'ValueError'
        for n in (2, 3):
            off = [(i, j) for i in range(n) for j in range(n) if i != j]
            for bits in itertools.product((0, 1), repeat=len(off)):
                A = ops('A', n, n)
                for (i, j), b in zip(off, bits):
                    if not b:
                        A[i][j] = ZEROP
                ends = [k for k in range(1, n + 1) if not any(
                    b and (i < k) != (j < k)
                    for (i, j), b in zip(off, bits))]
                sizes = [b - a for a, b in zip([0] + ends, ends)]
                w = World(repo)
                yield w.it, w.prop(w.mx(A), 'block_structure'), [
                    number(const(b)) for b in sizes]
                t = ('tuple', (num(1), num(n - 1)))
                yield w.it, w.method(w.mx(A), '_get_blocks', t), [
                    matrix([r[:1] for r in A[:1]]),
                    matrix([r[1:] for r in A[1:]])] if 1 in ends else \
                    'ValueError'
    c.judge('matrix:blocks', c.at('Matrix', '_get_blocks'), blocks)

    def build():
        A, B = ops('A', 2, 1), ops('B', 2, 2)
        C, D = ops('C', 1, 1), ops('D', 1, 2)
        w = World(repo)
        tup = lambda *xs: ('tuple', tuple(w.mx(x) for x in xs))
        M = CORE + 'matrix_algebra.'
        yield w.it, w.fn(M + 'hstackm', tup(A, B)), matrix(
            [x + y for x, y in zip(A, B)])
        yield w.it, w.fn(M + 'vstackm', tup(A, C)), matrix(A + C)
        a, b, cc, d = [w.mx(x) for x in (A, B, C, D)]
        yield w.it, w.fn(M + 'block_matrix', a, b, cc, d), matrix(
            [x + y for x, y in zip(A, B)] + [C[0] + D[0]])
        for n in (1, 2, 3):
            yield w.it, w.fn(M + 'identity_matrix', num(n)), matrix(eye(n))
            for m in (1, 2):
                yield w.it, w.fn(M + 'zerosm', ('tuple', (
                    num(n), num(m)))), matrix(zeros(n, m))
        xs = [P(scalar(n)) for n in 'uvw']
        for k in (-1, 0, 1):
            n = 3 + abs(k)
            D = zeros(n, n)
            for i, x in enumerate(xs):
                D[i + max(0, -k)][i + max(0, k)] = x
            yield w.it, w.fn(M + 'diagm', ('tuple', tuple(
                ('sc', x) for x in xs)), num(k)), matrix(D)
    c.judge('matrix:build', c.at_fn(CORE + 'matrix_algebra.block_matrix'),
            build)

    def perms():
        for n in (1, 2, 3):
            for p in itertools.permutations(range(n)):
                w = World(repo)
                yield w.it, w.fn(
                    CORE + 'matrix_algebra.permutation_matrix',
                    ('tuple', tuple(num(x) for x in p))), matrix(perm(p))
    c.judge('matrix:permutation', c.at_fn(
        CORE + 'matrix_algebra.permutation_matrix'), perms)


def perm(p):
    return [[ONEP if p[j] == i else ZEROP for j in range(len(p))]
            for i in range(len(p))]


# -- SLH -----------------------------------------------------------------------
def composition(c):
    repo = c.repo

    def create():
        for n in (1, 2):
            w = World(repo)
            S, L = ops('S', n, n), ops('L', n, 1)
            s, l = scs('s', n, n), scs('l', n, 1)
            H, h = P(operator('~H')), P(scalar('h'))
            for (ks, S_), (kl, L_), (kh, H_) in itertools.product(
                    (('op', S), ('sc', s)), (('op', L), ('sc', l)),
                    (('op', H), ('sc', h))):
                m1, m2 = w.mx(S_, ks), w.mx(L_, kl)
                yield w.it, w.new('SLH', m1, m2, (kh, H_)), slh(S_, L_, H_)
            m1, m2 = w.mx(S), w.mx(L)
            for r in w.new('SLH', m1, m2, ('op', H)):
                if r[1][0] == 'EXC':
                    yield w.it, [r], slh(S, L, H)
                    continue
                yield w.it, w.it.attr(*r, 'cdim'), number(const(n))
                yield w.it, w.it.attr(*r, 'Ls'), [number(x[0]) for x in L]
                yield w.it, w.it.call1(*r, '__iter__'), [
                    matrix(S), matrix(L), number(H)]
            m2 = w.mx(ops('L', n + 1, 1))
            yield w.it, w.new('SLH', m1, m2, ('op', H)), 'ValueError'
            m2 = w.mx(ops('L', n, 2))
            yield w.it, w.new('SLH', m1, m2, ('op', H)), 'ValueError'
    c.judge('slh:create', c.at('SLH', '__init__'), create)

    def series():
        for n in (1, 2):
            for k1, k2 in itertools.product(('op', 'sc'), repeat=2):
                w = World(repo)
                a, (S, L, H) = w.model('a', n, k1)
                b, (T, M, G) = w.model('b', n, k2)
                yield w.it, w.method(a, 'series_with_slh', b), slh(
                    mm(S, T), plus(mm(S, M), L),
                    total([H, G, imag(mm(dag(L), S, M)[0][0])]))
    c.judge('slh:series', c.at('SLH', 'series_with_slh'), series)

    def concat():
        for n, m in ((1, 1), (1, 2), (2, 1), (2, 2)):
            w = World(repo)
            a, (S, L, H) = w.model('a', n)
            b, (T, M, G) = w.model('b', m)
            yield w.it, w.method(a, 'concatenate_slh', b), slh(
                [r + [ZEROP] * m for r in S] + [[ZEROP] * n + r for r in T],
                L + M, H.add(G))
    c.judge('slh:concatenate', c.at('SLH', 'concatenate_slh'), concat)

    def inverse():
        for n in (1, 2):
            w = World(repo)
            a, (S, L, H) = w.model('a', n)
            yield w.it, w.method(a, '_series_inverse'), slh(
                dag(S), times(MINUS, mm(dag(S), L)), MINUS.mul(H))
    c.judge('slh:inverse', c.at('SLH', '_series_inverse'), inverse)

    def feedback():
        for n in (2, 3, 4, 5):
            w = World(repo)
            S = ops('S', n, n)
            L = ops('L', n, 1)
            H = P(operator('~H'))
            k = n - 1
            for entry in (P(scalar('s')), ZEROP, const(Fraction(1, 3)), IP):
                S[k][k] = entry
                i = inv(ONEP.add(entry, (-F1, F0)))
                head = [r[:k] for r in S[:k]]
                col = [[r[k]] for r in S]
                out = slh(
                    plus(head, mm([[r[k]] for r in S[:k]], [[i]],
                                  [S[k][:k]])),
                    plus(L[:k], mm([[r[k]] for r in S[:k]], [[i]], [L[k]])),
                    H.add(imag(mm(dag(L), col, [[i]], [L[k]])[0][0])))
                a = w.slh(S, L, H)
                yield w.it, w.method(a, '_feedback', out_port=num(k),
                                     in_port=num(k)), out
            for entry in (ONEP, P(operator('X'))):
                S[k][k] = entry
                a = w.slh(S, L, H)
                yield w.it, w.method(a, '_feedback', out_port=num(k),
                                     in_port=num(k)), 'AlgebraError'
    c.judge('slh:feedback', c.at('SLH', '_feedback'), feedback)


# -- equations of motion ---------------------------------------------------------
def motion(c):
    repo = c.repo
    SO = CORE + 'super_operator_algebra.'
    A, B, X = (operator(n) for n in 'ABX')

    def on(p):
        """the operator that a super-operator makes of X"""
        def check(it, s, v):
            got = it.applied(to_poly(v), P(X)) if v[0] == 'sup' else None
            if got is None:
                if v[0] in ('op', 'sc', 'int'):
                    return 'an operator'
                if v == ('G', 'ZeroSuperOperator'):
                    got = ZEROP
                else:
                    raise Open(v[0])
            return None if got == p else '%r is not %r' % (got, p)
        return check

    def brackets():
        for f, sign in (('commutator', -F1), ('anti_commutator', F1)):
            w = World(repo)
            for y in (B, ('op', ZEROP), num(0), num(2), A):
                p = P(A).mul(P(y)).add(P(y).mul(P(A)), (sign, F0))
                yield w.it, w.fn(SO + f, A, y), number(p)
            yield w.it, w.fn(SO + f, A), on(
                P(A).mul(P(X)).add(P(X).mul(P(A)), (sign, F0)))
    c.judge('motion:commutator', c.at_fn(SO + 'commutator'), brackets)

    def lindblad():
        w = World(repo)
        yield w.it, w.fn(SO + 'lindblad', A), on(lind(P(A), P(X)))
        yield w.it, w.fn(SO + 'lindblad', ('sc', P(scalar('u')))), on(ZEROP)
    c.judge('motion:lindblad', c.at_fn(SO + 'lindblad'), lindblad)

    def ham(H, X):
        return const(0, -1).mul(comm(H, X))

    def liouvillian():
        for n in (0, 1, 2, 3):
            w = World(repo)
            H = P(operator('~H'))
            L = ops('L', n, 1)
            want = on(total([ham(H, P(X))] + [lind(x[0], P(X)) for x in L]))
            t = ('tuple', tuple(('op', x[0]) for x in L))
            yield w.it, w.fn(SO + 'liouvillian', ('op', H), t), want
            if n == 0:
                yield w.it, w.fn(SO + 'liouvillian', ('op', H)), want
            else:
                m = w.mx(L)
                yield w.it, w.fn(SO + 'liouvillian', ('op', H), m), want
                m, (S, L, H) = w.model('a', n)
                yield w.it, w.method(m, 'symbolic_liouvillian'), on(total(
                    [ham(H, P(X))] + [lind(x[0], P(X)) for x in L]))
    c.judge('motion:liouvillian', c.at_fn(SO + 'liouvillian'), liouvillian)

    def named(it):
        def symbol(it, a, kw, st):
            hs = kw.get('hs', ())
            if hs[:1] != ('space',):
                return [(st, ('EXC', 'TypeError') if not hs else
                         operator('~lost'))]
            whole = {'H', 'L'} <= set(hs)
            return [(st, operator('~' + a[0][1] if a[0][1] == 'rho' else
                                  a[0][1]) if whole else
                     operator('~on a part of the space'))]
        it.builders['OperatorSymbol'] = symbol
        it.spaceof = lambda b: ('space',) + tuple(sorted({
            str(g[0]).strip('~')[:1] for (sc, l, r) in b[1].t for g in l}))

        def space(it, o, n, st):
            if n != 'space':
                return None
            h = st.heap[o[2]]
            v = [h[k] for k in 'SLH'] if o[1] == 'SLH' else [h['matrix']]
            got = set()
            while v:
                x = v.pop()
                if x[0] == 'nd':
                    v += x[2]
                elif x[0] == 'obj':
                    v.append(st.heap[x[2]]['matrix'])
                elif x[0] == 'op':
                    got |= set(it.spaceof(x)[1:])
            return ('space',) + tuple(sorted(got))
        it.fields['Matrix'] = it.fields['SLH'] = space

    def master():
        for n in (1, 2, 3):
            w = World(repo)
            named(w.it)
            m, (S, L, H) = w.model('a', n)
            for rho in (operator('X'), None):
                r = P(rho or operator('~rho'))
                yield w.it, w.method(m, 'symbolic_master_equation', *(
                    [rho] if rho else [])), number(total(
                        [ham(H, r)] + [lind(x[0], r) for x in L]))
    c.judge('motion:master', c.at('SLH', 'symbolic_master_equation'), master)

    def heis(H, L, x):
        return total([IP.mul(comm(H, x))] + [total([
            l[0].dag().mul(x).mul(l[0]),
            const(Fraction(-1, 2)).mul(l[0].dag().mul(l[0]).mul(x)),
            const(Fraction(-1, 2)).mul(x.mul(l[0].dag()).mul(l[0]))])
            for l in L])

    def heisenberg():
        for n, kw, kind in itertools.product(
                (1, 2), ({}, {'expand_simplify': truthy(False)}),
                ('op', 'sc')):
            w = World(repo)
            named(w.it)
            m, (S, L, H) = w.model('a', n, kind)
            x = P(X)
            for args in ((X,), ()):
                yield w.it, w.method(m, 'symbolic_heisenberg_eom', *args,
                                     **kw), number(heis(H, L, x))
            b = [[Poly({((), ((('ext', 'b%d' % i), False),), ()):
                        (F1, F0)})] for i in range(n)]
            for meet in (True, False):
                if not meet and kind == 'op':
                    continue
                it = w.it
                it.meet = meet
                lam = [[b[i][0].dag().mul(b[j][0]) for i in range(n)]
                       for j in range(n)]
                bl = [[comm(x, l[0])] for l in L]
                lb = [[comm(l[0].dag(), x) for l in L]]
                parts = [heis(H, L, x), mm(dag(b), dag(S), bl)[0][0],
                         mm(lb, S, b)[0][0]]
                if meet:
                    full = plus(mm(dag(S), times(x, S)), times(MINUS, [
                        [x if i == j else ZEROP for j in range(n)]
                        for i in range(n)]))
                    t = mm(full, lam)
                    parts.append(total(t[i][i] for i in range(n)))
                noises = w.mx(b)
                yield w.it, w.method(
                    m, 'symbolic_heisenberg_eom', X, noises=noises, **kw), \
                    number(total(parts))
    c.judge('motion:heisenberg', c.at('SLH', 'symbolic_heisenberg_eom'),
            heisenberg)


# -- components, limits, linearisation ---------------------------------------
def components(c):
    repo = c.repo
    t, u = P(scalar('~t')), P(scalar('u'))

    def model(cls, want, **fields):
        def go():
            w = World(repo)
            o = w.obj(cls, **fields)
            yield w.it, w.method(o, '_toSLH'), want

            def unitary(it, s, v):
                S = s.heap[s.heap[v[2]]['S'][2]]['matrix']
                n, m = S[1]
                S = [[to_poly(x) for x in S[2][i * m:(i + 1) * m]]
                     for i in range(n)]
                if mm(dag(S), S) != eye(n):
                    return 'S is not unitary'
                H = to_poly(s.heap[v[2]]['H'])
                return None if H == H.dag() else 'H is not hermitian'
            yield w.it, w.method(o, '_toSLH'), unitary
        c.judge('component:' + cls, c.at(cls, '_toSLH'), go)

    co, si = fun('cos', t), fun('sin', t)
    model('Beamsplitter', slh([[co, MINUS.mul(si)], [si, co]],
                              zeros(2, 1), ZEROP), mixing_angle=('sc', t))
    model('PhaseCC', slh([[fun('exp', IP.mul(t))]], zeros(1, 1), ZEROP),
          phase=('sc', t))
    model('CoherentDriveCC', slh([[ONEP]], [[u]], ZEROP),
          displacement=('sc', u))
    for p in ((0,), (1, 0), (1, 2, 0), (0, 2, 1)):
        model('CPermutation', slh(perm(p), zeros(len(p), 1), ZEROP),
              permutation=('tuple', tuple(num(x) for x in p)),
              cdim=num(len(p)))
    model('CIdentity', slh([[ONEP]], [[ZEROP]], ZEROP))

    def pauli():
        M = 'qnet.algebra.library.pauli_matrices.'

        def E(j, k, hs):
            return P(('op', Poly({((), ((('E', hs, j, k), False),), ()):
                                  (F1, F0)})))
        labels = [('stranger', x) for x in 'geh']
        for basis in (None, labels[:2], labels):
            for states in (None, (num(0), num(1)), (num(2), num(0)),
                           (labels[1], labels[2])):
                for x in 'XYZ':
                    w = World(repo)
                    hs = ('obj', 'LocalSpace', 5)
                    w.st.heap[5] = {'has_basis': truthy(basis is not None)}
                    if basis is not None:
                        w.st.heap[5]['basis_labels'] = (
                            'tuple', tuple(basis))
                    g, e = states or (basis or (num(0), num(1)))[:2]
                    ge, eg = E(g, e, hs), E(e, g, hs)
                    want = {'X': ge.add(eg),
                            'Y': IP.mul(eg.add(ge, (-F1, F0))),
                            'Z': E(g, g, hs).add(E(e, e, hs), (-F1, F0))}[x]
                    args = [hs] + ([('tuple', states)] if states else [])
                    yield w.it, w.fn(M + 'Pauli' + x, *args), number(want)
                    w.it.builders['LocalSpace'] = \
                        lambda it, a, kw, st, hs=hs: [(st, hs)]
                    if states is not None:
                        yield w.it, w.fn(
                            M + 'Pauli' + x, ('text', 'q'), *args[1:]), \
                            number(want)
    c.judge('component:pauli', c.at_fn(
        'qnet.algebra.library.pauli_matrices.PauliY'), pauli)


def limits(c):
    repo = c.repo
    CA = CORE + 'circuit_algebra.'

    def drives():
        for n in (1, 2):
            for which in (None, (), (0,), (1,), (0, 1)):
                if which and max(which) >= n:
                    continue
                for kw in ({}, {'expand_simplify': truthy(False)}):
                    w = World(repo)

                    def cascade(it, args, kws, st):
                        a, b = args
                        return it.call1(st, a, 'series_with_slh', b)
                    w.it.builders['SeriesProduct'] = cascade
                    w.it.builders['SLH.__lshift__'] = cascade
                    w.it.builders['Circuit.__lshift__'] = cascade
                    m, (S, L, H) = w.model('a', n)
                    al = [P(scalar('u%d' % i)) for i in range(n)]
                    L = plus(L, [[x] for x in al])
                    m = w.slh(S, L, H)
                    cut = [x if which is None or i in which else ZEROP
                           for i, x in enumerate(al)]
                    L2 = plus(L, [[MINUS.mul(x)] for x in cut])
                    G = total([H] + [imag(x.dag().mul(l[0])).mul(MINUS)
                                     for x, l in zip(cut, L)])
                    args = [m] + ([('tuple', tuple(num(i) for i in which))]
                                  if which is not None else [])
                    yield w.it, w.fn(CA + 'move_drive_to_H', *args, **kw), \
                        slh(S, L2, G)
            w = World(repo)
            m, (S, L, H) = w.model('a', n)
            yield w.it, w.fn(CA + 'move_drive_to_H', m), slh(S, L, H)
    c.judge('limit:drives', c.at_fn(CA + 'move_drive_to_H'), drives)

    def prepare():
        for n, given in itertools.product((1, 2), (True, False)):
            w = World(repo)
            k = P(scalar('~k'))
            S = ops('S', n, n)
            F_, G_ = ops('F', n, 1), ops('G', n, 1)
            L = plus(times(k, F_), G_)
            H0, H1, H2 = (P(operator('~H%d' % i)) for i in range(3))
            H = total([H0, k.mul(H1), k.mul(k).mul(H2)])
            sq = lambda a, b: mm(dag(a), b)[0][0].mul(const(Fraction(-1, 2)))
            Y = sq(F_, F_).add(IP.mul(H2))
            A = total([sq(F_, G_), sq(G_, F_), IP.mul(H1)])
            B = sq(G_, G_).add(IP.mul(H0))
            yield w.it, w.fn(CA + 'prepare_adiabatic_limit', w.slh(S, L, H),
                             *([('sc', k)] if given else [])), [
                number(Y), number(A), number(B), matrix(dag(F_)),
                matrix(dag(G_)), matrix(dag(S))]
    c.judge('limit:prepare', c.at_fn(CA + 'prepare_adiabatic_limit'),
            prepare)

    def evaluate():
        for n in (1, 2):
            w = World(repo)
            Y, A, B, Yt = (P(operator(x)) for x in ('Y', 'A', 'B', 'Yt'))
            P0 = P(operator('~P0'))
            F_, G_ = ops('F', 1, n), ops('G', 1, n)
            N = ops('N', n, n)
            K = P0.mul(B.add(A.mul(Yt).mul(A), (-F1, F0))).mul(P0)
            Ld = times(P0, plus(G_, times(MINUS.mul(A).mul(Yt), F_)))
            Ld = [[x.mul(P0) for x in r] for r in Ld]
            dN = plus(eye(n), mm(dag(F_), times(Yt, F_)))
            Nl = [[x.mul(P0) for x in r] for r in times(P0, mm(N, dN))]
            t = ('tuple', (('op', Y), ('op', A), ('op', B), w.mx(F_),
                           w.mx(G_), w.mx(N)))
            yield w.it, w.fn(CA + 'eval_adiabatic_limit', t, ('op', Yt),
                             ('op', P0)), slh(dag(Nl), dag(Ld), imag(K))
    c.judge('limit:evaluate', c.at_fn(CA + 'eval_adiabatic_limit'), evaluate)

    def eliminate():
        for basis, (diag, off) in itertools.product((True, False), (
                ((1, 2), False), ((2,), False), ((0, 1, 2), False),
                ((1,), True))):
            w = World(repo)
            it = w.it
            hs = ('obj', 'LocalSpace', 5)
            w.st.heap[5] = {}
            names = [('text', x) for x in 'gehx'] if basis else [
                num(i) for i in range(3)]
            it.fields['LocalSpace'] = lambda it, o, n, st: None \
                if n != 'basis_labels' else (
                    ('tuple', tuple(names)) if basis else [
                        (st, ('EXC', 'BasisNotSetError'))])
            it.space = hs

            def E(j, k):
                return Poly({((), ((('E', hs, names[j], names[k]), False),),
                              ()): (F1, F0)})
            h = {i: P(scalar('~h%d' % i)) for i in diag}
            H2 = total(h[i].mul(E(i, i)) for i in diag)
            if off:
                H2 = total([H2, E(0, 2), E(2, 0)])
            H0, H1, L, S = (P(operator(x)) for x in ('~H0', '~H1', 'L', 'S'))
            k = P(scalar('~k'))
            m = w.slh([[S]], [[L]], total([H0, k.mul(H1),
                                           k.mul(k).mul(H2)]))
            null = [i for i in range(3) if i not in diag]
            if off or not null:
                want = 'CannotEliminateAutomatically'
            else:
                P0 = total(E(i, i) for i in null)
                Yt = total(E(i, i).mul(inv(IP.mul(h[i]))) for i in diag)
                B = IP.mul(H0).add(L.dag().mul(L), (Fraction(-1, 2), F0))
                A = IP.mul(H1)
                K = P0.mul(B.add(A.mul(Yt).mul(A), (-F1, F0))).mul(P0)
                want = slh([[P0.mul(S).mul(P0)]], [[P0.mul(L).mul(P0)]],
                           imag(K))
            yield it, w.fn(CA + 'try_adiabatic_elimination', m,
                           fock_trunc=num(3), sub_P0=truthy(False)), want
    c.judge('limit:eliminate', c.at_fn(CA + 'try_adiabatic_elimination'),
            eliminate)

    def linear():
        for n, k, doubled, a0 in ((1, 1, True, ()), (1, 1, False, ()),
                                  (1, 1, True, (0,)), (2, 1, True, (0,)),
                                  (1, 2, True, (0, 1)), (2, 2, True, ()),
                                  (2, 2, False, (0,)), (2, 1, None, ())):
            w = World(repo)
            it = w.it
            hs = [('stranger', 's%d' % i) for i in range(k)]
            it.modes = hs
            from ..formal import mode
            a = [P(mode(h)) for h in hs]
            ad = [x.dag() for x in a]
            S = scs('S', n, n)
            C, C2 = scs('C', n, k), scs('D', n, k)
            L = [[total([P(scalar('c%d' % i))] + [
                C[i][j].mul(a[j]) for j in range(k)] + [
                C2[i][j].mul(ad[j]) for j in range(k)])] for i in range(n)]
            H = ZEROP
            for i in range(k):
                e = P(scalar('e%d' % i)).mul(ad[i])
                q = P(scalar('q%d' % i)).mul(ad[i]).mul(ad[i])
                H = total([H, e, e.dag(), q, q.dag(),
                           P(scalar('~w%d' % i)).mul(ad[i]).mul(a[i])])
            if k == 2:
                g = P(scalar('g')).mul(ad[0]).mul(a[1])
                H = total([H, g, g.dag()])
            kws = {}
            if doubled is not None:
                kws['doubled_up'] = truthy(doubled)
            L0, H0 = L, H
            shift = {}
            if a0:
                al = {i: P(scalar('z%d' % i)) for i in a0}
                kws['a0'] = ('dict', tuple((('op', a[i]), ('sc', al[i]))
                                           for i in a0))
                for i in a0:
                    shift[('mode', hs[i]), False] = a[i].add(al[i])
                    shift[('mode', hs[i]), True] = ad[i].add(al[i].dag())
                L = [[moved(x[0], shift)] for x in L]
                H = moved(H, shift)
            it.meet = False
            m = w.slh(S, L0, H0)
            b = [[Poly({((), ((('ext', 'b_%d' % i), False),), ()):
                        (F1, F0)})] for i in range(n)]
            eoms = []
            for x in a:
                eoms.append(total([
                    IP.mul(comm(H, x))] + [
                    lind2(l[0], x) for l in L] + [
                    mm(dag(b), dag(S), [[comm(x, l[0])] for l in L])[0][0],
                    mm([[comm(l[0].dag(), x) for l in L]], S, b)[0][0]]))

            def part(p, *word):
                return Poly({(s, (), ()): c for (s, l, r), c in p.t.items()
                             if l == tuple(word)})
            M = [('mode', h) for h in hs]
            E = [('ext', 'b_%d' % i) for i in range(n)]
            rows = lambda ps, gens, d: [[part(p, (g, d)) for g in gens]
                                        for p in ps]
            bar = lambda m: [[x.dag() for x in r] for r in m]
            Ls = [l[0] for l in L]
            parts = []
            for ps, gens in ((eoms, M), (eoms, E), (Ls, M)):
                q = rows(ps, gens, False)
                if doubled is not False:
                    q2 = rows(ps, gens, True)
                    q = [x + y for x, y in zip(q, q2)] + [
                        x + y for x, y in zip(bar(q2), bar(q))]
                parts.append(q)
            D = S
            av = [[part(p)] for p in eoms]
            cv = [[part(p)] for p in Ls]
            if doubled is not False:
                D = [r + [ZEROP] * n for r in S] + [
                    [ZEROP] * n + r for r in bar(S)]
                av, cv = av + bar(av), cv + bar(cv)
            want = [arr(x) for x in parts + [D]] + [
                arr(x, True) for x in (av, cv)]
            yield it, w.fn(CA + 'getABCD', m, **kws), want
    c.judge('limit:linear', c.at_fn(CA + 'getABCD'), linear)


def arr(rows, flat=False):
    return ('nd', (len(rows),) if flat else (len(rows), len(rows[0])),
            tuple(x for r in rows for x in r))


def lind2(l, x):
    return total([l.dag().mul(x).mul(l),
                  MINUS.mul(HALF).mul(l.dag()).mul(l).mul(x),
                  MINUS.mul(HALF).mul(x).mul(l.dag()).mul(l)])


def moved(p, m):
    res = ZEROP
    for (sc, l, r), c in p.t.items():
        t = Poly({(sc, (), ()): c})
        for g in l:
            t = t.mul(m.get(g) or Poly({((), (g,), ()): (F1, F0)}))
        res = res.add(t)
    return res


def check(repo, rep):
    rep.rule('matrix', 'matrices of operators multiply, transpose, conjugate '
             'and split like matrices over a non-commutative ring')
    rep.rule('slh', 'models compose by the series, concatenation, inverse '
             'and feedback formulas')
    rep.rule('motion', 'Liouvillians, master and Heisenberg equations are '
             'those of the model')
    c = Check(repo, rep)
    rep.rule('component', 'components have the models that they document, '
             'with a unitary scattering matrix')
    rep.rule('limit', 'drives, adiabatic limits and linearised models follow '
             'from the formulas of the model')
    for f in (matrices, composition, motion, components, limits):
        f(c)
    circuits.model_feedback(circuits.Check(repo, rep))
