"""Formal values for formulas: polynomials with complex rational coefficients
over commuting scalars and non-commuting operators with an adjoint, acting from
the left and from the right (so that super-operators are polynomials as well),
matrices of them, and an interpreter of the source for them.

('op', P)  operator      ('sc', P)  scalar     ('sup', P)  super-operator
('nd', shape, entries)   an array of values    ('obj', class, id)  as usual
"""
import ast
import itertools
from fractions import Fraction

from .linear import Interp, Open, NONE, State, lconst, num, truthy

F0, F1 = Fraction(0), Fraction(1)


class Poly:
    """{(scalars, left, right): (re, im)}; scalars are sorted (name, conj)
    pairs, left/right are words of (name, dag) pairs"""
    __slots__ = ('t', '_h')

    def __init__(self, t=()):
        self.t = {k: v for k, v in dict(t).items() if v != (F0, F0)}
        self._h = None

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for (sc, l, r), (re, im) in sorted(self.t.items(), key=repr):
            c = str(re) if not im else (
                '%si' % im if not re else '(%s%+si)' % (re, im))
            w = [n if isinstance(n, str) else '%s(%r)' % (n[0], n[1:])
                 for n in ()]
            w = ['%s%s' % (gname(n), "*" if d else '') for n, d in sc]
            w += ['%s%s' % (gname(n), "'" if d else '') for n, d in l]
            if r:
                w += ['[.]'] + ['%s%s' % (gname(n), "'" if d else '')
                                for n, d in r]
            if c == '1' and w:
                c = ''
            elif c == '-1' and w:
                c = '-'
            elif w:
                c += ' '
            out.append(c + ' '.join(w))
        return ' + '.join(out).replace('+ -', '- ')

    def add(self, o, k=(F1, F0)):
        t = dict(self.t)
        for w, c in o.t.items():
            a, b = t.get(w, (F0, F0))
            c = cmul(c, k)
            t[w] = (a + c[0], b + c[1])
        return Poly(t)

    def mul(self, o):
        t = {}
        for (s1, l1, r1), c1 in self.t.items():
            for (s2, l2, r2), c2 in o.t.items():
                c = cmul(c1, c2)
                for w, k in words(tuple(sorted(s1 + s2, key=repr)), l1 + l2,
                                  r2 + r1):
                    a, b = t.get(w, (F0, F0))
                    d = cmul(c, k)
                    t[w] = (a + d[0], b + d[1])
        return Poly(t)

    def dag(self):
        t = {}
        for (s, l, r), (re, im) in self.t.items():
            if r:
                raise Open('adjoint of a super-operator')
            w = (tuple(sorted((gconj(g) for g in s), key=repr)),
                 tuple(gdag(g) for g in reversed(l)), ())
            a, b = t.get(w, (F0, F0))
            t[w] = (a + re, b - im)
        return Poly(t)

    def scalar(self):
        return all(not l and not r for _, l, r in self.t)

    def const(self):
        if not self.t:
            return (F0, F0)
        if set(self.t) == {((), (), ())}:
            return self.t[((), (), ())]
        return None


def gname(n):
    return n if isinstance(n, str) else '%s(%s)' % (n[0], ','.join(
        map(repr, n[1:])))


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def gconj(g):
    n, d = g
    if isinstance(n, str):
        return (n, False) if n.startswith('~') else (n, not d)
    if n[0] in ('1/', 'cos', 'sin', 'sqrt'):
        return ((n[0], n[1].dag()), False)
    if n[0] == 'exp':
        return (('exp', n[1].dag()), False)
    return (n, not d)


def gdag(g):
    n, d = g
    if isinstance(n, tuple) and n[0] == 'E':
        return (('E', n[1], n[3], n[2]), False)
    if isinstance(n, str) and n.startswith('~'):
        return g
    return (n, not d)


def words(sc, l, r):
    """[(normal word, coefficient)]: sin^2 = 1 - cos^2, exponentials are
    joined, transition operators multiply, modes obey [a, a'] = 1"""
    out = [((sc, l, r), (F1, F0))]
    res = []
    while out:
        (sc, l, r), c = out.pop()
        exps = [g for g in sc if isinstance(g[0], tuple) and g[0][0] == 'exp']
        if exps and (len(exps) > 1 or not exps[0][0][1].t):
            p = Poly()
            for g in exps:
                p = p.add(g[0][1])
            sc = tuple(sorted([g for g in sc if g not in exps] + (
                [(('exp', p), False)] if p.t else []), key=repr))
        gone = False
        for g in sc:
            if isinstance(g[0], tuple) and g[0][0] == '1/' and \
                    len(g[0][1].t) == 1:
                ((s1, _, _), k), = g[0][1].t.items()
                if len(s1) == 1 and s1[0] in sc:
                    rest = list(sc)
                    rest.remove(g)
                    rest.remove(s1[0])
                    d = k[0] * k[0] + k[1] * k[1]
                    out.append(((tuple(rest), l, r),
                                cmul(c, (k[0] / d, -k[1] / d))))
                    gone = True
                    break
        if gone:
            continue
        sins = [g for g in sc if isinstance(g[0], tuple) and g[0][0] == 'sin']
        two = next((g for g in sins if sins.count(g) > 1), None)
        if two:
            rest = list(sc)
            rest.remove(two)
            rest.remove(two)
            co = (('cos', two[0][1]), False)
            out.append(((tuple(rest), l, r), c))
            out.append(((tuple(sorted(rest + [co, co], key=repr)), l, r),
                        (-c[0], -c[1])))
            continue
        alts = reduce_word(l)
        if alts is not None:
            out += [((sc, w, r), cmul(c, k)) for w, k in alts]
            continue
        alts = reduce_word(r)
        if alts is not None:
            out += [((sc, l, w), cmul(c, k)) for w, k in alts]
            continue
        res.append(((sc, l, r), c))
    return res


def site(g):
    """space of a generator that commutes with those of other spaces"""
    n = g[0]
    if isinstance(n, tuple) and n[0] in ('E', 'mode', 'ext', 'loc'):
        return n[:2]
    return None


def reduce_word(w):
    for i in range(len(w) - 1):
        a, b = w[i], w[i + 1]
        sa, sb = site(a), site(b)
        if sa is None and sb is not None and sb[0] == 'ext':
            continue
        if sb is None and sa is not None and sa[0] == 'ext' or \
                None not in (sa, sb) and sa != sb and repr(sb) < repr(sa):
            return [(w[:i] + (b, a) + w[i + 2:], (F1, F0))]
        if sa is not None and sa == sb and sa[0] == 'E':
            if a[0][3] != b[0][2]:
                return []
            return [(w[:i] + ((('E', a[0][1], a[0][2], b[0][3]), False),) +
                     w[i + 2:], (F1, F0))]
        if sa is not None and sa == sb and sa[0] == 'mode' and \
                not a[1] and b[1]:
            return [(w[:i] + (b, a) + w[i + 2:], (F1, F0)),
                    (w[:i] + w[i + 2:], (F1, F0))]
    return None


def const(re, im=0):
    return Poly({((), (), ()): (Fraction(re), Fraction(im))})


ZEROP, ONEP, IP = Poly(), const(1), const(0, 1)


def scalar(name):
    return ('sc', Poly({(((name, False),), (), ()): (F1, F0)}))


def operator(name):
    return ('op', Poly({((), ((name, False),), ()): (F1, F0)}))


def inv(p):
    c = p.const()
    if c is not None:
        d = c[0] * c[0] + c[1] * c[1]
        if not d:
            raise ZeroDivisionError
        return const(c[0] / d, -c[1] / d)
    if not p.scalar():
        raise Open('inverse of an operator')
    return Poly({(((('1/', p), False),), (), ()): (F1, F0)})


def fun(name, p):
    if name == 'exp' and not p.t:
        return ONEP
    return Poly({((((name, p), False),), (), ()): (F1, F0)})


def opclass(p):
    """class of the operator expression"""
    if not p.t:
        return 'ZeroOperator'
    if len(p.t) > 1 and not p.scalar():
        return 'OperatorPlus'
    if p == ONEP:
        return 'IdentityOperator'
    if p.scalar():
        return 'ScalarTimesOperator'
    ((s, l, r), c), = p.t.items()
    if s or c != (F1, F0):
        return 'ScalarTimesOperator'
    if len(l) > 1:
        return 'OperatorTimes'
    n = l[0][0]
    if isinstance(n, tuple) and n[0] == 'E':
        return 'LocalSigma'
    if isinstance(n, tuple) and n[0] == 'mode':
        return 'Create' if l[0][1] else 'Destroy'
    return 'Adjoint' if l[0][1] else 'OperatorSymbol'


def mode(hs, dag=False):
    return ('op', Poly({((), ((('mode', hs), dag),), ()): (F1, F0)}))


KINDS = ('int', 'expr', 'sc', 'op', 'sup')
ANY = ('op', 'sc')


def to_poly(v):
    if v[0] in ('op', 'sc', 'sup'):
        return v[1]
    if v[0] in ('int', 'expr'):
        c = lconst(v[1])
        if c is None:
            raise Open('a number')
        return const(c)
    if v[0] == 'bool':
        return const(int(v[1]))
    if v == ('G', 'I') or v == ('G', 'sympy.I'):
        return IP
    if v[0] == 'G' and v[1] in ('IdentityOperator', 'IdentitySuperOperator'):
        return ONEP
    if v[0] == 'G' and v[1] in ('ZeroOperator', 'ZeroSuperOperator'):
        return ZEROP
    if v[0] == 'opaque':
        try:
            z = complex(v[1])
        except ValueError:
            raise Open('a value')
        return const(Fraction(z.real), Fraction(z.imag))
    raise Open('%s as a number' % v[0])


def kind(v):
    if v[0] in ('op', 'sc', 'sup'):
        return v[0]
    if v[0] == 'G' and v[1].endswith('SuperOperator'):
        return 'sup'
    if v[0] == 'G' and v[1].endswith('Operator'):
        return 'op'
    return 'sc'


def nd(rows):
    rows = [list(r) for r in rows]
    return ('nd', (len(rows), len(rows[0]) if rows else 0),
            tuple(x for r in rows for x in r))


def rows_of(a):
    n, m = a[1]
    return [list(a[2][i * m:(i + 1) * m]) for i in range(n)]


class Formal(Interp):
    """the interpreter"""

    def __init__(self, repo):
        super().__init__(repo)
        self.bare = False
        self.builders.update({
            'adjoint': self.b_adjoint,
            'is_scalar': lambda it, a, kw, st: [(st, truthy(
                it.tname(a[0]) == 'scalar'))],
            'SPre': lambda it, a, kw, st: [(st, it.spre(a[0]))],
            'SPost': lambda it, a, kw, st: [(st, it.spost(a[0]))],
            'OperatorPlus': self.b_sum('op'),
            'SuperOperatorPlus': self.b_sum('sup'),
            'check_permutation': lambda it, a, kw, st: [(st, truthy(
                sorted(it.index(x) for x in it.items(a[0])) ==
                list(range(len(it.items(a[0]))))))],
            'permutation_matrix': None,
        })
        del self.builders['permutation_matrix']
        for c in ('Matrix', 'SLH'):
            self.builders[(c, '__init__')] = \
                lambda it, selfv, a, kw, st: [(st, NONE)]
        self.builders['get_coeffs'] = self.b_coeffs
        self.builders['ProductSpace'] = lambda it, a, kw, st: [
            (st, ('space',))]
        self.builders['Destroy'] = self.b_mode(False)
        self.builders['Create'] = self.b_mode(True)
        self.builders['LocalSigma'] = self.b_sigma
        self.builders['LocalProjector'] = lambda it, a, kw, st: \
            it.b_sigma(it, [a[0]] + list(a), kw, st)
        self.builders['OperatorSymbol'] = lambda it, a, kw, st: [
            (st, it.symbol(a[0]))]
        self.modes = ()

    @staticmethod
    def symbol(name):
        if name[0] != 'text' or name[1] is None:
            raise Open('name of a symbol')
        return ('op', Poly({((), ((('ext', name[1]), False),), ()):
                            (F1, F0)}))

    @staticmethod
    def b_coeffs(it, args, kws, st):
        v = args[0]
        x = kws.get('expand', args[1] if len(args) > 1 else ('bool', False))
        if set(kws) - {'expand'} or len(args) > 2:
            raise Open('get_coeffs')
        p = to_poly(v)
        if x == ('bool', True) or v[-1] == 'expanded' or len(p.t) < 2:
            return [(st, ('coeffs', p))]
        return [(st, ('coeffs', p, 'raw'))]

    @staticmethod
    def b_mode(dag):
        def go(it, args, kws, st):
            if args or set(kws) != {'hs'}:
                raise Open('a mode')
            return [(st, mode(kws['hs'], dag))]
        return go

    @staticmethod
    def b_sigma(it, args, kws, st):
        if len(args) != 2 or set(kws) != {'hs'}:
            raise Open('a transition')
        return [(st, ('op', Poly({((), ((
            ('E', kws['hs'], args[0], args[1]), False),), ()):
            (F1, F0)})))]

    def tname(self, v):
        if v[0] in ('int', 'expr', 'sc') or v[0] == 'bool' or \
                v[0] == 'G' and v[1] in ('I', 'sympy.I') or \
                v[0] == 'opaque':
            return 'scalar'
        return v[0]

    def b_adjoint(self, it, args, kws, st):
        v = args[0]
        if v[0] == 'obj':
            return it.call1(st, v, 'adjoint')
        if v[0] == 'G' and v[1].endswith('Operator'):
            return [(st, v)]
        return [(st, (kind(v), to_poly(v).dag()))]

    def call1(self, st, b, name, *args):
        return [r for s, f in self.attr(st, b, name)
                for r in self.call(s, f, list(args), {})]

    @staticmethod
    def b_sum(k):
        def go(it, args, kws, st):
            p = ZEROP
            for v in args:
                p = p.add(to_poly(v))
            return [(st, (k, p))]
        return go

    @staticmethod
    def spre(v):
        return ('sup', to_poly(v))

    @staticmethod
    def spost(v):
        p = to_poly(v)
        return ('sup', Poly({(s, (), l): c for (s, l, r), c in p.t.items()}))

    @staticmethod
    def index(v):
        c = lconst(v[1]) if v[0] == 'int' else None
        if c is None:
            raise Open('an index')
        return int(c)

    # -- arithmetic ----------------------------------------------------------
    def scalars(self, v):
        return v[0] in KINDS or v[0] in ('bool',) or v[0] == 'G' and v[1] in (
            'I', 'sympy.I', 'IdentityOperator', 'ZeroOperator',
            'IdentitySuperOperator', 'ZeroSuperOperator') or \
            v[0] == 'opaque' and v[1] != 're'

    def binop(self, op, a, b):
        a, b = (num(int(x[1])) if x[0] == 'bool' else x for x in (a, b))
        if a[0] == b[0] == 'space':
            if isinstance(op, ast.BitAnd):
                return ('space',) + tuple(x for x in a[1:] if x in b)
            return ('space',) + tuple(sorted({*a[1:], *b[1:]}))
        if a[0] == b[0] == 'set':
            x, y = a[1], b[1]
            if isinstance(op, ast.Sub):
                return ('set', tuple(v for v in x if v not in y))
            if isinstance(op, ast.BitAnd):
                return ('set', tuple(v for v in x if v in y))
            if isinstance(op, ast.BitOr):
                return ('set', x + tuple(v for v in y if v not in x))
        if 'nd' in (a[0], b[0]):
            return self.arrays(op, a, b)
        if a[0] == b[0] == 'tuple' and isinstance(op, ast.Add):
            return super().binop(op, a, b)
        if isinstance(op, ast.Mult) and {a[0], b[0]} == {'tuple', 'int'}:
            t, n = (a, b) if a[0] == 'tuple' else (b, a)
            return ('tuple', t[1] * self.index(n))
        if a[0] in ('int', 'expr') and b[0] in ('int', 'expr') and \
                not isinstance(op, (ast.Pow, ast.FloorDiv, ast.Mod)):
            try:
                return super().binop(op, a, b)
            except Open:
                pass
        if a[0] == b[0] == 'int' and isinstance(op, (ast.Pow, ast.FloorDiv,
                                                     ast.Mod)):
            x, y = self.index(a), self.index(b)
            if isinstance(op, ast.Pow) and y >= 0:
                return num(x ** y)
            if y:
                return num(x // y if isinstance(op, ast.FloorDiv) else x % y)
        if self.scalars(a) and self.scalars(b):
            return self.numbers(op, a, b)
        return super().binop(op, a, b)

    def numbers(self, op, a, b):
        ka, kb = kind(a), kind(b)
        p, q = to_poly(a), to_poly(b)
        if isinstance(op, (ast.Add, ast.Sub)):
            if {ka, kb} == {'op', 'sup'}:
                raise Open('an operator and a super-operator')
            k = max(ka, kb, key=('sc', 'op', 'sup').index)
            return (k, p.add(q, (F1 if isinstance(op, ast.Add) else -F1,
                                 F0)))
        if isinstance(op, ast.Mult):
            if ka == 'sup' and kb == 'op':
                return ('op', self.applied(p, q))
            if ka == 'op' and kb == 'sup':
                raise Open('an operator times a super-operator')
            k = max(ka, kb, key=('sc', 'op', 'sup').index)
            return (k, p.mul(q))
        if isinstance(op, ast.Div) and kb == 'sc':
            return (ka, p.mul(inv(q)))
        if isinstance(op, ast.Pow) and b[0] == 'int':
            n = self.index(b)
            base = p if n >= 0 else inv(p)
            r = ONEP
            for _ in range(abs(n)):
                r = r.mul(base)
            return (ka, r)
        raise Open('operation on %s and %s' % (ka, kb))

    @staticmethod
    def applied(p, q):
        r = Poly()
        for (s, l, w), c in p.t.items():
            r = r.add(Poly({((), l, ()): (F1, F0)}).mul(q).mul(
                Poly({(s, w, ()): c})))
        return r

    def arrays(self, op, a, b):
        if a[0] == b[0] == 'nd':
            if a[1] != b[1]:
                raise Open('shapes')
            return ('nd', a[1], tuple(self.binop(op, x, y)
                                      for x, y in zip(a[2], b[2])))
        if a[0] == 'nd':
            return ('nd', a[1], tuple(self.binop(op, x, b) for x in a[2]))
        return ('nd', b[1], tuple(self.binop(op, a, x) for x in b[2]))

    def e_BinOp(self, node, env, st):
        extra = {ast.Div: 'truediv', ast.LShift: 'lshift'}.get(type(node.op))
        if extra is None:
            return super().e_BinOp(node, env, st)
        res = []
        for s, vs in self.evs([node.left, node.right], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
                continue
            o = vs[0]
            ci = self.repo.maybe_cls(o[1]) if o[0] == 'obj' else None
            hit = self.repo.lookup(ci, '__%s__' % extra) if ci else None
            if hit is not None and hit[1] == 'method':
                res.extend(self.run(hit[0], hit[2], o, [vs[1]], {}, s))
            else:
                try:
                    res.append((s, self.binop(node.op, *vs)))
                except ZeroDivisionError:
                    res.append((s, ('EXC', 'ZeroDivisionError')))
        return res

    def e_UnaryOp(self, node, env, st):
        if isinstance(node.op, ast.USub):
            res = []
            for s, v in self.ev(node.operand, env, st):
                if v[0] == 'EXC':
                    res.append((s, v))
                elif v[0] == 'obj':
                    res.extend(self.call1(s, v, '__neg__'))
                elif v[0] in ('nd', 'sc', 'op', 'sup', 'G', 'opaque'):
                    res.append((s, self.binop(ast.Mult(), num(-1), v)))
                else:
                    res.append((s, ('int' if v[0] == 'int' else v[0],
                                    tuple((n, -c) for n, c in v[1]))
                                if v[0] in ('int', 'expr') else v))
            return res
        return super().e_UnaryOp(node, env, st)

    # -- comparison ----------------------------------------------------------
    def compare(self, st, op, a, b):
        o = self.OPS.get(type(op))
        if o in ('==', '!=') and not isinstance(op, (ast.Is, ast.IsNot)):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'nd' and self.scalars(y):
                    return [(st, ('nd', x[1], tuple(truthy(
                        (to_poly(z) == to_poly(y)) == (o == '=='))
                        for z in x[2])))]
            if 'obj' in (a[0], b[0]) and 'none' not in (a[0], b[0]):
                return [(st, truthy((self.same(st, a, b)) == (o == '==')))]
        if o in ('==', '!=') and (a[0] in ANY or b[0] in ANY or
                                  'sup' in (a[0], b[0]) or
                                  'opaque' in (a[0], b[0])) and \
                self.scalars(a) and self.scalars(b):
            eq = to_poly(a) == to_poly(b)
            if isinstance(op, (ast.Is, ast.IsNot)) and \
                    kind(a) != kind(b):
                eq = False
            return [(st, truthy(eq == (o == '==')))]
        if o in ('==', '!=') and a[0] == b[0] == 'tuple' and \
                not isinstance(op, (ast.Is, ast.IsNot)):
            return [(st, truthy((self.plain(st, a) == self.plain(st, b)) ==
                                (o == '==')))]
        if o in ('==', '!=') and 'none' in (a[0], b[0]) and a != b:
            return [(st, truthy(o == '!='))]
        res = []
        for s, v in super().compare(st, op, a, b):
            if v[0] == 'cond' and lconst(v[2]) is not None:
                (s, t), = self.split(s, *v[1:])
                v = truthy(t)
            res.append((s, v))
        return res

    space = ('space',)

    def spaceof(self, b):
        return self.space

    meet = True      # do the spaces of two operators have common factors?

    def same(self, st, a, b):
        x, y = self.plain(st, a), self.plain(st, b)
        return x == y

    def plain(self, st, v):
        """value without identities of objects"""
        if v[0] == 'obj' and v[1] == 'Matrix':
            return ('Matrix',) + self.plain(st, st.heap[v[2]]['matrix'])
        if v[0] == 'obj' and v[1] == 'SLH':
            return ('SLH',) + tuple(self.plain(st, st.heap[v[2]][n])
                                    for n in 'SLH')
        if v[0] == 'nd':
            return ('nd', v[1], tuple(to_poly(x) for x in v[2]))
        if v[0] == 'tuple':
            return ('tuple', tuple(self.plain(st, x) for x in v[1]))
        if v[0] == 'bool':
            return v
        if self.scalars(v):
            return ('#', to_poly(v))
        return v

    def contains(self, st, seq, x):
        if seq[0] == 'tuple' and all(
                y[0] == 'G' for y in seq[1]) and self.scalars(x):
            return [(st, False)]
        return super().contains(st, seq, x)

    def truth(self, st, v):
        if v[0] in ('op', 'sup', 'obj'):
            return [(st, True)]
        if v[0] == 'sc':
            return [(st, bool(v[1].t))]
        if v[0] in ('none',):
            return [(st, False)]
        return super().truth(st, v)

    # -- attributes ----------------------------------------------------------
    def e_Constant(self, node, env, st):
        if isinstance(node.value, (float, complex)):
            z = complex(node.value)
            return [(st, ('sc', const(Fraction(z.real), Fraction(z.imag))))]
        return super().e_Constant(node, env, st)

    def attr(self, st, b, name, env=None):
        if b[0] == 'nd':
            if name == 'shape':
                return [(st, ('tuple', tuple(num(k) for k in b[1])))]
            if name == 'T':
                return [(st, self.transposed(b))]
            return [(st, ('bound', b, name))]
        if b[0] == 'int' and name in ('adjoint', 'dag', 'is_zero'):
            return [(st, ('EXC', 'AttributeError'))]
        if b[0] == 'int' and name in ('real', 'imag'):
            return [(st, b if name == 'real' else num(0))]
        if b[0] == 'op' and name == 'space':
            return [(st, self.spaceof(b))]
        if b[0] == 'op' and name in ('j', 'k') and \
                opclass(b[1]) == 'LocalSigma':
            ((s, l, r), k), = b[1].t.items()
            return [(st, l[0][0][2 if name == 'j' else 3])]
        if b[0] == 'op' and name == 'operands' and opclass(
                b[1]) in ('LocalSigma', 'OperatorSymbol', 'Destroy',
                          'Create'):
            return [(st, ('EXC', 'AttributeError'))]
        if b[0] == 'space' and name == 'local_factors':
            return [(st, ('tuple', tuple(self.modes)))]
        if b[0] in ('op', 'sc'):
            c = opclass(b[1])
            if b[0] == 'op' and c == 'ScalarTimesOperator':
                if name in ('term', 'coeff'):
                    if b[1].scalar():
                        return [(st, ('op', ONEP) if name == 'term' else
                                 ('sc', b[1]))]
                    ((s, l, r), k), = b[1].t.items()
                    return [(st, ('op', Poly({((), l, r): (F1, F0)}))
                             if name == 'term' else
                             ('sc', Poly({(s, (), ()): k})))]
            if name in ('term', 'coeff'):
                return [(st, ('EXC', 'AttributeError'))]
            if name == 'is_zero':
                return [(st, truthy(not b[1].t))]
            if name == 'as_real_imag' and self.bare:
                return [(st, ('EXC', 'AttributeError'))]
            if b[0] in ('sc', 'op') and name in ('real', 'imag'):
                return [(st, ('EXC', 'AttributeError'))]
            if b[0] == 'op' and name in ('as_real_imag', 'conjugate') and \
                    not b[1].scalar():
                return [(st, ('EXC', 'AttributeError'))]
            return [(st, ('bound', b, name))]
        if b[0] == 'obj' and name == 'substitute':
            return [(st, ('bound', b, name))]
        if b[0] == 'obj':
            ci = self.repo.maybe_cls(b[1])
            hit = self.repo.lookup(ci, name) if ci is not None else None
            if hit is not None and hit[1] == 'attr' and isinstance(
                    hit[2], ast.Name):
                h2 = self.repo.lookup(hit[0], hit[2].id)
                if h2 is not None and h2[1] == 'method':
                    return super().attr(st, b, hit[2].id, env)
        return super().attr(st, b, name, env)

    @staticmethod
    def transposed(a):
        n, m = a[1]
        return ('nd', (m, n), tuple(a[2][i * m + j] for j in range(m)
                                    for i in range(n)))

    def is_a(self, v, t):
        n = t[1].rpartition('.')[2] if t[0] in ('cls', 'G') else None
        if v[0] == 'nd':
            return n == 'ndarray'
        if v[0] in ('op', 'sup'):
            if v[0] == 'sup':
                return n in ('SuperOperator', 'QuantumExpression',
                             'Expression')
            c = self.repo.maybe_cls(opclass(v[1]))
            return n in ('Operator', 'QuantumExpression', 'Expression') or \
                c is not None and self.repo.is_sub(c, n)
        if v[0] == 'sc':
            return n in ('Basic', 'Expr', 'Symbol')
        if v[0] == 'G' and v[1].endswith('Operator'):
            return n in ('Operator', 'QuantumExpression', 'Expression',
                         v[1]) and 'Super' not in v[1]
        if v[0] == 'G' and v[1] in ('I', 'sympy.I'):
            return n in ('Basic', 'Expr')
        if v[0] == 'int' and n in ('ndarray', 'Matrix', 'Operator'):
            return False
        return super().is_a(v, t)

    def globalv(self, q, n):
        v = super().globalv(q, n)
        m, _, k = q.rpartition('.')
        mod = self.repo.modules.get(m)
        if v[0] == 'G' and mod is not None and len(
                mod.assigns.get(k, ())) == 1 and isinstance(
                mod.assigns[k][0], (ast.Call, ast.Constant)):
            r = self.ev(mod.assigns[k][0], {'$mod': mod, '$owner': None,
                                            '$self': None}, State())
            if len(r) == 1:
                return r[0][1]
        return v

    # -- calls ---------------------------------------------------------------
    def e_Call(self, node, env, st):
        if not any(k.arg is None for k in node.keywords):
            return super().e_Call(node, env, st)
        plain = [k for k in node.keywords if k.arg is not None]
        res = []
        for s, vs in self.evs([node.func] + [
                x.value if isinstance(x, ast.Starred) else x
                for x in node.args] + [k.value for k in plain] + [
                k.value for k in node.keywords if k.arg is None], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
                continue
            args, it = [], iter(vs[1:])
            for x in node.args:
                v = next(it)
                args += self.items(v) if isinstance(x, ast.Starred) else [v]
            kws = {k.arg: next(it) for k in plain}
            for v in it:
                if v[0] != 'dict':
                    raise Open('keywords')
                kws.update(v[1])
            res.extend(self.call(s, vs[0], args, kws))
        return res

    def bound(self, st, b, name, args, kws):
        if b[0] == 'nd':
            r = self.array_method(st, b, name, args, kws)
            if r is not None:
                return r
        if b[0] in ('op', 'sc', 'sup') or b[0] == 'G' and \
                b[1].endswith('Operator'):
            if name in ('adjoint', 'dag', 'conjugate') and not args:
                return [(st, (kind(b), to_poly(b).dag()))]
            if name == 'as_real_imag' and not args and b[0] == 'sc':
                x, y = b[1], b[1].dag()
                return [(st, ('tuple', (
                    ('sc', x.add(y).mul(const(Fraction(1, 2)))),
                    ('sc', x.add(y, (-F1, F0)).mul(
                        const(0, Fraction(-1, 2)))))))]
            if name == 'simplify_scalar' and not args and list(kws) == [
                    'func'] and kws['func'][0] not in ('G', 'fn'):
                # a map of the coefficients, seen on the coefficient one
                return [(s, f if f[0] == 'EXC' else (
                    kind(b), to_poly(f).mul(to_poly(b))))
                        for s, f in self.call(st, kws['func'],
                                              [('sc', ONEP)], {})]
            if name in ('expand', 'simplify_scalar', 'simplify',
                        'doit') and not args:
                if name == 'expand' and b[0] == 'op':
                    return [(st, b[:2] + ('expanded',))]
                return [(st, b)]
            if name == 'series_expand' and b[0] == 'op':
                return [(st, ('tuple', tuple(
                    ('op', x) for x in self.series(b[1], *args))))]
        if b[0] == 'int' and name in ('conjugate', 'expand') and not args:
            return [(st, b)]
        if b[0] == 'text' and b[1] is not None and name == 'format' and \
                not kws and all(x[0] == 'int' for x in args):
            return [(st, ('text', b[1].format(*[self.index(x)
                                                for x in args])))]
        if b[0] == 'coeffs' and name in ('keys', 'items') and len(b) == 2:
            ks = dict.fromkeys((l, r) for s, l, r in b[1].t)
            ks = tuple(('op', Poly({((), l, r): (F1, F0)})) for l, r in ks)
            if name == 'keys':
                return [(st, ('tuple', ks))]
            return [(st, ('tuple', tuple(('tuple', (
                k, self.coefficient(b, k))) for k in ks)))]
        if b[0] == 'dict' and name in ('items', 'keys', 'values'):
            return [(st, ('tuple', tuple(
                ('tuple', (k if isinstance(k, tuple) else ('text', k), v))
                if name == 'items' else v if name == 'values' else
                k if isinstance(k, tuple) else ('text', k)
                for k, v in b[1])))]
        if b[0] == 'obj' and name == 'substitute' and len(args) == 1 and \
                args[0][0] == 'dict':
            return self.substituted(st, b, args[0][1])
        return super().bound(st, b, name, args, kws)

    def substituted(self, st, b, pairs):
        m = {}
        for k, v in pairs:
            p = to_poly(k)
            if len(p.t) != 1:
                raise Open('substitution')
            ((sc, l, r), c), = p.t.items()
            if sc or r or len(l) != 1 or c != (F1, F0):
                raise Open('substitution')
            m[l[0]] = to_poly(v)

        def poly(p):
            res = Poly()
            for (sc, l, r), c in p.t.items():
                t = Poly({(sc, (), ()): c})
                for g in l:
                    t = t.mul(m.get(g) or Poly({((), (g,), ()): (F1, F0)}))
                res = res.add(t)
            return res
        s = st.copy()
        fields = {}
        for n, v in s.heap[b[2]].items():
            if v[0] == 'obj' and v[1] == 'Matrix':
                o = ('obj', 'Matrix', next(self.n))
                a = s.heap[v[2]]['matrix']
                s.heap[o[2]] = {'_hash': NONE, 'matrix': (
                    'nd', a[1], tuple((kind(x), poly(to_poly(x)))
                                      for x in a[2]))}
                fields[n] = o
            elif self.scalars(v):
                fields[n] = (kind(v), poly(to_poly(v)))
            else:
                raise Open('substitution')
        o = ('obj', b[1], next(self.n))
        s.heap[o[2]] = fields
        return [(s, o)]

    def series(self, p, k, about, order):
        if to_poly(about).t:
            raise Open('series about another point')
        (((g,), _, _), _), = k[1].t.items()
        res = [Poly() for _ in range(self.index(order) + 1)]
        for (s, l, r), c in p.t.items():
            n = s.count(g)
            if n < len(res):
                res[n] = res[n].add(Poly({(tuple(
                    x for x in s if x != g), l, r): c}))
        return res

    def array_method(self, st, b, name, args, kws):
        n, m = b[1] if len(b[1]) == 2 else (b[1][0], None)
        if name == 'ravel' and not args:
            return [(st, ('nd', (len(b[2]),), b[2]))]
        if name == 'tolist' and not args:
            if m is None:
                return [(st, ('tuple', b[2]))]
            return [(st, ('tuple', tuple(('tuple', tuple(r))
                                         for r in rows_of(b))))]
        if name == 'setflags':
            return [(st, NONE)]
        if name in ('all', 'any') and not args and all(
                x[0] == 'bool' for x in b[2]):
            return [(st, truthy((all if name == 'all' else any)(
                x[1] for x in b[2])))]
        if name == 'reshape' and args:
            if len(args) == 1 and args[0][0] == 'tuple':
                args = args[0][1]
            sh = [self.index(x) for x in args]
            if -1 in sh:
                k = 1
                for x in sh:
                    k *= x if x != -1 else 1
                sh[sh.index(-1)] = len(b[2]) // k if k else 0
            size = 1
            for x in sh:
                size *= x
            if size != len(b[2]):
                return [(st, ('EXC', 'ValueError'))]
            return [(st, ('nd', tuple(sh), b[2]))]
        if name == 'dot' and len(args) == 1 and args[0][0] == 'nd':
            return self.dot(st, b, args[0])
        if name == 'transpose' and not args:
            return [(st, self.transposed(b))]
        if name in ('copy', 'flatten') and not args:
            return [(st, b if name == 'copy' else
                     ('nd', (len(b[2]),), b[2]))]
        if name == '__getitem__' and len(args) == 1:
            return [(st, self.item(b, args[0]))]
        return None

    def dot(self, st, a, b):
        if len(a[1]) != 2 or len(b[1]) != 2:
            raise Open('dot')
        if a[1][1] != b[1][0]:
            return [(st, ('EXC', 'ValueError'))]
        A, B = rows_of(a), rows_of(b)
        out = []
        for r in A:
            for j in range(b[1][1]):
                acc = num(0)
                for k, x in enumerate(r):
                    acc = self.binop(ast.Add(), acc, self.binop(
                        ast.Mult(), x, B[k][j]))
                out.append(acc)
        return [(st, ('nd', (a[1][0], b[1][1]), tuple(out)))]

    def key(self, k, n):
        """python index of one axis"""
        if k[0] == 'int':
            i = self.index(k)
            if not -n <= i < n:
                raise IndexError
            return i % n
        if k[0] == 'slice':
            return slice(*[None if x == NONE else self.index(x)
                           for x in k[1:]])
        raise Open('index %s' % k[0])

    def item(self, b, k):
        ks = list(k[1]) if k[0] == 'tuple' else [k]
        if len(ks) > len(b[1]):
            raise Open('too many indices')
        try:
            ks = [self.key(x, n) for x, n in zip(ks, b[1])]
        except IndexError:
            return ('EXC', 'IndexError')
        if len(b[1]) == 1:
            r = b[2][ks[0]]
            return r if isinstance(ks[0], int) else ('nd', (len(r),), r)
        ks += [slice(None)] * (2 - len(ks))
        rows = rows_of(b)
        if isinstance(ks[0], int) and isinstance(ks[1], int):
            return rows[ks[0]][ks[1]]
        if isinstance(ks[0], int):
            r = tuple(rows[ks[0]][ks[1]])
            return ('nd', (len(r),), r)
        sel = rows[ks[0]]
        if isinstance(ks[1], int):
            r = tuple(x[ks[1]] for x in sel)
            return ('nd', (len(r),), r)
        width = len(range(b[1][1])[ks[1]])
        return ('nd', (len(sel), width), tuple(
            y for x in sel for y in x[ks[1]]))

    def e_Slice(self, node, env, st):
        parts = [node.lower, node.upper, node.step]
        res = []
        for s, vs in self.evs([x for x in parts if x is not None], env, st):
            if vs and vs[0] == 'EXC':
                res.append((s, vs))
                continue
            it = iter(vs)
            res.append((s, ('slice',) + tuple(
                NONE if x is None else next(it) for x in parts)))
        return res

    def e_Subscript(self, node, env, st):
        res = []
        for s, vs in self.evs([node.value, node.slice], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
                continue
            b, k = vs
            if b[0] == 'obj':
                res.extend(self.call1(s, b, '__getitem__', k))
            elif b[0] == 'nd':
                res.append((s, self.item(b, k)))
            elif b[0] == 'tuple':
                try:
                    i = self.key(k, len(b[1]))
                except IndexError:
                    res.append((s, ('EXC', 'IndexError')))
                    continue
                res.append((s, b[1][i] if isinstance(i, int) else
                            ('tuple', b[1][i])))
            elif b[0] == 'coeffs':
                res.append((s, self.coefficient(b, k)))
            elif b[0] == 'dict':
                hit = [v for n, v in b[1] if n == k or
                       k[0] == 'text' and n == k[1]]
                res.append((s, hit[0] if hit else ('EXC', 'KeyError')))
            else:
                raise Open('item of %s' % b[0])
        return res

    def coefficient(self, b, k):
        if len(b) > 2:
            return ('sc', Poly({((('a coefficient of what is not expanded',
                                   False),), (), ()): (F1, F0)}))
        p = to_poly(k)
        if p == ONEP:
            w = ((), ())
        elif len(p.t) == 1:
            ((s, l, r), c), = p.t.items()
            if s or c != (F1, F0):
                return ('sc', ZEROP)
            w = (l, r)
        else:
            return ('sc', ZEROP)
        return ('sc', Poly({(s, (), ()): c for (s, l, r), c in b[1].t.items()
                            if (l, r) == w}))

    def assign(self, target, v, env, st):
        if isinstance(target, ast.Subscript):
            if isinstance(target.value, ast.Name) and env.get(
                    target.value.id, ('',))[0] == 'nd':
                res = []
                for s, k in self.ev(target.slice, env, st):
                    a = env[target.value.id]
                    ks = k[1] if k[0] == 'tuple' else (k,)
                    try:
                        i = [self.key(x, n) for x, n in zip(ks, a[1])]
                    except IndexError:
                        res.append((s, env, ('raise', 'IndexError')))
                        continue
                    if len(i) != len(a[1]) or not all(
                            isinstance(x, int) for x in i):
                        raise Open('assignment to a part of an array')
                    at = i[0] if len(i) == 1 else i[0] * a[1][1] + i[1]
                    cells = list(a[2])
                    cells[at] = v
                    res.append((s, dict(env, **{target.value.id: (
                        'nd', a[1], tuple(cells))}), None))
                return res
        if isinstance(target, (ast.Tuple, ast.List)) and v[0] == 'obj' and \
                v[1] == 'SLH':
            v = ('tuple', tuple(st.heap[v[2]][n] for n in 'SLH'))
        return super().assign(target, v, env, st)

    def items(self, v):
        if v[0] == 'set':
            return list(v[1])
        if v[0] == 'nd':
            if len(v[1]) == 1:
                return list(v[2])
            return [('nd', (len(r),), tuple(r)) for r in rows_of(v)]
        if v[0] == 'range':
            a, b = lconst(v[1]), lconst(v[2])
            if None not in (a, b):
                return [num(i) for i in range(int(a), int(b))]
        return super().items(v)

    @staticmethod
    def unknown_size(v):
        return False

    def e_DictComp(self, node, env, st):
        pair = ast.Tuple([node.key, node.value], ast.Load())
        return [(s, v if v[0] == 'EXC' else ('dict', tuple(
            x[1] for x in v[1])))
            for s, v in self.e_ListComp(ast.ListComp(pair, node.generators),
                                        env, st)]

    def s_Expr(self, node, env, st):
        c = node.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) \
                and isinstance(c.func.value, ast.Name) and \
                c.func.attr == 'update' and len(c.args) == 1 and \
                env.get(c.func.value.id, ('',))[0] == 'dict':
            n = c.func.value.id
            return self.values(c.args[0], env, st, lambda s, v: [
                (s, dict(env, **{n: ('dict', tuple(
                    (k, x) for k, x in env[n][1]
                    if k not in [y[0] for y in v[1]]) + v[1])}), None)])
        return super().s_Expr(node, env, st)

    # -- closures ------------------------------------------------------------
    def e_Lambda(self, node, env, st):
        return [(st, ('clo', id(node), node, env))]

    def s_FunctionDef(self, node, env, st):
        return [(st, dict(env, **{node.name: ('clo', id(node), node, env)}),
                 None)]

    def call(self, st, f, args, kws):
        if f[0] == 'clo':
            node, env = f[2], f[3]
            body = node.body if isinstance(node, ast.FunctionDef) else [
                ast.Return(node.body)]
            a = node.args
            names = [x.arg for x in a.args]
            if a.vararg or a.kwonlyargs or len(args) + len(kws) > len(names):
                raise Open('closure')
            e = dict(env)
            e.update(zip(names, args))
            e.update(kws)
            for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                if n not in kws and names.index(n) >= len(args):
                    (_, e[n]), = self.ev(d, env, st)
            if isinstance(node, ast.FunctionDef):
                e[node.name] = f
            self.depth += 1
            try:
                if self.depth > 14:
                    raise Open('recursion')
                res = []
                for s, _, o in self.block(body, e, st):
                    if o is None:
                        o = ('return', NONE)
                    res.append((s, o[1] if o[0] == 'return' else
                                ('EXC', o[1])))
                return res
            finally:
                self.depth -= 1
        if f[0] == 'partial':
            return self.call(st, f[1], list(f[2]) + list(args),
                             dict(f[3], **kws))
        return super().call(st, f, args, kws)

    # -- numpy, sympy ---------------------------------------------------------
    def array(self, v):
        if v[0] == 'nd':
            return v
        if v[0] == 'tuple':
            xs = [self.array(x) if x[0] in ('tuple', 'nd') else x
                  for x in v[1]]
            if xs and all(x[0] == 'nd' and len(x[1]) == 1 for x in xs):
                if len({x[1] for x in xs}) > 1:
                    raise Open('ragged array')
                return ('nd', (len(xs), xs[0][1][0]), tuple(
                    y for x in xs for y in x[2]))
            if any(x[0] == 'nd' for x in xs):
                if all(x[0] == 'nd' and len(x[1]) == 2 for x in xs):
                    return ('nd', (len(xs),) + xs[0][1], tuple(
                        y for x in xs for y in x[2]))
                raise Open('array of arrays')
            return ('nd', (len(xs),), tuple(xs))
        raise Open('array of %s' % v[0])

    def builtin(self, st, n, args, kws):
        short = n.rpartition('.')[2]
        if short.startswith('np_'):
            short = short[3:]
        if short in ('array', 'asarray') and len(args) == 1:
            return [(st, self.array(args[0]))]
        if short in ('zeros', 'ones', 'empty') and args:
            fill = num(1 if short == 'ones' else 0)
            sh = [self.index(x) for x in (
                args[0][1] if args[0][0] == 'tuple' else (args[0],))]
            k = 1
            for x in sh:
                k *= x
            return [(st, ('nd', tuple(sh), (fill,) * k))]
        if short in ('identity', 'eye') and len(args) == 1:
            k = self.index(args[0])
            return [(st, nd([[num(int(i == j)) for j in range(k)]
                             for i in range(k)]))]
        if short == 'diag' and args and args[0][0] in ('nd', 'tuple'):
            a = self.array(args[0])
            off = self.index(args[1]) if len(args) > 1 else 0
            if len(a[1]) == 1:
                k = len(a[2]) + abs(off)
                rows = [[num(0)] * k for _ in range(k)]
                for i, x in enumerate(a[2]):
                    rows[i + max(0, -off)][i + max(0, off)] = x
                return [(st, nd(rows))]
        if short in ('hstack', 'vstack') and len(args) == 1:
            return self.stack(st, short, [
                self.array(x) for x in self.items(args[0])])
        if short == 'conjugate' and len(args) == 1:
            if args[0][0] == 'nd':
                out = []
                for x in args[0][2]:
                    if kind(x) == 'op':
                        return [(st, ('EXC', 'AttributeError'))]
                    out.append((kind(x), to_poly(x).dag()))
                return [(st, ('nd', args[0][1], tuple(out)))]
            return [(st, (kind(args[0]), to_poly(args[0]).dag()))]
        if short in ('all', 'any') and len(args) == 1 and \
                args[0][0] in ('nd', 'tuple'):
            xs = args[0][2] if args[0][0] == 'nd' else args[0][1]
            if all(x[0] == 'bool' for x in xs):
                return [(st, truthy((all if short == 'all' else any)(
                    x[1] for x in xs)))]
        if short == 'sum' and args:
            vs = self.items(args[0])
            acc = args[1] if len(args) > 1 else num(0)
            live = [(st, acc)]
            for v in vs:
                nxt = []
                for s, a in live:
                    if 'obj' in (a[0], v[0]):
                        nxt += self.e_BinOp(ast.BinOp(
                            ast.Name('$a', ast.Load()), ast.Add(),
                            ast.Name('$b', ast.Load())),
                            {'$a': a, '$b': v}, s)
                    else:
                        nxt.append((s, self.binop(ast.Add(), a, v)))
                live = nxt
            return live
        if short in ('sympify', 'S', 'Rational') and len(args) == 1 and \
                self.scalars(args[0]):
            return [(st, args[0])]
        if short in ('exp', 'cos', 'sin') and len(args) == 1 and \
                self.scalars(args[0]):
            return [(st, ('sc', fun(short, to_poly(args[0]))))]
        if short == 'hasattr' and len(args) == 2:
            out = []
            for s, v in self.attr(st, args[0], args[1][1]):
                out.append((s, truthy(v[0] != 'EXC')))
            return out
        if short == 'len' and len(args) == 1 and args[0][0] == 'dict':
            return [(st, num(len(args[0][1])))]
        if short == 'len' and len(args) == 1 and args[0][0] == 'space':
            return [(st, num(int(self.meet)))]
        if short == 'len' and len(args) == 1 and args[0][0] == 'nd':
            return [(st, num(args[0][1][0]))]
        if short == 'partial' and args:
            return [(st, ('partial', args[0], tuple(args[1:]),
                          tuple(kws.items())))]
        if short == 'map' and len(args) == 2:
            live = [(st, ())]
            for x in self.items(args[1]):
                live = [(s2, acc + (v,)) for s, acc in live
                        for s2, v in self.call(s, args[0], [x], {})]
            return [(s, ('tuple', vs)) for s, vs in live]
        if short in ('reduce',) and len(args) in (2, 3) and \
                args[0][0] != 'G':
            vs = list(self.items(args[1]))
            acc = args[2] if len(args) == 3 else vs.pop(0)
            live = [(st, acc)]
            for v in vs:
                live = [r if r[1][0] == 'EXC' else r2
                        for r in live for r2 in (
                            [r] if r[1][0] == 'EXC' else
                            self.call(r[0], args[0], [r[1], v], {}))]
            return live
        if short in ('set', 'frozenset') and len(args) <= 1:
            vs = self.items(args[0]) if args else []
            if not all(v[0] == 'op' for v in vs):
                raise Open('a set')
            return [(st, ('set', tuple(dict.fromkeys(
                v[:2] for v in vs))))]
        if short in ('Matrix', 'SympyMatrix') and len(args) == 1 and \
                args[0][0] == 'nd':
            return [(st, args[0])]
        if short == 'symbols' and len(args) == 1 and \
                args[0][0] == 'text' and args[0][1] and \
                args[0][1].isidentifier():
            return [(st, scalar(('' if not kws else '~') + args[0][1]))]
        if short == 'sorted' and len(args) == 1:
            vs = self.items(args[0])
            if all(v[0] == 'int' for v in vs):
                vs = sorted(vs, key=self.index)
            elif not all(v in self.modes for v in vs):
                raise Open('sorted')
            return [(st, ('tuple', tuple(vs)))]
        if short == 'range' and len(args) in (1, 2):
            ks = [self.index(x) for x in args]
            return [(st, ('tuple', tuple(num(i) for i in range(*ks))))]
        if short == 'enumerate' and len(args) == 1:
            return [(st, ('tuple', tuple(
                ('tuple', (num(i), x))
                for i, x in enumerate(self.items(args[0])))))]
        if short in ('int', 'complex') and len(args) == 1 and \
                self.scalars(args[0]):
            if to_poly(args[0]).const() is None:
                return [(st, ('EXC', 'TypeError'))]
            return [(st, args[0])]
        return super().builtin(st, n, args, kws)

    def stack(self, st, how, arrays):
        if how == 'hstack':
            if any(len(a[1]) != 2 for a in arrays):
                raise Open('hstack')
            if len({a[1][0] for a in arrays}) > 1:
                return [(st, ('EXC', 'ValueError'))]
            rows = [sum(rs, []) for rs in zip(*[rows_of(a) for a in arrays])]
            return [(st, ('nd', (arrays[0][1][0],
                                 sum(a[1][1] for a in arrays)),
                          tuple(x for r in rows for x in r)))]
        arrays = [a if len(a[1]) == 2 else ('nd', (1,) + a[1], a[2])
                  for a in arrays]
        if len({a[1][1] for a in arrays}) > 1:
            return [(st, ('EXC', 'ValueError'))]
        return [(st, ('nd', (sum(a[1][0] for a in arrays), arrays[0][1][1]),
                      tuple(x for a in arrays for x in a[2])))]
