"""Evaluate the terms of a rule in the algebra of sa.rulealg."""
from fractions import Fraction

from . import rulealg as RA
from .rulealg import Unknown, num, base, add, sub, scale, smul, power, ALL
from .flow import is_const, const_val, walk, show

NUMERIC = ('builtins.int', 'builtins.float', 'builtins.complex')
SINGLE = {
    'IdentityOperator': lambda: RA.V({(RA.ONE_MONO, ()): Fraction(1)}, 'o'),
    'ZeroOperator': lambda: RA.V({}, 'o'),
    'IdentitySuperOperator':
        lambda: RA.V({(RA.ONE_MONO, ()): Fraction(1)}, 'so'),
    'ZeroSuperOperator': lambda: RA.V({}, 'so'),
    'ZeroKet': lambda: RA.V({}, 'k'),
    'TrivialKet': lambda: RA.V({(RA.ONE_MONO, ()): Fraction(1)}, 'k'),
    'Zero': lambda: num(0),
    'One': lambda: num(1),
    'I': lambda: base(('I',)),
    'II': lambda: base(('I',)),
}
LETTERS = {'Create': 'a+', 'Destroy': 'a', 'Jplus': 'J+', 'Jminus': 'J-',
           'Jz': 'Jz'}
PARAM = {'Phase': 'Ph', 'Displace': 'D', 'Squeeze': 'Sq'}
IDENT = ('sympy.sympify', 'qnet.algebra.core.scalar_algebra.ScalarValue')


class IllFormed(Exception):
    pass


def elems(t):
    """elements of a literal sequence, or None"""
    return t[2] if t[0] == 'seq' else None


class Sym:
    """a parameter of a pattern"""

    def __init__(self, name, sort, space=None, cls=None, seq=0):
        self.name, self.sort, self.space = name, sort, space
        self.cls, self.seq = cls, seq

    def __repr__(self):
        return 'Sym(%s:%s)' % (self.name, self.sort)


class Eval:
    """syms: {param: Sym}; spaces: {term: frozenset} of the model"""

    def __init__(self, repo, syms, spaces, conds=(), composite=None,
                 split=None, integers=(), independent=()):
        self.repo = repo
        self.syms = syms
        self.spaces = spaces
        self.composite = composite or {}
        self.split = split or {}
        self.alg = RA.Algebra(integers, independent)
        self.same_space = False

    # -- spaces ------------------------------------------------------------
    def space(self, t):
        """set of elementary spaces, or raise Unknown"""
        if t in self.spaces:
            return self.spaces[t]
        if t[0] == 'P' and t[1] in self.syms:
            s = self.syms[t[1]]
            if s.sort == 'h' and ('h', t[1]) in self.spaces:
                return self.spaces[('h', t[1])]
        if t[0] == 'G' and t[1].endswith('.TrivialSpace'):
            return frozenset()
        if t[0] == 'A' and t[2] == 'space':
            return self.space_of(t[1])
        if t[0] == 'bin' and t[1] in ('*', '&', '|'):
            a, b = self.space(t[2]), self.space(t[3])
            return a & b if t[1] == '&' else a | b
        if t[0] == 'call' and t[1][0] == 'A' and t[1][2] == 'create' and \
                t[1][1][0] == 'G' and \
                t[1][1][1].endswith('.ProductSpace'):
            r = frozenset()
            for a in t[2]:
                r |= self.space(a)
            return r
        if t[0] == 'call' and t[1][0] == 'A' and t[1][2] in (
                'intersect', 'tensor', 'remove') and len(t[2]) == 1:
            a, b = self.space(t[1][1]), self.space(t[2][0])
            return a & b if t[1][2] == 'intersect' else (
                a | b if t[1][2] == 'tensor' else a - b)
        raise Unknown('space %s' % show(t)[:60])

    def space_of(self, x):
        """space of an expression"""
        if ('sp', x) in self.spaces:
            return self.spaces[('sp', x)]
        if x[0] == 'P' and x[1] in self.syms:
            s = self.syms[x[1]]
            if s.space is not None:
                return self.space(s.space)
            if x in self.composite:
                r = frozenset()
                for y in self.composite[x][1]:
                    r |= self.space_of(y)
                return r
        pieces = self.piece(x)
        if pieces is not None:
            return self.space_of(pieces)
        raise Unknown('space of %s' % show(x)[:60])

    def piece(self, x):
        """the atom for X.factor_for_space(s)[i]"""
        if x[0] == 'sub' and x[1][0] == 'call' and \
                x[1][1][0] == 'A' and x[1][1][2] == 'factor_for_space' and \
                is_const(x[2]) and x[1][1][1] in self.split:
            i = const_val(x[2])
            if i in (0, 1):
                return self.split[x[1][1][1]][i]
        return None

    # -- labels and indices ------------------------------------------------
    def index(self, label, hs):
        """index of a basis label"""
        if label[0] == 'IDX':
            return label[1]
        if is_const(label) and type(const_val(label)) is int:
            return num(const_val(label))
        return base(('idx', show(label), self.hskey(hs)))

    def hskey(self, hs):
        try:
            return self.space(hs)
        except Unknown:
            return show(hs)

    def ketdata(self, t):
        """(index, hs term) of a basis ket term"""
        if t[0] == 'P' and t[1] in self.syms and \
                self.syms[t[1]].cls == 'BasisKet':
            s = self.syms[t[1]]
            hs = s.space if s.space is not None else (
                ('A', ('P', ''), 'space') if self.same_space
                else ('A', t, 'space'))
            return base(('idx', s.name, self.hskey(hs))), hs
        if t[0] == 'call':
            c = self.cls(t[1])
            kw = dict(t[3])
            if c == 'BasisKet' and len(t[2]) == 1 and set(kw) == {'hs'}:
                return self.index(t[2][0], kw['hs']), kw['hs']
            if t[1][0] == 'A' and t[1][2] in ('next', 'prev'):
                i, hs = self.ketdata(t[1][1])
                n = self.steps(t[2], kw)
                return add(i, num(n if t[1][2] == 'next' else -n)), hs
        raise Unknown('basis state %s' % show(t)[:60])

    @staticmethod
    def steps(args, kw):
        if not args and not kw:
            return 1
        v = args[0] if args else kw.get('n')
        if v is None or not is_const(v) or len(args) + len(kw) != 1:
            raise Unknown('number of steps')
        return const_val(v)

    def sigmadata(self, t):
        """(j, k, hs) of a LocalSigma term"""
        if t[0] == 'P' and t[1] in self.syms and \
                self.syms[t[1]].cls == 'LocalSigma':
            s = self.syms[t[1]]
            hs = s.space if s.space is not None else ('A', t, 'space')
            k = self.hskey(hs)
            return (base(('idx', s.name + '.j', k)),
                    base(('idx', s.name + '.k', k)), hs)
        if t[0] == 'call':
            kw = dict(t[3])
            if self.cls(t[1]) == 'LocalSigma' and set(kw) == {'hs'} and \
                    len(t[2]) == 2:
                return (self.index(self.label(t[2][0]), kw['hs']),
                        self.index(self.label(t[2][1]), kw['hs']), kw['hs'])
            if t[1][0] == 'A' and t[1][2] == 'raise_jk':
                j, k, hs = self.sigmadata(t[1][1])
                inc = {'j_incr': 0, 'k_incr': 0}
                for n, v in list(zip(('j_incr', 'k_incr'), t[2])) + \
                        list(kw.items()):
                    if n not in inc or not is_const(v):
                        raise Unknown('increment')
                    inc[n] = const_val(v)
                return (add(j, num(inc['j_incr'])),
                        add(k, num(inc['k_incr'])), hs)
        raise Unknown('transition %s' % show(t)[:60])

    def label(self, t):
        """label terms .j, .k of a transition stand for their index"""
        if t[0] == 'A' and t[2] in ('j', 'k', 'index_j', 'index_k'):
            j, k, _ = self.sigmadata(t[1])
            return ('IDX', j if t[2][-1] == 'j' else k)
        return t

    # -- classes -----------------------------------------------------------
    def cls(self, f):
        """name of the class constructed by f"""
        if f[0] == 'A' and f[2] == 'create':
            f = f[1]
        if f[0] == 'G':
            n = f[1].rpartition('.')[2]
            q = f[1]
            if q.startswith('qnet.') and n[:1].isupper():
                return n
        return None

    # -- values ------------------------------------------------------------
    def word(self, *letters, sort='o'):
        r = self.alg.one(sort)
        for n, d, s in letters:
            r = self.alg.mul(r, self.alg.letter(n, d, s, sort))
        r.sort = sort
        return r

    def sym(self, t):
        s = self.syms[t[1]]
        if t in self.composite:
            op, items = self.composite[t]
            vs = [self.ev(x) for x in items]
            r = vs[0]
            for v in vs[1:]:
                r = add(r, v) if op == '+' else self.alg.mul(r, v)
            return r
        if t in self.split:
            a, b = self.split[t]
            return self.alg.mul(self.ev(a), self.ev(b))
        if s.sort == 's':
            return base(('v', s.name, False))
        if s.cls == 'BasisKet':
            i, hs = self.ketdata(t)
            return self.word(('B', i.key(), self.hs(hs)), sort='k')
        if s.cls == 'LocalSigma':
            j, k, hs = self.sigmadata(t)
            sp = self.hs(hs)
            return self.word(('B', j.key(), sp), ('b', k.key(), sp))
        if s.cls in ('KetIndexedSum',):
            return self.alg.isum(self.generic(('A', t, 'term'), 'k'), s.name)
        if s.sort in ('o', 'k', 'so'):
            return self.generic(t, s.sort, unit=s.cls == 'KetSymbol')
        if s.sort == 'label':
            return base(('label', s.name))
        raise Unknown('value of %s' % s.name)

    def generic(self, t, sort, unit=False):
        try:
            sp = self.space_of(t)
        except Unknown:
            sp = ALL
        n = show(t)
        if sort == 'o':
            return self.word(('op', (n, False), sp))
        if sort == 'k':
            return self.word(('ket', ('unit' if unit else 'g', n), sp),
                             sort='k')
        return self.word(('sop', n, ALL), sort='so')

    def hs(self, t):
        try:
            return self.space(t)
        except Unknown:
            return frozenset(['?' + show(t)])

    def items(self, t):
        """terms of a starred operand"""
        it = elems(t)
        if it is not None:
            out = []
            for x in it:
                out += self.items(x[1]) if x[0] == '*' else [x]
            return out
        if t in self.composite:
            return list(self.composite[t][1])
        if t[0] == 'A' and t[2] in ('operands', 'args') and \
                t[1] in self.composite:
            return list(self.composite[t[1]][1])
        if t[0] == 'call' and t[1][0] == 'G' and t[1][1] in (
                'builtins.tuple', 'builtins.list') and len(t[2]) == 1:
            return self.items(t[2][0])
        if t[0] == 'phi' and len(t) > 1:
            # value on the first pass
            for x in t[1:]:
                y = x
                if isinstance(y, tuple) and y and y[0] != '?':
                    try:
                        return self.items(y)
                    except (Unknown, TypeError, IndexError):
                        continue
        if t[0] == 'bin' and t[1] == '+':
            return self.items(t[2]) + self.items(t[3])
        raise Unknown('operands %s' % show(t)[:60])

    def args(self, args):
        out = []
        for a in args:
            if a[0] == '*':
                out += self.items(a[1])
            else:
                out.append(a)
        return out

    def ranges(self, args):
        """key of the ranges of an indexed sum"""
        if len(args) == 1 and args[0][0] == '*':
            t = args[0][1]
            return self.rangekey(t)
        raise Unknown('ranges')

    def rangekey(self, t):
        if t[0] == 'P' and t[1] in self.syms and \
                self.syms[t[1]].sort == 'ranges':
            return t[1]
        if t[0] == 'A' and t[2] in ('ranges', '_ranges'):
            return self.sumname(t[1])
        if t[0] == 'call' and t[1][0] == 'G' and t[1][1] in (
                'builtins.tuple', 'builtins.list') and len(t[2]) == 1:
            return self.rangekey(t[2][0])
        it = elems(t)
        if it is not None and len(it) == 1 and it[0][0] == '*':
            return self.rangekey(it[0][1])
        raise Unknown('ranges %s' % show(t)[:60])

    def sumname(self, t):
        if t[0] == 'P' and t[1] in self.syms and \
                self.syms[t[1]].cls == 'KetIndexedSum':
            return t[1]
        if t[0] == 'call' and t[1][0] == 'A' and \
                t[1][2] == 'make_disjunct_indices':
            n = self.sumname(t[1][1])
            for a in t[2]:
                self.mark_independent(a, n)
            return n
        raise Unknown('sum %s' % show(t)[:60])

    def mark_independent(self, t, n):
        v = self.ev(t)
        for (m, w), _ in v.d.items():
            for x in w:
                self.alg.independent.add((x[:2], n))
            for b, e in m:
                self.alg.independent.add((b, n))

    def ev(self, t):
        k = t[0]
        if k == 'P':
            if t[1] in self.syms:
                return self.sym(t)
            raise Unknown('parameter %s' % t[1])
        if k == 'LETTER':
            return self.word((t[2], t[3], t[4]), sort=t[1])
        if k == 'C' and is_const(t):
            v = const_val(t)
            if isinstance(v, bool) or v is None:
                raise Unknown(repr(v))
            if isinstance(v, (int, float)):
                return num(Fraction(v).limit_denominator(10**6))
            if isinstance(v, complex) and v == v.imag * 1j:
                return scale(base(('I',)), Fraction(v.imag))
            raise Unknown(repr(v))
        if k == 'G':
            n = t[1].rpartition('.')[2]
            if n in SINGLE and (t[1].startswith('qnet.') or
                                t[1].startswith('sympy.')):
                return SINGLE[n]()
            raise Unknown(t[1])
        if k == 'un' and t[1] == '-':
            return scale(self.ev(t[2]), Fraction(-1))
        if k == 'un' and t[1] == '+':
            return self.ev(t[2])
        if k == 'bin':
            return self.binop(t)
        if k == 'A':
            return self.attr(t)
        if k == 'sub':
            p = self.piece(t)
            if p is not None:
                return self.ev(p)
        if k == 'call':
            return self.call(t)
        raise Unknown(show(t)[:80])

    @staticmethod
    def span(v):
        """space of all terms if it is known"""
        r = set()
        for _, w in v.d:
            r.add(None if any(x[2] is ALL for x in w) else frozenset().union(
                *[x[2] for x in w]))
        return r.pop() if len(r) == 1 else None

    def formed(self, a, b):
        """a product outside of the theory is not equal to anything"""
        if b.sort != 'k' or a.sort not in ('o', 'k'):
            return
        x, y = self.span(a), self.span(b)
        if x is None or y is None:
            return
        if a.sort == 'o' and not x <= y:
            raise IllFormed('operator applied outside of the space of a state')
        if a.sort == 'k' and x & y:
            raise IllFormed('tensor product of states in the same space')

    def binop(self, t):
        op = t[1]
        a, b = self.ev(t[2]), self.ev(t[3])
        if op == '*':
            self.formed(a, b)
            return self.alg.mul(a, b)
        if op in ('+', '-'):
            r = add(a, b) if op == '+' else sub(a, b)
            r.sort = a.sort if a.sort != 's' else b.sort
            return r
        if op == '/' and b.is_scalar() and b.const():
            return scale(a, 1 / b.const())
        if op == '/' and b.is_scalar():
            return self.alg.mul(power(b, num(-1)), a)
        if op == '**' and a.is_scalar() and b.is_scalar():
            return power(a, b, self.alg.integers)
        if op == '**' and b.const() in (0, 1, 2, 3, 4):
            r = self.alg.one(a.sort)
            for _ in range(int(b.const())):
                r = self.alg.mul(r, a)
            return r
        raise Unknown(show(t)[:60])

    def attr(self, t):
        x, n = t[1], t[2]
        if n in ('index', '_index'):
            return self.ketdata(x)[0]
        if n in ('index_j', 'index_k', 'j', 'k'):
            j, k, _ = self.sigmadata(x)
            return j if n[-1] == 'j' else k
        if n == 'dimension':
            sp = self.space(x)
            r = num(1)
            for z in sorted(sp):
                r = smul(r, base(('dim', frozenset([z]))))
            return r
        if n == 'term':
            s = self.sumname(x)
            return self.generic(('A', ('P', s), 'term'), 'k')
        if n in ('ket', 'operand') and x[0] == 'call' and len(x[2]) == 1 and \
                self.cls(x[1]) in ('Bra', 'Adjoint'):
            return self.ev(x[2][0])
        if n == 'val':
            return self.ev(x)
        raise Unknown(show(t)[:60])

    def call(self, t):
        f, args, kws = t[1], t[2], dict(t[3])
        al = self.alg
        if f[0] == 'G' and f[1].startswith('sympy.'):
            n = f[1].rpartition('.')[2]
            if n == 'sqrt' and len(args) == 1:
                return power(self.ev(args[0]), num(Fraction(1, 2)))
            if n == 'exp' and len(args) == 1:
                return RA.exp(self.ev(args[0]))
            if n in ('sympify', 'simplify', 'expand', 'Integer', 'S') and \
                    len(args) == 1:
                return self.ev(args[0])
            if n in ('Rational',) and len(args) == 2:
                a, b = [self.ev(x).const() for x in args]
                if a is not None and b:
                    return num(a / b)
            if n == 'conjugate' and len(args) == 1:
                return al.dag(self.ev(args[0]))
            raise Unknown(f[1])
        c = self.cls(f)
        if c is not None:
            return self.construct(c, f, args, kws, t)
        if f[0] == 'G' and f[1].rpartition('.')[2] in ('sqrt', 'adjoint') \
                and len(args) == 1:
            v = self.ev(args[0])
            if f[1].endswith('sqrt'):
                return power(v, num(Fraction(1, 2)))
            return al.dag(v)
        if f[0] == 'G' and f[1] in IDENT and len(args) == 1:
            return self.ev(args[0])
        if f[0] == 'A':
            m = f[2]
            if m in ('adjoint', 'dag', 'conjugate', '_adjoint') and not args:
                return al.dag(self.ev(f[1]))
            if m in ('next', 'prev'):
                i, hs = self.ketdata(t)
                return self.word(('B', i.key(), self.hs(hs)), sort='k')
            if m == 'raise_jk':
                return self.sigma(t)
            if m in ('expand', 'doit', 'simplify_scalar', 'simplify') and \
                    not args:
                return self.ev(f[1])
            if m == 'make_disjunct_indices':
                self.sumname(t)
                return self.ev(f[1])
        raise Unknown(show(t)[:80])

    def sigma(self, t):
        j, k, hs = self.sigmadata(t)
        sp = self.hs(hs)
        return self.word(('B', j.key(), sp), ('b', k.key(), sp))

    def construct(self, c, f, args, kws, t):
        al = self.alg
        if c == 'BasisKet':
            i, hs = self.ketdata(t)
            return self.word(('B', i.key(), self.hs(hs)), sort='k')
        if c == 'LocalSigma':
            return self.sigma(t)
        if c in LETTERS and not args and set(kws) == {'hs'}:
            return self.word((LETTERS[c], None, self.hs(kws['hs'])))
        if c in PARAM and len(args) == 1 and set(kws) == {'hs'}:
            v = self.ev(args[0])
            if not v.is_scalar():
                raise Unknown('argument of %s' % c)
            if not v.d:
                return al.one('o')
            return self.word((PARAM[c], v.key(), self.hs(kws['hs'])))
        if c == 'CoherentStateKet' and len(args) == 1 and \
                set(kws) == {'hs'}:
            v = self.ev(args[0])
            sp = self.hs(kws['hs'])
            z = ('B', num(0).key(), sp)
            if not v.d:
                return self.word(z, sort='k')
            return self.word(('D', v.key(), sp), z, sort='k')
        if c in ('IndexedSum', 'OperatorIndexedSum', 'KetIndexedSum',
                 'ScalarIndexedSum') and args and not kws:
            r = self.ranges(args[1:])
            v = self.ev(args[0])
            if c == 'ScalarIndexedSum':
                return al.ssum(v, r)
            return al.isum(v, r)
        args = self.args(args)
        if c == 'OperatorTrace' and len(args) == 1 and \
                set(kws) == {'over_space'}:
            return al.trace(self.ev(args[0]), self.space(kws['over_space']))
        if c == 'KroneckerDelta' and len(args) == 2:
            return RA.delta(self.ev(args[0]), self.ev(args[1]))
        if kws:
            raise Unknown('%s with keywords' % c)
        if c in ('SPre', 'SPost') and len(args) == 1:
            return al.pre(self.ev(args[0]), post=c == 'SPost')
        if c == 'ScalarPower' and len(args) == 2:
            return power(self.ev(args[0]), self.ev(args[1]), al.integers)
        if c == 'ScalarValue' and len(args) == 1:
            return self.ev(args[0])
        if c in ('Bra', 'Adjoint') and len(args) == 1:
            return al.dag(self.ev(args[0]))
        vs = [self.ev(a) for a in args]
        if c == 'Commutator' and len(vs) == 2:
            r = sub(al.mul(vs[0], vs[1]), al.mul(vs[1], vs[0]))
            r.sort = 'o'
            return r
        if c == 'BraKet' and len(vs) == 2:
            x, y = self.span(vs[0]), self.span(vs[1])
            if x is not None and y is not None and x != y:
                raise IllFormed('scalar product of states in different '
                                'spaces')
            return al.mul(al.dag(vs[0]), vs[1])
        if c == 'KetBra' and len(vs) == 2:
            return al.mul(vs[0], al.dag(vs[1]))
        if c.endswith('Plus') and c in ('OperatorPlus', 'KetPlus',
                                        'SuperOperatorPlus', 'ScalarPlus'):
            r = RA.V({}, {'O': 'o', 'K': 'k'}.get(c[0], 's'))
            if c == 'SuperOperatorPlus':
                r.sort = 'so'
            for v in vs:
                s = r.sort
                r = add(r, v)
                r.sort = s
            return r
        if c in ('ScalarTimesOperator', 'ScalarTimesKet',
                 'ScalarTimesSuperOperator', 'ScalarTimesQuantumExpression',
                 'OperatorTimes', 'TensorKet', 'ScalarTimes',
                 'SuperOperatorTimes', 'OperatorTimesKet',
                 'SuperOperatorTimesOperator'):
            r = al.one({'OperatorTimes': 'o', 'SuperOperatorTimes': 'so',
                        'TensorKet': 'k'}.get(c, 's'))
            if c == 'SuperOperatorTimesOperator' and len(vs) == 2:
                return al.app(vs[0], vs[1])
            if len(vs) == 2:
                self.formed(*vs)
            for v in vs:
                r = al.mul(r, v)
            return r
        raise Unknown(c)
