"""Values of expressions in the free algebra with the relations of the theory.

A value is a linear combination of words: {(mono, word): Fraction}.

`mono` is a commutative scalar monomial: frozenset of (base, exponent), where
the exponent is the frozen form of a scalar value.  `word` is a tuple of
letters of operators, kets, bras, super-operators; a letter is
(name, data, space) with `space` the set of elementary spaces it acts on in
the model at hand (None: it may act on everything).  A ket is read as a map
from the numbers to the states, so that words of kets, bras and operators
simply concatenate, a tensor product of kets is the concatenation of two maps
on disjoint spaces, and letters with disjoint spaces commute.
"""
from fractions import Fraction
from math import isqrt

ONE_MONO = frozenset()
ALL = None


class Unknown(Exception):
    """the value of a term is not determined by the theory"""


class Mismatch(Exception):
    pass


def disjoint(a, b):
    """letters a, b commute"""
    if a[2] is ALL or b[2] is ALL:
        return False
    return not (a[2] & b[2])


class V:
    """linear combination of words"""
    __slots__ = ('d', 'sort')

    def __init__(self, d=None, sort='s'):
        self.d = {k: v for k, v in (d or {}).items() if v}
        self.sort = sort

    def key(self):
        return frozenset(self.d.items())

    def is_scalar(self):
        return all(not w for _, w in self.d)

    def const(self):
        """the number, or None"""
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1:
            (m, w), c = next(iter(self.d.items()))
            if not m and not w:
                return c
        return None

    def __repr__(self):
        return show(self)


def num(c):
    return V({(ONE_MONO, ()): Fraction(c)})


def base(b, exp=None):
    e = num(1) if exp is None else exp
    return V({(frozenset([(b, e.key())]), ()): Fraction(1)})


def thaw(k):
    return V(dict(k))


def add(a, b, sort=None):
    d = dict(a.d)
    for k, c in b.d.items():
        d[k] = d.get(k, 0) + c
    return V(d, sort or (a.sort if a.sort != 's' else b.sort))


def scale(a, c):
    return V({k: v * c for k, v in a.d.items()}, a.sort)


def sub(a, b):
    return add(a, scale(b, Fraction(-1)))


def mul_mono(m1, m2):
    """value of the product of two monomials"""
    exps = {}
    for m in (m1, m2):
        for b, e in m:
            exps[b] = add(exps[b], thaw(e)) if b in exps else thaw(e)
    res = []
    extra = num(1)
    for b, e in exps.items():
        c = e.const()
        if c == 0:
            continue
        if b == ('I',) and c is not None and c.denominator == 1:
            k = int(c) % 4
            extra = scale(extra, Fraction((1, 1, -1, -1)[k]))
            if k % 2:
                res.append((b, num(1).key()))
            continue
        if b[0] == 'delta' and c is not None and c > 0:
            res.append((b, num(1).key()))
            continue
        if b[0] == 'poly' and c is not None and c.denominator == 1 and c > 0:
            for _ in range(int(c)):
                extra = smul(extra, thaw(b[1]))
            continue
        res.append((b, e.key()))
    v = V({(frozenset(res), ()): Fraction(1)})
    return smul(v, extra) if extra.key() != num(1).key() else v


def smul(a, b):
    """product of two scalars"""
    d = {}
    for (m1, w1), c1 in a.d.items():
        for (m2, w2), c2 in b.d.items():
            m = m1 | m2
            if m1 and m2 or any(b[0] == 'poly' for b, _ in m):
                bases = [b for b, _ in m1] + [b for b, _ in m2]
                if len(set(bases)) != len(bases):
                    for (m3, _), c3 in mul_mono(m1, m2).d.items():
                        k = (m3, w1 + w2)
                        d[k] = d.get(k, 0) + c1 * c2 * c3
                    continue
            k = (m, w1 + w2)
            d[k] = d.get(k, 0) + c1 * c2
    return V(d)


def is_integer(v, integers=()):
    c = v.const()
    if c is not None:
        return c.denominator == 1
    return v.key() in integers


def power(x, y, integers=()):
    """x**y for scalars"""
    c = y.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 6:
        r = num(1)
        for _ in range(int(c)):
            r = smul(r, x)
        return r
    cx = x.const()
    if cx is not None:
        if cx == 0 and c is not None and c > 0:
            return num(0)
        if cx == 1:
            return num(1)
        if c == Fraction(1, 2) and cx >= 0:
            p, q = isqrt(cx.numerator), isqrt(cx.denominator)
            if p * p == cx.numerator and q * q == cx.denominator:
                return num(Fraction(p, q))
        if c is not None and c.denominator == 1:
            return num(cx ** int(c))
    if len(x.d) == 1:
        (m, w), k = next(iter(x.d.items()))
        if is_integer(y, integers) and (k == 1 or c is not None):
            bs = []
            for b, e in m:
                bs.append((b, smul(thaw(e), y).key()))
            kk = k ** int(c) if c is not None else Fraction(1)
            return V({(frozenset(bs), ()): kk})
        if k == 1 and len(m) == 1:
            b, e = next(iter(m))
            if e == num(1).key():
                return base(b, y)
    return base(('poly', x.key()), y)


def exp(x):
    if x.const() == 0:
        return num(1)
    return base(('E',), x)


def delta(a, b):
    a, b = a.key(), b.key()
    if a == b:
        return num(1)
    x, y = thaw(a).const(), thaw(b).const()
    if x is not None and y is not None:
        return num(1 if x == y else 0)
    return base(('delta', frozenset([a, b])))


REAL = ('idx', 'delta', 'dim')


def conj(v):
    d = V({})
    for (m, w), c in v.d.items():
        t = num(c)
        for b, e in m:
            if b == ('I',):
                t = smul(t, scale(base(b), Fraction(-1)))
                continue
            if b == ('E',):
                t = smul(t, exp(conj(thaw(e))))
                continue
            if b[0] == 'poly':
                nb = ('poly', conj(thaw(b[1])).key())
            elif b[0] == 'v':
                nb = ('v', b[1], not b[2])
            elif b[0] == 'ssum':
                nb = ('ssum', b[1], conj(thaw(b[2])).key())
            else:
                nb = b
            t = smul(t, base(nb, conj(thaw(e))))
        d = add(d, t)
    return d


# -- words ------------------------------------------------------------------

class Algebra:
    """products of words with the relations between the letters"""

    def __init__(self, integers=(), independent=()):
        self.integers = set(integers)
        self.independent = set(independent)    # {(letter name key, ranges)}
        self.memo = {}

    # letters
    def letter(self, name, data, space, sort):
        return V({(ONE_MONO, ((name, data, space),)): Fraction(1)}, sort)

    def one(self, sort='o'):
        return V({(ONE_MONO, ()): Fraction(1)}, sort)

    def mul(self, a, b):
        if a.sort == 'so' and b.sort in ('o', 'k', 'b'):
            return self.app(a, b)
        sort = 'so' if 'so' in (a.sort, b.sort) else (
            self.sort_of(a, b))
        d = V({}, sort)
        for (m1, w1), c1 in a.d.items():
            for (m2, w2), c2 in b.d.items():
                s = scale(smul(V({(m1, ()): Fraction(1)}),
                               V({(m2, ()): Fraction(1)})), c1 * c2)
                w = self.norm(w1 + w2)
                for (m3, _), c3 in s.d.items():
                    for (m4, w4), c4 in w.d.items():
                        t = smul(V({(m3, ()): c3}), V({(m4, ()): c4}))
                        for (m5, _), c5 in t.d.items():
                            k = (m5, w4)
                            d.d[k] = d.d.get(k, 0) + c5
        return V(d.d, sort)

    @staticmethod
    def sort_of(a, b):
        x, y = a.sort, b.sort
        if x == 's':
            return y
        if y == 's':
            return x
        if x == 'b' and y == 'k':
            return 's'
        if x == 'k' and y == 'b':
            return 'o'
        if x == 'o':
            return y
        if y == 'o':
            return x
        return x

    # -- normal form of a word
    def norm(self, word):
        if word in self.memo:
            return self.memo[word]
        res = self._norm(word)
        self.memo[word] = res
        return res

    def _norm(self, word):
        n = len(word)
        for i in range(n):
            for j in range(i + 1, n):
                r = self.rewrite(word[i], word[j])
                if r is None:
                    continue
                # bring the letters together
                mid = word[i + 1:j]
                right = [x for x in mid if not disjoint(word[i], x)]
                # letters that stay to the right of i must commute with j
                pos = 0
                left, rest = [], []
                ok = True
                for x in mid:
                    if disjoint(word[i], x) and all(
                            disjoint(y, x) for y in rest):
                        left.append(x)
                    else:
                        rest.append(x)
                for x in rest:
                    if not disjoint(x, word[j]):
                        ok = False
                if not ok:
                    continue
                pre = word[:i] + tuple(left)
                post = tuple(rest) + word[j + 1:]
                out = V({})
                for (m, w), c in r.d.items():
                    sub_ = self.norm(pre + w + post)
                    for (m2, w2), c2 in sub_.d.items():
                        t = smul(V({(m, ()): c}), V({(m2, ()): c2}))
                        for (m3, _), c3 in t.d.items():
                            k = (m3, w2)
                            out.d[k] = out.d.get(k, 0) + c3
                return V(out.d)
        return V({(ONE_MONO, self.canon(word)): Fraction(1)})

    @staticmethod
    def canon(word):
        """least word under exchange of commuting neighbours"""
        rest = list(word)
        out = []
        while rest:
            best = None
            for i, x in enumerate(rest):
                if all(disjoint(x, y) for y in rest[:i]):
                    if best is None or repr(x[:2]) < repr(rest[best][:2]):
                        best = i
            out.append(rest.pop(best))
        return tuple(out)

    def rewrite(self, x, y):
        """value of the word (x, y), or None if it is in normal order"""
        a, u, s = x
        b, v, t = y
        if s != t or s is ALL:
            if a == 'sop' and b == 'sop':
                return None
            if a == 'post' and b == 'pre':
                return V({(ONE_MONO, (y, x)): Fraction(1)})
            if a == 'bra' and b == 'ket' and x[1] == y[1] and \
                    isinstance(u, tuple) and u and u[0] == 'unit' and s == t:
                return num(1)
            return None

        def w(*ls):
            return V({(ONE_MONO, tuple(ls)): Fraction(1)})

        def c(k, *ls):
            return V({(m, tuple(ls)): z for (m, _), z in k.d.items()})
        U = thaw(u) if isinstance(u, frozenset) else None
        W = thaw(v) if isinstance(v, frozenset) else None
        B = lambda i: ('B', i.key(), s)            # |i>
        BD = lambda i: ('b', i.key(), s)           # <i|
        k = (a, b)
        half = Fraction(1, 2)
        if a == 'bra' and b == 'ket' and u == v and u[0] == 'unit':
            return num(1)
        if k == ('b', 'B'):
            return delta(U, W)
        sq = lambda z: power(z, num(half))
        if k == ('a', 'B'):
            return c(sq(W), B(sub(W, num(1))))
        if k == ('a+', 'B'):
            return c(sq(add(W, num(1))), B(add(W, num(1))))
        if k == ('b', 'a'):
            return c(sq(add(U, num(1))), BD(add(U, num(1))))
        if k == ('b', 'a+'):
            return c(sq(U), BD(sub(U, num(1))))
        if k == ('a', 'a+'):
            return add(w(y, x), num(1))
        I = base(('I',))
        ph = lambda z: exp(smul(I, z))
        if k == ('Ph', 'B'):
            return c(ph(smul(U, W)), y)
        if k == ('b', 'Ph'):
            return c(ph(smul(W, U)), x)
        if k == ('Ph', 'Ph'):
            z = add(U, W)
            return w(('Ph', z.key(), s)) if z.d else num(1)
        if k == ('a', 'Ph'):
            return c(ph(W), y, x)
        if k == ('Ph', 'a+'):
            return c(ph(U), y, x)
        if k == ('Ph', 'D'):
            return w(('D', smul(W, ph(U)).key(), s), x)
        if k == ('D', 'D'):
            z = add(U, W)
            f = exp(scale(sub(smul(U, conj(W)), smul(conj(U), W)), half))
            return c(f, ('D', z.key(), s)) if z.d else c(f)
        if k == ('a', 'D'):
            return add(w(y, x), c(W, y))
        if k == ('D', 'a+'):
            return sub(w(y, x), c(conj(U), x))
        # spin: x acts on a state of index i, m = i - s, 2s+1 = dim
        if b == 'B' and a in ('J+', 'J-', 'Jz') or \
                a == 'b' and b in ('J+', 'J-', 'Jz'):
            i = W if b == 'B' else U
            j = a if b == 'B' else b
            spin = scale(sub(base(('dim', s)), num(1)), half)
            m = sub(i, spin)
            if j == 'Jz':
                return c(m, y if b == 'B' else x)
            up = (j == 'J+') == (b == 'B')
            o = num(1 if up else -1)
            rad = sub(smul(spin, add(spin, num(1))), smul(m, add(m, o)))
            z = add(i, o)
            return c(sq(rad), B(z) if b == 'B' else BD(z))
        if k == ('J-', 'J+'):
            return sub(w(y, x), scale(w(('Jz', None, s)), Fraction(2)))
        if k == ('J-', 'Jz') or k == ('Jz', 'J+'):
            return add(w(y, x), w(x if k[0] == 'J-' else y))
        return None

    # -- adjoint
    def dag_letter(self, x):
        n, d, s = x
        pairs = {'a': 'a+', 'a+': 'a', 'b': 'B', 'B': 'b', 'J+': 'J-',
                 'J-': 'J+', 'Jz': 'Jz', 'ket': 'bra', 'bra': 'ket'}
        if n in pairs:
            return V({(ONE_MONO, ((pairs[n], d, s),)): Fraction(1)})
        if n in ('Ph', 'D'):
            z = scale(thaw(d), Fraction(-1))
            if n == 'Ph':
                z = conj(z)
            return V({(ONE_MONO, ((n, z.key(), s),)): Fraction(1)})
        if n == 'op':
            return V({(ONE_MONO, (('op', (d[0], not d[1]), s),)):
                      Fraction(1)})
        if n == 'Sq':
            return V({(ONE_MONO, (('op', (('Sq', d), True), s),)):
                      Fraction(1)})
        if n == 'tr':
            v = self.dag(V({(ONE_MONO, d[1]): Fraction(1)}))
            return self.trace(v, d[0])
        if n == 'isum':
            v = self.dag(thaw(d[1]))
            return self.isum(v, d[0], s)
        raise Unknown('adjoint of %s' % n)

    def dag(self, v):
        sort = {'k': 'b', 'b': 'k'}.get(v.sort, v.sort)
        if v.sort == 'so':
            raise Unknown('adjoint of a super-operator')
        d = V({}, sort)
        for (m, w), c in v.d.items():
            t = conj(V({(m, ()): c}))
            r = self.one()
            for x in reversed(w):
                r = self.mul(r, self.dag_letter(x))
            d = add(d, self.mul(t, r))
        d.sort = sort
        return d

    # -- linear maps of words
    def isum(self, v, ranges, space=ALL):
        """sum over index ranges"""
        out = V({}, v.sort)
        for (m, w), c in v.d.items():
            pull = num(c)
            stay = []
            for b, e in m:
                if (b, ranges) in self.independent and \
                        thaw(e).const() is not None or b == ('I',):
                    pull = smul(pull, base(b, thaw(e)))
                else:
                    stay.append((b, e))
            lead = []
            w = list(w)
            while w and (w[0][:2], ranges) in self.independent:
                lead.append(w.pop(0))
            tail = []
            while w and (w[-1][:2], ranges) in self.independent:
                tail.insert(0, w.pop())
            body = V({(frozenset(stay), tuple(w)): Fraction(1)})
            r = V({(ONE_MONO, tuple(lead) + (
                ('isum', (ranges, body.key()), space),) + tuple(tail)):
                Fraction(1)}, v.sort)
            out = add(out, self.mul(pull, r))
        out.sort = v.sort
        return out

    def ssum(self, v, ranges):
        out = V({})
        for (m, w), c in v.d.items():
            if w:
                raise Unknown('sum of words')
            pull, stay = num(c), []
            for b, e in m:
                if (b, ranges) in self.independent:
                    pull = smul(pull, base(b, thaw(e)))
                else:
                    stay.append((b, e))
            body = V({(frozenset(stay), ()): Fraction(1)})
            out = add(out, smul(pull, base(('ssum', ranges, body.key()))))
        return out

    def pre(self, v, post=False):
        out = V({}, 'so')
        n = 'post' if post else 'pre'
        for (m, w), c in v.d.items():
            ls = [(n, x, ALL) for x in (reversed(w) if post else w)]
            out.d[(m, tuple(ls))] = out.d.get((m, tuple(ls)), 0) + c
        return V(out.d, 'so')

    def app(self, a, b):
        """super-operator applied to an operator"""
        out = V({}, b.sort)
        for (m, w), c in a.d.items():
            cur = b
            for name, d, s in reversed(w):
                if name == 'pre':
                    cur = self.mul(V({(ONE_MONO, (d,)): Fraction(1)}, 'o'),
                                   cur)
                elif name == 'post':
                    cur = self.mul(cur, V({(ONE_MONO, (d,)): Fraction(1)},
                                          'o'))
                else:
                    nxt = V({}, 'o')
                    for (m2, w2), c2 in cur.d.items():
                        k = (m2, (('app', ((name, d), w2), ALL),))
                        nxt.d[k] = nxt.d.get(k, 0) + c2
                    cur = nxt
            out = add(out, self.mul(V({(m, ()): c}), cur))
        out.sort = b.sort
        return out

    def trace(self, v, spaces):
        """partial trace over a set of elementary spaces"""
        out = V({}, 'o')
        for (m, w), c in v.d.items():
            t = self.trace_word(w, spaces)
            out = add(out, self.mul(V({(m, ()): c}), t))
        out.sort = 'o'
        return out

    def trace_word(self, w, S):
        if not S:
            return V({(ONE_MONO, w): Fraction(1)}, 'o')
        w = list(w)
        left, right = [], []

        def off(x):
            return x[2] is not ALL and not (x[2] & S)
        again = True
        while again:
            again = False
            for i, x in enumerate(w):
                if off(x) and all(disjoint(x, y) for y in w[:i]):
                    left.append(w.pop(i))
                    again = True
                    break
            else:
                for i in range(len(w) - 1, -1, -1):
                    if off(w[i]) and all(disjoint(w[i], y)
                                         for y in w[i + 1:]):
                        right.insert(0, w.pop(i))
                        again = True
                        break
        w = tuple(w)

        def wrap(v):
            v = self.mul(V({(ONE_MONO, tuple(left)): Fraction(1)}, 'o'), v)
            return self.mul(v, V({(ONE_MONO, tuple(right)): Fraction(1)},
                                 'o'))
        touched = set()
        for x in w:
            if x[2] is ALL:
                touched = set(S)
            else:
                touched |= x[2] & S
        if touched != set(S):
            # spaces on which nothing acts
            f = num(1)
            for z in sorted(set(S) - touched):
                f = smul(f, base(('dim', frozenset([z]))))
            r = self.trace_word(w, frozenset(touched))
            return wrap(self.mul(f, r))
        # cyclic moves
        seen, todo = {self.canon(w)}, [w]
        while todo:
            cur = todo.pop()
            for i, x in enumerate(cur):
                if x[2] is ALL or not x[2] <= S:
                    continue
                rest = cur[:i] + cur[i + 1:]
                ways = []
                if all(disjoint(x, y) for y in cur[:i]):
                    if x[0] in ('B', 'ket') and x[2] == S:
                        return wrap(self.norm(rest + (x,)))
                    ways.append(rest + (x,))
                if all(disjoint(x, y) for y in cur[i + 1:]):
                    if x[0] in ('b', 'bra') and x[2] == S:
                        return wrap(self.norm((x,) + rest))
                    ways.append((x,) + rest)
                if x[0] in ('B', 'ket', 'b', 'bra'):
                    continue
                for way in ways:
                    nw = self.norm(way)
                    if len(nw.d) != 1:
                        continue
                    (m, w2), c = next(iter(nw.d.items()))
                    if m or c != 1 or len(w2) < len(cur):
                        return wrap(self.trace(nw, S))
                    if w2 not in seen:
                        seen.add(w2)
                        todo.append(w2)
        best = min(seen, key=repr)
        if len(best) == 1 and best[0][0] in ('a', 'a+') and best[0][2] == S:
            return V({}, 'o')
        rest_space = set()
        for x in best:
            if x[2] is ALL:
                rest_space = None
                break
            rest_space |= x[2]
        sp = ALL if rest_space is None else frozenset(rest_space - S)
        # iterated traces are one trace
        if len(best) == 1 and best[0][0] == 'tr':
            inner = best[0][1]
            return wrap(self.trace_word(inner[1], frozenset(S | inner[0])))
        return wrap(V({(ONE_MONO, (('tr', (frozenset(S), best), sp),)):
                       Fraction(1)}, 'o'))


# -- printing ---------------------------------------------------------------

def show_base(b):
    if b[0] == 'v':
        return '%s%s' % (b[1], '*' if b[2] else '')
    if b[0] == 'I':
        return 'i'
    if b[0] == 'E':
        return 'e'
    if b[0] == 'poly':
        return '(%s)' % show(thaw(b[1]))
    if b[0] == 'delta':
        return 'δ(%s)' % ', '.join(sorted(show(thaw(x)) for x in b[1]))
    if b[0] == 'idx':
        return '#%s' % (b[1],)
    if b[0] == 'dim':
        return 'dim(%s)' % ','.join(sorted(map(str, b[1] or ['?'])))
    return str(b[0])


def show_letter(x):
    n, d, s = x
    if n in ('op', 'ket', 'bra', 'sop'):
        if n == 'op':
            return '%s%s' % (d[0], '†' if d[1] else '')
        y = d[1] if isinstance(d, tuple) else d
        return {'ket': '|%s>', 'bra': '<%s|', 'sop': '%s'}[n] % (y,)
    if n == 'B':
        return '|#%s>' % show(thaw(d))
    if n == 'b':
        return '<#%s|' % show(thaw(d))
    if n in ('Ph', 'D', 'Sq'):
        return '%s(%s)' % (n, show(thaw(d)))
    if n == 'tr':
        return 'tr_%s[%s]' % (','.join(sorted(map(str, d[0]))),
                              ' '.join(map(show_letter, d[1])))
    if n == 'isum':
        return 'Σ_%s[%s]' % (d[0], show(thaw(d[1])))
    if n in ('pre', 'post'):
        return '%s[%s]' % (n, show_letter(d))
    if n == 'app':
        return '%s(%s)' % (d[0][1], ' '.join(map(show_letter, d[1])))
    return n


def show(v):
    terms = []
    for (m, w), c in v.d.items():
        fs = []
        for b, e in m:
            e = thaw(e)
            s = show_base(b)
            if e.const() != 1:
                s += '^(%s)' % show(e)
            fs.append(s)
        fs.sort()
        ws = [show_letter(x) for x in w]
        t = ' '.join(fs + ws)
        if c != 1 or not t:
            t = ('%s %s' % (c, t)).strip()
        terms.append(t)
    return ' + '.join(sorted(terms)) or '0'
