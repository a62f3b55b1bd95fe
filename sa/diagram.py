"""Circuits as wiring diagrams.

A circuit is a term over boxes of symbolic width, identities, permutations,
series products, concatenations and feedback.  What it means is where its
wires lead: from every input of the whole and from every output of a box to
the output of the whole or the input of a box that it ends in.  Ports and
widths are linear expressions; a wire is followed by cases, so that two terms
are compared for all widths and ports at once.
"""
import ast
import itertools

from .linear import (Interp, NONE, Open, State, ladd, lconst, lin, lscale,
                     lshow, num, truthy)

ONE, ZERO = lin(1), lin(0)


class Perm:
    """a permutation: `fwd(it, st, i)` -> [(state, image of i)]"""

    def __init__(self, name, n, fwd=None, inv=None):
        self.name, self.n, self._fwd, self._inv = name, n, fwd, inv

    free = property(lambda self: self._fwd is None)

    def __repr__(self):
        return self.name

    def fwd(self, it, st, i):
        if self.free:
            return self.look(it, st, i, 0)
        return self._fwd(it, st, i)

    def inv(self, it, st, i):
        if self.free:
            return self.look(it, st, i, 1)
        if self._inv is None:
            raise Open('the inverse of %s' % self.name)
        return self._inv(it, st, i)

    def look(self, it, st, i, side):
        """an unknown permutation: what is known of it, or something new"""
        s = sub(st, self)
        if s is not None:
            if side:
                s = inverse(s)
            return wire(it, s, i, st)
        res, live = [], [st]
        facts = [f[2:] for f in st.notes if f[0] == 'map' and f[1] is self]
        for f in facts:
            nxt = []
            for s in live:
                for s2, b in it.split(s, '==', ladd(i, f[side], -1)):
                    if b:
                        res.append((s2, f[1 - side]))
                    else:
                        nxt.append(s2)
            live = nxt
        v = it.fresh('%s%s' % (self.name, "'" if side else ''))
        for s in live:
            s = s.having(v, ladd(ladd(self.n, v, -1), ONE, -1))
            if s is None:
                continue
            ss = [s]
            for f in facts:
                ss = [s3 for s2 in ss for s3, b in it.split(
                    s2, '==', ladd(v, f[1 - side], -1)) if not b]
            for s2 in ss:
                s2 = s2.copy()
                s2.notes += (('map', self) + (
                    (v, i) if side else (i, v)),)
                res.append((s2, v))
        return res


def sub(st, what):
    for f in st.notes:
        if f[0] == 'sub' and f[1] == what:
            return f[2]
    return None


def flip(p):
    return Perm(p.name + "^-1", p.n, lambda it, st, i: p.inv(it, st, i),
                lambda it, st, i: p.fwd(it, st, i))


def mapping(pairs, n):
    """the permutation with some channels fixed, the others in order"""
    def go(pairs, it, st, x):
        res, live = [], [st]
        for a, b in pairs:
            nxt = []
            for s in live:
                for s2, t in it.split(s, '==', ladd(x, a, -1)):
                    if t:
                        res.append((s2, b))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            # the rank of x among the other channels
            outs = [(s, x)]
            for a, b in pairs:
                outs = [(s3, ladd(r, ONE, -1) if t else r)
                        for s2, r in outs
                        for s3, t in it.split(s2, '>', ladd(x, a, -1))]
            for s2, r in outs:
                for s3, bs in ordered(it, s2, [b for a, b in pairs]):
                    ys = [(s3, r)]
                    for b in bs:
                        ys = [(s5, ladd(y, ONE) if t else y)
                              for s4, y in ys
                              for s5, t in it.split(s4, '>=',
                                                    ladd(y, b, -1))]
                    res.extend(ys)
        return res
    back = [(b, a) for a, b in pairs]
    return Perm('{%s}' % ', '.join('%s: %s' % (lshow(a), lshow(b))
                                   for a, b in pairs), n,
                lambda it, st, i: go(pairs, it, st, i),
                lambda it, st, i: go(back, it, st, i))


class Rest(Perm):
    """0, ..., n - 1 in order, without some of them"""

    def __init__(self, n, gone):
        self.whole, self.gone = n, gone

        def fwd(it, st, r):
            res = []
            for s, vs in ordered(it, st, gone):
                ys = [(s, r)]
                for v in vs:
                    ys = [(s3, ladd(y, ONE) if t else y)
                          for s2, y in ys
                          for s3, t in it.split(s2, '>=', ladd(y, v, -1))]
                res.extend(ys)
            return res
        super().__init__('the rest', ladd(n, lin(len(gone)), -1), fwd)


def ordered(it, st, xs):
    """[(state, xs in order)]"""
    if not xs:
        return [(st, [])]
    res = []
    for s, ys in ordered(it, st, xs[1:]):
        live = [(s, 0)]
        while live:
            s2, i = live.pop()
            if i == len(ys):
                res.append((s2, ys + [xs[0]]))
                continue
            for s3, b in it.split(s2, '<', ladd(xs[0], ys[i], -1)):
                if b:
                    res.append((s3, ys[:i] + [xs[0]] + ys[i:]))
                else:
                    live.append((s3, i + 1))
    return res


# -- terms --------------------------------------------------------------------

def box(name, w=None):
    return ('box', name, lin(**{w or 'w' + name: 1}))


def ident(n):
    return ('id', n)


def cat(*ts):
    ts = tuple(x for t in ts for x in (t[1] if t[0] == 'cat' else (t,))
               if x != ('id', ZERO))
    return ts[0] if len(ts) == 1 else ('cat', ts) if ts else ident(ZERO)


def series(*ts):
    ts = tuple(x for t in ts for x in (t[1] if t[0] == 'series' else (t,)))
    return ts[0] if len(ts) == 1 else ('series', ts)


def fb(t, o, i):
    return ('fb', t, o, i)


def inverse(t):
    k = t[0]
    if k == 'box':
        return ('ibox',) + t[1:]
    if k == 'ibox':
        return ('box',) + t[1:]
    if k == 'id':
        return t
    if k == 'perm':
        return ('perm', flip(t[1]))
    if k == 'series':
        return series(*[inverse(x) for x in t[1][::-1]])
    if k == 'cat':
        return cat(*[inverse(x) for x in t[1]])
    return fb(inverse(t[1]), t[3], t[2])


def marked(t, mark):
    """the same with other parts"""
    if t[0] in ('box', 'ibox'):
        return t if t[1].endswith(mark) else (t[0], t[1] + mark, t[2])
    if t[0] in ('series', 'cat'):
        return (t[0], tuple(marked(x, mark) for x in t[1]))
    if t[0] == 'fb':
        return fb(marked(t[1], mark), t[2], t[3])
    return t


def width(t):
    if t[0] in ('box', 'ibox'):
        return t[2]
    if t[0] == 'id':
        return t[1]
    if t[0] == 'perm':
        return t[1].n
    if t[0] == 'series':
        return width(t[1][0])
    if t[0] == 'cat':
        n = ZERO
        for x in t[1]:
            n = ladd(n, width(x))
        return n
    return ladd(width(t[1]), ONE, -1)


def leaves(t):
    if t[0] in ('series', 'cat'):
        return [x for y in t[1] for x in leaves(y)]
    if t[0] == 'fb':
        return leaves(t[1])
    return [t]


def show(t):
    if t[0] in ('box', 'ibox'):
        return t[1] + ('^-1' if t[0] == 'ibox' else '')
    if t[0] == 'id':
        return 'cid(%s)' % lshow(t[1])
    if t[0] == 'perm':
        return t[1].name
    if t[0] == 'series':
        return '(%s)' % ' << '.join(show(x) for x in t[1])
    if t[0] == 'cat':
        return '(%s)' % ' + '.join(show(x) for x in t[1])
    return 'FB(%s, %s, %s)' % (show(t[1]), lshow(t[2]), lshow(t[3]))


# -- wires --------------------------------------------------------------------

def cases(it, st, op, d, then):
    return [r for s, b in it.split(st, op, d) for r in then(s, b)]


def wire(it, t, x, st):
    """the output that input x of a term without boxes leads to"""
    res = []
    for s, r in follow(it, t, x, st, lambda s, y: [(s, ('out', y))]):
        if r[0] != 'out':
            raise Open('a wire that ends in %s' % r[1])
        res.append((s, r[1]))
    return res


def follow(it, t, x, st, k, fuel=14):
    """[(state, ('out', port) | ('in', box, port))] from input x of t; `k`
    goes on from an output of t"""
    if fuel < 0:
        raise Open('a long way')
    kind = t[0]
    if kind in ('box', 'ibox'):
        s = sub(st, t[1])
        if s is not None:
            return follow(it, s if kind == 'box' else inverse(s), x, st, k,
                          fuel)
        return [(st, ('in', t[:2], x))]
    if kind == 'id':
        return k(st, x)
    if kind == 'perm':
        return [r for s, y in t[1].fwd(it, st, x) for r in k(s, y)]
    if kind == 'series':
        def through(ts, s, x):
            if not ts:
                return k(s, x)
            return follow(it, ts[-1], x, s,
                          lambda s2, y: through(ts[:-1], s2, y), fuel)
        return through(t[1], st, x)
    if kind == 'cat':
        def among(ts, off, s):
            w = width(ts[0])
            inner = lambda s2: follow(
                it, ts[0], ladd(x, off, -1), s2,
                lambda s3, y: k(s3, ladd(y, off)), fuel)
            if len(ts) == 1:
                return inner(s)
            end = ladd(off, w)
            return cases(it, s, '<', ladd(x, end, -1), lambda s2, b:
                         inner(s2) if b else among(ts[1:], end, s2))
        return among(t[1], ZERO, st)
    if kind == 'fb':
        o, i = t[2], t[3]
        return cases(it, st, '>=', ladd(x, i, -1), lambda s, b: follow(
            it, t[1], ladd(x, ONE) if b else x, s,
            after_fb(it, t, k, fuel - 1), fuel))
    raise Open(kind)


def after_fb(it, t, k, fuel):
    def go(st, y):
        def on(s, same):
            if same:
                return follow(it, t[1], t[3], s,
                              after_fb(it, t, k, fuel - 1), fuel)
            return cases(it, s, '>', ladd(y, t[2], -1), lambda s2, b:
                         k(s2, ladd(y, ONE, -1) if b else y))
        return cases(it, st, '==', ladd(y, t[2], -1), on)
    return go


def boxes(it, t, k, fuel=14):
    """[(box, continuation from its outputs)]"""
    kind = t[0]
    if kind in ('box', 'ibox'):
        return [(t, k)]
    if kind == 'series':
        res = []
        for n, x in enumerate(t[1]):
            rest = t[1][:n]
            res += boxes(it, x, (lambda s, y, rest=rest: follow(
                it, series(*rest), y, s, k, fuel)) if rest else k, fuel)
        return res
    if kind == 'cat':
        res, off = [], ZERO
        for x in t[1]:
            res += boxes(it, x, lambda s, y, off=off: k(s, ladd(y, off)),
                         fuel)
            off = ladd(off, width(x))
        return res
    if kind == 'fb':
        return boxes(it, t[1], after_fb(it, t, k, fuel - 1), fuel)
    return []


def out(s, y):
    return [(s, ('out', y))]


def lequal(st, a, b):
    d = ladd(a, b, -1)
    k = lconst(d)
    if k is not None:
        return k == 0
    return all(st.having(ladd(x, ONE, -1)) is None
               for x in (d, lscale(d, -1)))


def same(it, st, a, b):
    """[] or what differs between the two networks in the state"""
    unsure = any(f[0] == 'unknown' for f in st.notes)
    bad = []

    def differ(text):
        if unsure:
            raise Open('what equal circuits are')
        bad.append(text)
    if not lequal(st, width(a), width(b)):
        differ('%s and %s channels' % (lshow(width(a)), lshow(width(b))))
        return bad
    starts = [('input', None, width(a),
               lambda s, y: follow(it, a, y, s, out),
               lambda s, y: follow(it, b, y, s, out))]
    ba = [x for x in boxes(it, a, out) if sub(st, x[0][1]) is None]
    bb = [x for x in boxes(it, b, out) if sub(st, x[0][1]) is None]
    for bs in (ba, bb):
        if len(set(x[0][1] for x in bs)) != len(bs):
            raise Open('a part that occurs twice')
    na, nb = ({x[0][:2]: x for x in bs} for bs in (ba, bb))
    if set(na) != set(nb):
        differ('parts %s, not %s' % tuple(
            ', '.join(sorted(show(x[0]) for x in bs)) or 'none'
            for bs in (ba, bb)))
        return bad
    for n in sorted(na):
        starts.append(('output of', n, na[n][0][2], na[n][1], nb[n][1]))
    for what, n, w, ka, kb in starts:
        y = it.fresh('x')
        s0 = st.having(y, ladd(ladd(w, y, -1), ONE, -1))
        if s0 is None:
            continue
        for s1, ra in ka(s0, y):
            for s2, rb in kb(s1, y):
                it.traced += 1
                if ra[:-1] == rb[:-1] and lequal(s2, ra[-1], rb[-1]):
                    continue
                differ('%s%s %s goes to %s, not %s' % (
                    what, ' ' + show(n + (ZERO,)) if n else '',
                    lshow(y), *(('output %s' if r[0] == 'out' else
                                 'input %%s of %s' % show(r[1] + (ZERO,)))
                                % lshow(r[-1]) for r in (ra, rb))))
    return bad


def pure(t):
    return all(x[0] in ('perm', 'id') for x in leaves(t))


# -- interpretation -------------------------------------------------------------

class Clo:
    def __init__(self, node, env):
        self.node, self.env = node, env


def circ(t, cls=None):
    if cls is None:
        cls = {'box': 'CircuitSymbol', 'ibox': 'SeriesInverse',
               'perm': 'CPermutation'}.get(t[0])
    return ('circ', t, cls)


class Circuits(Interp):
    """the interpreter with circuits, permutations and iterators"""

    def __init__(self, repo):
        super().__init__(repo)
        self.names = itertools.count()
        self.traced = 0
        self.marks = None
        self.lists = []
        b = self.builders
        b['Concatenation'] = lambda it, a, k, s: [
            (s, circ(cat(*it.terms(a))))]
        b['SeriesProduct'] = self.b_series
        b['Feedback'] = self.b_feedback
        b['SeriesInverse'] = lambda it, a, k, s: [
            (s, circ(inverse(it.terms(a)[0])))]
        b['CPermutation'] = self.b_perm
        b['circuit_identity'] = lambda it, a, k, s: [
            (s, circ(ident(it.int(a[0]))))]
        b['map_channels'] = self.b_map
        b['block_perm_and_perms_within_blocks'] = self.b_blocks
        b['check_permutation'] = lambda it, a, k, s: [(s, truthy(True))]

    def fresh(self, name):
        return lin(**{'%s.%d' % (name, next(self.names)): 1})

    def terms(self, vs):
        r = []
        for v in vs:
            if v == ('G', 'CIdentity'):
                v = circ(ident(ONE))
            if v == ('G', 'CircuitZero'):
                v = circ(ident(ZERO))
            if v[0] != 'circ':
                raise Open('%s as a circuit' % v[0])
            r.append(v[1])
        return r

    @staticmethod
    def int(v):
        if v[0] != 'int':
            raise Open('%s as a number' % v[0])
        return v[1]

    def b_series(self, it, args, kws, st):
        ts = self.terms(args)
        if not ts:
            raise Open('an empty series')
        for t in ts[1:]:
            if not lequal(st, width(t), width(ts[0])):
                return [(st, ('EXC', 'ValueError'))]
        return [(st, circ(series(*ts)))]

    def b_feedback(self, it, args, kws, st):
        if len(args) != 1 or set(kws) != {'out_port', 'in_port'}:
            return [(st, ('EXC', 'TypeError'))]
        if NONE in kws.values():
            return [(st, ('EXC', 'TypeError'))]
        return [(st, circ(fb(self.terms(args)[0], self.int(kws['out_port']),
                             self.int(kws['in_port']))))]

    def b_map(self, it, args, kws, st):
        if len(args) != 2 or args[0][0] != 'dict':
            raise Open('a mapping')
        return [(st, circ(('perm', mapping(
            [(self.int(a), self.int(b)) for a, b in args[0][1]],
            self.int(args[1])))))]

    def b_perm(self, it, args, kws, st):
        v = args[0]
        live = [(st, ())]
        if v[0] == 'pseq':
            return [(st, circ(('perm', v[1])))]
        for p in self.pieces_of(v):
            if p[0] != 'r':
                live = [(s, ps + (p,)) for s, ps in live]
                continue
            # a range that goes backwards is empty
            live = [(s2, ps + ((p,) if b else ()))
                    for s, ps in live
                    for s2, b in self.split(s, '<=', ladd(p[1], p[2], -1))]
        return [(s, circ(('perm', self.as_perm(s, ('plist', ps)))))
                for s, ps in live]

    def b_blocks(self, it, args, kws, st):
        """any permutation of the blocks and any within each of them"""
        ws = [self.int(x) for x in self.items(args[1])]
        self.as_perm(st, args[0])
        ps = ('tuple', tuple(('pseq', Perm('p%d' % i, w))
                             for i, w in enumerate(ws)))
        return [(st, ('tuple', (('tuple', tuple(num(i) for i in o)), ps)))
                for o in itertools.permutations(range(len(ws)))]

    # -- sequences of numbers -------------------------------------------------
    def pieces_of(self, v):
        if v[0] == 'plist':
            return v[1]
        if v[0] == 'range':
            return (('r', v[1], v[2]),)
        if v[0] == 'tuple' and all(x[0] == 'int' for x in v[1]):
            return tuple(('r', x[1], ladd(x[1], ONE)) for x in v[1])
        if v[0] == 'pseq':
            return (('p', v[1]),)
        raise Open('%s as a list of channels' % v[0])

    @staticmethod
    def piece_len(p):
        return ladd(p[2], p[1], -1) if p[0] == 'r' else p[1].n

    def total(self, v):
        n = ZERO
        for p in self.pieces_of(v):
            n = ladd(n, self.piece_len(p))
        return n

    def as_perm(self, st, v):
        if v[0] == 'pseq':
            return v[1]
        ps = self.pieces_of(v)
        for p in ps:
            if p[0] == 'r' and st.having(
                    ladd(ladd(p[1], p[2], -1), ONE, -1)) is not None:
                raise Open('a range that may be backwards')

        def fwd(it, st, x):
            res, live, off = [], [st], ZERO
            for p in ps:
                n = it.piece_len(p)
                end = ladd(off, n)
                nxt = []
                for s in live:
                    for s2, b in it.split(s, '<', ladd(x, end, -1)):
                        if not b:
                            nxt.append(s2)
                        elif p[0] == 'r':
                            res.append((s2, ladd(ladd(x, off, -1), p[1])))
                        else:
                            res.extend(p[1].fwd(it, s2, ladd(x, off, -1)))
                live, off = nxt, end
            if live:
                raise Open('beyond the end of a permutation')
            return res

        def inv(it, st, y):
            res, live, off = [], [st], ZERO
            for p in ps:
                if p[0] != 'r':
                    raise Open('an inverse')
                nxt = []
                for s in live:
                    for s2, b in it.split(s, '>=', ladd(y, p[1], -1)):
                        for s3, c in (it.split(s2, '<', ladd(y, p[2], -1))
                                      if b else [(s2, False)]):
                            if c:
                                res.append((s3, ladd(ladd(y, p[1], -1),
                                                     off)))
                            else:
                                nxt.append(s3)
                live, off = nxt, ladd(off, it.piece_len(p))
            return res + [(s, None) for s in live if self.no_value()]
        return Perm('(%s)' % ', '.join(
            '%s..%s' % (lshow(p[1]), lshow(ladd(p[2], ONE, -1)))
            if p[0] == 'r' else p[1].name for p in ps), self.total(v), fwd,
            inv)

    def listed(self, st, v):
        """one and the same permutation for a list"""
        for k, p in self.lists:
            if k == v:
                return p
        self.lists.append((v, self.as_perm(st, v)))
        return self.lists[-1][1]

    @staticmethod
    def no_value():
        raise Open('a channel that a permutation does not reach')

    def binop(self, op, a, b):
        seqs = ('plist', 'range', 'pseq')
        if isinstance(op, ast.Add) and (a[0] in seqs or b[0] in seqs):
            return ('plist', self.pieces_of(a) + self.pieces_of(b))
        if isinstance(op, ast.Add) and a[0] == 'circ' and b[0] == 'circ':
            return circ(cat(a[1], b[1]))
        if isinstance(op, ast.Mult) and {a[0], b[0]} == {'tuple', 'int'}:
            t, n = (a, b) if a[0] == 'tuple' else (b, a)
            if t[1] and all(x == ('G', 'CIdentity') for x in t[1]):
                return ('ids', lscale(n[1], len(t[1])))
        if a[0] == 'circ' and b[0] in ('circ', 'int') and not isinstance(
                op, (ast.Add, ast.LShift)):
            return ('EXC', 'TypeError')
        return super().binop(op, a, b)

    def e_BinOp(self, node, env, st):
        if isinstance(node.op, (ast.LShift, ast.Add)):
            res = []
            for s, vs in self.evs([node.left, node.right], env, st):
                vs = [circ(self.terms([v])[0]) if v in (
                    ('G', 'CIdentity'), ('G', 'CircuitZero')) else v
                    for v in vs] if vs[0] != 'EXC' else vs
                if vs[0] != 'EXC' and vs[0][0] == vs[1][0] == 'circ':
                    res.extend(self.b_series(self, vs, {}, s) if isinstance(
                        node.op, ast.LShift) else [
                        (s, circ(cat(vs[0][1], vs[1][1])))])
                elif vs[0] == 'EXC':
                    res.append((s, vs))
                elif 'circ' in (vs[0][0], vs[1][0]) and {
                        vs[0][0], vs[1][0]} <= {'circ', 'int', 'tuple'}:
                    res.append((s, ('EXC', 'TypeError')))
                else:
                    res.append((s, self.binop(node.op, *vs)))
            return res
        res = super().e_BinOp(node, env, st)
        return res

    # -- statements -------------------------------------------------------------
    def s_While(self, node, env, st):
        if node.orelse:
            raise Open('else of a loop')
        live, done = [(st, dict(env))], []
        for _ in range(14):
            nxt = []
            for s, e in live:
                for s2, b in self.cond(node.test, e, s):
                    if b is False:
                        done.append((s2, e, None))
                    elif b is not True:
                        done.append((s2, e, ('raise', b)))
                    else:
                        for s3, e3, o in self.block(node.body, dict(e), s2):
                            if o is None or o[0] == 'continue':
                                nxt.append((s3, e3))
                            else:
                                done.append((s3, e3, None if o[0] == 'break'
                                             else o))
            live = nxt
            if not live:
                return done
        raise Open('a long loop')

    def s_Expr(self, node, env, st):
        c = node.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) \
                and isinstance(c.func.value, ast.Name) and \
                c.func.attr in ('remove', 'append') and len(c.args) == 1:
            n, cur = c.func.value.id, env.get(c.func.value.id, ('',))
            if c.func.attr == 'remove' and cur[0] in ('plist', 'pseq'):
                def gone(s, v):
                    v = self.int(v)
                    p = cur[1]
                    if cur[0] == 'plist':
                        if len(p) != 1 or p[0][:2] != ('r', ZERO):
                            raise Open('removing from a list')
                        whole, old = p[0][2], []
                    elif isinstance(p, Rest):
                        whole, old = p.whole, p.gone
                    else:
                        raise Open('removing from a list')
                    res, live = [], [s]
                    for d, op in [(v, '>='), (ladd(v, whole, -1), '<')] + [
                            (ladd(v, o, -1), '!=') for o in old]:
                        nxt = []
                        for s1 in live:
                            for s2, b in self.split(s1, op, d):
                                if b:
                                    nxt.append(s2)
                                else:
                                    res.append((s2, env, (
                                        'raise', 'ValueError')))
                        live = nxt
                    return res + [(s2, dict(env, **{n: (
                        'pseq', Rest(whole, old + [v]))}), None)
                        for s2 in live]
                return self.values(c.args[0], env, st, gone)
        if isinstance(c, ast.Call) and isinstance(
                c.func, ast.Attribute) and c.func.attr in (
                'pop', 'remove', 'insert', 'sort', 'reverse', 'update',
                'clear'):
            raise Open(c.func.attr)
        return super().s_Expr(node, env, st)

    def generic_loop(self, node, env, st, seq):
        """a loop over the channels that lists something for each of them,
        maybe the next from a queue"""
        if seq[0] != 'range' or seq[1] or not isinstance(
                node.target, ast.Name):
            return super().generic_loop(node, env, st, seq)
        n = seq[2]
        marks = []
        for v in env.values():
            if isinstance(v, tuple) and v[:1] == ('dict',):
                marks += [k[1] for k, _ in v[1]
                          if isinstance(k, tuple) and k[0] == 'int']

        def run(s, x):
            """[(state, list that grows, what it grows by)]"""
            res = []
            for s2, e, o in self.block(node.body, dict(
                    env, **{node.target.id: ('int', x)}), s):
                if o is not None and o[0] == 'raise':
                    res.append((s2, None, o))
                    continue
                if o is not None and o[0] != 'continue':
                    raise Open('the end of a loop')
                diff = [k for k in e if e[k] != env.get(k) and
                        k != node.target.id]
                if len(diff) != 1 or env.get(diff[0]) != ('tuple', ()) or \
                        len(e[diff[0]][1]) != 1:
                    raise Open('what a loop does')
                res.append((s2, diff[0], e[diff[0]][1][0]))
            return res
        x = self.fresh('k')
        base = st.having(x, ladd(ladd(n, x, -1), ONE, -1))
        if base is None:
            return [(st, env, None)]
        free = [base]
        for m in marks:
            free = [s3 for s2 in free for s3, b in self.split(
                s2, '==', ladd(x, m, -1)) if not b]
        rs = [r for s in free for r in run(s, x)]
        for m in marks:
            s = base.having(ladd(x, m, -1), ladd(m, x, -1))
            if s is not None:
                rs += [r for r in run(s, m) if r[1] is None]
        wrong = [r for r in rs if r[1] is None]
        if wrong:
            return [(s, env, o) for s, _, o in wrong]
        names = set(r[1] for r in rs)
        queue = None
        if any(r[2][0] == 'popped' for r in rs):
            queue = rs[0][2]
            if any(r[2] != queue for r in rs):
                raise Open('a queue')
        skipped = []
        for m in marks:
            s = base.having(ladd(x, m, -1), ladd(m, x, -1))
            if s is None:
                continue
            rs = run(s, m)
            names |= set(r[1] for r in rs)
            pops = set(r[2][0] == 'popped' for r in rs)
            if len(pops) != 1:
                raise Open('a queue')
            if pops == {False}:
                skipped.append(m)
        if len(names) != 1:
            raise Open('what a loop does')
        name, = names

        def fwd(it, st, x):
            res = []
            for s, _, v in run(st, x):
                if v[0] != 'popped':
                    res.append((s, it.int(v)))
                    continue
                outs = [(s, x)]
                for m in skipped:
                    outs = [(s3, ladd(r, ONE, -1) if t else r)
                            for s2, r in outs
                            for s3, t in it.split(s2, '>', ladd(x, m, -1))]
                for s2, r in outs:
                    res.extend(v[1].fwd(it, s2, r))
            return res
        e = dict(env)
        e[name] = ('pseq', Perm('[...]', n, fwd))
        if queue is not None:
            e = {k: ('opaque', 'a used queue') if k != name and isinstance(
                v, tuple) and v[0] in ('pseq', 'plist') else v
                for k, v in e.items()}
        return [(st, e, None)]

    def assign(self, target, v, env, st):
        if isinstance(target, ast.Attribute):
            res = []
            for s, b in self.ev(target.value, env, st):
                if b[0] != 'circ':
                    return super().assign(target, v, env, st)
                s = s.copy()
                s.heap.setdefault('circ', {}).update(
                    {target.attr: v, '$self': b})
                res.append((s, env, None))
            return res
        if isinstance(target, ast.Subscript) and isinstance(
                target.value, ast.Name):
            n = target.value.id
            cur = env.get(n)
            if cur == ('opaque', 'counter'):
                return [(st, env, None)]
            if cur is None or cur[0] not in ('pseq', 'plist', 'tuple'):
                return super().assign(target, v, env, st)
            if isinstance(target.slice, ast.Slice):
                if target.slice.lower is None or target.slice.step:
                    raise Open('a slice')
                res = []
                for s, lo in self.ev(target.slice.lower, env, st):
                    if not lequal(s, self.int(lo), self.total(cur)):
                        raise Open('a slice that is replaced')
                    res.append((s, dict(env, **{n: (
                        'plist', self.pieces_of(cur) +
                        self.pieces_of(v))}), None))
                return res
            if cur[0] != 'pseq':
                raise Open('an element that is replaced')
            res = []
            for s, i in self.ev(target.slice, env, st):
                p, i, x = cur[1], self.int(i), self.int(v)
                res.append((s, dict(env, **{n: ('pseq', Perm(
                    p.name + "'", p.n, lambda it, st, z, p=p, i=i, x=x: [
                        r for s2, b in it.split(st, '==', ladd(z, i, -1))
                        for r in ([(s2, x)] if b else p.fwd(it, s2, z))]))}),
                    None))
            return res
        return super().assign(target, v, env, st)

    def s_AugAssign(self, node, env, st):
        if isinstance(node.target, ast.Subscript) and isinstance(
                node.target.value, ast.Name) and env.get(
                node.target.value.id) == ('opaque', 'counter'):
            return [(st, env, None)]
        if isinstance(node.target, ast.Name):
            return self.values(
                ast.BinOp(ast.Name(node.target.id), node.op, node.value),
                env, st, lambda s, v: [
                    (s, dict(env, **{node.target.id: v}), None)])
        return super().s_AugAssign(node, env, st)

    # -- expressions ------------------------------------------------------------
    def e_Lambda(self, node, env, st):
        return [(st, ('clo', Clo(node, dict(env))))]

    def e_ListComp(self, node, env, st):
        g = node.generators[0]
        if len(node.generators) == 1 and not g.ifs and isinstance(
                g.target, ast.Name):
            res = []
            for s, seq in self.ev(g.iter, env, st):
                if seq[0] not in ('pseq', 'plist') and not (
                        seq[0] == 'range' and self.unknown_size(seq)):
                    break
                if seq[0] == 'range' and seq[1]:
                    raise Open('a range')
                p = None if seq[0] == 'range' else self.as_perm(s, seq)

                def fwd(it, st, x, p=p, e=dict(env)):
                    out = []
                    for s2, y in ([(st, x)] if p is None else
                                  p.fwd(it, st, x)):
                        for s3, v in it.ev(node.elt, dict(
                                e, **{g.target.id: ('int', y)}), s2):
                            out.append((s3, it.int(v)))
                    return out
                n = seq[2] if p is None else p.n
                res.append((s, ('pseq', Perm('[...]', n, fwd))))
            else:
                return res
        return super().e_ListComp(node, env, st)

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, node, env, st):
        pair = ast.Tuple([node.key, node.value], ast.Load())
        res = []
        for s, v in self.e_ListComp(ast.ListComp(pair, node.generators), env,
                                    st):
            res.append((s, v if v[0] == 'EXC' else ('dict', tuple(
                x[1] for x in v[1]))))
        return res

    def e_Dict(self, node, env, st):
        if None in node.keys:
            raise Open('dict')
        n = len(node.keys)
        res = []
        for s, v in self.evs(node.keys + node.values, env, st):
            if v[:1] == ('EXC',):
                res.append((s, v))
            elif all(x[0] == 'text' for x in v[:n]):
                res.append((s, ('dict', tuple(zip(
                    [x[1] for x in v[:n]], v[n:])))))
            else:
                res.append((s, ('dict', tuple(zip(v[:n], v[n:])))))
        return res

    def e_Subscript(self, node, env, st):
        if isinstance(node.slice, ast.Slice):
            step = None
            if node.slice.step is not None:
                try:
                    step = ast.literal_eval(node.slice.step)
                except ValueError:
                    raise Open('a step')
            res = []
            parts = [x for x in (node.slice.lower, node.slice.upper)
                     if x is not None]
            for s, vs in self.evs([node.value] + parts, env, st):
                if vs[0] == 'EXC':
                    res.append((s, vs))
                    continue
                b, ks = vs[0], iter(vs[1:])
                lo = next(ks) if node.slice.lower is not None else None
                hi = next(ks) if node.slice.upper is not None else None
                if b[0] == 'pseq' and lo is None and hi == num(-1) and \
                        step is None:
                    p = b[1]
                    res.append((s, ('pseq', Perm(
                        p.name, ladd(p.n, ONE, -1),
                        lambda it, st, x, p=p: p.fwd(it, st, x),
                        lambda it, st, x, p=p: p.inv(it, st, x)))))
                    continue
                k = []
                for v in (lo, hi):
                    c = None if v is None else lconst(self.int(v))
                    if v is not None and c is None:
                        raise Open('slice')
                    k.append(None if c is None else int(c))
                if b[0] == 'circ':
                    raise Open('slice of a circuit')
                res.append((s, ('tuple', tuple(
                    self.items(b)[slice(*k, step)]))))
            return res
        res = []
        for s, vs in self.evs([node.value, node.slice], env, st):
            if vs[0] != 'EXC' and vs[0][0] in ('pseq', 'plist') and \
                    vs[1][0] == 'int':
                p = self.as_perm(s, vs[0])
                for s2, neg in self.split(s, '<', vs[1][1]):
                    i = ladd(vs[1][1], p.n) if neg else vs[1][1]
                    for s3, ok in self.split(
                            s2, '>=' if neg else '<',
                            i if neg else ladd(i, p.n, -1)):
                        if ok:
                            res.extend((s4, ('int', y)) for s4, y in
                                       p.fwd(self, s3, i))
                        else:
                            res.append((s3, ('EXC', 'IndexError')))
            elif vs[0] != 'EXC' and vs[0][0] == 'dict' and \
                    vs[1][0] == 'int':
                live = [s]
                for k, v in vs[0][1]:
                    nxt = []
                    for s1 in live:
                        for s2, b in self.split(s1, '==', ladd(
                                vs[1][1], self.int(k), -1)):
                            if b:
                                res.append((s2, v))
                            else:
                                nxt.append(s2)
                    live = nxt
                res += [(s1, ('EXC', 'KeyError')) for s1 in live]
            elif vs[0] != 'EXC' and vs[0][0] == 'tuple' and \
                    vs[1][0] == 'int' and lconst(vs[1][1]) is None:
                for i, x in enumerate(vs[0][1]):
                    s2 = s.having(ladd(vs[1][1], lin(i), -1),
                                  ladd(lin(i), vs[1][1], -1))
                    if s2 is not None:
                        res.append((s2, x))
                if len(self.split(s, '>=', vs[1][1])) > 1 or len(self.split(
                        s, '<', ladd(vs[1][1], lin(len(vs[0][1])), -1))) > 1:
                    raise Open('an index that may be out of range')
            else:
                return super().e_Subscript(node, env, st)
        return res

    # -- circuits ---------------------------------------------------------------
    def interpreted(self, b):
        """is this circuit given by its class, so that its methods are read?"""
        return b[2] in ('Concatenation',) and b[1][0] == 'cat'

    def attr(self, st, b, name, env=None):
        if b in (('G', 'CIdentity'), ('G', 'CircuitZero')):
            b = circ(self.terms([b])[0])
        if b[0] == 'circ':
            t, cls = b[1], b[2]
            own = st.heap.get('circ', {})
            if name in own and '$self' in own and own['$self'] == b:
                return [(st, own[name])]
            if name in ('operands', '_operands', 'args'):
                if t[0] in ('series', 'cat'):
                    return [(st, ('tuple', tuple(circ(x) for x in t[1])))]
                if t[0] == 'fb':
                    return [(st, ('tuple', (circ(t[1]),)))]
                if t[0] == 'ibox':
                    return [(st, ('tuple', (circ(inverse(t)),)))]
            if name in ('operand',):
                if t[0] == 'fb':
                    return [(st, circ(t[1]))]
                if t[0] == 'ibox':
                    return [(st, circ(inverse(t)))]
            if name in ('out_port', 'in_port') and t[0] == 'fb':
                return [(st, ('int', t[2 if name == 'out_port' else 3]))]
            if name == 'out_in_pair' and t[0] == 'fb':
                return [(st, ('tuple', (('int', t[2]), ('int', t[3]))))]
            if name == 'cdim':
                return [(st, ('int', width(t)))]
            if name in ('permutation', '_permutation') and pure(t):
                if t[0] == 'perm':
                    return [(st, ('pseq', t[1]))]
                return [(st, ('pseq', Perm(
                    show(t), width(t),
                    lambda it, s, x: wire(it, t, x, s),
                    lambda it, s, x: wire(it, inverse(t), x, s))))]
            if name in ('block_structure', '_block_structure') and t[0] in (
                    'box', 'ibox'):
                return [(st, ('tuple', (('int', width(t)),)))]
            if name in ('PORTSIN', 'PORTSOUT') and t[0] == 'box':
                return [(st, ('ports', t[1], name))]
            if self.interpreted(b) and name in (
                    'block_structure', '_block_structure', 'get_blocks',
                    '_get_blocks', 'index_in_block'):
                return self.method(st, b, name)
            if name == '__class__' and t == ident(ONE):
                return [(st, ('cls', 'CIdentity'))]
            if name == '__class__' and cls:
                return [(st, ('cls', cls))]
            if name in ('S', 'L') and cls == 'SLH':
                return [(st, ('obj', 'Matrix', name))]
            if name in ('_cdim',):
                return [(st, NONE)]
            hit = self.repo.lookup(self.repo.cls(cls), name) if cls else None
            slh = self.repo.lookup(self.repo.cls('SLH'), name)
            if slh and hit is None and t[0] == 'box' and (
                    self.marks != 'toSLH' or t[1].endswith("'")):
                return [(st, ('bound', b, name))]
            if cls and hit is None and t[0] == 'box':
                return [(st, ('EXC', 'AttributeError'))]
            if hit and hit[1] == 'method' and name.startswith('_factor'):
                return [(st, ('meth', hit[0], hit[2], b))]
            return [(st, ('bound', b, name))]
        if b[0] == 'tuple' and not hasattr((), name) and not hasattr(
                [], name) or b[0] == 'int' and not hasattr(0, name):
            return [(st, ('EXC', 'AttributeError'))]
        return super().attr(st, b, name, env)

    def method(self, st, b, name):
        ci = self.repo.cls(b[2])
        hit = self.repo.lookup(ci, name)
        if hit is None or hit[1] != 'method':
            raise Open(name)
        if any("'property'" in ast.dump(d) for d in hit[2].decorator_list):
            return self.run(hit[0], hit[2], b, [], {}, st)
        return [(st, ('meth', hit[0], hit[2], b))]

    def bound(self, st, b, name, args, kws):
        if b[0] == 'circ':
            t = b[1]
            if name in ('feedback', '_feedback'):
                last = ladd(width(t), ONE, -1)
                if args or set(kws) - {'out_port', 'in_port'}:
                    return [(st, ('EXC', 'TypeError'))]
                o, i = (last if kws.get(n, NONE) == NONE else
                        self.int(kws[n]) for n in ('out_port', 'in_port'))
                return [(st, circ(fb(t, o, i)))]
            if name in ('series_inverse', '_series_inverse') and not args:
                return [(st, circ(inverse(t)))]
            if name in ('creduce', 'toSLH', '_creduce', '_toSLH') and \
                    not args:
                if self.marks == name.lstrip('_'):
                    return [(st, circ(marked(t, "'")))]
                return [(st, b)]
            if name in ('expand', 'simplify_scalar') and not args:
                return [(st, b)]
            if name == 'series_with_slh' or name == 'series_with_permutation':
                return self.b_series(self, [b] + args, {}, st)
            if name == 'concatenate_slh':
                return [(st, circ(cat(t, *self.terms(args))))]
            if name == 'get_blocks' and t[0] in ('box', 'ibox') and \
                    not args:
                return [(st, ('tuple', (b,)))]
            if name == 'index_in_block' and t[0] in ('box', 'ibox'):
                return [(st, ('tuple', (args[0], num(0))))]
        if b[0] == 'dict' and name in ('values', 'keys', 'items') and \
                not args and all(isinstance(k, tuple) for k, _ in b[1]):
            return [(st, ('tuple', tuple(
                v if name == 'values' else k if name == 'keys' else
                ('tuple', (k, v)) for k, v in b[1])))]
        if b[0] in ('pseq', 'plist') and name == 'pop' and \
                args == [num(0)]:
            return [(st, ('popped', self.as_perm(st, b)
                          if b[0] == 'pseq' else self.listed(st, b)))]
        if b[0] == 'ports' and name == 'index' and len(args) == 1:
            v = lin(**{'%s of %s' % (b[2], b[1]): 1})
            s = st.having(v, ladd(ladd(lin(**{'w' + b[1]: 1}), v, -1), ONE,
                                  -1))
            return [(s, ('int', v)), (st, ('EXC', 'ValueError'))]
        if b[0] in ('pseq', 'plist') and name == 'index' and len(args) == 1:
            return [(s, ('int', y)) for s, y in self.as_perm(st, b).inv(
                self, st, self.int(args[0]))]
        if b[0] == 'tuple' and name == 'index' and len(args) == 1:
            for i, x in enumerate(b[1]):
                if x == args[0]:
                    return [(st, num(i))]
                if None in (x[0] == 'int' and lconst(x[1]),
                            args[0][0] == 'int' and lconst(args[0][1])):
                    raise Open('the position of a number')
            return [(st, ('EXC', 'ValueError'))]
        return super().bound(st, b, name, args, kws)

    def equal(self, st, a, b):
        """[(state, whether the circuits are equal)]"""
        if a == b:
            return [(st, True)]
        if a[0] != 'id' and b[0] == 'id':
            a, b = b, a

        def yes(*notes):
            s = st.copy()
            s.notes += notes
            return s
        if not lequal(st, width(a), width(b)):
            raise Open('circuits of different width')
        if a[0] == 'id' and b[0] == 'id':
            return [(st, True)]
        if a[0] == 'id':
            ls = leaves(b)
            if all(x[0] in ('box', 'ibox', 'id') for x in ls) and b[0] in (
                    'box', 'ibox', 'cat'):
                open_ = [x for x in ls if x[0] != 'id' and
                         sub(st, x[1]) is None]
                if not open_:
                    return [(st, True)]
                return [(yes(*[('sub', x[1], ident(x[2])) for x in open_]),
                         True), (st, False)]
            if pure(b) and all(x[0] == 'perm' for x in leaves(b)) and \
                    b[0] in ('perm', 'series'):
                ls = list(b[1]) if b[0] == 'series' else [b]
                free = [i for i, x in enumerate(ls) if x[0] == 'perm' and
                        x[1].free and sub(st, x[1]) is None]
                if len(free) == 1:
                    i = free[0]
                    # L << P << R is the identity: P is L^-1 << R^-1
                    parts = [inverse(x) for x in ls[:i][::-1]] + \
                        [inverse(x) for x in ls[i + 1:][::-1]]
                    r = series(*parts) if parts else ident(width(b))
                    return [(yes(('sub', ls[i][1], r)), True), (st, False)]
        return [(yes(('unknown',)), True), (st, False)]

    def contains(self, st, seq, x):
        if seq[0] == 'dict' and x[0] == 'int':
            seq = ('tuple', tuple(self.items(seq)))
        return super().contains(st, seq, x)

    def compare(self, st, op, a, b):
        gs = (('G', 'CIdentity'), ('G', 'CircuitZero'))
        if a in gs and b[0] == 'circ':
            a = circ(self.terms([a])[0])
        if b in gs and a[0] == 'circ':
            b = circ(self.terms([b])[0])
        if a[0] == b[0] == 'circ' and isinstance(op, (
                ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            pos = isinstance(op, (ast.Eq, ast.Is))
            return [(s, truthy(x == pos))
                    for s, x in self.equal(st, a[1], b[1])]
        if 'sorted' in (a[0], b[0]) and isinstance(op, (ast.Eq, ast.NotEq)):
            p, r = (a, b) if a[0] == 'sorted' else (b, a)
            if r[0] in ('range', 'plist', 'tuple') and lequal(
                    st, self.total(r), p[1].n):
                # the images of a permutation, in order
                return [(st, truthy(isinstance(op, ast.Eq)))]
        return super().compare(st, op, a, b)

    def kind_of(self, st, v, names):
        """[(state, is the circuit one of these classes)]"""
        t, cls = v[1], v[2]
        if 'Circuit' in names or 'Expression' in names:
            return [(st, True)]
        if cls:
            ci = self.repo.cls(cls)
            if 'SLH' in names and t[0] == 'box':
                return [(st, True), (st, False)]
            return [(st, any(self.repo.is_sub(ci, n) for n in names))]
        if names == ['CPermutation'] and pure(t):
            return [(s, not b) for s, b in self.equal(
                st, t, ident(width(t)))]
        if names == ['SLH']:
            return [(st, True), (st, False)]
        if t[0] == 'id' and not set(names) - {'CPermutation', 'SLH',
                                              'SeriesProduct', 'Feedback'}:
            return [(st, False)]
        raise Open('the class of a circuit')

    def builtin(self, st, n, args, kws):
        if n == 'isinstance' and len(args) == 2:
            ts = args[1][1] if args[1][0] == 'tuple' else (args[1],)
            names = [t[1].rpartition('.')[2] for t in ts
                     if t[0] in ('cls', 'G')]
            if len(names) == len(ts):
                v = args[0]
                if v in (('G', 'CIdentity'), ('G', 'CircuitZero')):
                    v = circ(self.terms([v])[0])
                if v[0] == 'circ':
                    return [(s, truthy(b))
                            for s, b in self.kind_of(st, v, names)]
                if v[0] in ('pseq', 'plist', 'range'):
                    return [(st, truthy(bool({'tuple', 'list'} &
                                             set(names))))]
        if n == 'sorted' and len(args) == 1 and not kws and args[0][0] in (
                'pseq', 'plist'):
            return [(st, ('sorted', self.as_perm(st, args[0])))]
        if n == 'type' and len(args) == 1 and args[0][0] in (
                'pseq', 'plist'):
            return [(st, ('G', 'tuple'))]
        if n == 'len' and len(args) == 1 and args[0][0] in ('pseq', 'plist'):
            return [(st, ('int', self.total(args[0])))]
        if n in ('tuple', 'list') and len(args) == 1 and args[0][0] in (
                'pseq', 'plist'):
            return [(st, args[0])]
        if n in ('tuple', 'list') and len(args) == 1 and \
                args[0][0] == 'range' and self.unknown_size(args[0]):
            return [(st, ('plist', self.pieces_of(args[0])))]
        if n == 'iter' and len(args) == 1 and args[0][0] == 'tuple':
            s = st.copy()
            k = 'iter%d' % next(self.names)
            s.heap[k] = {'at': 0}
            return [(s, ('iter', k, args[0][1]))]
        if n == 'next' and len(args) == 1 and args[0][0] == 'iter':
            s = st.copy()
            i = s.heap[args[0][1]]['at']
            if i >= len(args[0][2]):
                return [(st, ('EXC', 'StopIteration'))]
            s.heap[args[0][1]]['at'] = i + 1
            return [(s, args[0][2][i])]
        if n == 'sum' and args:
            vs = self.items(args[0])
            acc = args[1] if len(args) > 1 else num(0)
            for v in vs:
                acc = self.binop(ast.Add(), acc, v)
            return [(st, acc)]
        if n in ('functools.reduce', 'reduce') and len(args) == 2 and \
                args[0][0] in ('clo', 'fn', 'meth'):
            vs = self.items(args[1])
            live = [(st, vs[0])]
            for v in vs[1:]:
                live = [r if a[0] == 'EXC' else r2 for s, a in live
                        for r in [(s, a)]
                        for r2 in self.call(s, args[0], [a, v], {})]
            return live
        if n in ('map',) and len(args) == 2:
            live = [(st, ())]
            for v in self.items(args[1]):
                live = [(s2, a + (x,)) for s, a in live
                        for s2, x in self.call(s, args[0], [v], {})]
            if any(x[0] == 'EXC' for s, a in live for x in a):
                raise Open('an error in map')
            return [(s, ('tuple', a)) for s, a in live]
        if n.rpartition('.')[2] == 'defaultdict':
            return [(st, ('opaque', 'counter'))]
        if n == 'int' and len(args) == 1 and args[0][0] == 'int':
            return [(st, args[0])]
        return super().builtin(st, n, args, kws)

    def items(self, v):
        if v[0] == 'ids':
            return [circ(ident(v[1]))]
        if v[0] == 'iter':
            raise Open('the rest of an iterator')
        if v[0] == 'dict' and all(isinstance(k, tuple) for k, _ in v[1]):
            return [k for k, _ in v[1]]
        if v[0] == 'range':
            k = lconst(ladd(v[2], v[1], -1))
            if k is not None and 0 <= k < 50:
                return [('int', ladd(v[1], lin(i))) for i in range(int(k))]
        return super().items(v)

    def call(self, st, f, args, kws):
        if f[0] == 'clo':
            a = f[1].node.args
            names = [x.arg for x in a.args]
            if len(names) != len(args) or kws:
                raise Open('a function')
            return self.ev(f[1].node.body, dict(
                f[1].env, **dict(zip(names, args))), st)
        return super().call(st, f, args, kws)
