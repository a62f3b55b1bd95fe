"""Circuit reductions preserve the network"""
import ast
import itertools

from ..core import where
from ..diagram import (Circuits, ONE, Perm, ZERO, box, cat, circ, fb, flip, ident,
                       inverse, leaves, lequal, mapping, marked, same, series, show,
                       width)
from ..linear import NONE, Open, State, ladd, lconst, lin, lscale, num
from ..rules import tables
from ..src import AnalysisError

CA = 'qnet.algebra.core.circuit_algebra.'


class World:
    def __init__(self, repo):
        self.repo = repo
        self.it = Circuits(repo)
        self.cs = []

    def box(self, name, w=None):
        b = box(name, w)
        self.cs.append(ladd(b[2], ONE, -1))
        return b

    def perm(self, name, n=None):
        p = Perm(name, lin(**{n or 'n' + name: 1}))
        self.cs.append(ladd(p.n, ONE, -1))
        return ('perm', p)

    def port(self, name, n):
        v = lin(**{name: 1})
        self.cs += [v, ladd(ladd(n, v, -1), ONE, -1)]
        return v

    def equal(self, a, b):
        self.cs += [ladd(a, b, -1), ladd(b, a, -1)]

    def atleast(self, a, k):
        self.cs.append(ladd(a, lin(k), -1))

    @property
    def st(self):
        s = State().having(*self.cs)
        if s is None:
            raise Open('no case')
        return s

    def method(self, cls, name, selfv, args=(), kws=None, st=None):
        """the method as its class defines it"""
        ci = self.repo.cls(cls)
        hit = self.repo.lookup(ci, name)
        if hit is None or hit[1] != 'method':
            raise Open('%s.%s' % (cls, name))
        owner, _, node = hit
        return self.it.run(owner, node, selfv, list(args), dict(kws or {}),
                           self.st if st is None else st)

    def fn(self, dotted, args, kws=None):
        self.repo.func(dotted)
        self.it.builders.pop(dotted.rpartition('.')[2], None)
        return self.it.call(self.st, ('fn', dotted), list(args),
                            dict(kws or {}))


ANY = object()


class Check:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep

    def judge(self, key, at, make, may_raise=()):
        """make() -> (interp, paths, wanted): every path gives the wanted
        network, number or error"""
        rep = self.rep
        bad, open_ = [], []
        try:
            cases = make()
            n = 0
            for it, paths, want in cases:
                paths = list(paths)
                if not paths:
                    open_.append('no path')
                for s, v in paths:
                    n += 1
                    rep.count('paths judged')
                    try:
                        r = self.one(it, s, v, want, may_raise)
                    except Open as e:
                        open_.append(str(e))
                        continue
                    bad += r
                rep.count('wires followed', it.traced)
                it.traced = 0
            if not n:
                open_.append('no path')
        except Open as e:
            open_.append(str(e))
        except RecursionError:
            open_.append('recursion')
        except (AnalysisError, KeyError, AttributeError, IndexError,
                TypeError, ValueError) as e:
            open_.append('%s: %s' % (type(e).__name__, e))
        if bad:
            rep.decide(key, False, at, '; '.join(sorted(set(bad))[:2]))
        elif open_:
            rep.undec(key, '; '.join(sorted(set(open_))[:3]))
        else:
            rep.decide(key, True, at, '')

    def one(self, it, s, v, want, may_raise):
        if v[0] == 'EXC':
            if v[1] in may_raise:
                return []
            if isinstance(want, str) and want == v[1]:
                return []
            if any(f[0] == 'unknown' for f in s.notes):
                raise Open('what equal circuits are')
            return ['the error %s' % v[1]]
        if isinstance(want, str):
            return ['no %s' % want]
        if isinstance(want, list):
            if v[0] != 'tuple' or len(v[1]) != len(want):
                if v[0] != 'tuple':
                    raise Open(v[0])
                return ['%d results, not %d' % (len(v[1]), len(want))]
            return [r for x, y in zip(v[1], want)
                    for r in self.one(it, s, x, y, ())]
        if want is ANY:
            return []
        if want[0] == 'int':
            if v[0] != 'int':
                raise Open('%s as a number' % v[0])
            return [] if lequal(s, v[1], want[1]) else [
                'a number that is not %s' % (want[2:] or ('right',))[0]]
        t = it.terms([v])[0]
        r = same(it, s, t, want)
        return ['%s is not %s: %s' % (show(t), show(want), x) for x in r]


# -- instances of patterns ------------------------------------------------------

def wild(p):
    """(name, how many, head) of a wildcard"""
    if p[0] == 'call' and p[1][0] == 'G' and \
            p[1][1].rpartition('.')[2] == 'wc':
        a = p[2][0] if p[2] else dict(p[3]).get('name_mode')
        n = ast.literal_eval(a[2])
        h = dict(p[3]).get('head')
        h = h[1].rpartition('.')[2] if h and h[0] == 'G' else None
        return n.rstrip('_'), len(n) - len(n.rstrip('_')), h
    return None


def instances(w, p, bind, top=None):
    """[(term or tuple of terms or number, bindings)]"""
    x = wild(p)
    if x is not None:
        name, many, head = x
        if name in bind:
            return [(bind[name], bind)]
        res = []
        for t in values(w, name, many, head):
            res.append((t, dict(bind, **{name: t})))
        return res
    if p[0] == 'G':
        n = p[1].rpartition('.')[2]
        if n == 'CIdentity':
            return [(ident(ONE), bind)]
        if n == 'CircuitZero':
            return [(ident(ZERO), bind)]
    if p[0] == 'call' and p[1][0] == 'G':
        f = p[1][1].rpartition('.')[2]
        args = list(p[2])
        if f == 'pattern':
            head = args.pop(0)[1].rpartition('.')[2]
        elif f == 'pattern_head':
            head = top
        else:
            raise Open('pattern')
        parts = [((), bind)]
        for a in args:
            nxt = []
            for got, b in parts:
                for t, b2 in instances(w, a, b):
                    nxt.append((got + (t if isinstance(
                        t, list) else [t],), b2))
            parts = nxt
        parts = [([y for x in got for y in x], b) for got, b in parts]
        kws = dict(p[3])
        res = []
        for ts, b in parts:
            ks = {}
            for k, q in kws.items():
                (ks[k], b), = instances(w, q, b)
            res.append((build(w, head, ts, ks), b))
        return res
    raise Open('pattern')


def values(w, name, many, head):
    if head == 'int':
        return [('port', name)]
    if head == 'CPermutation':
        return [w.perm(name)]
    if head == 'SLH':
        return [w.box(name + '!')]
    if head == 'Concatenation':
        return [cat(*[w.box(name + str(i)) for i in range(k)])
                for k in (2, 3)]
    if head == 'SeriesProduct':
        return [series(w.box(name + '0', 'w' + name),
                       w.box(name + '1', 'w' + name))]
    if head == 'Circuit' and many >= 2:
        return [[w.box(name)], [w.box(name + '0', 'w' + name),
                                w.box(name + '1', 'w' + name)]]
    if head == 'Circuit' and not many:
        return [w.box(name), cat(w.box(name + '0'), w.box(name + '1'))]
    raise Open('wildcard %s' % head)


def build(w, head, ts, ks):
    if head == 'SeriesProduct':
        if len(ts) == 2 and ts[0] == inverse(ts[1]):
            return ('cancel', ts[0])
        return ('SeriesProduct', ts)
    if head == 'Concatenation':
        return ('Concatenation', ts)
    if head == 'SeriesInverse' and len(ts) == 1:
        return inverse(ts[0])
    if head == 'Feedback' and len(ts) == 1 and set(ks) == {
            'out_port', 'in_port'}:
        return ('Feedback', ts[0], ks['out_port'], ks['in_port'])
    raise Open('pattern of %s' % head)


def settle(w, t):
    """the term of an instance; its parts fit together"""
    if t[0] == 'cancel':
        return ident(width(t[1]))
    if t[0] == 'SeriesProduct':
        ts = [settle(w, x) for x in t[1]]
        for x in ts[1:]:
            w.equal(width(ts[0]), width(x))
        return series(*ts)
    if t[0] == 'Concatenation':
        return cat(*[settle(w, x) for x in t[1]])
    if t[0] == 'Feedback':
        x = settle(w, t[1])
        w.atleast(width(x), 2)
        return fb(x, w.port(t[2][1], width(x)), w.port(t[3][1], width(x)))
    return t


CLASS = {'SeriesProduct', 'Concatenation', 'Feedback'}


def rules(c):
    repo, rep = c.repo, c.rep
    rs, open_ = tables(repo)
    for mod, fn, text in open_:
        rep.undec('table:' + fn.name, text)
    for r in rs:
        if r.cls not in CLASS:
            continue
        key = 'rule:%s:%s' % (r.cls, r.name)
        at = where(repo, r.ctx.mod, r.node)
        rep.count('rules')

        def make(r=r):
            k = len(instances(World(repo), r.pattern, {}, r.cls))
            for i in range(k):
                w = World(repo)
                t, bind = instances(w, r.pattern, {}, r.cls)[i]
                want = settle(w, t)
                try:
                    st = w.st
                except Open:
                    continue
                yield w.it, apply(w, r, bind, st), want
        c.judge(key, at, make, ('CannotSimplify',))


def value(x):
    if isinstance(x, list):
        return ('tuple', tuple(value(y) for y in x))
    if x[0] == 'port':
        return ('int', lin(**{x[1]: 1}))
    if x[0] == 'box' and x[1].endswith('!'):
        return circ(x, 'SLH')
    return circ(x, 'Concatenation' if x[0] == 'cat' else
                'SeriesProduct' if x[0] == 'series' else None)


def apply(w, r, bind, st):
    env = {k: value(v) for k, v in bind.items()}
    if r.repl[0] == 'lam' and isinstance(r.node, (ast.Lambda)):
        if r.unbound(list(env)):
            return [(st, ('EXC', 'TypeError'))]
        a = r.node.args
        names = [x.arg for x in a.args + a.kwonlyargs]
        if set(names) != set(env) or a.vararg or a.kwarg:
            raise Open('parameters of the rule')
        e = {'$mod': r.ctx.mod, '$owner': None, '$self': None}
        e.update(env)
        return w.it.ev(r.node.body, e, st)
    if r.repl[0] == 'G':
        return w.it.call(st, ('fn', r.repl[1]), [], env)
    raise Open('replacement')


# -- methods --------------------------------------------------------------------

def anchor(repo, cls, name):
    hit = repo.lookup(repo.cls(cls), name)
    if hit is None:
        return cls
    return where(repo, hit[0].module, hit[2])


def n_boxes(w, k, names='ABC'):
    return [w.box(n) for n in names[:k]]


def concatenation(c):
    repo = c.repo
    C = 'Concatenation'

    def blocks(w, k):
        t = cat(*n_boxes(w, k, 'ABCD'))
        return t, circ(t, C)

    def feedback():
        for k in (2, 3):
            w = World(repo)
            t, v = blocks(w, k)
            w.atleast(width(t), 2)
            o, i = w.port('j', width(t)), w.port('k', width(t))
            yield w.it, w.method(C, '_feedback', v, kws={
                'out_port': ('int', o), 'in_port': ('int', i)}), fb(t, o, i)
    c.judge('feedback:' + C, anchor(repo, C, '_feedback'), feedback)

    def index():
        for k in (2, 3):
            w = World(repo)
            t, v = blocks(w, k)
            off = ZERO
            for n, b in enumerate(t[1]):
                st = State().having(
                    *(w.cs + [lin(p=1), ladd(ladd(b[2], ONE, -1),
                                             lin(p=1), -1)]))
                yield w.it, w.method(
                    C, 'index_in_block', v,
                    [('int', ladd(lin(p=1), off))], st=st), [
                    ('int', lin(p=1), 'the position within the block'),
                    ('int', lin(n), 'the number of the block')]
                off = ladd(off, b[2])
            for x in (ladd(off, lin(p=1)), lin(-1, p=-1)):
                yield w.it, w.method(C, 'index_in_block', v, [('int', x)],
                                     st=State().having(*(
                                         w.cs + [lin(p=1)]))), 'ValueError'
    c.judge('blocks:index_in_block', anchor(repo, C, 'index_in_block'),
            index)

    def get():
        for k in (2, 3):
            for cut in itertools.product((0, 1), repeat=k - 1):
                w = World(repo)
                t, v = blocks(w, k)
                groups = [[t[1][0]]]
                for b, x in zip(t[1][1:], cut):
                    if x:
                        groups.append([b])
                    else:
                        groups[-1].append(b)
                want = [cat(*g) for g in groups]
                struct = ('tuple', tuple(('int', width(x)) for x in want))
                f = w.method(C, 'get_blocks', v, [struct])
                yield w.it, f, want
                f = w.method(C, 'get_blocks', v, kws={
                    'block_structure': struct})
                yield w.it, f, want
            w = World(repo)
            t, v = blocks(w, k)
            yield w.it, w.method(C, 'get_blocks', v), list(t[1])
            # an empty part, and one that is too short or too long
            ws = [b[2] for b in t[1]]
            yield w.it, w.method(C, 'get_blocks', v, [('tuple', (
                ('int', ZERO), ('int', width(t))))]), [ident(ZERO), t]
            w.atleast(ws[0], 2)
            yield w.it, w.method(C, 'get_blocks', v, [('tuple', (
                ('int', ladd(ws[0], ONE, -1)),
                ('int', ladd(width(t), ladd(ws[0], ONE, -1), -1))))]), \
                'IncompatibleBlockStructures'
    c.judge('blocks:get_blocks', anchor(repo, C, '_get_blocks'), get)

    def structure():
        for k in (2, 3):
            w = World(repo)
            t, v = blocks(w, k)
            yield w.it, w.it.attr(w.st, v, 'block_structure'), [
                ('int', b[2], 'the width of a block') for b in t[1]]
    c.judge('blocks:block_structure', anchor(repo, C, '_block_structure'),
            structure)


def structure(c):
    """what is done part by part"""
    repo = c.repo

    def make(kind, w):
        if kind == 'SeriesProduct':
            t = series(*[w.box(n, 'w') for n in 'ABC'])
        elif kind == 'Concatenation':
            t = cat(*n_boxes(w, 3))
        elif kind == 'Feedback':
            b = w.box('A')
            w.atleast(b[2], 2)
            t = fb(b, w.port('j', b[2]), w.port('k', b[2]))
        elif kind == 'SeriesInverse':
            t = inverse(w.box('A'))
        elif kind == 'CPermutation':
            t = w.perm('P')
        elif kind == 'CIdentity':
            t = ident(ONE)
        return t, circ(t, kind)
    for kind in ('SeriesProduct', 'Concatenation', 'Feedback',
                 'SeriesInverse', 'CPermutation', 'CIdentity'):
        for name in ('_creduce', '_toSLH', '_series_inverse', 'cdim'):
            ci = repo.cls(kind)
            hit = repo.lookup(ci, name)
            if hit is None or hit[0].name == 'Circuit' or \
                    name == '_toSLH' and kind in ('CPermutation',
                                                  'CIdentity'):
                continue

            def go(kind=kind, name=name):
                w = World(repo)
                t, v = make(kind, w)
                if name in ('_creduce', '_toSLH'):
                    w.it.marks = name[1:]
                    yield w.it, w.method(kind, name, v), marked(t, "'")
                elif name == 'cdim':
                    yield w.it, w.method(kind, name, v), (
                        'int', width(t), 'the number of channels')
                else:
                    yield w.it, w.method(kind, name, v), (
                        inverse(t) if name == '_series_inverse' else t)
            if kind == 'CIdentity' and name == 'cdim' or \
                    kind == 'CPermutation' and name == 'cdim':
                continue
            c.judge('part:%s.%s' % (kind, name), anchor(repo, kind, name),
                    go)

    def ports():
        for both in itertools.product((0, 1), repeat=2):
            for how in 'mf':
                w = World(repo)
                b = w.box('A')
                w.atleast(b[2], 2)
                last = ladd(b[2], ONE, -1)
                o, i = w.port('j', b[2]), w.port('k', b[2])
                kws = {n: ('int', v) for n, v, x in zip(
                    ('out_port', 'in_port'), (o, i), both) if x}
                want = fb(b, o if both[0] else last, i if both[1] else last)
                if how == 'm':
                    yield w.it, w.method('Circuit', 'feedback', circ(b),
                                         kws=kws), want
                else:
                    yield w.it, w.fn(CA + 'FB', [circ(b)], kws), want
    c.judge('port:defaults', anchor(repo, 'Circuit', 'feedback'), ports)

    def create():
        for cls in ('box', 'Concatenation'):
            w = World(repo)
            if cls == 'box':
                t = w.box('A')
                v = circ(t)
            else:
                t = cat(*n_boxes(w, 2))
                v = circ(t, cls)
            w.atleast(width(t), 2)
            o, i = w.port('j', width(t)), w.port('k', width(t))
            w.it.builders[('Feedback', 'create')] = lambda it, o, a, k, s: \
                it.b_feedback(it, a, k, s)
            yield w.it, w.method('Feedback', 'create', ('cls', 'Feedback'),
                                 [v], {'out_port': ('int', o),
                                       'in_port': ('int', i)}), fb(t, o, i)
    c.judge('port:Feedback.create', anchor(repo, 'Feedback', 'create'),
            create)

    def inv():
        for t, cls in ((box('A'), None), (inverse(box('A')), None),
                       (series(box('A', 'w'), box('B', 'w')),
                        'SeriesProduct'),
                       (cat(box('A'), box('B')), 'Concatenation')):
            w = World(repo)
            for x in leaves(t):
                w.atleast(width(x), 1)
            w.it.builders[('SeriesInverse', 'create')] = \
                lambda it, o, a, k, s: [
                    (s, circ(inverse(it.terms(a)[0])))]
            yield w.it, w.method('SeriesInverse', 'create',
                                 ('cls', 'SeriesInverse'),
                                 [circ(t, cls)]), inverse(t)
    c.judge('port:SeriesInverse.create',
            anchor(repo, 'SeriesInverse', 'create'), inv)

    def operators(name, spec):
        def go():
            w = World(repo)
            a, b = w.box('A', 'w' if name == '__lshift__' else None), \
                w.box('B', 'w' if name == '__lshift__' else None)
            yield w.it, w.method('Circuit', name, circ(a), [circ(b)]), \
                spec(a, b)
        return go
    for name, spec in (('__lshift__', series), ('__add__', cat)):
        c.judge('operator:' + name, anchor(repo, 'Circuit', name),
                operators(name, spec))

    fc = 'qnet.algebra.core.algebraic_properties.filter_cid'

    def neutral():
        for k in (1, 2, 3):
            w = World(repo)
            bs = [w.box(n, 'w') for n in 'ABC'[:k]]
            res = []
            for s, v in w.fn(fc, [('cls', 'SeriesProduct'), (
                    'tuple', tuple(circ(b) for b in bs)), ('dict', ())]):
                if v[0] == 'tuple' and v[1] and v[1][0][0] == 'tuple':
                    ts = w.it.terms(v[1][0][1])
                    if not ts:
                        yield w.it, [(s, circ(ident(ZERO)))], series(*bs)
                        continue
                    v = circ(series(*ts))
                res.append((s, v))
            yield w.it, res, series(*bs)
    m, f = repo.modules['qnet.algebra.core.algebraic_properties'], None
    f = m.functions.get('filter_cid')
    c.judge('neutral:filter_cid', where(repo, m, f) if f else fc, neutral)


def permutations(c):
    repo = c.repo
    P = 'CPermutation'

    def fwd(w, p, x):
        return p[1].fwd(w.it, w.st, x)

    def compose():
        w = World(repo)
        a, b = w.perm('P', 'n'), w.perm('Q', 'n')
        yield w.it, w.method(P, 'series_with_permutation', circ(a),
                             [circ(b)]), series(a, b)
    c.judge('permutation:series', anchor(repo, P, 'series_with_permutation'),
            compose)

    def feedback():
        w = World(repo)
        a = w.perm('P', 'n')
        w.atleast(a[1].n, 2)
        o, i = w.port('j', a[1].n), w.port('k', a[1].n)
        yield w.it, w.method(P, '_feedback', circ(a), kws={
            'out_port': ('int', o), 'in_port': ('int', i)}), fb(a, o, i)
    c.judge('permutation:feedback', anchor(repo, P, '_feedback'), feedback)

    def factor(name):
        def go():
            w = World(repo)
            a = w.perm('P', 'n')
            n = a[1].n
            w.atleast(n, 2)
            j = w.port('j', n)
            last = ladd(n, ONE, -1)
            for s, v in w.method(P, name, circ(a), [('int', j)]):
                if v[0] != 'tuple':
                    yield w.it, [(s, v)], [ANY, ANY]
                    continue
                x, red = w.it.int(v[1][0]), w.it.terms(v[1][1:])[0]
                end = cat(red, ident(ONE))
                if name == '_factor_rhs':
                    l = series(a, ('perm', mapping([(last, j)], n)))
                    r = series(('perm', mapping([(last, x)], n)), end)
                else:
                    l = series(('perm', mapping([(j, last)], n)), a)
                    r = series(end, ('perm', mapping([(x, last)], n)))
                yield w.it, [(s, circ(r))], l
        return go
    for name in ('_factor_rhs', '_factor_lhs'):
        c.judge('permutation:' + name, anchor(repo, P, name), factor(name))

    def around():
        for k in (2, 3):
            w = World(repo)
            r = cat(*n_boxes(w, k))
            a = w.perm('P', 'n')
            w.equal(a[1].n, width(r))
            for s, v in w.method(P, '_factorize_for_rhs', circ(a),
                                 [circ(r, 'Concatenation')]):
                if v[0] != 'tuple':
                    yield w.it, [(s, v)], [ANY, ANY]
                    continue
                yield w.it, [(s, circ(series(*w.it.terms(v[1]))))], \
                    series(a, r)
    c.judge('permutation:_factorize_for_rhs',
            anchor(repo, P, '_factorize_for_rhs'), around)
    up = 'qnet.utils.permutations.'

    def at(f):
        m = repo.modules[f.rpartition('.')[0]]
        n = m.functions.get(f.rpartition('.')[2])
        return where(repo, m, n) if n is not None else f

    def listed(f, args, want):
        def go():
            w = World(repo)
            a, b = w.perm('P'), w.perm('Q')
            w.equal(a[1].n, b[1].n)
            st = [(s, circ(('perm', w.it.as_perm(s, v))) if v[0] != 'EXC'
                   else v) for s, v in w.fn(f, args(a[1], b[1]))]
            yield w.it, st, want(a, b)
        return go
    for f, args, want in (
            ('invert_permutation', lambda a, b: [('pseq', a)],
             lambda a, b: inverse(a)),
            ('compose_permutations',
             lambda a, b: [('pseq', a), ('pseq', b)],
             lambda a, b: series(a, b)),
            ('concatenate_permutations',
             lambda a, b: [('pseq', a), ('pseq', b)],
             lambda a, b: cat(a, b))):
        c.judge('permutation:' + f, at(up + f), listed(up + f, args, want))

    def full():
        for k in (2, 3):
            for o in itertools.permutations(range(k)):
                w = World(repo)
                ws = [lin(**{'w%d' % i: 1}) for i in range(k)]
                for x in ws:
                    w.atleast(x, 1)
                pre = ZERO
                for i in range(k):
                    x = w.port('x', ws[i])
                    st = w.st
                    w.cs = w.cs[:k]
                    to = ZERO
                    for q in range(k):
                        if o[q] < o[i]:
                            to = ladd(to, ws[q])
                    for s, v in w.it.call(st, (
                            'fn', up + 'full_block_perm'), [
                            ('tuple', tuple(num(y) for y in o)),
                            ('tuple', tuple(('int', y) for y in ws))], {}):
                        p = w.it.as_perm(s, v)
                        yield w.it, [(s2, ('int', y)) for s2, y in p.fwd(
                            w.it, s, ladd(pre, x))], (
                            'int', ladd(to, x), 'the image in its block')
                    pre = ladd(pre, ws[i])
    c.judge('permutation:full_block_perm', at(up + 'full_block_perm'), full)

    def extract():
        w = World(repo)
        n = lin(n=1)
        w.atleast(n, 1)
        k = w.port('k', n)
        yield w.it, w.fn(CA + 'extract_channel', [('int', k), ('int', n)]), \
            ('perm', mapping([(k, ladd(n, ONE, -1))], n))
    c.judge('permutation:extract_channel', at(CA + 'extract_channel'),
            extract)

    def pad():
        w = World(repo)
        a = w.box('A')
        n, k = lin(n=1), lin(k=1)
        w.cs += [n, k, ladd(a[2], k, -1)]
        # the channels from k on move to the end, and back
        out = w.it.as_perm(w.st, ('plist', (
            ('r', ZERO, k), ('r', a[2], ladd(a[2], n)), ('r', k, a[2]))))
        yield w.it, w.fn(CA + 'pad_with_identity', [
            circ(a), ('int', k), ('int', n)]), series(
                ('perm', flip(out)), cat(a, ident(n)), ('perm', out))
    c.judge('permutation:pad_with_identity', at(CA + 'pad_with_identity'),
            pad)


def channels(c):
    repo = c.repo
    f = CA + 'map_channels'
    m = repo.modules[CA[:-1]]
    node = m.functions.get('map_channels')
    at = where(repo, m, node) if node is not None else f
    n = lin(n=1)

    def mapped():
        for k in (1, 2):
            w = World(repo)
            pairs = [(w.port('ab'[i], n), w.port('cd'[i], n))
                     for i in range(k)]
            cs = [()]
            if k == 2:
                less = lambda a, b: ladd(ladd(b, a, -1), ONE, -1)
                cs = [(less(*x), less(*y))
                      for x in itertools.permutations((lin(a=1), lin(b=1)))
                      for y in itertools.permutations((lin(c=1), lin(d=1)))]
            base = w.cs
            for extra in cs:
                w.cs = base + list(extra)
                yield w.it, w.fn(f, [('dict', tuple(
                    (('int', a), ('int', b)) for a, b in pairs)),
                    ('int', n)]), ('perm', mapping(pairs, n))
    c.judge('channels:map_channels', at, mapped)

    def identity():
        for cs, want in (([lin(n=-1)], ZERO), ([ladd(n, ONE, -1)], n)):
            w = World(repo)
            w.cs = cs
            yield w.it, w.fn(CA + 'circuit_identity', [('int', n)]), \
                ident(want)
    i = m.functions.get('circuit_identity')
    c.judge('channels:circuit_identity', where(repo, m, i) if i is not None
            else CA, identity)

    def refused():
        for bad in ('to', 'from'):
            w = World(repo)
            j, z = w.port('j', n), lin(z=1)
            w.cs.append(z)
            x = ladd(n, z)
            yield w.it, w.fn(f, [('dict', ((
                ('int', x if bad == 'from' else j),
                ('int', x if bad == 'to' else j)),)), ('int', n)]), \
                'ValueError'
    c.judge('channels:refused', at, refused)


def toolbox(c):
    repo = c.repo
    f = 'qnet.algebra.toolbox.circuit_manipulation.connect'
    m = repo.modules[f.rpartition('.')[0]]
    n = m.functions.get('connect')
    at = where(repo, m, n) if n is not None else f

    def ports(t, off, o, i):
        return fb(t, ladd(off[0], o), ladd(off[1], i))

    def setup(k=2):
        w = World(repo)
        bs = n_boxes(w, k)
        offs = [ZERO]
        for b in bs[:-1]:
            offs.append(ladd(offs[-1], b[2]))
        return w, bs, offs

    def connect(w, bs, pairs, kws=None):
        return w.fn(f, [('tuple', tuple(circ(b) for b in bs)), (
            'tuple', tuple(('tuple', (('tuple', a), ('tuple', b)))
                           for a, b in pairs))], kws)

    def single():
        for x, y in itertools.product(range(2), repeat=2):
            for kws in ({}, {'force_SLH': ('bool', True)}):
                w, bs, offs = setup()
                o, i = w.port('j', bs[x][2]), w.port('k', bs[y][2])
                yield w.it, connect(w, bs, [(
                    (num(x), ('int', o)), (num(y), ('int', i)))], kws), fb(
                    cat(*bs), ladd(offs[x], o), ladd(offs[y], i))
    c.judge('connect:one', at, single)

    def double():
        for (x, y), (x2, y2) in itertools.product(
                itertools.product(range(2), repeat=2), repeat=2):
            for so, si in itertools.product((0, 1), repeat=2):
                w, bs, offs = setup()
                o, i = w.port('j', bs[x][2]), w.port('k', bs[y][2])
                o2, i2 = w.port('l', bs[x2][2]), w.port('m', bs[y2][2])
                w.atleast(width(cat(*bs)), 3)
                g = [ladd(offs[p], q) for p, q in (
                    (x, o), (y, i), (x2, o2), (y2, i2))]
                less = lambda a, b: ladd(ladd(b, a, -1), ONE, -1)
                w.cs += [less(g[2], g[0]) if so else less(g[0], g[2]),
                         less(g[3], g[1]) if si else less(g[1], g[3])]
                try:
                    w.st
                except Open:
                    continue
                want = fb(fb(cat(*bs), g[0], g[1]),
                          g[2] if so else ladd(g[2], ONE, -1),
                          g[3] if si else ladd(g[3], ONE, -1))
                yield w.it, connect(w, bs, [
                    ((num(x), ('int', o)), (num(y), ('int', i))),
                    ((num(x2), ('int', o2)), (num(y2), ('int', i2)))]), want
    c.judge('connect:two', at, double)

    def named():
        for x, y in itertools.product(range(2), repeat=2):
            w, bs, offs = setup()
            w.atleast(width(cat(*bs)), 2)
            o = lin(**{'PORTSOUT of %s' % bs[x][1]: 1})
            i = lin(**{'PORTSIN of %s' % bs[y][1]: 1})
            yield w.it, connect(w, bs, [(
                (num(x), ('stranger', 'o')), (num(y), ('stranger', 'i')))]), \
                fb(cat(*bs), ladd(offs[x], o), ladd(offs[y], i))
    c.judge('connect:named', at, named, ('ValueError',))

    def refused():
        for side in (0, 1):
            for what in ('low', 'high', 'component', 'negative'):
                for x in (0, 1):
                    w, bs, offs = setup()
                    j = w.port('j', bs[x][2])
                    good = (num(x), ('int', j))
                    z = lin(z=1)
                    w.cs.append(z)
                    bad = {'low': (num(x), ('int', lin(-1, z=-1))),
                           'high': (num(x), ('int', ladd(bs[x][2], z))),
                           'component': (num(2), num(0)),
                           'negative': (num(-1), num(0))}[what]
                    yield w.it, connect(w, bs, [
                        (bad, good) if side == 0 else (good, bad)]), \
                        'ValueError'
    c.judge('connect:refused', at, refused)

    def input_():
        for k in (1, 2):
            w = World(repo)
            b = box('A')
            w.equal(b[2], lin(k))
            w.it.builders['CoherentDriveCC'] = lambda it, a, kw, s: [(s, circ(
                ('box', 'D' + str(kw['displacement'][1]), ONE)))]
            amps = [('stranger', 'a'), ('stranger', 'b')][:k]
            yield w.it, w.method('Circuit', '_coherent_input', circ(b),
                                 amps), series(b, cat(*[
                                     ('box', 'D' + x[1], ONE)
                                     for x in amps]))
    c.judge('input:coherent', anchor(repo, 'Circuit', '_coherent_input'),
            input_)
    model_feedback(c)


def model_feedback(c):
    repo = c.repo

    def slh():
        for which in ('out', 'in'):
            w = World(repo)
            b = box('A')
            w.atleast(b[2], 2)
            last = ladd(b[2], ONE, -1)
            o, i = w.port('j', b[2]), w.port('k', b[2])
            if which == 'out':
                w.cs.append(ladd(ladd(last, o, -1), ONE, -1))
            else:
                o = last
                w.cs.append(ladd(ladd(last, i, -1), ONE, -1))
            yield w.it, w.method('SLH', '_feedback', circ(b, 'SLH'), kws={
                'out_port': ('int', o), 'in_port': ('int', i)}), fb(b, o, i)
    c.judge('feedback:SLH', anchor(repo, 'SLH', '_feedback'), slh)


def check(repo, rep):
    rep.rule('connect', 'connecting components links exactly the ports that '
             'are named, the others stay in order; what is no port is '
             'refused')
    rep.rule('channels', 'a mapping of channels moves those that it names '
             'and keeps the others in order')
    rep.rule('input', 'coherent inputs come in at the channel they are for')
    rep.rule('rule', 'the replacement of every automatic rule for circuits '
             'has the wires of the circuit that it replaces')
    rep.rule('feedback', 'feedback of a concatenation is worked out on the '
             'blocks with the wires of the feedback of the whole')
    rep.rule('blocks', 'the blocks of a concatenation and the position of a '
             'channel in them follow the widths of its parts')
    rep.rule('part', 'inverse, reduction, evaluation and number of channels '
             'of a circuit follow from its parts in their order')
    rep.rule('port', 'a feedback connects the ports it is given, by default '
             'the last ones')
    rep.rule('operator', 'the operators build the circuit with the operands '
             'in their order')
    rep.rule('neutral', 'only identities are left out of a series')
    rep.rule('permutation', 'composition, inverse, feedback and factors of '
             'permutations map the channels as the circuit does')
    c = Check(repo, rep)
    rules(c)
    concatenation(c)
    structure(c)
    permutations(c)
    channels(c)
    toolbox(c)
