"""C10: the Hilbert space of an expression covers all its operands
C23: Hilbert spaces behave as sets of local factors"""
from itertools import combinations, product

from ..core import where
from ..flow import SELF, Budget, const, is_const, const_val, walk, mk_seq
from ..model import ctor, flow, concrete_expressions, short
from ..src import AnalysisError
from .adjoint import inline_all, conds_text


class Open(Exception):
    pass


def last(t):
    return t[1].rpartition('.')[2] if t[0] == 'G' else None


def call_of(t):
    """(function term or attribute name, receiver, positional, keywords)"""
    f = t[1]
    if f[0] == 'A':
        return f[2].lstrip('.'), f[1], t[2], dict(t[3])
    return None, None, t[2], dict(t[3])


PASS = ('set', 'frozenset', 'list', 'tuple', 'sorted')


# -- spaces of expressions ---------------------------------------------------

class Part:
    """the space of `obj` (or the space `obj` itself), selected by `conds`"""

    def __init__(self, kind, obj, conds=(), minus=False):
        self.kind, self.obj, self.conds = kind, obj, tuple(conds)
        self.minus = minus

    def __repr__(self):
        return '%s%s(%s)%s' % ('-' if self.minus else '', self.kind,
                               short(self.obj, 60),
                               ' selected' if self.conds else '')


def parts(t):
    """[Part] of a term that is a Hilbert space"""
    if t[0] == 'A' and t[2] == 'space':
        return [Part('space', t[1])]
    if t[0] == 'G':
        n = last(t)
        if n == 'TrivialSpace':
            return []
        if n == 'FullSpace':
            return [Part('full', t)]
        raise Open(short(t))
    if t[0] == 'seq':
        return [p for x in t[2] for p in parts(x[1] if x[0] == '*' else x)]
    if t[0] == 'map':
        return [Part(p.kind, p.obj, p.conds + tuple(t[3]), p.minus)
                for p in parts(t[1])]
    if t[0] == 'fold' and t[1] == '*':
        return parts(t[2]) + [
            Part(p.kind, p.obj, p.conds + tuple(t[5]), p.minus)
            for p in parts(t[3])]
    if t[0] == 'bin' and t[1] == '*':
        return parts(t[2]) + parts(t[3])
    if t[0] == 'bin' and t[1] == '/':
        return parts(t[2]) + [Part(p.kind, p.obj, p.conds, not p.minus)
                              for p in parts(t[3])]
    if t[0] == 'bin' and t[1] == '&':
        # less than either of them
        return [Part(p.kind, p.obj, p.conds + (('&', True),), p.minus)
                for x in t[2:] for p in parts(x)]
    if t[0] == 'elem':
        return parts(t[1])
    if t[0] == 'P':
        return [Part('hs', t)]
    if t[0] == 'call':
        name, recv, pos, kw = call_of(t)
        if last(t[1]) in PASS and len(pos) == 1:
            return parts(pos[0])
        if name == 'create' and last(recv) == 'ProductSpace' or \
                last(t[1]) == 'ProductSpace':
            return [p for x in pos for p in parts(x[1] if x[0] == '*' else x)]
        if name == 'tensor':
            return parts(recv) + [p for x in pos for p in parts(
                x[1] if x[0] == '*' else x)]
        if name == 'remove' and len(pos) == 1:
            return parts(('bin', '/', recv, pos[0]))
        if name == '_default_hs_cls' or last(t[1]) in (
                'ensure_local_space', 'LocalSpace', 'SpinSpace'):
            return parts(pos[0])
        if last(t[1]) == 'getattr' and is_const(pos[1]) and \
                const_val(pos[1]) == 'space':
            return [Part('space', pos[0])]
    raise Open(short(t))


def params(repo, cls):
    """(positional, variadic, keyword-only) of the constructor"""
    found = repo.lookup(cls, '__init__')
    if not found or found[1] != 'method':
        return [], None, []
    a = found[2].args
    return ([x.arg for x in a.args[1:]], a.vararg.arg if a.vararg else None,
            [x.arg for x in a.kwonlyargs])


def inside(t, name):
    return any(x == ('P', name) for x in walk(t))


def reached(p, name, var, single=False):
    """is it the space of that argument?"""
    if p.minus or p.conds:
        return False
    x = p.obj
    if name == 'hs':
        return p.kind == 'hs' and x == ('P', name)
    if p.kind != 'space':
        return False
    while x[0] == 'elem' and name == var:
        if x[1] == ('P', name):
            return True
        x = x[1]
    if x == ('P', name):
        return name != var
    if name == var and x == ('sub', ('P', name), const(0)):
        return single       # a variadic constructor of one operand
    # converted:  op * IdentityOperator, ScalarValue.create(term), Matrix(L)
    if x[0] == 'bin' and x[1] == '*':
        return any(reached(Part(p.kind, y), name, var) for y in x[2:])
    if x[0] == 'call' and len(x[2]) == 1:
        return reached(Part(p.kind, x[2][0]), name, var)
    return False


def run(repo, cls, name, p):
    f = flow(repo, inline=inline_all(), exact_self=cls, max_paths=2000)
    return f.summarise_method(cls, name, heap=p.heap, conds=p.conds) or ()


def space_of(repo, rep, cls):
    key = 'space:%s' % cls.name
    found = repo.lookup(cls, 'space')
    if not found or found[1] != 'method':
        rep.undec(key, 'no space')
        return
    w = where(repo, found[0].module, found[2])
    ct = ctor(repo, cls)
    if ct.error:
        rep.undec(key, str(ct.error))
        return
    pos, var, kwonly = params(repo, cls)
    scalar = repo.is_sub(cls, 'Scalar')
    op = repo.is_sub(cls, 'Operation') or cls.name == 'SLH'
    need, may = [], []
    if scalar:          # those of scalars are trivial
        may = pos + ([var] if var else [])
    elif cls.name == 'Matrix' or repo.is_sub(cls, 'Matrix'):
        need = ['m']
    elif repo.is_sub(cls, 'IndexedSum'):
        need = ['term']
    elif repo.is_sub(cls, 'ScalarTimesQuantumExpression'):
        need, may = ['term'], ['coeff']
    elif cls.name == 'OperatorTimesKet':    # its constructor compares them
        need, may = pos[1:], pos[:1]
    elif cls.name == 'KetBra':
        need, may = [tuple(pos)], pos
    elif op:
        need = pos + ([var] if var else [])
    elif 'hs' in kwonly + pos:
        need = ['hs']
    single = repo.is_sub(cls, 'SPre') or repo.is_sub(cls, 'SPost') or \
        repo.is_sub(cls, 'SingleQuantumOperation')
    minus = ['over_space'] if 'over_space' in kwonly + pos else []
    for p in ct.paths:
        if p.out[0] == 'raise':
            continue
        try:
            ps = run(repo, cls, 'space', p)
        except (Budget, AnalysisError) as e:
            rep.undec(key, str(e))
            continue
        for q in ps:
            if q.out[0] == 'raise':
                continue
            if q.out[0] != 'return':
                rep.violation(key, w, 'no space%s' % conds_text(q))
                continue
            rep.count('paths of space')
            try:
                ps2 = parts(q.value)
            except Open as e:
                modelled(rep, key, w, q, need, may, var, minus, e)
                continue
            if cls.name == 'Matrix':
                matrix_space(rep, key, w, q, ps2)
                continue
            for n in need:
                ns = n if isinstance(n, tuple) else (n,)
                ok = any(reached(x, m, var, single) for x in ps2 for m in ns)
                rep.decide(key, ok, w, 'the space is %s, without that of %s%s'
                           % (ps2, '/'.join(ns), conds_text(q)))
            known = [m for n in need + may for m in (
                n if isinstance(n, tuple) else (n,))]
            other = [x for x in ps2 if not x.minus and not any(
                inside(x.obj, n) for n in known) and not (
                    cls.name == 'ZeroKet' and x.kind == 'full')]
            rep.decide(key + ':only', not other, w, 'the space contains %s%s'
                       % (other, conds_text(q)))
            for n in minus:
                ok = any(x.minus and not x.conds and x.kind == 'hs' and
                         x.obj == ('P', n) for x in ps2)
                rep.decide(key + ':minus', ok, w, 'the space is %s, with '
                           'that of %s%s' % (ps2, n, conds_text(q)))
            rep.decide(key + ':minus', all(
                not x.minus or any(inside(x.obj, n) for n in minus)
                for x in ps2), w, 'the space is %s%s' % (ps2, conds_text(q)))


def modelled(rep, key, w, q, need, may, var, minus, why):
    """evaluate the space for all spaces of the arguments"""
    names = [n for n in need if not isinstance(n, tuple)]
    if names != need or 'hs' in names or any(inside(q.value, n) for n in may):
        rep.undec(key, 'space %s' % why)
        return
    every = [Sp(x) for n in (0, 1, 2, 3) for x in combinations('ABC', n)]
    lists = [[(a, b) for a in every for b in every] if n == var else every
             for n in names] + [every for n in minus]
    for vs in product(*lists):
        env, want, less = {}, [], []
        for n, v in zip(names + minus, vs):
            if n in minus:
                env[('P', n)] = v
                less += [v]
            elif n == var:
                env[('P', n)] = tuple({'space': x, 'classes': ()} for x in v)
                want += v
            else:
                env[('P', n)] = {'space': v, 'classes': ()}
                want += [v]
        want = Ev({}).create(want)
        for v in less:
            want = Ev({}).method('remove', want, [v])
        if any(not v <= Ev({}).create(
                [x for x in vs if x not in less]) for v in less):
            continue
        e = Ev(env)
        e.env[('G', 'IdentityOperator')] = None
        identity = [x for x in walk(q.value) if x[0] == 'G' and
                    last(x) in ('IdentityOperator', 'TrivialKet')]
        for x in identity:
            e.env[x] = {'space': TRIVIAL, 'classes': ()}
        try:
            if not all(e.cond(c, b) for c, b in q.conds
                       if related(c, names + minus)):
                continue
            got = e.ev(q.value)
        except (Open, Raises) as x:
            rep.undec(key, 'space %s' % why)
            return
        rep.decide(key, got == want, w, 'the space is %s instead of %s for '
                   'arguments in %s%s' % (got, want, list(vs), conds_text(q)))


def related(c, names):
    return any(inside(c, n) for n in names) and any(
        x[0] == 'A' and x[2] in ('space', 'local_factors') for x in walk(c))


def matrix_space(rep, key, w, q, ps2):
    none = any(b and c[0] == 'cmp' and c[1] in ('<', '==') and
               c[2][0] == 'call' and last(c[2][1]) == 'len' for c, b in q.conds)
    none = none or any(not b and c[0] in ('map', 'seq') for c, b in q.conds)
    ok = [x for x in ps2 if x.kind == 'space' and any(
        y[0] == 'elem' and inside(y, 'm') for y in walk(x.obj)) and all(
            c[0] == 'call' and last(c[1]) == 'hasattr' and b or
            c[0] == 'isinst' and b for c, b in x.conds)]
    rep.decide(key, none and not ps2 or bool(ok), w,
               'the space is %s, without that of the entries%s'
               % (ps2, conds_text(q)))


# -- a finite model of spaces ------------------------------------------------

class Sp:
    """a space, given by the set of its local factors (None: full)"""

    def __init__(self, f):
        self.f = None if f is None else frozenset(f)

    def __eq__(self, other):
        return isinstance(other, Sp) and self.f == other.f

    def __hash__(self):
        return hash(('Sp', self.f))

    def __repr__(self):
        if self.f is None:
            return 'full'
        return '*'.join(sorted(self.f)) or 'trivial'

    def __le__(self, other):
        return other.f is None or self.f is not None and self.f <= other.f

    @property
    def local(self):
        return self.f is not None and len(self.f) == 1

    @property
    def n(self):
        return -1 if self.f is None else len(self.f)

    @property
    def factors(self):
        if self.f is None:
            raise Raises()
        return tuple(Sp([x]) for x in sorted(self.f))


FULL = Sp(None)
TRIVIAL = Sp(())


class Raises(Exception):
    pass


class Ev:
    """evaluates terms on spaces that are given as sets of local factors"""

    def __init__(self, env):
        self.env = env      # term -> value

    def space_class(self, v, name):
        if name in ('HilbertSpace', 'Expression'):
            return True
        if name == 'FullSpace':
            return v == FULL
        if name in ('ProductSpace', 'Operation'):
            return v.n > 1
        if name == 'LocalSpace':
            return v.local
        if name == 'TrivialSpace':
            return v == TRIVIAL
        raise Open(name)

    def items(self, t):
        v = self.ev(t)
        if not isinstance(v, (tuple, frozenset)):
            raise Open('iterates over %s' % short(t))
        return sorted(v, key=repr) if isinstance(v, frozenset) else list(v)

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == 'C':
            return const_val(t)
        if k == 'G':
            n = last(t)
            if n == 'TrivialSpace':
                return TRIVIAL
            if n == 'FullSpace':
                return FULL
        if k == 'A':
            v = self.ev(t[1])
            if isinstance(v, dict):
                if t[2] in v:
                    return v[t[2]]
                raise Open(t[2])
            if isinstance(v, Sp):
                if t[2] == 'local_factors':
                    return v.factors
                if t[2] in ('operands', '_operands', 'args'):
                    if v.n < 2:
                        raise Open(t[2])
                    return v.factors
                if t[2] in ('label', '_label'):
                    if not v.local:
                        raise Open('label')
                    return ('label', v)
        if k == 'seq':
            res = []
            for x in t[2]:
                res += self.items(x[1]) if x[0] == '*' else [self.ev(x)]
            return frozenset(res) if t[1] == 'set' else tuple(res)
        if k in ('map', 'any', 'all'):
            res = []
            for v in self.items(t[2]):
                e = Ev(dict(self.env))
                e.env[('elem', t[2])] = v
                if all(e.cond(c, b) for c, b in t[3]):
                    if k != 'map':
                        res.append(e.truth(t[1]))
                    elif t[1][0] == '*':
                        res += e.items(t[1][1])
                    else:
                        res.append(e.ev(t[1]))
            return tuple(res) if k == 'map' else any(res) if k == 'any' \
                else all(res)
        if k == 'fold':
            acc = self.ev(t[2])
            for v in self.items(t[4]):
                e = Ev(dict(self.env))
                e.env[('elem', t[4])] = v
                if all(e.cond(c, b) for c, b in t[5]):
                    acc = self.binary(t[1], acc, e.ev(t[3]))
            return acc
        if k in ('sub', 'slice'):
            v = self.ev(t[1])
            if not isinstance(v, tuple):
                raise Open(short(t))
            i = [self.ev(x) for x in t[2:]]
            if not all(x is None or type(x) is int for x in i):
                raise Open(short(t))
            try:
                return v[i[0]] if k == 'sub' else v[slice(*i)]
            except IndexError:
                raise Raises()
        if k in ('sorted', 'rev'):
            r = self.items(t[1])
            return tuple(r if k == 'sorted' else reversed(r))
        if k == 'not':
            return not self.truth(t[1])
        if k in ('and', 'or'):
            res = k == 'and'
            for x in t[1]:
                res = self.truth(x)
                if res == (k == 'or'):
                    return res
            return res
        if k in ('cmp', 'isinst'):
            return self.compare(t)
        if k == 'if':
            return self.ev(t[2] if self.truth(t[1]) else t[3])
        if k == 'bin':
            return self.binary(t[1], self.ev(t[2]), self.ev(t[3]))
        if k == 'call':
            return self.call(t)
        raise Open(short(t))

    def binary(self, op, a, b):
        if isinstance(a, dict) and isinstance(b, dict) and op in '*+-' and \
                'space' in a and 'space' in b:
            return {'space': self.create([a['space'], b['space']]),
                    'classes': ()}
        if isinstance(a, bool) or isinstance(b, bool):
            raise Open('%s' % op)
        if isinstance(a, int) and isinstance(b, int) and op in '+-*':
            return a + b if op == '+' else a - b if op == '-' else a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, Sp) and isinstance(b, Sp):
            if op == '*':
                return self.create([a, b])
            if op == '&':
                return self.method('intersect', a, [b])
            if op == '/':
                return self.method('remove', a, [b])
        elif isinstance(a, frozenset) and isinstance(b, frozenset):
            if op == '-':
                return a - b
            if op == '|':
                return a | b
            if op == '&':
                return a & b
            if op == '^':
                return a ^ b
        raise Open('%s' % op)

    def create(self, vs):
        if not all(isinstance(v, Sp) for v in vs):
            raise Open('create')
        if FULL in vs:
            return FULL
        return Sp(x for v in vs for x in v.f)

    def method(self, name, a, args):
        if name == 'tensor':
            return self.create([a] + args)
        if len(args) != 1 or not isinstance(args[0], Sp):
            raise Open(name)
        b = args[0]
        if name == 'remove':
            if a == FULL:
                raise Raises()
            return TRIVIAL if b == FULL else Sp(a.f - b.f)
        if name == 'intersect':
            return a if b == FULL else b if a == FULL else Sp(a.f & b.f)
        if name in ('is_strict_subfactor_of', 'is_strict_tensor_factor_of'):
            return a != b and a <= b
        if name == 'is_tensor_factor_of':
            return a <= b
        if name == 'isdisjoint':
            return a != FULL and b != FULL and not a.f & b.f
        if name in ('__le__', '__lt__', '__ge__', '__gt__'):
            x, y = (a, b) if name[2] == 'l' else (b, a)
            return x <= y and (x != y or name[3] == 'e')
        raise Open(name)

    def call(self, t):
        name, recv, pos, kw = call_of(t)
        n = last(t[1])
        if n in PASS and len(pos) == 1 and pos[0][0] != '*':
            r = self.items(pos[0])
            return frozenset(r) if n in ('set', 'frozenset') else tuple(r)
        if n in PASS and not pos:
            return frozenset() if n in ('set', 'frozenset') else ()
        if n == 'len':
            v = self.ev(pos[0])
            return len(v.factors if isinstance(v, Sp) else v)
        if n == 'bool':
            return self.truth(pos[0])
        args = []
        for x in pos:
            if x[0] == '*':
                args += self.items(x[1])
            else:
                args.append(self.ev(x))
        if n == 'ProductSpace' or name == 'create' and last(recv) == \
                'ProductSpace':
            return self.create(args)
        if n in ('any', 'all') and len(args) == 1:
            return (any if n == 'any' else all)(args[0])
        if name:
            v = self.ev(recv)
            if isinstance(v, Sp):
                return self.method(name, v, args)
            if name in ('difference', 'intersection', 'union', 'isdisjoint',
                        'issubset', 'issuperset') and isinstance(
                            v, (tuple, frozenset)):
                return getattr(frozenset(v), name)(*args)
        raise Open(short(t))

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, Sp):
            return len(v.factors) > 0
        return bool(v)

    def compare(self, t):
        if t[0] == 'isinst':
            v = self.ev(t[1])
            names = [last(x) for x in t[2]]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'label':
                symbolic = any(x.islower() for x in v[1].f)
                return symbolic and any(n in (
                    'StrLabel', 'SymbolicLabelBase') for n in names)
            if isinstance(v, dict):
                return any(n in v['classes'] for n in names)
            if isinstance(v, Sp):
                return any(self.space_class(v, n) for n in names)
            raise Open(short(t))
        op, a, b = t[1], self.ev(t[2]), self.ev(t[3])
        if op in ('is', '=='):
            return self.same(a, b)
        if op in ('is not', '!='):
            return not self.same(a, b)
        if op in ('in', 'not in'):
            if not isinstance(b, (tuple, frozenset)):
                raise Open('in')
            return (a in b) == (op == 'in')
        if op in ('<', '<=', '>', '>='):
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            if isinstance(a, Sp) and isinstance(b, Sp):
                return a <= b and (op == '<=' or a != b)
            if isinstance(a, int) and isinstance(b, int):
                return a < b if op == '<' else a <= b
            if isinstance(a, (tuple, frozenset)) and isinstance(
                    b, (tuple, frozenset)):
                if any(x[0] == 'seq' and x[1] == 'tuple' for x in t[2:]):
                    raise Open('order of sequences')
                a, b = frozenset(a), frozenset(b)
                return a < b if op == '<' else a <= b
        raise Open(short(t))

    @staticmethod
    def same(a, b):
        if isinstance(a, dict) or isinstance(b, dict):
            return a is b
        return a == b

    def cond(self, c, b):
        """a condition of a path; loops were left without a hit"""
        if c[0] == 'nonempty':
            return bool(self.items(c[1])) == b
        if c[0] == 'exists':
            return b
        es = [x for x in walk(c) if x[0] == 'elem' and x not in self.env]
        if es and c[0] not in ('any', 'all', 'map'):
            e = min(es, key=lambda x: len(repr(x)))
            res = []
            for v in self.items(e[1]):
                f = Ev(dict(self.env))
                f.env[e] = v
                res.append(f.cond(c, True))
            return any(res) == b
        return self.truth(c) == b


def paths_in_model(ps, env):
    """the outcome of the only path whose conditions hold"""
    for p in ps:
        e = Ev(dict(env))
        if all(e.cond(c, b) for c, b in p.conds):
            return p, e
    raise Open('no path')


SPACES = [Sp(x) for n in range(5) for x in combinations('ABCD', n)] + [
    Sp('ACDE'), FULL]


def expected(name, a, b):
    """value, or None where it raises"""
    ev = Ev({})
    try:
        return ev.method(name, a, [b])
    except Raises:
        return None


OPERATIONS = {'remove': 'remove', 'intersect': 'intersect',
              'is_strict_subfactor_of': 'is_strict_subfactor_of',
              'isdisjoint': 'isdisjoint', '__truediv__': 'remove',
              '__and__': 'intersect', '__mul__': 'tensor',
              'tensor': 'tensor', '__lt__': '__lt__', '__gt__': '__gt__',
              '__le__': '__le__', '__ge__': '__ge__',
              'is_tensor_factor_of': 'is_tensor_factor_of',
              'is_strict_tensor_factor_of': 'is_strict_tensor_factor_of'}


def space_classes(repo):
    base = repo.cls('HilbertSpace')
    return [c for c in repo.subclasses(base) if c.name != 'HilbertSpace']


def model_values(cls):
    if cls.name == 'TrivialSpace':
        return [TRIVIAL]
    if cls.name == 'FullSpace':
        return [FULL]
    if cls.name == 'ProductSpace':
        return [s for s in SPACES if s.n > 1]
    return [s for s in SPACES if s.local]


def word(v):
    return repr(v)


def set_algebra(repo, rep, cls):
    """operations on spaces are those on sets of local factors"""
    for name, op in OPERATIONS.items():
        key = 'sets:%s.%s' % (cls.name, name)
        found = repo.lookup(cls, name)
        if not found or found[1] != 'method':
            rep.undec(key, 'no method')
            continue
        w = where(repo, found[0].module, found[2])
        args = [x.arg for x in found[2].args.args[1:]]
        var = found[2].args.vararg
        f = flow(repo, inline=inline_all(*[
            n for n in OPERATIONS if n != name]), exact_self=cls)
        arg = args[0] if args else 'others'
        given = None
        if not args and var:
            arg = 'other'
            given = {var.arg: mk_seq('tuple', [('P', 'other')])}
        try:
            ps = [p for p in f.summarise_method(cls, name, args=given) or ()]
        except (Budget, AnalysisError) as e:
            rep.undec(key, str(e))
            continue
        for a, b in product(model_values(cls), SPACES):
            if name == 'isdisjoint' and {a, b} == {TRIVIAL, FULL}:
                continue
            want = expected(op, a, b)
            env = {SELF: a, ('P', arg): b}
            try:
                p, e = paths_in_model(ps, env)
                if p.out[0] == 'raise':
                    got = None
                else:
                    got = e.ev(p.value)
                    if isinstance(want, bool):
                        got = bool(got)
            except Raises:
                got = None
            except Open as e:
                rep.undec(key, '%s: %s' % (name, e))
                continue
            rep.count('cases of set operations')
            rep.decide(key, got == want and (want is None) == (got is None),
                       w, '%s.%s(%s) is %s instead of %s' % (
                           word(a), name, word(b),
                           'an error' if got is None else got,
                           'an error' if want is None else want))


def symbolic(repo, rep, cls):
    """spaces with a symbolic label are not known to be disjoint"""
    key = 'sets:%s.isdisjoint' % cls.name
    found = repo.lookup(cls, 'isdisjoint')
    if not found or cls.name in ('TrivialSpace', 'FullSpace'):
        return
    w = where(repo, found[0].module, found[2])
    f = flow(repo, inline=inline_all(*OPERATIONS), exact_self=cls)
    arg = found[2].args.args[1].arg
    ps = f.summarise_method(cls, 'isdisjoint') or ()
    sym = [Sp('x'), Sp('xA')]
    mine = [s for s in sym + model_values(cls) if
            (s.n > 1) == (cls.name == 'ProductSpace')]
    for a, b in product(mine, sym + [s for s in SPACES if s.n > 0]):
        if not any(x.islower() for x in a.f | b.f):
            continue
        try:
            p, e = paths_in_model(ps, {SELF: a, ('P', arg): b})
            got = None if p.out[0] == 'raise' else bool(e.ev(p.value))
        except (Open, Raises) as e:
            rep.undec(key, str(e))
            continue
        rep.decide(key + ':symbolic', got is False, w,
                   '%s and %s (x is a symbol) are disjoint: %s' % (
                       word(a), word(b), got))


def factor_list(repo, rep, cls):
    for name in ('local_factors', '__len__'):
        key = 'factors:%s.%s' % (cls.name, name)
        found = repo.lookup(cls, name)
        if not found:
            rep.undec(key, 'missing')
            continue
        w = where(repo, found[0].module, found[2])
        f = flow(repo, inline=inline_all(*(
            () if name == 'local_factors' else ('local_factors',))),
            exact_self=cls)
        ps = f.summarise_method(cls, name) or ()
        for a in model_values(cls):
            want = None if a == FULL else a.factors if \
                name == 'local_factors' else a.n
            try:
                p, e = paths_in_model(ps, {SELF: a})
                got = None if p.out[0] == 'raise' else e.ev(p.value)
            except Raises:
                got = None
            except Open as e:
                rep.undec(key, str(e))
                continue
            rep.decide(key, got == want, w, '%s of %s is %s' % (
                name, word(a), got))


# -- guards ------------------------------------------------------------------

def obj(space, *classes, **kw):
    return dict(kw, space=space, classes=classes)


def guard(repo, rep, name, n, spec, classes, what):
    """the constructor rejects exactly the operands that do not fit"""
    key = 'guard:%s' % name
    cls = repo.maybe_cls(name)
    if cls is None:
        rep.undec(key, 'missing')
        return
    found = repo.lookup(cls, '__init__')
    w = where(repo, found[0].module, found[2])
    pos, var, _ = params(repo, cls)
    names = pos if pos else ['%s%d' % (var, i) for i in range(n)]
    if len(names) != n:
        rep.undec(key, 'parameters')
        return
    given = None
    if not pos:
        given = {var: mk_seq('tuple', [('P', x) for x in names])}
    f = flow(repo, inline=inline_all(), exact_self=cls, max_paths=5000)
    try:
        ps = f.summarise_method(cls, '__init__', args=given) or ()
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return
    raising = [p for p in ps if p.out[0] == 'raise']
    some = [Sp('A'), Sp('B'), Sp('AB'), Sp('BC')]
    cases = [[(s, True) for s in ss] for ss in product(some, repeat=n)]
    if 'State' in classes:
        for i in range(n):
            if classes[i] == 'State':
                cases.append([(some[0], j != i) for j in range(n)])
    for case in cases:
        env = {}
        for x, c, (s, ket) in zip(names, classes, case):
            env[('P', x)] = obj(s, c, 'QuantumExpression', 'Expression',
                                isket=ket, isbra=not ket)
        for g in ('ZeroKet', 'TrivialKet'):
            for q in {y for p in ps for c, b in p.conds for y in walk(c)
                      if y[0] == 'G' and last(y) == g}:
                env[q] = obj(FULL if g == 'ZeroKet' else TRIVIAL,
                             'State', isket=True, isbra=False)
        hit, unknown = False, None
        for p in raising:
            try:
                e = Ev(dict(env))
                # conditions in the order of evaluation
                if all(e.cond(c, b) for c, b in p.conds):
                    hit = True
                    break
            except Open as e:
                unknown = str(e)
            except Raises:
                hit = True
                break
        text = ', '.join('%s%s' % (word(s), '' if k else ' (bra)')
                         for s, k in case)
        kets = all(k or classes[i] != 'State' for i, (s, k) in
                   enumerate(case))
        fits = kets and spec([s for s, k in case])
        rep.count('cases of guards')
        if not fits and not hit and unknown:
            rep.undec(key, unknown)
            continue
        rep.decide(key, hit != fits, w, '%s of operands on %s: %s (%s)' % (
            name, text, 'rejected' if hit else 'accepted', what))


def guards(repo, rep):
    def same(ss):
        return len(set(ss)) == 1

    def disjoint(ss):
        return all(not a.f & b.f for a, b in combinations(ss, 2))
    st = 'State'
    for n in (2, 3):
        guard(repo, rep, 'KetPlus', n, same, [st] * n,
              'states are added if their spaces are equal')
        guard(repo, rep, 'TensorKet', n, disjoint, [st] * n,
              'the spaces of the factors have to be disjoint')
    for name in ('BraKet', 'KetBra'):
        guard(repo, rep, name, 2, same, [st] * 2,
              'the spaces have to be equal')
    guard(repo, rep, 'OperatorTimesKet', 2, lambda ss: ss[0] <= ss[1],
          ['Operator', st], "the operator's space has to be a factor of the "
          'space of the state')


# -- dimension and basis -----------------------------------------------------

def elems_of(t, source):
    """is t made of the elements of `source`, in order, all of them?"""
    return t[0] == 'map' and t[2] == source and not t[3]


def dimensions(repo, rep):
    cls = repo.cls('ProductSpace')
    ct = ctor(repo, cls)
    key = 'dimension:ProductSpace'
    found = repo.lookup(cls, '__init__')
    w = where(repo, found[0].module, found[2])
    for p in ct.paths:
        if p.out[0] == 'raise':
            continue
        exc = any(c[0] == 'exc' and b for c, b in p.conds)
        d = p.heap.get((SELF, '_dimension'))
        if d is None:
            rep.undec(key, 'no _dimension')
            continue
        if d == const(None):
            rep.decide(key, exc, w, 'the dimension is None%s' % conds_text(p))
            continue
        if d[0] != 'fold':
            rep.undec(key, short(d))
            continue
        body = ('A', ('elem', ('P', ct.var)), 'dimension')
        rep.decide(key, d[1] == '*' and d[2] == const(1) and d[3] == body and
                   d[4] == ('P', ct.var) and not d[5], w,
                   'the dimension is %s' % short(d))
        b = p.heap.get((SELF, '_basis'))
        if b == const(None):
            rep.decide('basis:ProductSpace', exc, w, 'the basis is None%s'
                       % conds_text(p))
            continue
        combos = [x for x in walk(b) if x[0] == 'call' and
                  last(x[1]) == 'product'] if b else []
        if not combos:
            rep.undec('basis:ProductSpace', short(b))
            continue
        for c in combos:
            ok = len(c[2]) == 1 and c[2][0][0] == '*' and elems_of(
                c[2][0][1], ('P', ct.var)) and c[2][0][1][1] == (
                    'A', ('elem', ('P', ct.var)), 'basis_labels') and \
                not c[3]
            rep.decide('basis:ProductSpace', ok, w, 'the labels are combined '
                       'from %s' % short(c))
        joins = [x for x in walk(b) if x[0] == 'call' and x[1][0] == 'A' and
                 x[1][2] == 'join']
        rep.decide('basis:ProductSpace', all(
            x[1][1] == const(',') for x in joins), w,
            'the labels are joined with %s' % [x[1][1] for x in joins])


def plain(t):
    while t[0] == 'call' and last(t[1]) == 'int' and len(t[2]) == 1:
        t = t[2][0]
    return t


def is_spin(t):
    """2 * spin + 1"""
    if t[0] == 'call' and last(t[1]) == 'int' and len(t[2]) == 1 and \
            t[2][0][0] == 'bin' and t[2][0][1] == '+':
        t = t[2][0]
    if not (t[0] == 'bin' and t[1] == '+' and const(1) in t[2:]):
        return False
    x = t[3] if t[2] == const(1) else t[2]
    while x[0] == 'call' and last(x[1]) == 'int' and len(x[2]) == 1:
        x = x[2][0]
    return x[0] == 'bin' and x[1] == '*' and const(2) in x[2:] and \
        inside(x, 'spin')


def local_dimension(repo, rep, cls):
    """dimension and basis of a local space agree"""
    key = 'dimension:%s' % cls.name
    found = repo.lookup(cls, '__init__')
    w = where(repo, found[0].module, found[2])
    ct = ctor(repo, cls)
    if ct.error:
        rep.undec(key, str(ct.error))
        return
    basis, dim = ('P', 'basis'), ('P', 'dimension')

    def none(conds, x):
        for c, b in conds:
            if c[0] == 'cmp' and c[1] in ('is', '==') and {
                    c[2], c[3]} == {x, const(None)}:
                return b
        return None

    pos, _, kwonly = params(repo, cls)
    for p in ct.paths:
        if p.out[0] == 'raise':
            continue
        d = p.heap.get((SELF, '_dimension'))
        b = p.heap.get((SELF, '_basis'))
        if d is None or b is None:
            rep.undec(key, 'attributes')
            continue
        nb, nd = none(p.conds, basis), none(p.conds, dim)
        if 'dimension' not in pos + kwonly:
            # given by something else
            nd, dim = False, d
            while dim[0] == 'call' and last(dim[1]) == 'int' and \
                    len(dim[2]) == 1 and not is_spin(dim):
                dim = dim[2][0]
            if 'spin' in kwonly:
                rep.decide(key + ':spin', is_spin(dim), w,
                           'the dimension is %s' % short(dim))
        if nb is None or nd is None:
            rep.undec(key, 'conditions')
            continue
        rep.count('paths of local spaces')
        isnone_d = d == const(None) or nd and d == dim
        isnone_b = b == const(None) or nb and b == basis
        if nb and nd:
            rep.decide(key, isnone_d and isnone_b, w, 'dimension %s, basis %s '
                       'where none is given' % (short(d), short(b)))
            continue
        rep.decide(key, not isnone_d and not isnone_b, w,
                   'dimension %s, basis %s%s' % (short(d), short(b),
                                                 conds_text(p)))
        if isnone_d or isnone_b:
            continue
        if nb:
            # labels 0 .. dimension - 1
            r = [x for x in walk(b) if x[0] == 'call' and
                 last(x[1]) == 'range']
            if not r:
                rep.undec(key, short(b))
                continue
            ok = all((len(x[2]) == 1 or len(x[2]) == 2 and
                      x[2][0] == const(0)) and (
                          plain(x[2][-1]) in (plain(d), plain(dim)))
                     for x in r)
            rep.decide(key, ok, w, 'basis %s of dimension %s' % (
                short(b), short(d)))
            continue
        src = any(x == basis for x in walk(b))
        rep.decide(key, src and not any(
            x[0] == 'map' and x[3] for x in walk(b)), w,
            'the basis given is stored as %s' % short(b))
        if nd:
            rep.decide(key, d[0] == 'call' and last(d[1]) == 'len' and (
                d[2][0] == b or d[2][0] == basis), w,
                'dimension %s of the basis %s' % (short(d), short(b)))
            continue
        lens = [c for c, t in p.conds if c[0] == 'cmp' and c[1] == '==' and t
                and any(x[0] == 'call' and last(x[1]) == 'len' and
                        any(y == basis for y in walk(x))
                        for x in c[2:]) and any(
                            any(y == dim for y in walk(x)) for x in c[2:])]
        rep.decide(key, bool(lens), w, 'a basis and a dimension that differ '
                   'are accepted%s' % conds_text(p))


def undefined(repo, rep):
    """without a basis, asking for it raises BasisNotSetError"""
    for cls in space_classes(repo):
        for name, attr in (('dimension', '_dimension'),
                           ('basis_labels', '_basis')):
            key = 'undefined:%s.%s' % (cls.name, name)
            found = repo.lookup(cls, name)
            if not found:
                rep.undec(key, 'missing')
                continue
            if cls.name in ('TrivialSpace',):
                continue
            w = where(repo, found[0].module, found[2])
            f = flow(repo, inline=inline_all(), exact_self=cls)
            for p in f.summarise_method(
                    cls, name, heap={(SELF, attr): const(None)}) or ():
                ok = p.out[0] == 'raise' and any(
                    x[0] == 'G' and last(x) == 'BasisNotSetError'
                    for v in p.out[1:] if isinstance(v, tuple)
                    for x in walk(v))
                rep.decide(key, ok, w, '%s is %s without a basis' % (
                    name, short(p.value) if p.value else p.out[0]))
            if cls.name in ('FullSpace',):
                continue
            for p in f.summarise_method(
                    cls, name, heap={(SELF, attr): ('P', 'given')}) or ():
                if any(c[0] == 'cmp' and b and ('P', 'given') in c[2:] and
                       const(None) in c[2:] for c, b in p.conds):
                    continue
                rep.decide(key, p.out[0] == 'return' and
                           p.value == ('P', 'given'), w,
                           '%s is %s' % (name, p.out[0]))


def c10(repo, rep):
    rep.rule('space', 'the space of an expression contains that of every '
             'operand; a trace removes the space it runs over')
    rep.rule('guard', 'states are added or contracted only if their spaces '
             'are equal, multiplied only if they are disjoint, and operators '
             'act on states only if theirs is contained')
    for cls in concrete_expressions(repo):
        if repo.is_sub(cls, 'QuantumExpression') or cls.name in (
                'Matrix', 'SLH'):
            space_of(repo, rep, cls)
    guards(repo, rep)


def c23(repo, rep):
    rep.rule('sets', 'the result for every arrangement of local factors is '
             'that of the operation on sets; the full space contains all')
    rep.rule('factors', 'local factors and their number')
    rep.rule('dimension', 'dimension and basis agree; that of a product is '
             'the product, with all combinations of labels in order')
    rep.rule('undefined', 'BasisNotSetError where there is no basis')
    for cls in space_classes(repo):
        set_algebra(repo, rep, cls)
        symbolic(repo, rep, cls)
        factor_list(repo, rep, cls)
    dimensions(repo, rep)
    for cls in space_classes(repo):
        if repo.is_sub(cls, 'LocalSpace'):
            local_dimension(repo, rep, cls)
    undefined(repo, rep)
