"""C16: every automatic rule is an identity of the theory"""
import itertools
from collections import OrderedDict

from .. import flow as F
from .. import rulealg as RA
from .. import rules as RU
from ..core import where
from ..flow import const_val, is_const, show, walk
from ..ruleeval import Eval, IllFormed, Sym, Unknown, elems

PM = 'qnet.algebra.pattern_matching.'
CIRCUITS = ('SeriesProduct', 'Concatenation', 'Feedback', 'SeriesInverse')
KEEP = ('circuit_identity', 'KroneckerDelta', 'sqrt', '_get_common_block_structure', 'adjoint',
        'identifier_to_latex')


def inlined(q):
    m, _, n = q.rpartition('.')
    if n in KEEP:
        return False
    return m.startswith('qnet.algebra.') and m.count('.') <= 3 and \
        not m.endswith('pattern_matching')


# -- patterns ----------------------------------------------------------------

class Pattern:
    """a pattern as a term over its parameters"""

    def __init__(self, repo, term, cls=None):
        self.repo = repo
        self.syms = OrderedDict()
        self.args, self.kws = self.head(term)
        if cls is not None:
            self.kws = self.completed(repo.maybe_cls(cls), self.kws)

    def completed(self, ci, kws):
        """a pattern that does not mention the space admits any"""
        hit = self.repo.lookup(ci, '__init__') if ci is not None else None
        for a in hit[2].args.kwonlyargs if hit and hit[1] == 'method' else ():
            if a.arg in ('hs', 'over_space') and a.arg not in dict(kws):
                n = 'any-space-%d' % len(self.syms)
                self.syms[n] = Sym(n, 'h', None, 'LocalSpace'
                                   if a.arg == 'hs' else 'HilbertSpace', 0)
                kws = kws + ((a.arg, ('P', n)),)
        return kws

    def head(self, t):
        if not (t[0] == 'call' and t[1] == ('G', PM + 'pattern_head')):
            raise Unknown('pattern %s' % show(t)[:60])
        return tuple(self.part(x) for x in t[2]), \
            tuple((k, self.part(v)) for k, v in t[3])

    def part(self, t):
        if t[0] == 'call' and t[1] == ('G', PM + 'pattern'):
            if not t[2]:
                raise Unknown('pattern without head')
            h = t[2][0]
            kws = tuple((k, self.part(v)) for k, v in t[3])
            if h[0] == 'G':
                kws = self.completed(self.repo.classes.get(h[1]), kws)
            return ('call', h, tuple(self.part(x) for x in t[2][1:]), kws)
        if t[0] == 'call' and t[1] == ('G', PM + 'wc'):
            return self.wildcard(t)
        return t

    def wildcard(self, t):
        kw = dict(t[3])
        args = list(t[2])
        name = args[0] if args else kw.get('name_mode')
        head = args[1] if len(args) > 1 else kw.get('head')
        kwp = kw.get('kwargs')
        if name is None or not is_const(name):
            raise Unknown('anonymous wildcard')
        name = const_val(name)
        seq = len(name) - len(name.rstrip('_'))
        name = name.rstrip('_')
        sort, cls = self.sort(head)
        space = None
        if kwp is not None:
            if kwp[0] != 'dict':
                raise Unknown('wildcard %s' % name)
            for k, v in kwp[1]:
                if const_val(k) == 'hs':
                    space = self.part(v)
        s = Sym(name, sort, space, cls, seq)
        old = self.syms.get(name)
        if old is not None and (old.sort, old.cls, old.seq) != (
                s.sort, s.cls, s.seq):
            raise Unknown('wildcard %s twice' % name)
        self.syms[name] = s if old is None else old
        return ('*', ('P', name)) if seq else ('P', name)

    def sort(self, head):
        if head is None:
            raise Unknown('wildcard without head')
        heads = elems(head)
        if heads is None:
            heads = (head,)
        sorts, clss = set(), []
        for h in heads:
            if h[0] != 'G':
                raise Unknown('head %s' % show(h))
            q = h[1]
            n = q.rpartition('.')[2]
            clss.append(n)
            if n in ('SCALAR_TYPES', 'SCALAR_VAL_TYPES') or \
                    n in ('Scalar', 'ScalarValue', 'ScalarExpression'):
                sorts.add('s')
            elif n in ('int', 'str', 'SymbolicLabelBase'):
                sorts.add('label')
            elif n == 'IndexRangeBase':
                sorts.add('ranges')
            else:
                for b, s in (('Operator', 'o'), ('State', 'k'),
                             ('SuperOperator', 'so'), ('Circuit', 'c'),
                             ('HilbertSpace', 'h'), ('Scalar', 's')):
                    ci = self.repo.classes.get(q)
                    if n == b or ci is not None and \
                            self.repo.is_sub(ci, b):
                        sorts.add(s)
                        break
                else:
                    raise Unknown('head %s' % n)
        if len(sorts) != 1:
            raise Unknown('head %s' % show(head))
        return sorts.pop(), clss[0] if len(clss) == 1 else None


# -- models ------------------------------------------------------------------

PLUS = ('OperatorPlus', 'SuperOperatorPlus', 'KetPlus')
TIMES = ('OperatorTimes', 'SuperOperatorTimes', 'TensorKet')


def prepared(pat):
    """(heap, env, items): contents of the parameters

    A sequence parameter stands for two items; operands of sums and products
    are three generic expressions."""
    heap, env, items = {}, {}, {}
    syms = pat.syms
    for s in list(syms.values()):
        t = ('P', s.name)
        env[s.name] = t
        if s.seq and s.sort != 'ranges':
            ts = []
            for i in range(2):
                n = '%s%d' % (s.name, i)
                syms[n] = Sym(n, s.sort, None, None)
                ts.append(('P', n))
            items[t] = ts
            env[s.name] = F.mk_seq('tuple', ts)
        elif s.sort in ('o', 'k', 'so') and (
                s.cls in PLUS + TIMES or s.cls in ('Operator',)):
            ts = []
            for i in range(3):
                n = '%s%d' % (s.name, i)
                syms[n] = Sym(n, s.sort, None, None)
                ts.append(('P', n))
            items[t] = ts
            heap[(t, 'operands')] = F.mk_seq('tuple', ts)
            heap[(t, 'args')] = F.mk_seq('tuple', ts)
        elif s.cls == 'ProductSpace':
            ts = []
            for i in range(2):
                n = '%s%d' % (s.name, i)
                syms[n] = Sym(n, 'h', None, 'LocalSpace')
                ts.append(('P', n))
            items[t] = ts
            for a in ('operands', 'args', 'local_factors'):
                heap[(t, a)] = F.mk_seq('tuple', ts)
    return heap, env, items


def subterms(ts):
    for t in ts:
        for x in walk(t):
            yield x


def mentions(ts, t):
    return any(x == t for x in subterms(ts))


class Case:
    """one path of a replacement"""

    def __init__(self, repo, rule, pat, items, lhs, conds, value):
        self.repo, self.rule, self.pat = repo, rule, pat
        self.items, self.lhs = items, lhs
        self.conds, self.value = conds, value
        self.terms = [value] + [c for c, _ in conds]

    # which parameters are looked into
    def composites(self):
        comp, split = {}, {}
        for t, ts in self.items.items():
            s = self.pat.syms[t[1]]
            if s.cls in PLUS:
                comp[t] = ('+', ts)
            elif s.cls in TIMES:
                comp[t] = ('*', ts)
            elif s.seq or s.cls == 'ProductSpace':
                comp[t] = ('*', ts)
            else:
                for c, b in self.conds:
                    n = self.isinstance_of(c, t)
                    if n and b and any(x in PLUS for x in n):
                        comp[t] = ('+', ts)
                    elif n and b and any(x in TIMES for x in n):
                        comp[t] = ('*', ts)
        for x in subterms(self.terms):
            if x[0] == 'call' and x[1][0] == 'A' and \
                    x[1][2] == 'factor_for_space' and x[1][1][0] == 'P':
                t = x[1][1]
                comp.pop(t, None)
                if t in split:
                    if split[t] != x:
                        raise Unknown('several factorisations of %s' % t[1])
                split[t] = x
        return comp, split

    @staticmethod
    def isinstance_of(c, t):
        """names of the classes if c is isinstance(t, classes)"""
        if c[0] == 'isinst' and c[1] == t:
            return [x[1].rpartition('.')[2] for x in c[2] if x[0] == 'G']
        return None

    def local_items(self):
        """items that are known to be transitions on this path"""
        yes = set()
        for c, b in self.conds:
            for x in walk(c):
                if x[0] == 'P':
                    n = self.isinstance_of(c, x)
                    if n and b and n == ['LocalSigma']:
                        yes.add(x[1])
        return yes

    def is_space_term(self, x):
        return x[0] == 'A' and x[2] == 'space' or \
            x[0] == 'G' and x[1].endswith('.TrivialSpace') or \
            x[0] == 'P' and x[1] in self.pat.syms and \
            self.pat.syms[x[1]].sort == 'h'

    def models(self):
        """(spaces, syms, comp, split) for every assignment of spaces"""
        comp, split = self.composites()
        syms = dict(self.pat.syms)
        for n in self.local_items():
            syms[n] = Sym(n, 'o', None, 'LocalSigma')
        locs = [s.name for s in syms.values()
                if s.sort == 'h' and s.cls == 'LocalSpace']
        anyh = [s.name for s in syms.values()
                if s.sort == 'h' and s.cls == 'HilbertSpace']
        spacey = any(self.is_space_term(x) for c, _ in self.conds
                     for x in walk(c)) or \
            any(x[0] == 'A' and x[2] == 'space' and x[1][0] == 'P'
                for x in subterms([self.value]))
        base_ = {}
        # equalities between named spaces: distinct, or two the same
        assigns = [dict((n, frozenset([n])) for n in locs)]
        for a, b in itertools.combinations(locs, 2):
            d = dict(assigns[0])
            d[b] = d[a]
            assigns.append(d)
        hp = [t for t in comp if self.pat.syms[t[1]].cls == 'ProductSpace']
        if hp:
            assigns = assigns[:1]
        for h in anyh:
            for d in list(assigns):
                d[h] = frozenset([h])
        if not spacey and not split:
            for d in assigns:
                yield self.model(d, {}), syms, comp, {}
            return
        vars_ = []
        for t, (_, ts) in comp.items():
            if self.pat.syms[t[1]].sort != 'h':
                vars_ += [x for x in ts if syms[x[1]].space is None]
        zs = set()
        for x in subterms(self.terms):
            if x[0] == 'A' and x[2] == 'space' and x[1][0] == 'P' and \
                    x[1][1] in syms and syms[x[1][1]].space is None and \
                    x[1] not in comp and x[1] not in split and \
                    x[1] not in vars_:
                vars_.append(x[1])
        sp = {}
        for t, call in split.items():
            sp[t] = tuple(('LETTER', syms[t[1]].sort) + (
                ('op', (t[1] + '.' + w, False)) if syms[t[1]].sort == 'o'
                else ('ket', ('g', t[1] + '.' + w))) for w in ('on', 'off'))
            if len(call[2]) != 1:
                raise Unknown('factor_for_space')
            z = call[2][0]
            if not self.closed_space(z):
                zs.add(z)
        for c, _ in self.conds:
            if c[0] == 'cmp':
                for x in (c[2], c[3]):
                    if x[0] == 'phi':
                        zs.add(x)
        for d in assigns:
            uni = sorted(set().union(*d.values()))[:2] if d else []
            uni = uni + ['x', 'y', 'z'][:(2 if not uni else 3 - len(uni))]
            subs = [frozenset(c) for r in range(len(uni) + 1)
                    for c in itertools.combinations(uni, r)]
            dom = []
            for v in vars_:
                if syms[v[1]].cls == 'LocalSigma':
                    dom.append([(v, x) for x in subs if len(x) == 1])
                else:
                    dom.append([(v, x) for x in subs])
            for t in sp:
                dom.append([((t, 'on'), (a, b)) for a in subs for b in subs
                            if not a & b])
            for z in sorted(zs, key=repr):
                dom.append([(('z', z), x) for x in subs])
            n = 1
            for x in dom:
                n *= len(x)
            if n > 20000:
                raise Unknown('too many arrangements of spaces')
            for choice in itertools.product(*dom):
                m = self.model(d, {})
                spl = {}
                for k, v in choice:
                    if k[0] == 'z':
                        m[k[1]] = v
                    elif k[1] == 'on':
                        t = k[0]
                        a, b = sp[t]
                        a, b = a + (v[0],), b + (v[1],)
                        spl[t] = (a, b)
                        m[('sp', a)], m[('sp', b)] = v
                        m[('sp', t)] = v[0] | v[1]
                    else:
                        m[('sp', k)] = v
                yield m, syms, comp, spl

    def closed_space(self, z):
        return z[0] == 'A' and z[2] == 'space' and z[1][0] == 'P' or \
            z[0] == 'P'

    def model(self, d, extra):
        m = {('P', n): s for n, s in d.items()}
        for t, ts in self.items.items():
            if self.pat.syms[t[1]].cls == 'ProductSpace':
                m[t] = frozenset().union(*[d[x[1]] for x in ts])
        m.update(extra)
        return m

    # -- conditions in a model ---------------------------------------------
    def truth(self, ev, c):
        """True, False, or None if it depends on something else"""
        if c[0] == 'not':
            r = self.truth(ev, c[1])
            return None if r is None else not r
        if c[0] in ('and', 'or'):
            rs = [self.truth(ev, x) for x in c[1]]
            if c[0] == 'and':
                return False if False in rs else (
                    None if None in rs else True)
            return True if True in rs else (None if None in rs else False)
        if c[0] == 'cmp':
            op, a, b = c[1], c[2], c[3]
            try:
                x, y = ev.space(a), ev.space(b)
            except Unknown:
                pass
            else:
                return {'==': x == y, '!=': x != y, 'is': x == y,
                        'is not': x != y, '<=': x <= y, '<': x < y,
                        '>=': x >= y, '>': x > y}.get(op)
            if op in ('==', '!=', 'is', 'is not'):
                for p, q in ((a, b), (b, a)):
                    if p[0] == 'G' and p[1].endswith('.TrivialKet'):
                        pc = ev.piece(q)
                        if pc is not None:
                            r = not ev.space_of(pc)
                            return r if op in ('==', 'is') else not r
        if c[0] == 'isinst' and c[1][0] == 'A' and c[1][2] in (
                'index', 'index_j', 'index_k') and \
                c[2] == (('G', 'builtins.str'),):
            return False
        if c[0] == 'call' and c[1][0] == 'A' and c[1][2] == 'isdisjoint' \
                and len(c[2]) == 1:
            try:
                return not (ev.space(c[1][1]) & ev.space(c[2][0]))
            except Unknown:
                return None
        return None

    def consistent(self, ev, lhs_space=True):
        for c, b in self.conds:
            r = self.truth(ev, c)
            if r is not None and r != b:
                return False
        return self.typed(ev)

    def typed(self, ev):
        """the arrangement admits the expression the rule applies to"""
        r = self.rule
        for t, (on, off) in ev.split.items():
            s = self.pat.syms[t[1]]
            call = self.composites()[1][t]
            try:
                z = ev.space(call[2][0])
            except Unknown:
                continue
            if (z & ev.space_of(t)) - ev.space_of(on):
                return False
        args = [a for a in self.lhs[2] if a[0] == 'P']
        try:
            sp = [ev.space_of(a) for a in args]
        except Unknown:
            return True
        if r.cls == 'OperatorTimesKet' and len(sp) == 2:
            return sp[0] <= sp[1]
        if r.cls == 'BraKet' and len(sp) == 2:
            return sp[0] == sp[1]
        return True

    # -- what the conditions say about scalars ------------------------------
    def facts(self, ev):
        """adds what is known on the path; returns what is not understood"""
        open_ = []
        for c, b in self.conds:
            if self.truth(ev, c) is not None:
                continue
            if self.integer(ev, c, b) or self.independent(ev, c, b) or \
                    self.harmless(ev, c):
                continue
            if c[0] == 'cmp' and c[1] in ('==', '!='):
                try:
                    if ev.ev(c[2]).key() == ev.ev(c[3]).key():
                        continue
                except Unknown:
                    pass
            open_.append(c)
        return open_

    def harmless(self, ev, c):
        if c[0] == 'nonempty':
            return True
        if c[0] == 'cmp' and c[1] in ('<', '<=', '>', '>='):
            return not self.spacey(c)
        if c[0] == 'isinst':
            return True
        if c[0] == 'seq':
            return True
        if any(x[0] == 'A' and x[2] in ('dimension', 'has_basis')
               for x in walk(c)):
            return True
        return False

    def spacey(self, c):
        return any(self.is_space_term(x) for x in walk(c)) and not any(
            x[0] == 'A' and x[2] == 'dimension' for x in walk(c))

    def integer(self, ev, c, b):
        names = [x[1] for x in walk(c) if x[0] == 'P' and
                 x[1] in self.pat.syms and self.pat.syms[x[1]].sort == 's']
        if len(set(names)) != 1:
            return False
        p = names[0]
        good = False
        if c[0] == 'isinst':
            cs = [x[1].rpartition('.')[2] for x in c[2] if x[0] == 'G']
            good = bool(cs) and all(x in ('int', 'Integer') for x in cs)
        elif any(x[0] == 'A' and x[2] == 'is_integer' or
                 is_const(x) and const_val(x) == 'is_integer'
                 for x in walk(c)):
            if c[0] == 'cmp':
                good = c[1] in ('is', '==') and ('C', 'bool', 'True') in c \
                    or any(is_const(x) and const_val(x) is True
                           for x in c[2:])
            else:
                good = True
        else:
            return False
        if b and good:
            ev.alg.integers.add(RA.base(('v', p, False)).key())
        return True

    def independent(self, ev, c, b):
        xs = {x[1] for x in walk(c) if x[0] == 'A' and
              x[2] == 'free_symbols'}
        if len(xs) != 1 or not any(x[0] == 'A' and x[2] in (
                'index_symbol', 'bound_symbols') for x in walk(c)):
            return False
        rs = set()
        for x in walk(c):
            if x[0] == 'P' and self.pat.syms.get(x[1]) is not None and \
                    self.pat.syms[x[1]].sort == 'ranges':
                rs.add(x[1])
        if len(rs) != 1:
            return False
        pol = None
        some = False
        t = c
        if t[0] == 'not':
            t, b = t[1], not b
        if t[0] == 'cmp':
            k = [x for x in t[2:] if is_const(x)]
            n = const_val(k[0]) if k else None
            left = len(k) == 1 and t[3] == k[0]
            some = isinstance(n, int) and n > 0
            if t[1] in ('==', '!=') and n == 0:
                pol = t[1] == '=='
            elif left and (t[1], n) in (('<', 1), ('<=', 0)):
                pol = True
            elif left and (t[1], n) in (('>', 0), ('>=', 1)):
                pol = False
        elif t[0] == 'call' and t[1][0] == 'A':
            if t[1][2] == 'isdisjoint':
                pol = True
            elif t[1][2] == 'intersection':
                pol = False
        elif t[0] == 'bin' and t[1] == '&':
            pol = False
        if pol is None:
            return some
        if b == pol:
            for x in xs:
                ev.mark_independent(x, next(iter(rs)))
        return True


def decide_case(repo, case):
    """(verdict, text): True, False or None; models tried"""
    tried = 0
    unknown = None
    for m, syms, comp, split in case.models():
        ev = Eval(repo, syms, m, composite=comp, split=split)
        ev.same_space = case.rule.cls == 'BraKet'
        if not case.consistent(ev):
            continue
        try:
            open_ = case.facts(ev)
            try:
                l = ev.ev(case.lhs)
            except IllFormed:
                continue
            r = ev.ev(case.value)
        except Unknown as x:
            unknown = unknown or str(x)
            continue
        except IllFormed as x:
            if open_:
                unknown = unknown or 'under the condition %s' % show(
                    open_[0])[:80]
                continue
            return False, '%s%s' % (x, arrangement(ev)), tried
        tried += 1
        if RA.sub(l, r).d:
            if open_:
                return None, 'under the condition %s' % show(open_[0])[:80], \
                    tried
            return False, '%s is not %s%s' % (
                RA.show(l), RA.show(r), arrangement(ev)), tried
    if unknown is not None:
        return None, unknown, tried
    return True, '', tried


def arrangement(ev):
    s = []
    for k, v in ev.spaces.items():
        if k[0] == 'sp':
            n = k[1][1] if k[1][0] == 'P' else k[1][3]
            n = n if isinstance(n, str) else n[-1] if isinstance(
                n[-1], str) else n[0]
            s.append('%s on {%s}' % (n, ', '.join(sorted(v))))
    return ' with ' + ', '.join(s) if s else ''


def quantum(repo, rep, rule):
    pat = Pattern(repo, rule.pattern, rule.cls)
    lhs = ('call', ('G', 'qnet.' + rule.cls), pat.args, pat.kws)
    bad = rule.unbound(n for n in pat.syms if not n.startswith('any-space'))
    if bad:
        return False, 'the pattern and the parameters of the replacement ' \
            'differ in %s' % ', '.join(bad)
    heap, env, items = prepared(pat)
    env = {k: v for k, v in env.items() if k in rule.params} \
        if rule.params else env
    paths = rule.apply(env, heap)
    if not paths:
        raise Unknown('no path')
    verdict, text, n = True, '', 0
    tried = 0
    for conds, value in paths:
        if value[0] == 'RAISE':
            continue
        rep.count('paths')
        if is_const(value) and const_val(value) is None:
            return False, 'the replacement may be None'
        case = Case(repo, rule, pat, items, lhs, conds, value)
        v, t, k = decide_case(repo, case)
        rep.count('arrangements of spaces', k)
        tried += k
        if v is False:
            return v, t
        if v is None:
            verdict, text = None, t
    if verdict and not tried and any(v[0] != 'RAISE' for _, v in paths):
        return None, 'no arrangement of spaces'
    return verdict, text


def check(repo, rep):
    rep.rule('identity', 'the expression a rule matches and every result of '
             'its replacement have the same normal form in the algebra of '
             'operators, states and super-operators, for every arrangement '
             'of the Hilbert spaces the conditions on the path allow')
    rules, open_ = RU.tables(repo, inline=inlined)
    for mod, fn, why in open_:
        rep.undec('table:%s' % fn.name, why)
    for r in rules:
        mod = r.ctx.mod if hasattr(r.ctx, 'mod') else repo.modules[
            'qnet.algebra._rules']
        rep.count('rules')
        if r.cls in CIRCUITS:
            continue
        key = 'rule:' + r.key
        try:
            v, text = quantum(repo, rep, r)
        except (Unknown, F.Budget) as x:
            rep.undec(key, str(x))
            continue
        rep.decide(key, v, where(repo, mod, r.node), '%s: %s' % (r.key, text)
                   if v is False else text)
