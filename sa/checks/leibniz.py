"""The rules that expand commutators keep the value.

Every rule is evaluated in a free algebra for commutators of products."""
from .models import World, comm, operator
from .patterns import Judge
from ..formal import F0, F1, Formal, ONEP, Poly
from ..linear import Open, State, truthy

FN = 'qnet.algebra.toolbox.commutator_manipulation.expand_commutators_leibniz'


def word(p):
    """the factors of a product"""
    if len(p.t) != 1:
        return None
    ((sc, l, r), c), = p.t.items()
    if sc or r or c != (F1, F0):
        return None
    return [Poly({((), (g,), ()): (F1, F0)}) for g in l]


def product(ops):
    res = ONEP
    for x in ops:
        res = res.mul(x)
    return res


class Rules(Formal):
    def __init__(self, repo):
        super().__init__(repo)
        self.rules = []
        b = self.builders
        b['wc'] = lambda it, a, kw, st: [(
            st, ('wcard', a[0][1], kw.get('head', a[1] if len(a) > 1
                                          else None)))]
        b['pattern'] = lambda it, a, kw, st: [(st, ('pat', tuple(a)))]
        b['_apply_rules'] = self.applied
        b['expand_commutators_leibniz'] = lambda it, a, kw, st: [(st, a[0])]
        b['OperatorTimes'] = lambda it, a, kw, st: [(
            st, ('op', product(it.poly(x) for x in a)))]
        b['Commutator'] = lambda it, a, kw, st: [(
            st, ('op', comm(*[it.poly(x) for x in a])))]

    @staticmethod
    def poly(x):
        if x[0] not in ('op', 'sc'):
            raise Open('operand %s' % x[0])
        return x[1]

    def applied(self, it, a, kw, st):
        self.rules.append((st, a[1]))
        return [(st, a[0])]

    def builtin(self, st, n, args, kws):
        if n.rpartition('.')[2] in ('OrderedDict', 'dict') and \
                len(args) == 1 and not kws:
            return [(st, args[0])]
        return super().builtin(st, n, args, kws)

    def attr(self, st, b, name, env=None):
        if b[0] in ('cls', 'G') and name == 'create':
            return [(st, ('cls', b[1].rpartition('.')[2]))]
        if b[0] == 'op' and name in ('operands', 'args'):
            w = word(b[1])
            if w is not None and len(w) > 1:
                return [(st, ('tuple', tuple(('op', x) for x in w)))]
        return super().attr(st, b, name, env)


def check(repo, rep):
    rep.rule('commutator', 'every rule that expands commutators of products '
             'gives the same operator')
    c = Judge(repo, rep)
    hit = repo.func(FN)
    mod, node = hit if isinstance(hit, tuple) else (
        repo.modules[FN.rpartition('.')[0]], hit)
    X = operator('X')

    def go():
        for full in (True, False):
            it = Rules(repo)
            out = [(s, ('EXC', o[1]) if o[0] != 'return' else o[1])
                   for s, o in it.function(mod, node, [X, truthy(full)], {},
                                           State())]
            for s, v in out:
                yield None if v[0] == 'op' and v[1].t == X[1].t else \
                    'the value is changed to %s' % (v,)
            if not it.rules:
                raise Open('no rules are applied')
            for st, rules in it.rules:
                yield from judged(it, st, rules)

    def judged(it, st, rules):
        for entry in it.items(rules) if rules[0] != 'dict' else [
                ('tuple', (k, v)) for k, v in rules[1]]:
            name, rule = entry[1]
            pat, new = rule[1]
            if pat[0] != 'pat' or pat[1][0] not in (
                    ('cls', 'Commutator'), ('G', 'Commutator')) or \
                    len(pat[1]) != 3:
                raise Open('a rule for something else')
            cards = pat[1][1:]
            sizes = [(2, 3, 4) if w[2] and w[2][1].rpartition('.')[2] ==
                     'OperatorTimes' else (1, 2) for w in cards]
            for n in sizes[0]:
                for m in sizes[1]:
                    a, b = (product(operator('%s%d' % (x, i))[1]
                                    for i in range(k))
                            for x, k in (('a', n), ('b', m)))
                    kws = dict(zip((w[1].rstrip('_') for w in cards),
                                   (('op', a), ('op', b))))
                    for s, v in it.call(st, new, [], kws):
                        if v[0] == 'EXC':
                            yield 'the error %s' % v[1]
                            continue
                        if it.poly(v).t != comm(a, b).t:
                            yield 'the commutator of %d and %d factors ' \
                                'becomes %r' % (n, m, it.poly(v))
                        else:
                            yield None
    c.judge('commutator:leibniz', c.at(FN), go)
