"""The full-structure representation: class name, all arguments in order, all
keyword arguments that differ from their default, rendered by the same
renderer, well separated."""
from ..core import where
from ..flow import (SELF, NONE, Budget, const, is_const, const_val, mk_seq,
                    walk, replace)
from ..model import flow, short
from ..src import AnalysisError
from .adjoint import inline_all, conds_text
from .rebuilt import rebuilt

EXPR = ('P', 'expr')
HEAD = 'qnet.printing._render_head_repr.render_head_repr'


class Unknown(Exception):
    pass


def items_of(t):
    """the items of a list term, with item assignments applied"""
    if t[0] == 'seq':
        res = []
        for x in t[2]:
            if x[0] == '*' and (x[1][0] == 'call' and x[1][1][0] == 'A' and
                                x[1][1][2] == '.setitem' or
                                x[1][0] in ('setitem', 'seq')):
                res += items_of(x[1])
            else:
                res.append(x)
        return res
    if t[0] == 'setitem' or t[0] == 'call' and t[1][0] == 'A' and \
            t[1][2] == '.setitem':
        if t[0] == 'setitem':
            base, k, v = t[1:4]
        else:
            base, (k, v) = t[1][1], t[2]
        its = items_of(base)
        if any(x[0] == '*' for x in its) or not is_const(k):
            raise Unknown(short(t))
        its[const_val(k)] = v
        return its
    raise Unknown(short(t))


def text(t):
    """t as a list of strings and terms"""
    if is_const(t):
        v = const_val(t)
        if isinstance(v, str):
            return [v] if v else []
        raise Unknown(short(t))
    if t[0] == 'str':
        parts = t[1]
        if not parts or not is_const(parts[0]):
            raise Unknown(short(t))
        return template(const_val(parts[0]), parts[1:])
    if t[0] == 'bin' and t[1] == '+':
        return text(t[2]) + text(t[3])
    if t[0] == 'bin' and t[1] == '*':
        for c in t[2:4]:
            if is_const(c) and isinstance(const_val(c), str) and \
                    not const_val(c).strip():
                return [('ws', const_val(c), t[3] if c is t[2] else t[2])]
        raise Unknown(short(t))
    if t[0] == 'sub':
        k = t[2]
        if is_const(k) and isinstance(const_val(k), int):
            its = items_of(t[1])
            if any(x[0] == '*' for x in its):
                raise Unknown(short(t))
            return text(its[const_val(k)])
        return [t]
    if t[0] == 'slice':
        lo, hi, step = t[2:]
        if lo in (NONE, const(0)) and is_const(hi) and step in (
                NONE, const(1)):
            res = text(t[1])
            n = -const_val(hi) if hi != NONE else 0
            if res and isinstance(res[-1], str) and 0 < n <= len(res[-1]):
                return res[:-1] + ([res[-1][:-n]] if res[-1][:-n] else [])
            return [('cut', t)]
        raise Unknown(short(t))
    if t[0] == '*':
        return [t[1]]
    if t[0] == 'call' and t[1][0] == 'A' and not t[3]:
        m = t[1][2]
        if m == 'join' and len(t[2]) == 1:
            sep = text(t[1][1])
            res = []
            for i, x in enumerate(items_of(t[2][0])):
                if i:
                    res += sep
                if x[0] == '*':
                    x = ('joined', tuple(map(lambda s: s if isinstance(s, str)
                                             else s, sep)), x[1])
                    res.append(x)
                else:
                    res += text(x)
            return res
        if m in ('lstrip', 'rstrip', 'strip') and not t[2]:
            res = text(t[1][1])
            while m != 'rstrip' and res and res[0][0] == 'ws' and \
                    not isinstance(res[0], str):
                res.pop(0)
            return res
    if t[0] == 'call' and t[1][0] == 'G' and t[2] and \
            t[1][1].rpartition('.')[2] in ('indent', 'dedent'):
        return text(t[2][0])
    return [t]


def template(fmt, args):
    """the pieces of a format string"""
    args = list(args)
    res = []
    import re
    if re.search(r'%[sr]', fmt):
        for i, part in enumerate(re.split(r'(%[sr])', fmt)):
            if part in ('%s', '%r'):
                if not args:
                    raise Unknown(fmt)
                res += text(args.pop(0))
            elif part:
                res.append(part.replace('%%', '%'))
    else:
        for part in re.split(r'(\{[^{}]*\})', fmt):
            if part.startswith('{') and part.endswith('}'):
                if not args:
                    raise Unknown(fmt)
                res += text(args.pop(0))
            elif part:
                res.append(part)
    if args:
        raise Unknown(fmt)
    return res


def squeeze(pieces):
    """without white space, neighbouring strings joined"""
    res = []
    for x in pieces:
        if isinstance(x, tuple) and x[0] == 'ws':
            continue
        if isinstance(x, str):
            x = ''.join(x.split())
            if not x:
                continue
            if res and isinstance(res[-1], str):
                res[-1] += x
                continue
        res.append(x)
    return res


def show(pieces):
    return ''.join(x if isinstance(x, str) else '<%s>' % short(x, 60)
                   for x in pieces)


def arg(i):
    return ('P', 'a%d' % i)


def kw(i):
    return ('P', 'v%d' % i)


def paths(repo, rep, key, cls, name, expr, na, nk, hooks=(), given=True):
    """returning paths of a renderer for an expression with na arguments and
    nk keyword arguments"""
    f = flow(repo, inline=inline_all('doprint', 'render_head_repr', 'srepr'),
             exact_self=cls, max_paths=4000)
    f.merging = False
    hooks = dict(hooks)

    def hook(t):
        if t in hooks:
            return hooks[t]
        if t[1] != expr:
            return None
        if t[2] == 'args':
            return mk_seq('tuple', [arg(i) for i in range(na)])
        if t[2] == 'minimal_kwargs':
            return ('dict', tuple((const('k%d' % i), kw(i))
                                  for i in range(nk)))
        if t[2] == 'kwargs':
            # (also with those that have their default values)
            return ('dict', tuple((const('k%d' % i), kw(i))
                                  for i in range(nk + 1)))
        return None
    f.attr_hook = hook
    if cls is not None:
        found = repo.lookup(cls, name)
        if not found or found[1] != 'method':
            rep.undec(key, 'no method ' + name)
            return None, ()
        mod, fn = found[0].module, found[2]
        args = {fn.args.args[1].arg: expr}
    else:
        mod, fn = repo.func(name)
        args = {fn.args.args[0].arg: expr}
        for a in fn.args.args[1:]:
            args[a.arg] = ('P', a.arg) if given else NONE
    try:
        ps = (f.summarise_method(cls, name, args=args) if cls is not None
              else f.summarise(mod, fn, args=args))
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return None, ()
    return where(repo, mod, fn), [p for p in ps or ()]


def kind(p):
    """what the path is for: 'singleton', 'expression', 'sequence', 'other'"""
    res = {}
    for c, b in p.conds:
        if c[0] == 'isinst':
            if 'Singleton' in repr(c[2:]):
                res['singleton'] = b
            elif 'Expression' in repr(c[2:]):
                res['expression'] = b
            elif 'tuple' in repr(c[2:]) or 'list' in repr(c[2:]):
                res['sequence'] = res.get('sequence', False) or b
    for k in ('singleton', 'expression', 'sequence'):
        if res.get(k):
            return k
    return 'other' if len(res) == 3 else None


def same(a, b):
    return len(a) == len(b) and all(
        x == y or callable(y) and not isinstance(x, str) and y(x)
        for x, y in zip(a, b))


def literal(seq, sep=','):
    res = []
    for i, x in enumerate(seq):
        if i:
            res.append(sep)
        res.append(x)
    return res


def name_of(expr):
    def ok(t):
        return t[0] == 'A' and t[2] == '__name__' and expr in (
            t[1], ('call', ('G', 'builtins.type'), t[1], ()))
    return ok


def calls(fun, x):
    """t is a call of fun for x, flags aside"""
    def ok(t):
        return t[0] == 'call' and t[1] in fun and t[2] == (x,) and not t[3]
    return ok


def judge(rep, key, w, p, want, lead=None):
    try:
        full = text(p.value)
    except Unknown as e:
        rep.undec(key, str(e))
        return
    got = squeeze(full)
    if lead is not None:
        first = full[0] if full else ''
        if isinstance(first, str) or first[0] != 'ws':
            n = None if (not isinstance(first, str) or first[:1].isspace()) \
                and ('A', SELF, '_print_level') in list(walk(p.value)) \
                else 'none'
        else:
            n = level(first[2]) if len(first[1]) == 4 else None
        if n is None:
            rep.undec(key, 'leading white space of ' + show(full))
        else:
            rep.decide(key, n == lead, w, 'indentation level %s instead of '
                       '%d in %s' % (n, lead, show(got)))
    rep.decide(key, same(got, squeeze(want)), w, 'renders %s%s' % (
        show(got), conds_text(p)))


SIZES = [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 1),
         (1, 2), (2, 2)]
DOPRINT = ('A', SELF, 'doprint')


def renderers(repo):
    """(label, class, function, what renders the arguments, the keywords)"""
    head = ('G', HEAD)
    for given in (True, False):
        yield ('render_head_repr', None, HEAD, given,
               {('P', 'sub_render')} if given else {head},
               {('P', 'key_sub_render')} if given else {head})
    yield ('IndentedSReprPrinter', repo.cls('IndentedSReprPrinter'),
           'emptyPrinter', True, {DOPRINT}, {DOPRINT})


def expressions(repo, rep):
    for label, cls, name, given, sub, ksub in renderers(repo):
        key = 'srepr:' + label
        for na, nk in SIZES:
            w, ps = paths(repo, rep, key, cls, name, EXPR, na, nk,
                          given=given)
            seen = set()
            for p in ps:
                k = kind(p)
                seen.add(k)
                if any(c[0] == 'cmp' and c[1] == 'is' and b and
                       c[2] in (('P', 'sub_render'), ('P', 'key_sub_render'))
                       for c, b in p.conds):
                    continue        # handled with given=False
                rep.count('paths')
                lead = -1 if cls is not None else None
                if p.out[0] != 'return':
                    rep.decide(key, k not in ('expression', 'singleton'), w,
                               'raises for an expression' + conds_text(p))
                    continue
                if k == 'singleton':
                    judge(rep, key, w, p, [lambda t: t == (
                        'call', ('G', 'builtins.repr'), (EXPR,), ())], lead)
                elif k == 'expression':
                    body = [[calls(sub, arg(i))] for i in range(na)] + [
                        ['k%d=' % i, calls(ksub, kw(i))] for i in range(nk)]
                    want = [name_of(EXPR), '(']
                    for i, b in enumerate(body):
                        want += ([','] if i else []) + b
                    judge(rep, key, w, p, want + [')'], lead)
                elif k == 'other':
                    judge(rep, key, w, p, [lambda t: t[0] == 'call' and
                                           t[2] == (EXPR,)], lead)
            for k in ('singleton', 'expression'):
                if ps and k not in seen:
                    rep.undec(key, 'no path for ' + k)
    # plain tuples and lists
    for label, cls, name, given, sub, ksub in renderers(repo):
        key = 'srepr:' + label + ':sequence'
        for typ, (a, b) in (('tuple', '()'), ('list', '[]')):
            for n in (0, 1, 2, 3):
                xs = [('P', 'x%d' % i) for i in range(n)]
                w, ps = paths(repo, rep, key, cls, name, mk_seq(typ, xs),
                              0, 0, given=given)
                for p in ps:
                    if kind(p) != 'sequence' or p.out[0] != 'return' or \
                            wrong_type(p, typ):
                        continue
                    if any(c[0] == 'cmp' and c[1] == 'is' and b_ and
                           c[2][0] == 'P' and c[2][1].endswith('sub_render')
                           for c, b_ in p.conds):
                        continue
                    rep.count('paths')

                    def item(x):
                        return lambda t: t[0] == 'call' and t[2] == (x,) and (
                            t[1] in sub or t[1] == ('G', HEAD) and
                            passes(t, sub, ksub, cls))
                    want = literal([item(x) for x in xs])
                    judge(rep, key, w, p, [a] + want + (
                        [','] if n == 1 else []) + [b],
                        -1 if cls is not None else None)


def passes(t, sub, ksub, cls):
    """the recursive call keeps the renderers"""
    kws = dict(t[3])
    for k, v in kws.items():
        if v not in (sub if k == 'sub_render' else ksub):
            return False
    return cls is not None or len(kws) == 2 or sub == {('G', HEAD)}


def wrong_type(p, typ):
    for c, b in p.conds:
        if c[0] == 'isinst':
            r = repr(c[2:])
            if 'tuple' in r and 'list' in r:
                continue
            if 'tuple' in r and b != (typ == 'tuple') or \
                    'list' in r and b != (typ == 'list'):
                return True
    return False


def printer_methods(repo, rep):
    """the simple printer: falls back on render_head_repr with itself"""
    cls = repo.cls('QnetSReprPrinter')
    key = 'srepr:QnetSReprPrinter'
    w, ps = paths(repo, rep, key, cls, 'emptyPrinter', EXPR, 1, 1)
    for p in ps:
        t = p.value
        if t is None or t[0] != 'call' or t[1] != ('G', HEAD):
            rep.undec(key, short(t) if t else 'raises')
            continue
        kws = dict(t[3])
        rest = list(t[2][1:])
        sub = rest.pop(0) if rest else kws.pop('sub_render', None)
        ksub = rest.pop(0) if rest else kws.pop('key_sub_render', NONE)
        rep.decide(key, t[2][0] == EXPR and sub == DOPRINT and
                   ksub in (NONE, DOPRINT), w,
                   'does not render the arguments itself: ' + short(t))
    for pn in ('QnetSReprPrinter', 'IndentedSReprPrinter'):
        cls = repo.cls(pn)
        key = 'srepr:%s:strings' % pn
        w, ps = paths(repo, rep, key, cls, '_render_str', ('P', 'string'), 0,
                      0)
        for p in ps:
            judge(rep, key, w, p, [lambda t: t == (
                'call', ('G', 'builtins.repr'), (('P', 'string'),), ())],
                  0 if pn.startswith('Indented') else None)
        arrays(repo, rep, pn, cls)
        for c in cls.mro:
            # no renderings of particular classes behind the general one
            if not hasattr(c, 'node') or not c.name.startswith(
                    ('Qnet', 'Indented')) or c.name == 'QnetBasePrinter':
                continue
            for m in c.methods:
                if m.startswith('_print_') and m != '_print_ndarray':
                    rep.undec('srepr:%s:%s' % (pn, m), 'particular renderer')


def arrays(repo, rep, pn, cls):
    key = 'srepr:%s:array' % pn
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
        rows = [[('P', 'x%d%d' % (i, j)) for j in range(m)]
                for i in range(n)]
        expr = mk_seq('list', [mk_seq('list', r) for r in rows])
        w, ps = paths(repo, rep, key, cls, '_print_ndarray', expr, 0, 0, {
            ('A', expr, 'shape'): mk_seq('tuple', [const(n), const(m)]),
            ('A', expr, 'ndim'): const(2)})
        for p in ps:
            if p.out[0] != 'return':
                rep.decide(key, False, w, 'a matrix raises' + conds_text(p))
                continue
            rep.count('paths')
            want = ['array(['] + [x for r in [
                (['], ['] if i else ['[']) + literal(
                    [calls({DOPRINT}, x) for x in row])
                for i, row in enumerate(rows)] for x in r] + [']], dtype=']

            def dtype(t):
                return any(x == ('A', expr, 'dtype') for x in walk(t))
            judge(rep, key, w, p, want + [dtype, ')'],
                  -1 if pn.startswith('Indented') else None)
            # the nesting level is the same as before
            lv = [v for (o, a), v in getattr(p, 'heap', {}).items()
                  if o == SELF and a == '_print_level'] if hasattr(
                      p, 'heap') and isinstance(p.heap, dict) else []
            for v in lv:
                rep.decide(key, level(v) == 0, w,
                           'the nesting level changes to ' + short(v))


def level(t):
    """t as an offset to the print level on entry"""
    if t == ('A', SELF, '_print_level'):
        return 0
    if t[0] == 'bin' and t[1] in '+-' and is_const(t[3]):
        a = level(t[2])
        if a is not None:
            return a + const_val(t[3]) * (1 if t[1] == '+' else -1)
    return None


CACHE = ('A', SELF, 'cache')


def cache_obligations(repo, rep):
    """what is stored is the rendering without flags, and it is returned for
    equal expressions only"""
    for pn in ('QnetBasePrinter', 'IndentedSReprPrinter'):
        cls = repo.cls(pn)
        f = flow(repo, inline=inline_all('indent', 'dedent'), exact_self=cls)
        f.merging = False
        key = 'cache:%s' % pn
        for name in ('_get_from_cache', '_write_to_cache'):
            found = repo.lookup(cls, name)
            if not found or found[1] != 'method':
                rep.undec(key, 'no ' + name)
                return
            fn = found[2]
            w = where(repo, found[0].module, fn)
            pars = [('P', a.arg) for a in fn.args.args[1:]]
            ps = f.summarise_method(cls, name, args={
                x[1]: x for x in pars}) or ()
            for p in ps:
                rep.count('paths')
                if name == '_write_to_cache':
                    for e in p.effects:
                        if CACHE not in list(walk(e)):
                            continue
                        rep.decide(key, e[0] != 'setitem' or
                                   e[2] == pars[0] and
                                   pars[1] in list(walk(e[3])), w,
                                   'stores %r' % (e,))
                        if pn.startswith('Indented'):
                            rep.decide(key, any(
                                x[0] == 'call' and x[1][0] == 'G' and
                                x[1][1].endswith('dedent') and
                                x[2] == (pars[1],) for x in walk(e)), w,
                                'stores the indented text')
                    continue
                if p.out[0] != 'return':
                    continue
                v = p.value
                if v[0] != 'seq' or len(v[2]) != 2:
                    rep.undec(key, short(v))
                    continue
                hit = ('sub', CACHE, pars[0])
                if v[2][0] == const(True):
                    known = any(c == ('cmp', 'in', pars[0], CACHE) and b or
                                c == ('cmp', 'not in', pars[0], CACHE) and
                                not b for c, b in p.conds) or hit in list(
                                    walk(p.conds))
                    try:
                        got = squeeze(text(v[2][1]))
                    except Unknown as e:
                        rep.undec(key, str(e))
                        continue
                    rep.decide(key, got == [hit] and (known or not p.conds),
                               w, 'returns %s%s' % (short(v), conds_text(p)))
                    if pn.startswith('Indented'):
                        inner = v[2][1]
                        if inner[0] == 'call' and inner[1][0] == 'G' and \
                                inner[1][1].endswith('indent') and \
                                len(inner[2]) == 2:
                            try:
                                pre = text(inner[2][1])
                            except Unknown as e:
                                rep.undec(key, str(e))
                                continue
                            rep.decide(key, len(pre) == 1 and
                                       pre[0][0] == 'ws' and
                                       len(pre[0][1]) == 4 and
                                       level(pre[0][2]) == 0, w,
                                       'indented by ' + short(inner[2][1]))
                        else:
                            rep.decide(key, False, w, 'not indented again')
                elif v[2][0] == const(False):
                    rep.decide(key, not any(
                        c == ('cmp', 'in', pars[0], CACHE) and b
                        for c, b in p.conds), w, 'misses a cached text')
                else:
                    rep.undec(key, short(v))
    cls = repo.cls('IndentedSympyReprPrinter')
    key = 'srepr:IndentedSympyReprPrinter'
    w, ps = paths(repo, rep, key, cls, 'doprint', EXPR, 0, 0)
    for p in ps:
        if p.out[0] == 'return':
            judge(rep, key, w, p, [lambda t: t[0] == 'call' and
                                   t[2] == (EXPR,)], -1)
    # doprint
    for pn in ('QnetBasePrinter', 'QnetAsciiPrinter', 'QnetUnicodePrinter',
               'QnetLatexPrinter', 'QnetSReprPrinter',
               'IndentedSReprPrinter'):
        doprint_cache(repo, rep, pn)


def doprint_cache(repo, rep, pn):
    cls = repo.cls(pn)
    key = 'cache:doprint:' + pn
    f = flow(repo, inline=inline_all('_get_from_cache', '_write_to_cache',
                                     '_print', '_print_SCALAR_TYPES',
                                     '_render_str', '_str'), exact_self=cls,
             max_paths=4000)
    f.merging = False
    found = repo.lookup(cls, 'doprint')
    fn = found[2]
    if not fn.args.vararg or not fn.args.kwarg:
        rep.undec(key, 'signature of doprint')
        return
    w = where(repo, found[0].module, fn)
    first = ('P', fn.args.args[1].arg)
    va, ka = fn.args.vararg.arg, fn.args.kwarg.arg
    get = ('call', ('A', SELF, '_get_from_cache'), (first,), ())
    for flags in (None, 'args', 'kwargs'):
        ps = f.summarise_method(cls, 'doprint', args={
            first[1]: first, va: mk_seq(
                'tuple', [('P', 'adjoint')] if flags == 'args' else []),
            ka: ('dict', ((const('adjoint'), ('P', 'adjoint')),)
                 if flags == 'kwargs' else ())})
        for p in ps or ():
            if p.out[0] != 'return':
                continue
            rep.count('paths')
            asked = get in list(walk((p.value, p.conds)))
            stored = [e for e in p.effects if any(
                x[0] == 'call' and x[1] == ('A', SELF, '_write_to_cache')
                for x in walk(e))]
            if flags:
                rep.decide(key, not asked and not stored, w, 'with a flag, '
                           'the cache is used' + conds_text(p))
                rep.decide(key, any(x[0] == 'call' and first in x[2][:1] and (
                    ('P', 'adjoint') in x[2][1:] if flags == 'args' else
                    ('adjoint', ('P', 'adjoint')) in x[3])
                    for x in walk(p.value)) or any(
                        x == ('A', SELF, '_render_str') for x in
                        walk(p.value)), w,
                    'the flag is not passed on in ' + short(p.value))
                continue
            for e in stored:
                for x in walk(e):
                    if x[0] == 'call' and x[1] == ('A', SELF,
                                                   '_write_to_cache'):
                        vals = list(x[2]) + [v for _, v in x[3]]
                        rep.decide(key, vals == [first, p.value], w,
                                   'stores %s' % short(x))
            if p.value == ('sub', get, const(1)):
                rep.decide(key, (('sub', get, const(0)), True) in p.conds, w,
                           'returns what is not cached' + conds_text(p))
            else:
                rep.decide(key, first in list(walk(p.value)) and
                           (('sub', get, const(0)), True) not in p.conds, w,
                           'renders %s%s' % (short(p.value), conds_text(p)))


def c20(repo, rep):
    rep.rule('srepr', 'for every number of positional and non-default '
             'keyword arguments (up to three and two) the text is the class '
             'name and, in parentheses and separated by commas, every '
             'argument and key=value, each rendered by the same renderer')
    expressions(repo, rep)
    printer_methods(repo, rep)
    cache_obligations(repo, rep)
    rebuilt(repo, rep)
