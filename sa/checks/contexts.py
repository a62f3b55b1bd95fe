"""C05: context managers restore the configuration they change"""
from itertools import product

from ..core import where
from ..heap import (
    MISSING, Dict, List, Machine, Native, Obj, Stop, Thrown, runs,
    snapshot)
from ..src import decorator_names, kind_of

CACHE = ('_instances',)
RULES = ('_rules', '_binary_rules')


def managers(repo):
    """[(module, function)] of the tree"""
    for mod in repo.modules.values():
        for name, fn in sorted(mod.functions.items()):
            if any(d.rpartition('.')[2] == 'contextmanager'
                   for d in decorator_names(fn)):
                yield mod, fn


class NoMore(Exception):
    pass


class World:
    """the classes whose configuration is changed

    Base has the cache, A and B inherit it; A has rules, B binary rules; Sub
    inherits everything from A; Plain has neither kind of rules; Empty has
    both, but none of them yet.
    """

    def __init__(self, m, second=False):
        self.m, self.second = m, second
        base = m.dotted('qnet.algebra.core.abstract_algebra.Expression')
        self.base = base
        base.attrs['instance_caching'] = True
        base.attrs['_instances'] = Dict([('k0', self.tok('cached'))])
        base.attrs['simplifications'] = List()
        base.missing |= set(RULES)
        self.a = self.cls('A', base, _rules=Dict([('R1', self.tok('rule'))]),
                          simplifications=List([self.tok('s1')]))
        self.b = self.cls('B', base, _binary_rules=Dict(
            [('R2', self.tok('rule'))]), simplifications=List(
                [self.tok('s2'), self.tok('s3')]))
        self.sub = self.cls('Sub', self.a)
        self.plain = self.cls('Plain', base)
        self.empty = self.cls(
            'Empty', base, _rules=Dict(), _binary_rules=Dict(),
            _instances=Dict(), simplifications=List())
        self.all = [base, self.a, self.b, self.sub, self.plain, self.empty]
        self.remember()

    def remember(self):
        m = self.m
        self.before = {}
        for c in self.all:
            for n in CACHE + RULES + ('simplifications', 'instance_caching'):
                v = m.find(c, n)
                self.before[c.name, n] = (v, snapshot(v))

    def tok(self, name):
        o = self.m.tok(name)
        o.data = 'token'
        return o

    def cls(self, name, base, **attrs):
        o = Obj(name, base=base, missing=RULES)
        o.data = 'token'
        o.attrs.update(attrs)
        return o

    def changed(self):
        res = []
        for c in self.all:
            for n in CACHE + RULES + ('simplifications', 'instance_caching'):
                v, snap = self.before[c.name, n]
                now = self.m.find(c, n)
                if (v is MISSING) != (now is MISSING) or (
                        v is not MISSING and snapshot(now) != snap):
                    res.append('%s.%s' % (c.name, n))
        return res


def use_classes(m, w, classes, names):
    """what the body may do to the given attributes of the classes"""
    how = m.choose(4)
    for i, c in enumerate(classes):
        for n in names:
            v = m.find(c, n)
            if v is MISSING:
                continue
            if how == 3:        # another object
                m.set(c, n, List([w.tok('new')]) if isinstance(v, List)
                      else Dict([('new', w.tok('new'))]))
            elif isinstance(v, Dict):
                if how != 2:
                    v.items['new%d' % i] = w.tok('new')
                for k in list(v.items):
                    if k.startswith('R'):
                        if how == 0:
                            del v.items[k]
                        else:
                            v.items[k] = w.tok('new')
            elif isinstance(v, List):
                if how == 0 or not v.items:
                    v.items.append(w.tok('new'))
                elif how == 1:
                    v.items[0] = w.tok('new')
                else:
                    v.items.reverse()
                    v.items.pop()


class Scenario:
    def __init__(self, text, args, kw=None, inside=None, body=None):
        self.text, self.args, self.kw = text, args, kw or {}
        self.inside, self.body = inside, body


def lists(w):
    return [('()', []), ('(A)', [w.a]), ('(A, B)', [w.a, w.b]),
            ('(B, A)', [w.b, w.a]), ('(A, Sub)', [w.a, w.sub]),
            ('(Sub, A)', [w.sub, w.a]), ('(Sub)', [w.sub]),
            ('(Plain, B)', [w.plain, w.b]), ('(A, A)', [w.a, w.a]),
            ('(Empty, A)', [w.empty, w.a]), ('(A, Empty)', [w.a, w.empty])]


def no_caching(w):
    if w.second:
        w.base.attrs['instance_caching'] = False
        w.remember()

    def inside():
        if w.m.find(w.base, 'instance_caching') is not False:
            return 'the caching of instances is not off'
    return [Scenario('()', [], {}, inside)]


def empty_caches(w, cs):
    for c in cs:
        v = w.m.find(c, '_instances')
        if not isinstance(v, Dict) or v.items:
            return 'the instances of %s are not cleared' % c.name


def cache(w):
    return [Scenario(text, cs, {}, lambda cs=cs: empty_caches(w, cs),
                     lambda cs=cs: use_classes(w.m, w, cs, CACHE))
            for text, cs in lists(w)]


def rules(w):
    res = []
    for clear in (None, False, True):
        for text, cs in lists(w):
            def inside(cs=cs, clear=clear):
                for c in cs:
                    for n in RULES + ('simplifications',):
                        v, snap = w.before[c.name, n]
                        now = w.m.find(c, n)
                        if v is MISSING:
                            if now is not MISSING:
                                return '%s has got %s' % (c.name, n)
                            continue
                        if clear and n in RULES:
                            if not isinstance(now, Dict) or now.items:
                                return 'the %s of %s are not cleared' % (
                                    n, c.name)
                        elif snapshot(now) != snap:
                            return 'the %s of %s are different' % (n, c.name)
                return empty_caches(w, cs)

            def body(cs=cs):
                use_classes(w.m, w, cs, CACHE + RULES + ('simplifications',))
            res.append(Scenario(
                '%s%s' % (text, '' if clear is None else ', clear=%s' % clear),
                cs, {} if clear is None else {'clear': clear}, inside, body))
    return res


def printing(w):
    m = w.m
    printer = m.dotted('sympy.printing.printer.Printer')
    settings = Dict([('s0', w.tok('setting'))])
    if w.second:
        settings.items['show_hs_label'] = False
        settings.items['x'] = None
    printer.attrs['_global_settings'] = settings
    m.touch(printer, '_global_settings', settings)

    def set_global(mm, a, k):
        mm.find(printer, '_global_settings').items.update(k)
    printer.attrs['set_global_settings'] = Native('set', set_global)
    m.objects['sympy.interactive.printing.init_printing'] = Native(
        'init_printing', lambda mm, a, k: set_global(
            mm, a, {'order': w.tok('order'), 'use_unicode': w.tok('flag')}))
    base = 'qnet.printing.'
    for n, c in (('ascii', 'asciiprinter.QnetAsciiPrinter'),
                 ('unicode', 'unicodeprinter.QnetUnicodePrinter'),
                 ('latex', 'latexprinter.QnetLatexPrinter')):
        f = m.dotted(base + n)
        if isinstance(f, Obj):
            for attr, v in (('_printer_cls', m.dotted(base + c)),
                            ('printer', w.tok('printer'))):
                f.attrs[attr] = v
                m.touch(f, attr, v)
    for attr in ('__str__', '__repr__', '_repr_latex_'):
        m.find(w.base, attr)
    tok = w.tok
    qbase = m.dotted(base + 'base.QnetBasePrinter')
    m.find(qbase, '_allow_caching')
    if w.second:
        qbase.attrs['_allow_caching'] = False
        m.cells.pop((id(qbase), '_allow_caching'), None)
        m.touch(qbase, '_allow_caching', False)

    def expect(*new, reset=False, caching=True, **fmt):
        def inside():
            now = m.find(printer, '_global_settings')
            if not isinstance(now, Dict):
                return None
            for k in new:
                if k not in now.items:
                    return 'the setting %s is not in effect' % k
            if ('s0' in now.items) == reset:
                return 'the earlier settings are %s' % (
                    'not reset' if reset else 'gone')
            if m.find(qbase, '_allow_caching') is not caching:
                return 'caching is not %s' % caching
            for attr, name in fmt.items():
                got = printed_by(m, m.find(w.base, '__%s__' % attr))
                if got and got != name:
                    return 'the %s is that of %s instead of %s' % (
                        attr, got, name)
        return inside
    return [
        Scenario('()', [], {}, expect()),
        Scenario('(show_hs_label)', [], {'show_hs_label': tok('value')},
                 expect('show_hs_label')),
        Scenario('(caching)', [], {'caching': False}, expect(caching=False)),
        Scenario('(str_format)', [], {'str_format': 'ascii'},
                 expect(str='ascii')),
        Scenario('(repr_format)', [], {'repr_format': 'unicode'},
                 expect(repr='unicode')),
        Scenario('(both formats)', [], {
            'str_format': 'latex', 'repr_format': 'srepr'},
                 expect(str='latex', repr='srepr')),
        Scenario('(bad str_format)', [], {'str_format': 'bogus'}),
        Scenario('(bad repr_format)', [], {'repr_format': 'bogus',
                                           'caching': False}),
        Scenario('(bad printer)', [], {'latex_printer': 'nodots',
                                       'show_hs_label': tok('value')}),
        Scenario('(other printer)', [], {
            'ascii_printer': 'qnet.printing.unicodeprinter.'
                             'QnetUnicodePrinter'}, expect()),
        Scenario('(other sympy printer)', [], {
            'ascii_sympy_printer': 'qnet.printing.sympy.SympyReprPrinter'},
                 expect()),
        Scenario('(reset)', [], {'reset': True, 'caching': False},
                 expect(reset=True, caching=False)),
        Scenario('(reset, init_sympy)', [], {
            'reset': True, 'init_sympy': False, 'x': tok('value')},
                 expect('x', reset=True)),
        Scenario('(inifile)', [], {'inifile': tok('file')}),
    ]


def printed_by(m, fn):
    """the print function that `fn` calls"""
    names = ('ascii', 'unicode', 'latex', 'srepr', 'tree')
    seen = []
    call = m.call

    def record(f, args, kw):
        n = f.name.rpartition('.')[2] if isinstance(f, Obj) else ''
        if n in names and f.name.startswith('qnet.'):
            seen.append(n)
            return m.tok('text')
        return call(f, args, kw)
    m.call = record
    try:
        if isinstance(fn, Obj):
            m.call(fn, [m.tok('self')], {})
    except (Stop, Thrown):
        pass
    finally:
        del m.call
    return seen[0] if seen else None


SPEC = {'no_instance_caching': no_caching, 'temporary_instance_cache': cache,
        'temporary_rules': rules, 'configure_printing': printing}


def generic(w):
    return [Scenario('(...)', [])]


def outcome(repo, mod, fn, i, leave, second=False):
    """run scenario number `i`; leave: 'normal' or 'raise'"""
    res = []

    def make(choices):
        m = Machine(repo, choices)
        w = World(m, second)
        scs = SPEC.get(fn.name, generic)(w)
        if i >= len(scs):
            raise NoMore()
        sc = scs[i]
        entered = []

        def on_yield(v):
            entered.append(1)
            if len(entered) > 1:
                raise Stop('yields twice')
            if sc.inside:
                msg = sc.inside()
                if msg:
                    res.append((sc.text, msg))
            if sc.body:
                sc.body()
            if leave == 'raise':
                raise Thrown('BodyError')
        m.on_yield = on_yield
        m.known.clear()
        f = m.dotted(mod.name + '.' + fn.name)
        raised = None
        try:
            m.call_func(f, list(sc.args), dict(sc.kw))
        except Thrown as e:
            raised = e.name
        bad = sorted(set(m.changed() + w.changed()))
        if bad:
            res.append((sc.text, 'left changed: %s' % ', '.join(bad[:4])))
        if entered and leave == 'raise' and raised is None:
            res.append((sc.text, 'an exception of the body is swallowed'))
        if entered and leave == 'normal' and raised:
            res.append((sc.text, 'leaving raises %s' % raised))
        if sc.text in ('()', '(A)', '(A, B)', '(show_hs_label)') and \
                not entered:
            res.append((sc.text, 'the body is not entered'))
        return m.taken
    n = runs(make)
    return n, res


def context_managers(repo, rep):
    rep.rule('restore', 'on every path, leaving a context manager leaves '
             'every cell and container as it was before it was entered')
    seen = set()
    for mod, fn in managers(repo):
        seen.add(fn.name)
        key = 'restore:%s' % fn.name
        w = where(repo, mod, fn)
        if fn.name not in SPEC:
            rep.undec(key, 'another context manager')
            continue
        for leave, second in product(('normal', 'raise'), (False, True)):
            i = 0
            while True:
                try:
                    n, res = outcome(repo, mod, fn, i, leave, second)
                except NoMore:
                    break
                except Stop as e:
                    rep.undec(key, '%s' % e)
                    i += 1
                    continue
                i += 1
                rep.count('paths of context managers', n)
                kinds = sorted(set(res))
                for text, msg in kinds:
                    rep.violation(key, w, '%s%s, %s exit: %s' % (
                        fn.name, text, leave, msg))
                if not kinds:
                    rep.ok(key)
    for n in SPEC:
        if n not in seen:
            rep.undec('restore:%s' % n, 'not a generator based manager')


def check(repo, rep):
    context_managers(repo, rep)
