"""Rebuilding a space from the arguments that it reports itself"""
from ..core import where
from ..heap import Dict, Machine, Obj, Stop, Thrown, runs, snapshot

SPACE = 'qnet.algebra.core.hilbert_space_algebra.LocalSpace'


def rebuilt(repo, rep):
    rep.rule('rebuilt', 'a local space made from the arguments that a local '
             'space reports leaves out the same optional arguments')
    ci = repo.classes.get(SPACE)
    found = ci and repo.lookup(ci, '__init__')
    if not found or found[1] != 'method':
        rep.undec('rebuilt', 'no such class')
        return
    w = where(repo, found[0].module, found[2])
    bad = set()
    for kw in ({}, {'local_identifiers': Dict({'C': 'b'})},
               {'local_identifiers': Dict()}, {'local_identifiers': ()}):
        def make(choices):
            m = Machine(repo, choices)
            base = m.dotted(SPACE)

            def new(kwargs):
                o = Obj('self', base=base)
                o.made = True
                m.call(m.bound(m.find(o, '__init__'), o), ['h'],
                       dict(kwargs))
                return o

            def get(o, name):
                return m.bound(m.find(o, name), o)
            try:
                a = new(kw)
                kwargs, few = get(a, 'kwargs'), get(a, 'minimal_kwargs')
                if not isinstance(kwargs, Dict) or not isinstance(few, Dict):
                    raise Stop('the reported arguments')
                few2 = get(new(kwargs.items), 'minimal_kwargs')
                if not isinstance(few2, Dict):
                    raise Stop('the reported arguments')
                # the others are compared with opaque values
                extra = sorted((set(few2.items) ^ set(few.items)) -
                               {'order_index', 'basis', 'dimension'})
                if extra:
                    bad.add('%s %s reported only %s' % (
                        ', '.join(extra),
                        'are' if len(extra) > 1 else 'is',
                        'after rebuilding' if extra[0] in few2.items
                        else 'before rebuilding'))
            except Thrown:
                pass
            return m.taken
        try:
            rep.count('paths through the rebuilding of spaces', runs(make))
        except Stop as e:
            rep.undec('rebuilt', str(e))
            return
    rep.decide('rebuilt', not bad, w, '; '.join(sorted(bad)))
