"""Reporting, known findings, evidence and the command line of the checks."""
import json
import os
import sys
import time
import traceback

from .src import AnalysisError, Repo
from .flow import Flow, Budget, show

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QNET_REPO', '/repo')


class Report:
    """Obligations of one property and how each was decided"""

    def __init__(self, prop, repo):
        self.prop = prop
        self.repo = repo
        self.ok_list = []
        self.bad = {}
        self.undecided = []
        self.counts = {}
        self.rules = {}
        self.selftests = []

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, key, note=''):
        self.ok_list.append((key, note))

    def violation(self, key, where, msg):
        """key: stable identity (rule:construct), no line numbers"""
        self.bad.setdefault(key, (where, msg))

    def undec(self, key, why):
        self.undecided.append((key, str(why)))

    def decide(self, key, cond, where, msg):
        """cond True/False/None(undecided)"""
        if cond is None:
            self.undec(key, msg)
        elif cond:
            self.ok(key)
        else:
            self.violation(key, where, msg)

    def selftest(self, name, fired):
        """a rule must fire on a built-in positive example"""
        self.selftests.append((name, bool(fired)))
        if not fired:
            raise AnalysisError("self-test %s: rule no longer fires" % name)


def where(repo, mod, node):
    return "%s:%s" % (repo.relpath(mod), getattr(node, 'lineno', '?'))


def known_functions():
    path = os.path.join(VERIF, 'sa', 'known_functions.txt')
    try:
        with open(path) as fh:
            return set(line.strip() for line in fh if line.strip())
    except OSError:
        return set()


def all_functions(repo):
    res = set()
    for mod in repo.modules.values():
        for n in mod.functions:
            res.add(mod.name + '.' + n)
    for c in repo.classes.values():
        for n in c.methods:
            res.add(c.name + '.' + n)
    return res


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    res = {}
    try:
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith('finding: property='):
                    continue
                rest = line[len('finding: property='):]
                pid, _, rest = rest.partition(' ')
                if pid != prop:
                    continue
                key, _, text = rest.partition(' ')
                res[key] = text
    except OSError:
        pass
    return res


def run(prop, check, title, argv=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = Repo(REPO)
    rep = Report(prop, repo)
    rep.tier = tier
    check(repo, rep)
    known = known_findings(prop)
    new = {}
    found_known = {}
    for key, (w, msg) in sorted(rep.bad.items()):
        if key in known:
            found_known[key] = (w, msg)
        else:
            new[key] = (w, msg)
    n_ob = len(rep.ok_list) + len(rep.bad) + len(rep.undecided)
    print("%s %s" % (prop, title))
    print("analysed: %s" % ', '.join(
        '%s=%d' % kv for kv in sorted(rep.counts.items())))
    print("obligations=%d discharged=%d undecided=%d violated=%d" % (
        n_ob, len(rep.ok_list), len(rep.undecided), len(rep.bad)))
    if n_ob == 0:
        raise AnalysisError("no obligation was generated")
    for key, (w, msg) in sorted(found_known.items()):
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (prop, key, w, msg))
    for k, why in rep.undecided:
        if os.environ.get('SA_VERBOSE'):
            print("undecided %s: %s" % (k, why))
    if os.environ.get('SA_NO_EVIDENCE'):
        # development runs on scratch copies
        for key, (w, msg) in new.items():
            print("  violated %s at %s: %s" % (key, w, msg))
        return 1 if new else 0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', prop + '.violations.txt')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (
                'Static analysis of %s/src/qnet read on this run (stdlib ast;'
                ' nothing imported or executed). Rules: ' % REPO
                + ' || '.join('%s: %s' % kv for kv in rep.rules.items())),
            'obligations': n_ob,
            'discharged': len(rep.ok_list),
            'undecided': len(rep.undecided),
            'modules_parsed': len(repo.modules),
            'classes_resolved': len(repo.classes),
            'counts': rep.counts,
            'samples': [k for k, _ in rep.ok_list][
                ::max(1, len(rep.ok_list) // 25)][:40],
            'undecided_obligations': rep.undecided[:60],
            'known_findings_seen': sorted(found_known),
            'selftests': rep.selftests,
        },
        'assumptions': [
            'class and name resolution is static: no monkey-patching, no '
            'classes or attributes created by reflection beyond the '
            'module-level slot assignments',
            'obligations listed as undecided are not claimed',
        ],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    if tier == 'thorough':
        ev['coverage']['all_obligations'] = [k for k, _ in rep.ok_list]
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
    if new:
        with open(replay, 'w') as fh:
            for key, (w, msg) in new.items():
                fh.write("%s\n  at %s\n  %s\n" % (key, w, msg))
        for key, (w, msg) in new.items():
            print("  violated %s at %s: %s" % (key, w, msg))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    return 0


def main(registry, argv):
    if argv[1:] == ['--selftest']:
        repo = Repo(REPO)
        print("parsed %d modules, %d classes; %d checks" % (
            len(repo.modules), len(repo.classes), len(registry)))
        return 0 if len(repo.modules) > 40 else 3
    if len(argv) < 2 or argv[1] not in registry:
        print("usage: check.py <property id>; known: %s" % ' '.join(
            sorted(registry)))
        return 2
    prop = argv[1]
    title, fn = registry[prop]
    try:
        return run(prop, fn, title)
    except AnalysisError as exc:
        print("ANALYSIS-ERROR property=%s %s" % (prop, exc))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % prop)
        return 3
