#!/usr/bin/env python3
"""Plant, confirm and store changes.  Not used by any check.

    python3 tools/seed.py SPEC.py [id ...]

SPEC.py holds SEEDS = [dict(id, prop, file, old, new, demo, needs, breaks)];
`file/old/new` may be a list `edits` of such triples.  For each: a scratch
copy of /repo under /tmp is changed, the demonstration and the stable tests
are run there, and on success /verif/seeded/<id> is written.  Then the check
of its property is run on the copy.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, '/opt/vp')
import results  # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONHASHSEED='0',
           PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
DEMO_SH = '''#!/bin/bash
# run with cwd /repo
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run_tests(root):
    env = dict(ENV, PYTHONPATH=root + '/src')
    rep = tempfile.mkdtemp()
    env['TMPDIR'] = rep
    procs = []
    for name, args in (('src', ['src']), ('tests', ['tests']),
                       ('docs', sorted(glob.glob(root + '/docs/*.rst')))):
        args = [os.path.relpath(a, root) if a.startswith('/') else a
                for a in args]
        procs.append(subprocess.Popen(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
             'no:cacheprovider', '--timeout=300',
             '--continue-on-collection-errors', '--doctest-modules',
             '--tb=short', '-o', 'junit_family=xunit2',
             '--junitxml=%s/%s.xml' % (rep, name)] + args,
            cwd=root, env=env, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL))
    for p in procs:
        p.wait()
    ok, bad = set(), set()
    for x in glob.glob(rep + '/*.xml'):
        for n, good in results.junit(x):
            (ok if good else bad).add(n)
    shutil.rmtree(rep)
    return sorted(STABLE - (ok - bad))


def one(s):
    out = []
    d = tempfile.mkdtemp(prefix='seed_')
    w = d + '/w'
    try:
        subprocess.check_call(['cp', '-a', '/repo', w])
        subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        for f, old, new in edits:
            p = w + '/src/qnet/' + f
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                return s['id'], 'FAIL: old text occurs %d times in %s' % (
                    t.count(old), f)
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        diff = subprocess.check_output(
            ['git', '-C', w, 'diff']).decode()
        dd = d + '/demo'
        os.makedirs(dd)
        open(dd + '/demo.py', 'w').write(s['demo'])
        open(dd + '/demo.sh', 'w').write(DEMO_SH)
        r0 = subprocess.run(['bash', dd + '/demo.sh'], cwd='/repo', env=ENV,
                            capture_output=True)
        if r0.returncode:
            return s['id'], 'FAIL: demo fails on the unchanged tree:\n%s' % (
                r0.stderr.decode()[-800:] + r0.stdout.decode()[-300:])
        r1 = subprocess.run(['bash', dd + '/demo.sh'], cwd=w, env=ENV,
                            capture_output=True)
        if r1.returncode == 0:
            return s['id'], 'FAIL: demo passes with the change'
        chk = check(s['prop'], w)
        if '--fast' not in sys.argv:
            broken = run_tests(w)
            if broken:
                return s['id'], 'FAIL: tests broken: %s [%s]' % (
                    broken[:4], chk)
            t = '%s/seeded/%s' % (VERIF, s['id'])
            os.makedirs(t, exist_ok=True)
            open(t + '/patch.diff', 'w').write(diff)
            for f in ('demo.py', 'demo.sh'):
                shutil.copy(dd + '/' + f, t + '/' + f)
            json.dump({'property': s['prop'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']},
                      open(t + '/meta.json', 'w'), indent=1)
        return s['id'], 'kept; check: %s' % chk
    finally:
        shutil.rmtree(d)


def check(prop, root):
    env = dict(os.environ, QNET_REPO=root, SA_NO_EVIDENCE='1')
    r = subprocess.run(['python3', VERIF + '/check.py', prop], env=env,
                       capture_output=True)
    lines = [x.strip()[:150] for x in r.stdout.decode().splitlines()
             if x.startswith('  violated') or 'ERROR' in x]
    return 'exit %d %s' % (r.returncode, lines[:2])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = [a for a in sys.argv[2:] if not a.startswith('--')]
    seeds = [s for s in ns['SEEDS'] if not want or s['id'] in want]
    with ThreadPoolExecutor(3) as ex:
        for sid, msg in ex.map(one, seeds):
            print(sid, msg, flush=True)


if __name__ == '__main__':
    main()
