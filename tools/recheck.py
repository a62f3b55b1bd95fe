#!/usr/bin/env python3
"""Run the checks against every stored change (scratch copies under /tmp).

    python3 tools/recheck.py [id ...]      (--all: every check, not only its own)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def props():
    m = json.load(open(VERIF + '/MANIFEST.json'))
    return [c['property'] for c in m['checks']]


def run(prop, root):
    env = dict(os.environ, QNET_REPO=root, SA_NO_EVIDENCE='1')
    r = subprocess.run(['python3', VERIF + '/check.py', prop], env=env,
                       capture_output=True)
    ls = [x.strip()[:130] for x in r.stdout.decode().splitlines()
          if x.startswith('  violated') or 'ERROR' in x]
    return r.returncode, ls


def one(sid):
    d = tempfile.mkdtemp(prefix='re_')
    try:
        w = d + '/w'
        os.makedirs(w)
        subprocess.check_call(['cp', '-a', '/repo/src', '/repo/.git', w])
        p = '%s/seeded/%s' % (VERIF, sid)
        r = subprocess.run(['git', '-C', w, 'apply', p + '/patch.diff'],
                           capture_output=True)
        if r.returncode:
            return sid, 'PATCH DOES NOT APPLY'
        prop = json.load(open(p + '/meta.json'))['property']
        msg = []
        for q in (props() if '--all' in sys.argv else [prop]):
            rc, ls = run(q, w)
            if rc:
                msg.append('%s:%d %s' % (q, rc, ls[:1]))
        own = any(m.startswith(prop + ':1') for m in msg)
        return sid, ('CAUGHT ' if own else 'missed ') + ' | '.join(msg)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(
        os.listdir(VERIF + '/seeded'))
    with ThreadPoolExecutor(6) as ex:
        for sid, msg in ex.map(one, ids):
            print('%-34s %s' % (sid, msg), flush=True)
