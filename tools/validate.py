#!/usr/bin/env python3
"""Which seeded changes do the existing tests (docs included) notice?"""
import concurrent.futures as cf
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ROOT, sh      # noqa: E402


def one(b):
    d = '/tmp/validate.%d.%s' % (os.getpid(), b)
    t = os.path.join(ROOT, 'seeded', b)
    try:
        shutil.copytree('/repo', d, symlinks=True,
                        ignore=shutil.ignore_patterns('__pycache__'))
        rc, out = sh('git apply %s/patch.diff' % t, d)
        if rc:
            return 'patch does not apply'
        rc, out = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
                     '--timeout=60 2>&1 | tail -8', d,
                     {'PYTHONPATH': d + '/src', 'PYTHONHASHSEED': '0'})
        if 'failed' in out or 'error' in out or 'passed' not in out:
            return 'tests: ' + out[-600:]
        r0 = sh(t + '/demo.sh', '/repo')[0]
        r1 = sh(t + '/demo.sh', d)[0]
        return 'ok' if r0 == 0 and r1 else 'demo %d %d' % (r0, r1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


names = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
with cf.ThreadPoolExecutor(6) as ex:
    for b, r in zip(names, ex.map(one, names)):
        print(b, r, flush=True)
