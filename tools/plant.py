#!/usr/bin/env python3
"""Plant one bug: plant.py SPECFILE [ID...]

SPECFILE is Python defining BUGS = [dict(id, property, file, edits=[(old, new)],
needs, breaks, demo)].  Each is tried in a scratch copy of /repo: the existing
tests must pass, the demo must pass on /repo and fail on the copy; then it is
written to /verif/seeded/<id> and the property's check is run on the copy.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# run with cwd = the repository, after the build
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return r.returncode, r.stdout


def one(b, check=True):
    d = '/tmp/plant.%d.%s' % (os.getpid(), b['id'])
    try:
        shutil.copytree('/repo', d, symlinks=True,
                        ignore=shutil.ignore_patterns('__pycache__'))
        f = os.path.join(d, 'src/sortedcontainers', b['file'])
        s = open(f).read()
        for old, new in b['edits']:
            if s.count(old) != 1:
                return 'edit matches %d times: %r' % (s.count(old), old[:60])
            s = s.replace(old, new)
        open(f, 'w').write(s)
        rc, out = sh('git diff -- src', d)
        patch = out
        rc, out = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider'
                     ' --timeout=60 2>&1 | tail -5', d,
                     {'PYTHONPATH': d + '/src', 'PYTHONHASHSEED': '0'})
        if not re.search(r'\d+ passed', out) or re.search(
                r'failed|error', out):
            return 'existing tests fail: ' + out[-300:]
        t = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(t, exist_ok=True)
        open(t + '/demo.py', 'w').write(b['demo'].lstrip())
        open(t + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(t + '/demo.sh', 0o755)
        rc0, o0 = sh(t + '/demo.sh', '/repo', timeout=300)
        rc1, o1 = sh(t + '/demo.sh', d, timeout=300)
        if rc0 != 0 or rc1 == 0:
            shutil.rmtree(t)
            return 'demo: base %d patched %d\n%s\n%s' % (rc0, rc1, o0[-600:],
                                                          o1[-600:])
        open(t + '/patch.diff', 'w').write(patch)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(t + '/meta.json', 'w'), indent=1)
        if not check:
            return 'kept'
        rc, out = sh('timeout 900 python3-vt check.py %s quick' % b['property'],
                     ROOT, {'SX_SRC': d + '/src'}, 1000)
        v = [x for x in out.splitlines() if 'VIOLATION' in x]
        return 'kept; check exit %d, %s %s' % (
            rc, 'CAUGHT' if rc == 1 and v else 'MISSED', (out[-300:] if not v else ''))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    for b in bugs:
        if not want or b['id'] in want:
            print(b['id'], b['property'], '->', one(b), flush=True)
