#!/usr/bin/env python3
"""Small syntactic changes of the package, to look for gaps in the checks.

mutate.py gen DIR            write every mutant as DIR/m####.json
mutate.py gated DIR N SEED   N mutants that act in a rare state only
mutate.py test DIR           keep those the repository's own tests pass
mutate.py check DIR [STEP [LIMIT [N...]]]
                             run every STEP-th cheap task of the properties of
                             the file on each survivor; print those not caught

Development tool; no registered check uses it.
"""
import ast
import copy
import importlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/sortedcontainers'
FILES = ('sortedlist.py', 'sorteddict.py', 'sortedset.py')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.LShift: ast.RShift,
       ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult}
NAMES = {'bisect_left': 'bisect_right', 'bisect_right': 'bisect_left',
         'insort': 'insort_left', 'add': 'discard', 'append': 'extend',
         'islice': 'reversed', 'difference': 'intersection',
         'intersection': 'difference', 'union': 'symmetric_difference',
         'symmetric_difference': 'union', 'remove': 'discard',
         'discard': 'remove', 'max': 'min', 'min': 'max'}


def sites(tree):
    """(function name, line, description, mutate(node))."""
    out = []

    def visit(node, fn, parent, field, idx):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + '.' + node.name
        def rec(desc, new):
            out.append((fn, getattr(node, 'lineno', 0), desc, parent, field,
                        idx, new))
        N = node
        if isinstance(N, ast.Compare) and len(N.ops) == 1:
            for a, b in CMP.items():
                if isinstance(N.ops[0], a):
                    m = copy.deepcopy(N)
                    m.ops = [b()]
                    rec(a.__name__ + '->' + b.__name__, m)
        if isinstance(N, ast.BinOp) and type(N.op) in BIN:
            m = copy.deepcopy(N)
            m.op = BIN[type(N.op)]()
            rec('binop', m)
        if isinstance(N, ast.BoolOp):
            m = copy.deepcopy(N)
            m.op = ast.Or() if isinstance(N.op, ast.And) else ast.And()
            rec('and/or', m)
            for v in N.values:
                rec('only ' + ast.unparse(v), copy.deepcopy(v))
        if isinstance(N, ast.UnaryOp) and isinstance(N.op, (ast.Not,
                                                             ast.USub)):
            rec('drop ' + type(N.op).__name__, copy.deepcopy(N.operand))
        if isinstance(N, ast.Constant) and type(N.value) in (int, bool):
            if type(N.value) is bool:
                rec('flip', ast.Constant(not N.value))
            else:
                rec('+1', ast.Constant(N.value + 1))
                rec('-1', ast.Constant(N.value - 1))
        if isinstance(N, (ast.If, ast.IfExp, ast.While)):
            for d in (False, True):
                if d and isinstance(N, ast.While):
                    continue
                m = copy.deepcopy(N)
                m.test = ast.Constant(d)
                rec('cond ' + str(d), m)
            m = copy.deepcopy(N)
            m.test = ast.UnaryOp(ast.Not(), m.test)
            rec('negate', m)
        if isinstance(N, (ast.Assign, ast.AugAssign, ast.Delete)) or (
                isinstance(N, ast.Expr) and isinstance(N.value, ast.Call)):
            rec('delete statement', ast.Pass())
        if isinstance(N, ast.Return) and N.value is not None and not (
                isinstance(N.value, ast.Constant)):
            rec('return None', ast.Return(ast.Constant(None)))
        if isinstance(N, ast.Raise):
            rec('no raise', ast.Pass())
        if isinstance(N, ast.Name) and N.id in NAMES:
            rec('name', ast.Name(NAMES[N.id], N.ctx))
        if isinstance(N, ast.Attribute) and N.attr in NAMES:
            m = copy.deepcopy(N)
            m.attr = NAMES[N.attr]
            rec('attr', m)
        if isinstance(N, ast.Call):
            for k in range(len(N.keywords)):
                m = copy.deepcopy(N)
                del m.keywords[k]
                rec('drop keyword', m)
            if len(N.args) == 2 and not N.keywords:
                m = copy.deepcopy(N)
                m.args.reverse()
                rec('swap args', m)
            if len(N.args) == 1 and not N.keywords and isinstance(
                    N.func, ast.Name) and N.func.id in (
                        'list', 'set', 'sorted', 'reversed', 'iter', 'dict'):
                rec('drop call', copy.deepcopy(N.args[0]))
        if isinstance(N, ast.Subscript) and isinstance(N.slice, ast.Slice):
            for side in ('lower', 'upper', 'step'):
                if getattr(N.slice, side) is not None:
                    m = copy.deepcopy(N)
                    setattr(m.slice, side, None)
                    rec('drop ' + side, m)
        for f, v in ast.iter_fields(N):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        visit(x, fn, N, f, i)
            elif isinstance(v, ast.AST):
                visit(v, fn, N, f, None)

    visit(tree, '', None, None, None)
    return [s for s in out if s[3] is not None]


def gen(d):
    n = 0
    for f in FILES:
        src = open(os.path.join(SRC, f)).read()
        tree = ast.parse(src)
        for fn, line, desc, parent, field, idx, new in sites(tree):
            if fn.endswith(('__repr__', '_check')) or fn == '':
                continue
            old = getattr(parent, field)
            o = old[idx] if idx is not None else old
            if isinstance(o, ast.Expr) and isinstance(o.value, ast.Constant):
                continue
            if idx is not None:
                old[idx] = new
            else:
                setattr(parent, field, new)
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(text)
                ok = True
            except Exception:
                ok = False
            a, b = ast.unparse(o), ast.unparse(new)
            if idx is not None:
                old[idx] = o
            else:
                setattr(parent, field, o)
            if ok and a != b:
                json.dump({'n': n, 'file': f, 'fn': fn, 'line': line,
                           'desc': desc, 'old': a.split('\n')[0][:120],
                           'new': b.split('\n')[0][:120], 'text': text},
                          open('%s/m%04d.json' % (d, n), 'w'))
                n += 1
    print(n, 'mutants')


GATES = {
    'sortedlist.py': (
        'self._load == 6 and len(self._lists) > 2', 'len(self._lists) == 5',
        'len(self) == 13', 'len(self._lists) > 20 and self._load < 9',
        'self._load == 1000 and len(self) > 3000',
        'len(self._lists) == 2 and len(self._lists[0]) == '
        'len(self._lists[1])', 'self._len % 16 == 11',
        'len(self._lists) > 2 and len(self._lists[1]) == 2 * self._load',
        'bool(self._index) and len(self._lists) == 3',
        'self._key is not None and len(self._lists) > 3'),
    'sorteddict.py': (
        'len(self) == 7', 'self._key is not None and len(self) > 3',
        'len(self._list._lists) == 3', 'len(self) > 2500',
        'self._list._load == 4 and len(self) % 8 == 5',
        'bool(self._list._index)'),
    'sortedset.py': (
        'len(self) == 7', 'self._key is not None and len(self) > 3',
        'len(self._list._lists) == 3', 'len(self) > 2500',
        'self._list._load == 4 and len(self) % 8 == 5',
        'bool(self._list._index)')}


def gated(d, count, seed):
    """Mutants that differ from the original only in a rare state."""
    rnd = random.Random(seed)
    n = 0
    everything = []
    for f in FILES:
        tree = ast.parse(open(os.path.join(SRC, f)).read())
        meth = {}
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and m.args.args and \
                            m.args.args[0].arg == 'self':
                        inner = {id(y) for x in ast.walk(m)
                                 if x is not m and isinstance(
                                     x, (ast.FunctionDef, ast.Lambda,
                                         ast.GeneratorExp, ast.ListComp,
                                         ast.SetComp, ast.DictComp))
                                 for y in ast.walk(x)}
                        for x in ast.walk(m):
                            if id(x) not in inner and x is not m:
                                meth[id(x)] = m.name
        for s in sites(tree):
            o = getattr(s[3], s[4])
            o = o[s[5]] if s[5] is not None else o
            if id(o) in meth and meth[id(o)] not in (
                    '__init__', '__new__', '_check', '__repr__', '_reset',
                    '__reduce__'):
                everything.append((f, tree, s, o))
    rnd.shuffle(everything)
    for f, tree, (fn, line, desc, parent, field, idx, new), o in everything:
        if n == count:
            break
        g = rnd.choice(GATES[f])
        cond = ast.parse(g, mode='eval').body
        if isinstance(o, ast.stmt):
            if isinstance(o, (ast.If, ast.While)):
                continue
            both = ast.If(cond, [new], [o])
        elif isinstance(o, ast.expr) and not isinstance(
                getattr(o, 'ctx', ast.Load()), (ast.Store, ast.Del)):
            both = ast.IfExp(cond, new, o)
        else:
            continue
        old = getattr(parent, field)
        if idx is not None:
            old[idx] = both
        else:
            setattr(parent, field, both)
        try:
            text = ast.unparse(ast.fix_missing_locations(tree))
            compile(text, f, 'exec')
            ok = True
        except Exception:
            ok = False
        if idx is not None:
            old[idx] = o
        else:
            setattr(parent, field, old)
        a, b = ast.unparse(o), ast.unparse(new)
        if ok and a != b:
            json.dump({'n': n, 'file': f, 'fn': fn, 'line': line,
                       'desc': desc + ' if ' + g,
                       'old': a.split('\n')[0][:120],
                       'new': b.split('\n')[0][:120], 'text': text},
                      open('%s/m%04d.json' % (d, n), 'w'))
            n += 1
    print(n, 'mutants')


def place(m, tag):
    t = '/tmp/mutw.%s' % tag
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('/repo', t, symlinks=True, ignore=shutil.ignore_patterns(
        '__pycache__', '.git'))
    open(os.path.join(t, 'src/sortedcontainers', m['file']), 'w').write(
        m['text'])
    return t


def test1(p):
    m = json.load(open(p))
    if 'tests' in m:
        return m['tests']
    t = place(m, os.getpid())
    env = dict(os.environ, PYTHONPATH=t + '/src', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
             'no:cacheprovider', '--timeout=30'], cwd=t, env=env, timeout=120,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m['tests'] = 'pass' if r.returncode == 0 else 'fail'
    except subprocess.TimeoutExpired:
        m['tests'] = 'fail'
    finally:
        shutil.rmtree(t, ignore_errors=True)
    json.dump(m, open(p, 'w'))
    return m['tests']


def check1(a):
    p, step, limit = a
    m = json.load(open(p))
    if m.get('tests') != 'pass':
        return
    if m.get('check', '').startswith('caught') or \
            m.get('step', 999) <= step:
        return
    t = place(m, os.getpid())
    env = dict(os.environ, SX_SRC=t + '/src', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run(
            ['python3-vt', os.path.abspath(__file__), 'run', str(step),
             str(limit), m['file']], env=env, timeout=limit + 120,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout.strip().splitlines()
        m['check'] = out[-1][:200] if out else 'nothing'
    except subprocess.TimeoutExpired:
        m['check'] = 'timeout'
    finally:
        shutil.rmtree(t, ignore_errors=True)
    m['step'] = step
    json.dump(m, open(p, 'w'))
    if not m['check'].startswith('caught'):
        print(m['n'], m['file'], m['fn'], m['line'], m['desc'], '|', m['old'],
              '=>', m['new'], '|', m['check'][:80], flush=True)


REL = {'sortedlist.py': (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 18, 19, 20, 22),
       'sorteddict.py': (8, 9, 14, 15, 16, 17, 18, 19, 20, 21, 22),
       'sortedset.py': (3, 4, 8, 9, 11, 12, 13, 18, 19, 20, 21, 22)}


def run(step, limit, file):
    import time
    sys.path.insert(0, ROOT)
    from sx import runner
    T = []
    for i in REL[file]:
        P = 'C%02d' % i
        for t in importlib.import_module('harness.' + P.lower()).tasks(
                'quick'):
            if t.cost <= 60:
                T.append((P, t))
    random.Random(7).shuffle(T)
    T = T[::step]
    T.sort(key=lambda x: x[1].cost)
    runner._COV = type('C', (), {'funcs': (), 'lines': ()})()
    runner.TASK_LIMIT_S = 40
    t0 = time.time()
    n = 0
    for i, (P, t) in enumerate(T):
        runner._PROP = 'MU%d' % os.getpid()
        i, r = runner._work((i, t, ()))
        n += 1
        f = os.path.join(ROOT, 'evidence/replay/MU%d-%d.json' % (os.getpid(),
                                                               i))
        if os.path.exists(f):
            os.unlink(f)
        if r['status'] == 'violation':
            print('caught %s %s %s' % (P, r['label'], t.ident()))
            return
        if r['status'] in ('error', 'unreproduced', 'inconclusive'):
            print('trouble %s %s %s' % (P, r['status'], str(
                r.get('detail'))[-120:].replace('\n', ' ')))
            return
        if time.time() > t0 + limit:
            break
    print('missed after %d of %d tasks, %.0f s' % (n, len(T),
                                                   time.time() - t0))


def main():
    cmd = sys.argv[1]
    if cmd == 'run':
        return run(int(sys.argv[2]), float(sys.argv[3]), sys.argv[4])
    d = sys.argv[2]
    if cmd == 'gen':
        return gen(d)
    if cmd == 'gated':
        return gated(d, int(sys.argv[3]), int(sys.argv[4]))
    fs = sorted(os.path.join(d, x) for x in os.listdir(d)
                if re.match(r'm\d+\.json$', x))
    procs = int(os.environ.get('PROCS', '8'))
    with multiprocessing.Pool(procs) as pool:
        if cmd == 'test':
            r = list(pool.imap_unordered(test1, fs))
            print(len(r), 'mutants', r.count('pass'), 'survive')
        else:
            step = int(sys.argv[3]) if len(sys.argv) > 3 else 12
            limit = float(sys.argv[4]) if len(sys.argv) > 4 else 240
            only = set(map(int, sys.argv[5:]))
            for _ in pool.imap_unordered(check1, [
                    (f, step, limit) for f in fs if not only or
                    int(os.path.basename(f)[1:5]) in only]):
                pass


if __name__ == '__main__':
    main()
