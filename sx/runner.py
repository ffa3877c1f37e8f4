"""Run the tasks of one property in parallel and write the evidence."""
import gc
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN_PY = '/opt/venv/bin/python'
if not os.path.exists(PLAIN_PY):
    PLAIN_PY = sys.executable
PATH_LIMIT_S = float(os.environ.get('SX_PATH_LIMIT', '40'))
SAMPLES_PER_TASK = 3
# A changed tree may make the exploration explode: stop in time, keep what was
# explored, and say so in the evidence.
TASK_LIMIT_S, TOTAL_LIMIT_S = 240.0, 600.0
DEADLINE = float('inf')


class Coverage:
    """Functions and lines of the package entered during symbolic runs."""

    def __init__(self):
        self.lines = set()
        self.funcs = set()
        mon = sys.monitoring
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, 'sx')
        except ValueError:
            return
        from .loader import SRC

        def line(code, ln):
            if code.co_filename.startswith(SRC):
                self.lines.add((os.path.basename(code.co_filename), ln))
                self.funcs.add(code.co_qualname)
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.LINE, line)
        mon.set_events(self.tool, mon.events.LINE)


_COV = None


def _alarm(sig, frame):
    from .engine import Diverged
    raise Diverged('path exceeded %.0f s' % PATH_LIMIT_S)


def small_model(eng, ctx, layer2):
    """A model small enough to build for real (layer 2), or None."""
    sizes = getattr(ctx, 'sizes', None)
    if not layer2 or not sizes:
        return eng.model
    for bound in (5, 8, 20, 100, 1000):
        eng.solver.push()
        try:
            for t in sizes:
                eng.solver.add(t <= bound)
            if eng._check():
                return eng.solver.model()
        finally:
            eng.solver.pop()
    return None


def run_task(task, known=(), int_mode='sym', max_paths=2000000):
    """Explore one task; returns a result dict."""
    from . import engine as E
    from . import loader
    from .symctx import SymCtx
    fn = task.resolve()
    eng = E.Engine(max_paths=max_paths)
    res = {'task': task.ident(), 'spec': task.spec(), 'status': 'ok',
           'label': '', 'detail': '', 'assignment': None, 'samples': [],
           'mode': int_mode, 'known': {}}
    t0 = time.time()
    state = {}
    signal.signal(signal.SIGALRM, _alarm)

    def one():
        signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT_S)
        try:
            sc = loader.fresh_symbolic(task.layer2)
            ctx = state['ctx'] = SymCtx(sc, eng, task.keyed, int_mode)
            try:
                try:
                    fn(ctx, **task.params)
                except Exception:
                    ctx.flush()
                    raise
                ctx.flush()
            except E.Found as f:
                if f.label in known:
                    res['known'].setdefault(
                        f.label, ctx.assignment(eng.model))
                    raise E.PathAbort()
                raise
            except RecursionError as e:
                eng.fail('unexpected RecursionError', repr(e)[:200])
            except Exception as e:
                import traceback
                eng.fail('unexpected ' + type(e).__name__,
                         traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def on_path(eng):
        if len(res['samples']) < SAMPLES_PER_TASK:
            m = small_model(eng, state['ctx'], task.layer2)
            if m is not None:
                res['samples'].append(state['ctx'].assignment(m))

    try:
        limit = TASK_LIMIT_S / 4 if task.layer2 else TASK_LIMIT_S
        eng.explore(one, on_path, min(t0 + limit, DEADLINE))
    except E.Found as f:
        m = small_model(eng, state['ctx'], task.layer2) or eng.model
        res.update(status='found', label=f.label, detail=str(f.detail),
                   assignment=state['ctx'].assignment(m))
    except E.Diverged as e:
        res.update(status='diverged', label='does not terminate',
                   detail=str(e))
        try:
            eng.model = None
            eng._ensure_model()
            res['assignment'] = state['ctx'].assignment(eng.model)
        except BaseException:
            res['assignment'] = {}
    except E.Cut:
        res.update(status='cut')
    except E.Inconclusive as e:
        res.update(status='inconclusive', detail=str(e))
    res.update(paths=eng.paths, aborted=eng.aborted, decisions=eng.decisions,
               forced=eng.forced, queries=eng.queries, solver_s=eng.solver_s,
               obligations=eng.obligations,
               concrete_obligations=eng.concrete_obligations,
               wall_s=time.time() - t0)
    return res


def replay(spec, assignment, path, meta, timeout=120):
    """Write the replay file and run it on the plain package."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    d = dict(meta)
    d.update(task=spec, assignment=assignment)
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([PLAIN_PY, os.path.join(ROOT, 'replay.py'), path],
                           capture_output=True, text=True, timeout=timeout,
                           env=env)
    except subprocess.TimeoutExpired:
        return 'hang', 'no answer within %d s' % timeout
    if p.returncode == 1 and p.stdout.startswith('VIOLATED'):
        return 'violated', p.stdout
    return 'not reproduced', p.stdout + p.stderr


def batch_validate(items):
    """Run sample assignments concretely on the plain package."""
    if not items:
        return []
    if len(items) > 200:
        n = -(-len(items) // (os.cpu_count() or 4))
        parts = [items[i:i + n] for i in range(0, len(items), n)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(len(parts)) as ex:
            return [r for p in ex.map(_batch, parts) for r in p]
    return _batch(items)


def _batch(items):
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, 'in'), os.path.join(d, 'out')
        json.dump(items, open(a, 'w'))
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        subprocess.run([PLAIN_PY, os.path.join(ROOT, 'replay.py'), '--batch',
                        a, b], check=True, env=env, timeout=300)
        return json.load(open(b))


def _init():
    global _COV
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _COV = Coverage()
    sys.setrecursionlimit(3000)


def _work(a):
    i, task, known = a
    try:
        if time.time() > DEADLINE:
            return i, {'task': task.ident(), 'status': 'cut', 'paths': 0,
                       'spec': task.spec()}
        r = run_task(task, known)
        if task.layer2:
            if r['status'] in ('found', 'diverged'):
                r = _confirm(i, task, known, r)
            if r['status'] in ('inconclusive', 'unreproduced'):
                r['note'] = 'declined: %s %s' % (
                    r['status'], str(r['label'] or r['detail'])[:300])
                r['status'] = 'declined'
                r['samples'] = []
        elif r['status'] == 'found' or r['status'] == 'diverged':
            r = _confirm(i, task, known, r)
        elif r['status'] == 'inconclusive':
            r2 = run_task(task, known, int_mode='conc')
            r2['note'] = 'symbolic-index run inconclusive: ' + r['detail']
            if r2['status'] in ('found', 'diverged'):
                r2 = _confirm(i, task, known, r2)
            r = r2
    except Exception:
        import traceback
        r = {'task': task.ident(), 'status': 'error',
             'detail': traceback.format_exc(), 'spec': task.spec()}
    r['funcs'] = sorted(_COV.funcs)
    r['lines'] = sorted(_COV.lines)
    gc.collect()
    return i, r


_PROP = ''


def _confirm(i, task, known, r):
    path = os.path.join(ROOT, 'evidence', 'replay', '%s-%d.json' % (_PROP, i))
    meta = {'property': _PROP, 'label': r['label'], 'detail': r['detail']}
    st, out = replay(task.spec(), r['assignment'], path, meta)
    r['replay_status'], r['replay_out'], r['replay'] = st, out, path
    if st in ('violated', 'hang'):
        r['status'] = 'violation'
        return r
    if r['mode'] == 'sym' and not task.layer2:
        # The symbolic-integer stand-in may have been rejected by some C
        # function; decide the same task with solver-chosen real integers.
        r2 = run_task(task, known, int_mode='conc')
        r2['note'] = ('symbolic-index counterexample did not reproduce (%s); '
                      'decided with solver-enumerated integers' % r['label'])
        if r2['status'] in ('found', 'diverged'):
            return _confirm(i, task, known, r2)
        return r2
    r['status'] = 'unreproduced'
    return r


def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings']
            if k['property'] == prop]


def run_property(prop, tasks, tier, level='model_checking', assumptions=(),
                 bounds='', extra=None, procs=None, stop_first=True,
                 verbose=False):
    global _PROP, TASK_LIMIT_S, DEADLINE
    _PROP = prop
    t0 = time.time()
    if tier == 'thorough':
        TASK_LIMIT_S, total = 3600.0, 4 * 3600.0
    else:
        total = TOTAL_LIMIT_S
    DEADLINE = t0 + total
    rd = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rd, f))
    kf = load_known(prop)
    known = tuple(k['label'] for k in kf)
    procs = procs or os.cpu_count() or 4
    from . import loader, symctx  # noqa: F401  (import before forking)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].cost)
    jobs = [(i, tasks[i], known) for i in order]
    results = {}
    mp = multiprocessing.get_context('fork')
    bad = None
    pool = mp.Pool(procs, _init)
    try:
        for i, r in pool.imap_unordered(_work, jobs, chunksize=1):
            results[i] = r
            if verbose:
                print('%-70s %-10s paths=%d q=%d %.1fs' % (
                    r['task'][:110], r['status'], r.get('paths', 0),
                    r.get('queries', 0), r.get('wall_s', 0)), flush=True)
            if r['status'] == 'violation' and stop_first:
                bad = r
                break
    finally:
        pool.terminate()
        pool.join()
    rs = [results[i] for i in sorted(results)]
    viol = [r for r in rs if r['status'] == 'violation']
    errs = [r for r in rs
            if r['status'] in ('error', 'unreproduced', 'inconclusive')]
    ex = []
    if extra is not None and not viol:
        ex = extra(tier)      # further result dicts (layer 2)
        viol += [r for r in ex if r['status'] == 'violation']
        errs += [r for r in ex if r['status'] in ('error', 'unreproduced')]
    # encoding validation: solver models of completed paths, run for real
    items = []
    for r in rs:
        for s in r.get('samples', ()):
            items.append({'task': r['spec'], 'assignment': s})
    validated = 0
    if not viol and not errs:
        for it, out in zip(items, batch_validate(items)):
            if out[0] == 'ok':
                validated += 1
            elif out[0] == 'violated':
                path = os.path.join(rd, '%s-sample.json' % prop)
                st, o = replay(it['task'], it['assignment'], path,
                               {'property': prop, 'label': out[1]})
                if st == 'violated' and out[1] not in known:
                    viol.append({'status': 'violation', 'label': out[1],
                                 'replay': path, 'detail': out[2],
                                 'task': str(it['task'])})
            elif 'anysize' in it['task']['mod']:
                pass        # a length pattern the public calls do not reach
            else:
                errs.append({'status': 'error', 'task': str(it['task']),
                             'detail': 'sample skipped: %s' % out[1]})
    tot = lambda k: sum(r.get(k, 0) for r in rs)
    funcs, lines = set(), set()
    for r in rs:
        funcs.update(r.get('funcs', ()))
        lines.update(map(tuple, r.get('lines', ())))
    empty = [r['task'] for r in rs if r['status'] == 'ok' and not r['paths']]
    if empty:
        errs.append({'status': 'error', 'task': empty[0],
                     'detail': 'vacuous: no feasible path'})
    samples = []
    for r in rs[:: max(1, len(rs) // 5)][:6]:
        if r.get('samples'):
            samples.append({'harness': r['task'],
                            'solver_model_of_a_path': r['samples'][-1]})
    cov = {
        'states': tot('paths'),
        'transitions': tot('decisions') + tot('forced'),
        'traces_validated_against_impl': validated,
        'samples': samples,
        'harness_instances': len(tasks),
        'harness_instances_completed': sum(
            r['status'] == 'ok' for r in rs),
        'paths_two_way_decisions': tot('decisions'),
        'paths_one_way_decisions': tot('forced'),
        'solver_queries': tot('queries'),
        'solver_seconds': round(tot('solver_s'), 2),
        'obligations_discharged_by_solver': tot('obligations'),
        'obligations_decided_structurally_on_a_feasible_path':
            tot('concrete_obligations'),
        'functions_encoded': sorted(funcs),
        'source_lines_executed_symbolically': len(lines),
        'fallback_instances': [
            {'task': r['task'], 'note': r['note']} for r in rs
            if r.get('note') and r['status'] != 'declined'],
        'layer2_any_size': {
            'instances': sum('anysize' in r['task'] for r in rs),
            'paths': sum(r.get('paths', 0) for r in rs
                         if 'anysize' in r['task']),
            'declined': [{'task': r['task'], 'note': r.get('note')}
                         for r in rs if r['status'] == 'declined']},
        'bounds': bounds,
        'instances_cut_by_time_limit': [
            r['task'] for r in rs if r['status'] == 'cut'],
        'reachability': 'every harness instance completed at least one path '
                        'whose condition has a solver model',
        'explanation': 'states = completed symbolic paths (each stands for '
                       'all inputs satisfying its path condition); '
                       'transitions = solver-decided branch points; '
                       'traces_validated = solver models of completed paths '
                       'replayed without violation on the unmodified package',
    }
    if ex:
        cov['layer2'] = [{k: v for k, v in r.items() if k != 'spec'}
                         for r in ex]
    ev = {'property': prop, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': level, 'coverage': cov,
          'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    seen_known = set()
    for r in rs + ex:
        seen_known.update(r.get('known', {}))
    for k in kf:
        if k['label'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: %d harness instances, %d paths, %d queries (%.1f s solver), '
          '%d+%d obligations, %d traces validated, %.1f s' % (
              prop, tier, len(tasks), tot('paths'), tot('queries'),
              tot('solver_s'), tot('obligations'),
              tot('concrete_obligations'), validated, time.time() - t0))
    cut = sum(r['status'] == 'cut' for r in rs)
    if cut:
        print('NOTE: %d harness instances were stopped by the time limit; '
              'what they explored held' % cut)
    if viol:
        for r in viol[:3]:
            print('violated: %s\n  in %s\n  %s' % (
                r['label'], r['task'],
                str(r.get('replay_out') or r.get('detail'))[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, r['replay']))
        return 1
    if errs:
        for r in errs[:3]:
            print('ERROR %s: %s %s\n%s' % (
                r['status'], r['task'], r.get('label', ''),
                str(r.get('detail'))[:3000]))
            if r.get('replay_out'):
                print('replay said:', r['replay_out'][:500])
        return 2
    return 0
