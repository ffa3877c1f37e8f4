"""C07: irange and islice yield exactly the requested range."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'any bounds (values, keys, None), all four inclusive pairs, both '
             'directions; all ties on up to 8 values, strict orders up to 27 '
             'values in 9 sublists; islice with any integer or None bounds on '
             'up to 14 values',
    'thorough': 'all ties on up to 17 values; up to 51 values in 17 sublists',
}
M = 'harness.c07'
INC = [(True, True), (True, False), (False, True), (False, False)]


def want_cond(ctx, t, lo, hi, inc):
    """Spec: t lies between the bounds (ranks)."""
    c = []
    u = ctx.rank_of(t)
    if lo is not None:
        c.append(ctx.Not(ctx.lt(u, lo)) if inc[0] else ctx.lt(lo, u))
    if hi is not None:
        c.append(ctx.Not(ctx.lt(hi, u)) if inc[1] else ctx.lt(u, hi))
    return ctx.And(*c)


def decide(ctx, A, got, lo, hi, inc, reverse, label):
    pos = {t.uid: i for i, t in enumerate(A)}
    idx = []
    for t in got:
        if getattr(t, 'uid', None) not in pos:
            ctx.fail(label + ': yields something that is not stored')
        idx.append(pos[t.uid])
    if reverse:
        idx = idx[::-1]
    ctx.check(all(a < b for a, b in zip(idx, idx[1:])), label + ': order')
    sel = set(idx)
    ctx.check(ctx.And(*[want_cond(ctx, t, lo, hi, inc) if i in sel else
                        ctx.Not(want_cond(ctx, t, lo, hi, inc))
                        for i, t in enumerate(A)]),
              label + ': exactly the values in range',
              lambda: 'positions %r' % (idx,))


def h_irange(ctx, shape, warm, order, lo, hi, keyarg, how, inc=None,
             reverse=None, cls='list'):
    s, A = build(ctx, shape, warm, order, cls=cls)
    mk = ctx.ktok if keyarg else ctx.tok
    a = mk('lo') if lo == 'sym' else ctx.pick('whichlo', A) if lo == 'own' \
        else None
    b = mk('hi') if hi == 'sym' else a if hi == 'same' else None
    ua, ub = (x if keyarg or x is None else ctx.rank_of(x) for x in (a, b))
    name = 'irange_key' if keyarg else 'irange'
    f = getattr(s, name)
    incs = INC if inc is None else [inc]
    revs = (False, True) if reverse is None else (reverse,)
    for ic in incs:
        for rv in revs:
            label = '%s inclusive=%r reverse=%r' % (name, ic, rv)
            if how == 'kw':
                k = {} if keyarg else {}
                args = {('min_key' if keyarg else 'minimum'): a,
                        ('max_key' if keyarg else 'maximum'): b,
                        'inclusive': ic, 'reverse': rv}
                args = {x: y for x, y in args.items() if y is not None}
                it = ctx.ok(label, f, **args)
            else:
                it = ctx.ok(label, f, a, b, ic, rv)
            ctx.check(iter(it) is it, label + ': is an iterator')
            got = ctx.ok(label, list, it)
            decide(ctx, A, got, ua, ub, ic, rv, label)
    if lo is None and hi is None:
        ctx.same_list(f(), A, name + '() yields everything')
    ctx.same_list(list(s), A, name + ' changed the list')


def h_run(ctx, shape, keyarg, side):
    """Ties running over any part of any number of sublists."""
    s, A = build_run(ctx, shape)
    v = ctx.ktok('v') if keyarg else ctx.tok('v')
    u = v if keyarg else ctx.rank_of(v)
    f = s.irange_key if keyarg else s.irange
    for ic in INC:
        for rv in (False, True):
            lo, hi = (v, None) if side == 'lo' else (None, v) if \
                side == 'hi' else (v, v)
            got = ctx.ok('run: irange', lambda: list(f(lo, hi, ic, rv)))
            decide(ctx, A, got, None if lo is None else u,
                   None if hi is None else u, ic, rv, 'run: irange')


def h_islice(ctx, shape, warm, a, b, cls='list'):
    s, A = build(ctx, shape, warm, cls=cls)
    start = ctx.int('start') if a == 'sym' else a
    stop = ctx.int('stop') if b == 'sym' else b
    got = ctx.ok('islice', lambda: list(s.islice(start, stop)))
    rev = ctx.ok('islice', lambda: list(s.islice(start, stop, True)))
    kw = ctx.ok('islice', lambda: list(
        s.islice(start=start, stop=stop, reverse=True)))
    pos = slice_positions(ctx, (start, stop, None), len(A))
    want = [A[p] for p in pos]
    ctx.same_list(got, want, 'islice')
    ctx.same_list(rev, want[::-1], 'islice reverse')
    ctx.same_list(kw, want[::-1], 'islice reverse (keywords)')
    ctx.same_list(list(s), A, 'islice changed the list')


def h_after(ctx, shape, op):
    """Ranges answer for the contents after a change."""
    s, A = build(ctx, shape, True)
    if op == 'add':
        v = ctx.tok('n')
        s.add(v)
        R = list(s)
        check_perm(ctx, R, A + [v], 'add: multiset')
        check_sorted(ctx, R, 'add: sorted')
    elif op == 'del':
        i = ctx.int('i', 0, len(A) - 1)
        del s[i]
        i = int(i)
        R = A[:i] + A[i + 1:]
        ctx.same_list(list(s), R, 'del: contents')
    elif op == 'clear':
        s.clear()
        R = []
    a = ctx.tok('lo')
    got = list(s.irange(a, None, (False, True)))
    decide(ctx, R, got, ctx.rank_of(a), None, (False, True), False,
           'irange after ' + op)
    got = list(s.irange(None, a, (True, True), True))
    decide(ctx, R, got, None, ctx.rank_of(a), (True, True), True,
           'irange reverse after ' + op)
    n = len(R)
    for x in range(0, n + 1):
        ctx.same_list(s.islice(x), R[x:], 'islice after ' + op)
        ctx.same_list(s.islice(None, x, True), R[:x][::-1],
                      'islice reverse after ' + op)


def h_interleave(ctx, shape, warm):
    """Several iterators at once, and reads in between, do not interfere."""
    s, A = build(ctx, shape, warm)
    n = len(A)
    a, b = ctx.tok('a'), ctx.tok('b')
    i = ctx.int('i', 0, n)
    want = [list(s.irange(a)), list(s.irange(None, b, (True, False), True)),
            list(s.islice(i)), list(s.islice(None, i, True)), A, A[::-1]]
    its = [s.irange(a), s.irange(None, b, (True, False), True), s.islice(i),
           s.islice(None, i, True), iter(s), reversed(s)]
    got = [[] for _ in its]
    for t in range(n + 1):
        for it, g in zip(its, got):
            x = next(it, None)
            if x is not None:
                g.append(x)
        if t < n:
            ctx.check(s[t] is A[t], 'reading while iterating')
            s.bisect_left(A[t])
    for g, w in zip(got, want):
        ctx.same_list(g, w, 'interleaved iterators')


def h_default_load(ctx, lo, hi, reverse):
    n = 2600
    s = new_list(ctx, None)
    A = ctx.const_chain(n)
    s.update(A)
    v = ctx.tok('v')
    u = ctx.rank_of(v)
    ctx.assume(ctx.lt(ctx.rank_of(A[lo]), u))
    ctx.assume(ctx.lt(u, ctx.rank_of(A[hi])))
    other = A[lo - 900] if lo > 1500 else A[hi + 900]
    a, b = (other, v) if lo > 1500 else (v, other)
    for ic in INC:
        got = list(s.irange(a, b, ic, reverse))
        if reverse:
            got = got[::-1]
        pos = {t.uid: i for i, t in enumerate(A)}
        idx = [pos[t.uid] for t in got]
        ctx.check(idx == list(range(idx[0], idx[-1] + 1)),
                  'default load: contiguous')
        w = range(lo, hi + 1)
        if lo > 1500:
            ctx.check(idx[0] == lo - 900 + (not ic[0]), 'default load: start')
            want = lo + ctx.Count([
                ctx.Not(ctx.lt(u, ctx.rank_of(A[p]))) if ic[1] else
                ctx.lt(ctx.rank_of(A[p]), u) for p in w])
            ctx.check(want == idx[-1] + 1, 'default load: end')
        else:
            ctx.check(idx[-1] == hi + 900 - (not ic[1]), 'default load: end')
            want = lo + ctx.Count([
                ctx.lt(ctx.rank_of(A[p]), u) if ic[0] else
                ctx.Not(ctx.lt(u, ctx.rank_of(A[p]))) for p in w])
            ctx.check(want == idx[0], 'default load: start')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        strict = [(4, ()), (4, (3,)), (4, (3, 3)), (4, (4, 4, 2))] + (
            [(4, (3, 8, 3)), (5, (3, 5, 10)), (4, (3,) * 9)]
            if full else [])
        onesided = SHAPES + [(4, (3,) * 9)] + (
            [(4, (3,) * 17), (8, (16, 7) * 4)] if full else [])
        weak = [(4, (3,)), (4, (2, 2)), (4, (3, 3))] + (
            [(4, (4, 4)), (4, (3, 3, 3)), (4, (4, 4, 2))] if full else [])
        for ka in (False, True) if keyed else (False,):
            how = 'kw' if ka else 'pos'
            for sh in strict:
                add('h_irange', shape=sh, warm=False, order='strict',
                    lo='sym', hi='sym', keyarg=ka, how=how,
                    cost=sum(sh[1]) ** 2)
            for sh in onesided:
                for lo, hi in ((None, None), ('sym', None), (None, 'sym'),
                               ('sym', 'same')):
                    add('h_irange', shape=sh, warm=True, order='strict',
                        lo=lo, hi=hi, keyarg=ka,
                        how='kw' if lo is None else 'pos', cost=sum(sh[1]))
            for sh in weak:
                add('h_irange', shape=sh, warm=True, order='weak',
                    lo='sym', hi='sym', keyarg=ka, how='pos',
                    cost=sum(sh[1]) ** 3)
            for sh in weak + [(4, (4, 4)), (4, (3, 3, 3))]:
                for lo, hi in (('sym', None), (None, 'sym'), ('sym', 'same')):
                    add('h_irange', shape=sh, warm=True, order='weak', lo=lo,
                        hi=hi, keyarg=ka, how='kw', cost=sum(sh[1]) ** 2)
        for sh in [(4, (3, 4, 2))] + ([(4, (8, 3, 4)), (4, (3, 4, 3, 3))]
                                      if full else []):
            for ka in (False, True) if keyed else (False,):
                for side in ('lo', 'hi', 'both'):
                    add('h_run', shape=sh, keyarg=ka, side=side, cost=150)
        for sh in [(4, ()), (4, (3,)), (4, (3, 3)), (4, (4, 4, 2)),
                   (4, (3, 8))] + (
                [(4, (3, 8, 3)), (4, (3,) * 9)] if full else []):
            for a, b in ((None, None), ('sym', None), (None, 'sym'),
                         ('sym', 'sym')):
                add('h_islice', shape=sh, warm=a is None, a=a, b=b,
                    cost=sum(sh[1]) ** 2)
        for a, b in (('sym', None), (None, 'sym')):
            for sh in [(4, (3,) * 9), (4, (3, 4, 3, 3, 4))]:
                add('h_islice', shape=sh, warm=True, a=a, b=b, cost=20)
        for sh in [(4, (3,)), (4, (3, 3)), (4, (2, 3, 1))]:
            add('h_interleave', shape=sh, warm=len(sh[1]) < 3, cost=40)
        for op in ('add', 'del', 'clear'):
            for sh in [(4, (3, 3)), (4, (8, 3))]:
                add('h_after', shape=sh, op=op, cost=30)
        add('h_irange', shape=(4, (3, 3)), warm=True, order='strict', lo='sym',
            hi=None, keyarg=False, how='kw', cls='set', cost=20)
        add('h_irange', shape=(4, (3, 3)), warm=True, order='strict', lo='sym',
            hi='sym', keyarg=keyed, how='kw', cls='dict', cost=40)
        add('h_islice', shape=(4, (3, 3)), warm=True, a='sym', b='sym',
            cls='dict', cost=20)
        for rv in (False, True):
            for lo, hi in ((997, 1003), (1997, 2003)):
                add('h_default_load', lo=lo, hi=hi, reverse=rv, cost=300)
        for sh in pasts('list', tier, True):
            for lo, hi in (('sym', None), (None, 'sym')):
                add('h_irange', shape=sh, warm=False, order='strict', lo=lo,
                    hi=hi, keyarg=False, how='pos', cost=40)
            if not sh[1].startswith('ask '):
                add('h_islice', shape=sh, warm=False, a='sym', b=None,
                    cost=40)
    T += anysize('range', tier)
    T += calls('C07', tier)
    T += variants(T, M, tier)
    return T
