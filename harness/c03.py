"""C03: indexing and slicing read like a Python list."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'every integer index and every slice start/stop (unbounded '
             'integers), steps None, 1, 2, 3, -1, -2, -3 and any step on '
             'small shapes; at most 51 values in at most 17 sublists for '
             'indices, 13 values for slices',
    'thorough': 'any step with any start/stop on up to 11 values; at most 132 '
                'values in at most 33 sublists for indices',
}
M = 'harness.c03'


def h_get(ctx, shape, warm, cls, order):
    s, A = build(ctx, shape, warm, order, cls=cls)
    n = len(A)
    i = ctx.int('i')
    st, r = ctx.call(s.__getitem__, i)
    ii = ctx.n(i)
    inside = ctx.And(-n <= ii, ii < n)
    if st == 'exc':
        if not isinstance(r, IndexError):
            ctx.fail('s[i]: unexpected ' + type(r).__name__, repr(r))
        ctx.check(ctx.Not(inside), 's[i]: IndexError for a valid index')
    else:
        p = [k for k, t in enumerate(A) if t is r]
        ctx.check(len(p) == 1, 's[i]: not a stored value')
        p = p[0]
        ctx.check(ctx.Or(ii == p, ii == p - n), 's[i]: wrong position')
    ctx.same_list(list(s), A, 's[i]: container changed')
    j = ctx.classify(i, -n - 1, n)
    if -n <= j < n:      # a second read of a neighbour, index tree now warm
        for q in (0, n - 1, (j + 1) % n):
            ctx.check(s[q] is A[q], 's[i]: second read')


def h_slice(ctx, shape, warm, cls, order, a, b, step):
    s, A = build(ctx, shape, warm, order, cls=cls)
    parts = sym_slice(ctx, a, b, step)
    st, r = ctx.call(s.__getitem__, slice(*parts))
    if st == 'exc':
        ctx.fail('s[slice]: unexpected ' + type(r).__name__, repr(r))
    pos = slice_positions(ctx, parts, len(A))
    ctx.check(type(r) is list, 's[slice]: result is a plain list')
    ctx.same_list(r, [A[p] for p in pos], 's[slice]: values')
    ctx.same_list(list(s), A, 's[slice]: container changed')
    r.append(None)          # the result is a fresh list
    ctx.same_list(list(s), A, 's[slice]: result shares storage')
    del r[:]
    observe(ctx, s, A, 's[slice]: after changing the result', index=False)


def h_zero_step(ctx, shape, cls):
    s, A = build(ctx, shape, True, cls=cls)
    ctx.raises(ValueError, 's[::0]', s.__getitem__, slice(None, None, 0))
    observe(ctx, s, A, 'after s[::0]')


def h_default_load(ctx, cls, lo, hi, slices, dele):
    n = 2600
    s = new_list(ctx, None) if cls == 'list' else ctx.sc.SortedSet(
        key=seq_key(ctx))
    c = ctx.const_chain(n, hashed=True)
    s.update(c)
    A = list(c)
    if dele:
        s[5]
        for p in (1500, 10):
            del s[p]
            del A[p]
        n = len(A)
    i = ctx.int('i')
    ctx.assume(ctx.And(lo <= ctx.n(i), ctx.n(i) <= hi))
    if not slices:
        r = ctx.ok('s[i]', s.__getitem__, i)
        ctx.check(r is A[int(i)], 'default load: s[i]')
    else:
        r = ctx.ok('s[a:b]', s.__getitem__, slice(i, i + 7))
        ctx.same_list(r, A[int(i):int(i) + 7] if int(i) + 7 else [],
                      'default load: s[i:i+7]')
        r = ctx.ok('s[a:b:-1]', s.__getitem__, slice(i + 7, i, -1))
        ctx.same_list(r, A[int(i) + 7:int(i):-1],
                      'default load: s[i+7:i:-1]')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for cls in ('list', 'set'):
            for sh in SHAPES + [(4, (3,) * 9), (4, (3,) * 17),
                                (4, (4,) * 8 + (1,)), (6, (12, 5, 12))] + (
                    [(4, (4,) * 33), (8, (16, 7) * 8)] if full else []):
                for warm in (False, True):
                    if warm and len(sh[1]) < 2:
                        continue
                    if cls == 'set' and not warm and len(sh[1]) > 3:
                        continue
                    add('h_get', shape=sh, warm=warm, cls=cls,
                        order='strict', cost=sum(sh[1]))
            shs = [(4, (3, 3)), (4, (3, 8)), (4, (3, 4, 3)), (4, ()),
                   (4, (3,))]
            if full:
                shs += [(4, (3, 8, 3)), (4, (3,) * 9), (4, (4, 4, 4, 1))]
            for sh in shs:
                steps = (None, 1, -1, 2, -2, 3, -3, 7)
                if keyed or cls == 'set':
                    steps = (None, -1, 2, -3) if not full else steps
                if not full and sum(sh[1]) > 8:
                    steps = steps[:4] if cls == 'list' and not keyed else \
                        (None, -1)
                for step in steps:
                    if cls == 'set' and not full and keyed:
                        continue
                    add('h_slice', shape=sh, warm=True, cls=cls,
                        order='strict', a='sym', b='sym', step=step,
                        cost=sum(sh[1]) ** 2)
                for a, b in ((None, None), (None, 'sym'), ('sym', None)):
                    if not full and keyed and cls == 'set':
                        continue
                    add('h_slice', shape=sh, warm=False, cls=cls,
                        order='strict', a=a, b=b, step='sym',
                        cost=sum(sh[1]) * 5)
                    add('h_slice', shape=sh, warm=False, cls=cls,
                        order='strict', a=a, b=b, step=None, cost=9)
            add('h_slice', shape=(4, (3,)), warm=False, cls=cls,
                order='strict', a='sym', b='sym', step='sym', cost=100)
            if full:
                add('h_slice', shape=(4, (3, 3)), warm=True, cls=cls,
                    order='strict', a='sym', b='sym', step='sym', cost=1000)
                add('h_slice', shape=(4, (3, 8)), warm=True, cls=cls,
                    order='strict', a='sym', b='sym', step='sym', cost=2000)
            add('h_zero_step', shape=(4, (3, 3)), cls=cls)
            for lo, hi in ((995, 1003), (-1605, -1595), (1995, 2003),
                           (2595, 2599), (-2600, -2598)):
                for sl in (False, True):
                    for dele in (False, True):
                        if (dele or cls == 'set') and not full and lo != 995:
                            continue
                        if dele and (lo > 2000 or lo == -2600):
                            continue
                        add('h_default_load', cls=cls, lo=lo, hi=hi,
                            slices=sl, dele=dele, cost=100)
        for cls in ('list', 'set'):
            for sh in pasts(cls, tier):
                if cls == 'set' and keyed and not full:
                    continue
                add('h_get', shape=sh, warm=False, cls=cls, order='strict',
                    cost=40)
                if not full and (keyed or cls == 'set'):
                    continue
                add('h_slice', shape=sh, warm=False, cls=cls, order='strict',
                    a='sym', b=None, step=-1, cost=40)
                add('h_slice', shape=sh, warm=False, cls=cls, order='strict',
                    a=3, b='sym', step=None, cost=40)
    T += anysize('read', tier)
    T += big('setpos', tier)
    T += variants(T, M, tier)
    return T
