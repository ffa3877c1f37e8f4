"""C05: membership, count and index agree with the contents."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'any value argument and any integer start/stop; at most 51 '
             'values in 17 sublists for membership, 14 for count and index; '
             'all ties on shapes of up to 8 values',
    'thorough': 'all ties on shapes of up to 13 values; at most 132 values in '
                '33 sublists for membership',
}
M = 'harness.c05'


def h_run(ctx, shape, warm, period, a):
    """Ties running over any part of any number of sublists."""
    s, A = build_run(ctx, shape, warm, period)
    v = ctx.tok('v') if a is None else ctx.pick('which', A)
    hit = [ctx.eq(t, v) for t in A]
    r = bool(ctx.ok('in', s.__contains__, v))
    ctx.check(ctx.Or(*hit) if r else ctx.Not(ctx.Or(*hit)),
              'run: membership is exact')
    r = ctx.ok('count', s.count, v)
    ctx.check(ctx.n(r) == ctx.Count(hit), 'run: count is exact')
    start = None
    args = (v,)
    if a is not None:
        start = ctx.int('start', 0, len(A))
        args = (v, start)
    st, r = ctx.call(s.index, *args)
    ok = hit if start is None else [
        ctx.And(h, ctx.n(start) <= p) for p, h in enumerate(hit)]
    if st == 'exc':
        ctx.check(isinstance(r, ValueError), 'run: index exception')
        ctx.check(ctx.Not(ctx.Or(*ok)), 'run: ValueError for a stored value')
    else:
        p = int(r)
        ctx.check(0 <= p < len(A), 'run: impossible position')
        ctx.check(ok[p], 'run: position holds an equal value')
        ctx.check(ctx.Not(ctx.Or(*ok[:p])), 'run: first such position')
    ctx.same_list(list(s), A, 'run: list changed')


def h_contains(ctx, shape, warm, order):
    s, A = build(ctx, shape, warm, order)
    v = ctx.tok('v')
    hit = [ctx.eq(t, v) for t in A]
    r = bool(ctx.ok('in', s.__contains__, v))
    ctx.check(ctx.Or(*hit) if r else ctx.Not(ctx.Or(*hit)),
              'membership is exact')
    r2 = ctx.ok('in', lambda: v in s)
    ctx.check(r2 == r, 'in operator')
    ctx.same_list(list(s), A, 'membership changed the list')


def h_count(ctx, shape, warm, order):
    s, A = build(ctx, shape, warm, order)
    v = ctx.tok('v')
    r = ctx.ok('count', s.count, v)
    ctx.check(ctx.n(r) == ctx.Count([ctx.eq(t, v) for t in A]),
              'count is exact')
    ctx.same_list(list(s), A, 'count changed the list')


def h_index(ctx, shape, warm, order, a, b, own):
    s, A = build(ctx, shape, warm, order)
    v = ctx.pick('which', A) if own and A else ctx.tok('v')
    n = len(A)
    start = ctx.int('start') if a == 'sym' else a
    stop = ctx.int('stop') if b == 'sym' else b
    args = (v,) if a is b is None else (v, start) if b is None else (
        v, start, stop)
    st, r = ctx.call(s.index, *args)
    def norm(x, d):
        if x is None:
            return d
        x = ctx.n(x)
        return ctx.If(x < 0, ctx.If(x + n < 0, 0, x + n), x)
    lo, hi = norm(start, 0), norm(stop, n)
    cond = [ctx.And(ctx.eq(t, v), lo <= p, p < hi) for p, t in enumerate(A)]
    if st == 'exc':
        if not isinstance(r, ValueError):
            ctx.fail('index: unexpected ' + type(r).__name__, repr(r))
        ctx.check(ctx.Not(ctx.Or(*cond)),
                  'index: ValueError although the value is in range')
    else:
        p = int(r)
        if not 0 <= p < n:
            ctx.fail('index: impossible position', repr(r))
        ctx.check(cond[p], 'index: value at that position is equal and '
                           'within the bounds')
        ctx.check(ctx.Not(ctx.Or(*cond[:p])), 'index: first such position')
    ctx.same_list(list(s), A, 'index changed the list')
    if st == 'ok':
        ctx.check(s[p] is A[p], 'index then s[i]')


def h_default_load(ctx, lo, hi, dele):
    n = 2600
    s = new_list(ctx, None)
    A = ctx.const_chain(n)
    s.update(A)
    A = list(A)
    if dele:
        s[7]
        for p in (1200, 3):
            del s[p], A[p]
    v = ctx.tok('v')
    u = ctx.rank_of(v)
    ctx.assume(ctx.lt(ctx.rank_of(A[lo]), u))
    ctx.assume(ctx.lt(u, ctx.rank_of(A[hi])))
    win = range(lo, hi + 1)
    hit = {p: ctx.eq(A[p], v) for p in win}
    any_ = ctx.Or(*hit.values())
    r = ctx.ok('in', s.__contains__, v)
    ctx.check(any_ if r else ctx.Not(any_), 'default load: membership')
    c = ctx.ok('count', s.count, v)
    ctx.check(ctx.n(c) == ctx.Count(hit.values()), 'default load: count')
    st, r = ctx.call(s.index, v)
    if st == 'exc':
        ctx.check(isinstance(r, ValueError), 'default load: index')
        ctx.check(ctx.Not(any_), 'default load: index ValueError')
    else:
        ctx.check(r in hit and hit[r], 'default load: index position')
    for f, strict in ((s.bisect_left, True), (s.bisect_right, False)):
        p = ctx.ok('bisect', f, v)
        want = lo + ctx.Count([
            ctx.lt(ctx.rank_of(A[q]), u) if strict else
            ctx.Not(ctx.lt(u, ctx.rank_of(A[q]))) for q in win])
        ctx.check(ctx.n(p) == want, 'default load: bisect')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        deep = [(4, (3,) * 9), (4, (3,) * 17)] + (
            [(4, (4,) * 33), (8, (16, 7) * 8)] if full else [])
        small = [(4, ()), (4, (2,)), (4, (3, 3)), (4, (4, 4)),
                 (4, (3, 2)), (4, (2, 2))] + (
            [(4, (8,)), (4, (3, 3, 3)), (4, (4, 4, 2)), (4, (3, 8)),
             (4, (3, 4, 3, 3))] if full else [])
        orders = ('weak', 'distinct') if keyed else ('weak',)
        for warm in (False, True):
            for sh in SHAPES + deep:
                add('h_contains', shape=sh, warm=warm, order='strict',
                    cost=sum(sh[1]))
                add('h_count', shape=sh, warm=warm, order='strict',
                    cost=sum(sh[1]))
                add('h_index', shape=sh, warm=warm, order='strict', a=None,
                    b=None, own=False, cost=sum(sh[1]))
                if len(sh[1]) > 1:
                    add('h_index', shape=sh, warm=warm, order='strict',
                        a='sym', b=None, own=True, cost=sum(sh[1]))
                    if sum(sh[1]) < 15 or full:
                        add('h_index', shape=sh, warm=warm, order='strict',
                            a='sym', b='sym', own=True, cost=sum(sh[1]) * 3)
            for sh in small:
                for order in orders:
                    add('h_contains', shape=sh, warm=warm, order=order,
                        cost=50)
                    add('h_count', shape=sh, warm=warm, order=order, cost=50)
                    for a, b in ((None, None), ('sym', None), ('sym', 'sym')):
                        if not full and (not warm and b or a and (
                                sum(sh[1]) > 6 or b and sum(sh[1]) > 5)):
                            continue
                        add('h_index', shape=sh, warm=warm, order=order, a=a,
                            b=b, own=False, cost=100 if b else 60)
        for sh in [(4, (3, 4, 2))] + ([(4, (8, 3, 4)), (4, (3, 8, 3)),
                                       (4, (3, 4, 3, 3))] if full else []):
            for per in ((None, 2, 3) if full else (None, 2))[
                    :3 if keyed else 1]:
                for a in (None, 'sym'):
                    add('h_run', shape=sh, warm=a is None, period=per, a=a,
                        cost=150)
        for lo, hi in ((996, 1004), (1996, 2003)) + (
                ((0, 5), (2590, 2597)) if full else ()):
            for d in (False, True):
                add('h_default_load', lo=lo, hi=hi, dele=d, cost=200)
        for sh in pasts('list', tier, True):
            for fn in ('h_contains', 'h_count'):
                add(fn, shape=sh, warm=False, order='strict', cost=40)
            add('h_index', shape=sh, warm=False, order='strict', a=None,
                b=None, own=False, cost=40)
    T += anysize('find', tier)
    T += kinds('list', tier)
    T += calls('C05', tier)
    T += variants(T, M, tier)
    return T
