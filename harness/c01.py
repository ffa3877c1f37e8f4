"""C01: adding values keeps a sorted list a sorted multiset."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'at most 24 stored values in at most 5 sublists (9 for index '
             'shapes), load 4 or 5; at most 3 added values; all orders and '
             'ties; histories of 2 operations',
    'thorough': 'at most 40 stored values in at most 17 sublists, loads 4-7; '
                'at most 5 added values; histories of 3 operations',
}


def seqs(A, new):
    return {t.uid: i for i, t in enumerate(list(A) + list(new))}


def verify(ctx, s, A, new, label, after=True):
    R = ctx.ok(label, list, s)
    check_perm(ctx, R, list(A) + list(new), label + ': same multiset')
    check_sorted(ctx, R, label + ': sorted, ties in insertion order',
                 seqs(A, new))
    observe(ctx, s, R, label)
    return R


def h_add(ctx, shape, warm, order, k, after):
    s, A = build(ctx, shape, warm, order)
    observe(ctx, s, A, 'before add', index=False)
    new = []
    for j in range(k):
        v = ctx.tok('n%d' % j)
        new.append(v)
        r = ctx.ok('add', s.add, v)
        ctx.check(r is None, 'add returns None')
    R = verify(ctx, s, A, new, 'after add')
    if after:
        lookups(ctx, s, R, 'after add')
        drain(ctx, s, R, 'after add')


def h_update(ctx, shape, warm, order, k, form, op):
    s, A = build(ctx, shape, warm, order)
    new = [ctx.tok('n%d' % j) for j in range(k)]
    arg = forms(new, form, ctx)
    if op == 'update':
        ctx.ok('update', s.update, arg)
    else:
        r = ctx.ok('+=', s.__iadd__, arg)
        ctx.check(r is s, '+= returns the list itself')
    R = ctx.ok('update', list, s)
    check_perm(ctx, R, A + new, 'update: same multiset')
    sq = seqs(A, new)
    check_sorted(ctx, R, 'update: sorted, ties in insertion order', sq)
    observe(ctx, s, R, 'after update')
    if order == 'strict':
        lookups(ctx, s, R if k < 2 else new[:1], 'after update', R)
    drain(ctx, s, R, 'after update')


def h_init(ctx, k, form, load):
    new = [ctx.tok('n%d' % j) for j in range(k)]
    s = ctx.ok('constructor', new_list, ctx, None, forms(new, form, ctx))
    R = verify(ctx, s, [], new, 'constructor')
    if load:
        ctx.ok('_reset', s._reset, load)
        ctx.same_list(list(s), R, 'reset keeps contents')
        observe(ctx, s, R, 'after reset')


def h_clear(ctx, shape, warm, k):
    s, A = build(ctx, shape, warm)
    ctx.ok('clear', s.clear)
    observe(ctx, s, [], 'after clear')
    for t in A:
        ctx.check(not ctx.ok('contains', s.__contains__, t),
                  'after clear: old value still found')
        ctx.check(s.bisect_left(t) == 0, 'after clear: bisect_left')
        ctx.check(s.bisect_right(t) == 0, 'after clear: bisect_right')
        ctx.check(s.count(t) == 0, 'after clear: count')
    ctx.same_list(s.irange(), [], 'after clear: irange')
    ctx.same_list(s.islice(), [], 'after clear: islice')
    new = [ctx.tok('n%d' % j) for j in range(k)]
    for v in new:
        ctx.ok('add', s.add, v)
    R = verify(ctx, s, [], new, 'add after clear')
    s.clear()
    more = ctx.chain(9, 'm', strict=True)
    s.update(more)
    observe(ctx, s, more, 'update after clear')
    v = ctx.tok('last')
    s.add(v)
    R = verify(ctx, s, more, [v], 'add after clear and update')
    lookups(ctx, s, R, 'after clear and reuse')


def h_reset(ctx, shape, warm, load2, order):
    s, A = build(ctx, shape, warm, order)
    ctx.ok('_reset', s._reset, load2)
    observe(ctx, s, A, 'after reset')
    v = ctx.tok('n0')
    ctx.ok('add', s.add, v)
    R = verify(ctx, s, A, [v], 'add after reset')
    drain(ctx, s, R, 'add after reset')


def h_imul(ctx, shape, warm, num):
    s, A = build(ctx, shape, warm)
    r = ctx.ok('*=', s.__imul__, num)
    ctx.check(r is s, '*= returns the list itself')
    R = list(s)
    want = [t for t in A for _ in range(max(num, 0))]
    ctx.same_list(R, want, '*=: contents')
    observe(ctx, s, want, 'after *=')
    v = ctx.tok('n0')
    s.add(v)
    R = verify(ctx, s, want, [v], 'add after *=') if num <= 1 else None


def h_run(ctx, shape, warm, op):
    """Ties running over any part of any number of sublists."""
    s, A = build_run(ctx, shape, warm)
    v = ctx.tok('n')
    if op == 'add':
        ctx.ok('add', s.add, v)
        new = [v]
    else:
        w = ctx.run_chain(3, 0, 3, name='w')
        new = [v] if op == 'one' else w
        ctx.ok('update', s.update, new)
    verify(ctx, s, A, new, 'run: after ' + op)


def h_history(ctx, shape, warm, ops):
    """A fixed skeleton of operations with symbolic arguments."""
    s, A = build(ctx, shape, warm)
    order = {t.uid: i for i, t in enumerate(A)}
    R = list(A)
    nseq = len(A)
    nnew = 0
    for j, op in enumerate(ops):
        if op == 'add':
            v = ctx.tok('n%d' % j)
            order[v.uid] = nseq = nseq + 1
            nnew += 1
            ctx.ok('add', s.add, v)
            want = R + [v]
        elif op == 'upd':
            vs = [ctx.tok('n%d_%d' % (j, i)) for i in range(2)]
            for v in vs:
                order[v.uid] = nseq = nseq + 1
            nnew += 2
            ctx.ok('update', s.update, vs)
            want = R + vs
        elif op == 'del':
            i = ctx.int('i%d' % j, 0, len(R) - 1)
            ctx.ok('del', s.__delitem__, i)
            i = int(i)
            want = R[:i] + R[i + 1:]
        elif op == 'pop0':
            ctx.ok('pop', s.pop, 0)
            want = R[1:]
        elif op == 'poplast':
            ctx.ok('pop', s.pop)
            want = R[:-1]
        elif op == 'get':
            ctx.ok('get', s.__getitem__, len(R) // 2)
            want = R
        R = ctx.ok('history', list, s)
        check_perm(ctx, R, want, 'history: same multiset')
        check_sorted(ctx, R, 'history: sorted, ties in insertion order', order)
        if op in ('del', 'pop0', 'poplast'):
            ctx.same_list(R, want, 'history: order kept by deletion')
    observe(ctx, s, R, 'after history')
    lookups(ctx, s, R if nnew < 2 else [v], 'after history', R)
    drain(ctx, s, R, 'after history')


M = 'harness.c01'


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for sh in SHAPES:
            for warm in (False, True):
                if warm and len(sh[1]) < 2:
                    continue
                add('h_add', shape=sh, warm=warm, order='strict', k=1,
                    after=True, cost=sum(sh[1]))
        for sh in [(4, (3, 3)), (4, (4, 8)), (4, (8, 3))] + (
                SHAPES if full else []):
            add('h_add', shape=sh, warm=True, order='weak', k=1, after=False,
                cost=20)
        for sh in [(4, ()), (4, (8,)), (4, (3, 8))] + (
                [(4, (8, 8)), (4, (3, 8, 3))] if full else []):
            add('h_add', shape=sh, warm=True, order='strict', k=2, after=full,
                cost=60)
        if full:
            add('h_add', shape=(4, (8,)), warm=False, order='strict', k=3,
                after=False, cost=500)
            add('h_add', shape=(4, (3,) * 9), warm=True, order='strict', k=2,
                after=False, cost=500)
        for sh, k in [((4, ()), 3), ((4, (1,)), 2), ((4, (3,)), 2),
                      ((4, (4, 1)), 2), ((4, (4, 4)), 2), ((4, (4, 4, 2)), 1),
                      ((4, (4, 4, 2)), 2), ((4, (8, 3)), 1)] + (
                [((4, ()), 5), ((4, (4, 1)), 3), ((4, (4, 4, 4)), 3),
                 ((4, (8, 8)), 3), ((4, (3,) * 5), 3)] if full else []):
            add('h_update', shape=sh, warm=True, order='strict', k=k,
                form='list', op='update', cost=10 * k * k)
        for form in ('gen', 'tuple', 'slist'):
            add('h_update', shape=(4, (3, 3)), warm=False, order='strict',
                k=2, form=form, op='update', cost=30)
        add('h_update', shape=(4, (4, 1)), warm=False, order='weak', k=2,
            form='list', op='update', cost=100)
        for k in (0, 1, 2):
            add('h_update', shape=(4, (4, 4, 2)), warm=True, order='strict',
                k=k, form='gen', op='iadd', cost=10 * k * k)
        for k in range(0, 6 if full else 5):
            add('h_init', k=k, form='gen' if k % 2 else 'list', load=4,
                cost=k ** 4)
        for sh in [(4, (3, 3)), (4, (8,)), (4, (3, 4, 3, 3, 4))]:
            add('h_clear', shape=sh, warm=True, k=2, cost=30)
        for l2 in (4, 5, 7, 16, 1000):
            add('h_reset', shape=(4, (3, 8, 3)), warm=l2 != 5, load2=l2,
                order='strict', cost=30)
        for num in (-1, 0, 1, 2, 3):
            add('h_imul', shape=(4, (3, 3)), warm=True, num=num, cost=10)
        for ops in [('add', 'add'), ('del', 'add'), ('get', 'del', 'add'),
                    ('upd', 'add'), ('add', 'poplast'), ('pop0', 'get', 'add')
                    ] + ([('add', 'add', 'add'), ('del', 'del', 'add'),
                          ('add', 'del', 'add'), ('upd', 'del', 'add')]
                         if full else []):
            for sh in [(4, (3, 3)), (4, (8, 3))] + (
                    [(4, (3, 4, 3)), (4, (3, 3, 3, 3, 3))] if full else []):
                if ops == ('upd', 'add') and sh == (4, (8, 3)) and not full:
                    continue
                add('h_history', shape=sh, warm=True, ops=ops, cost=100)
        for sh in [(4, (3, 4, 2))] + (
                [(4, (8, 3, 4)), (4, (3, 8, 3)), (4, (3, 4, 3, 3))]
                if full else []):
            for op in ('add', 'one', 'few'):
                add('h_run', shape=sh, warm=True, op=op, cost=50)
        for sh in pasts('list', tier):
            add('h_add', shape=sh, warm=False, order='strict', k=1,
                after='+' not in sh[1], cost=40)
    T += anysize('add', tier)
    T += calls('C01', tier)
    T += args('C01', tier)
    T += variants(T, M, tier)
    return T
