"""C02: removing by value removes exactly one equal value."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'at most 19 stored values in at most 9 sublists (load 4 or 5, '
             'one instance with 2001+ values at the default load); any value '
             'argument; all ties between stored values on the smaller shapes; '
             'histories of 2 removals',
    'thorough': 'at most 51 stored values in at most 17 sublists; histories '
                'of 3 removals and additions',
}
M = 'harness.c02'


def one(ctx, s, A, op, v, label, window=None):
    """Apply remove/discard(v) and decide the outcome; returns the new list."""
    hit = [ctx.eq(t, v) if window is None or i in window else False
           for i, t in enumerate(A)]
    st, r = ctx.call(getattr(s, op), v)
    R = ctx.ok(label, list, s)
    ids = {t.uid: i for i, t in enumerate(A)}
    if st == 'exc':
        if not (op == 'remove' and isinstance(r, ValueError)):
            ctx.fail(label + ': unexpected ' + type(r).__name__, repr(r))
        ctx.check(ctx.Not(ctx.Or(*hit)),
                  label + ': ValueError although an equal value is stored')
        ctx.same_list(R, A, label + ': list changed by a failed remove')
    else:
        ctx.check(r is None, label + ': returns None')
        if len(R) == len(A):
            ctx.check(op == 'discard', label + ': nothing removed')
            ctx.check(ctx.Not(ctx.Or(*hit)),
                      label + ': nothing removed although a value is equal')
            ctx.same_list(R, A, label + ': contents')
        else:
            left = {t.uid for t in R}
            out = [i for i, t in enumerate(A) if t.uid not in left]
            ctx.check(len(out) == 1, label + ': exactly one value removed')
            i = out[0]
            ctx.check(hit[i], label + ': the removed value is equal')
            ctx.same_list(R, A[:i] + A[i + 1:], label + ': other values')
    return R


def h_remove(ctx, shape, warm, order, op, own):
    s, A = build(ctx, shape, warm, order)
    v = ctx.pick('which', A) if own and A else ctx.tok('v')
    R = one(ctx, s, A, op, v, op)
    observe(ctx, s, R, 'after ' + op)
    if order == 'strict':
        after(ctx, s, R, 'after ' + op)
        if len(R) < len(A):
            gone(ctx, s, v, 'after ' + op)
    drain(ctx, s, R, 'after ' + op)


def h_run(ctx, shape, warm, op, own, period):
    """Ties running over any part of any number of sublists."""
    s, A = build_run(ctx, shape, warm, period)
    v = ctx.pick('which', A) if own and A else ctx.tok('v')
    R = one(ctx, s, A, op, v, 'run: ' + op)
    observe(ctx, s, R, 'run: after ' + op)
    w = R[len(R) // 2:][:1] or [v]
    R = one(ctx, s, R, op, w[0], 'run: second ' + op)
    drain(ctx, s, R, 'run: after ' + op)


def h_history(ctx, shape, warm, ops):
    s, A = build(ctx, shape, warm, 'strict')
    R = A
    for j, op in enumerate(ops):
        if op == 'add':
            v = ctx.tok('v%d' % j)
            s.add(v)
            R2 = list(s)
            check_perm(ctx, R2, R + [v], 'add: multiset')
            check_sorted(ctx, R2, 'add: sorted')
            R = R2
        else:
            v = ctx.pick('which%d' % j, R) if op == 'own' else \
                ctx.tok('v%d' % j)
            R = one(ctx, s, R, 'remove' if op == 'own' else op, v,
                    'history ' + op)
    observe(ctx, s, R, 'after history')
    drain(ctx, s, R, 'after history')


def h_default_load(ctx, op, lo, hi):
    """Default load factor; the argument lies in a window of positions."""
    n = 2600
    s = new_list(ctx, None)
    c = ctx.const_chain(n)
    s.update(c)
    v = ctx.tok('v')
    u = ctx.rank_of(v)
    ctx.assume(ctx.lt(ctx.rank_of(c[lo]), u))
    ctx.assume(ctx.lt(u, ctx.rank_of(c[hi])))
    R = one(ctx, s, c, op, v, op, range(lo, hi + 1))
    ctx.check(len(s) == len(R), 'default load: len')
    for i in (0, lo, hi, len(R) - 1):
        ctx.check(s[i] is R[i], 'default load: index')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for op in ('remove', 'discard'):
            for sh in SHAPES + [(4, (3,) * 9)]:
                for warm in (False, True):
                    if warm != (op == 'remove') and not full and sum(sh[1]) > 8:
                        continue
                    add('h_remove', shape=sh, warm=warm, order='strict',
                        op=op, own=False, cost=sum(sh[1]))
            for sh in [(4, (3,)), (4, (3, 3)), (4, (2,)), (4, (4, 4))] + (
                    [(4, (8,)), (4, (3, 3, 3)), (4, (4, 4, 2))]
                    if full else []):
                for order in ('weak', 'distinct') if keyed else ('weak',):
                    add('h_remove', shape=sh, warm=True, order=order, op=op,
                        own=False, cost=200)
        for sh in [(4, (3, 3, 3)), (4, (8, 3)), (4, (4, 4, 2))] + (
                [(4, (3,) * 17)] if full else []):
            add('h_remove', shape=sh, warm=True, order='weak', op='remove',
                own=True, cost=100)
        for ops in [('remove', 'remove'), ('discard', 'remove'),
                    ('own', 'own'), ('own', 'add'), ('add', 'own')] + (
                [('own', 'own', 'own'), ('own', 'add', 'own')]
                if full else []):
            for sh in [(4, (3, 3)), (4, (3, 4, 3))]:
                add('h_history', shape=sh, warm=True, ops=ops, cost=150)
        for op in ('remove', 'discard'):
            big = [(4, (8, 3, 4)), (4, (3, 4, 3, 3))] + (
                [(4, (3, 8, 3)), (4, (8, 3, 8)), (5, (3, 5, 10)),
                 (4, (3, 4, 3, 3, 4))] if full else [])
            for sh in [(4, (3, 4, 2))] + (big if full else []):
                for per in ((None, 2, 3) if full else (None, 2))[
                        :3 if keyed else 1]:
                    add('h_run', shape=sh, warm=op == 'remove', op=op,
                        own=False, period=per, cost=sum(sh[1]) ** 2)
            for sh in big:
                if keyed or full:
                    add('h_run', shape=sh, warm=op != 'remove', op=op,
                        own=True, period=None, cost=sum(sh[1]) ** 2)
            for lo, hi in ((997, 1003), (1996, 2003)) + (
                    ((0, 4), (2590, 2598)) if full else ()):
                add('h_default_load', op=op, lo=lo, hi=hi, cost=300)
        for sh in pasts('list', tier, True):
            for own in (False, True):
                add('h_remove', shape=sh, warm=False, order='strict',
                    op='remove' if own else 'discard', own=own, cost=40)
    T += anysize('remove', tier)
    T += kinds('list', tier)
    T += calls('C02', tier)
    T += variants(T, M, tier)
    return T
