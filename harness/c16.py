"""C16: positional access to a sorted dict follows key order."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'every integer index, every slice start/stop (unbounded '
             'integers) with steps None, -1, 2, -2 and any step on 3 items; up '
             'to 27 items for indices, 8 for slices',
    'thorough': 'up to 51 items in 17 sublists for indices, 11 for slices, '
                'any step on up to 6 items',
}
M = 'harness.c16'


def inside(ctx, i, n):
    return ctx.And(-n <= ctx.n(i), ctx.n(i) < n)


def item_at(ctx, r, A, vals, i, label):
    n = len(A)
    k, v = r
    p = [q for q, t in enumerate(A) if t is k]
    ctx.check(len(p) == 1, label + ': a stored key')
    p = p[0]
    ctx.check(ctx.Or(ctx.n(i) == p, ctx.n(i) == p - n), label + ': position')
    ctx.check(v is vals[k.uid], label + ': value')
    return p


def h_item(ctx, shape, warm, op, default=False, order='strict'):
    d, A = build(ctx, shape, warm, order, cls='dict')
    n = len(A)
    i = -1 if default else ctx.int('i')
    f = getattr(d, op)
    st, r = ctx.call(f) if default else ctx.call(f, i)
    if st == 'exc':
        if op == 'popitem' and n == 0:
            ctx.check(isinstance(r, KeyError), 'popitem on an empty dict')
        else:
            if not isinstance(r, IndexError):
                ctx.fail(op + ': unexpected ' + type(r).__name__, repr(r))
            ctx.check(ctx.Not(inside(ctx, i, n)),
                      op + ': IndexError for a valid index')
        R = A
    else:
        p = item_at(ctx, r, A, ctx.dvals, i, op)
        R = A[:p] + A[p + 1:] if op == 'popitem' else A
    dict_is(ctx, d, R, ctx.dvals, 'after ' + op)
    if len(R) < len(A):
        ctx.check(not bool(A[p] in d), op + ': key still there')


def h_view_get(ctx, shape, warm, view, sl, step=None, order='strict'):
    d, A = build(ctx, shape, warm, order, cls='dict')
    n = len(A)
    vals = ctx.dvals
    V = getattr(d, view)()
    want = {'keys': lambda t: t, 'values': lambda t: vals[t.uid],
            'items': lambda t: (t, vals[t.uid])}[view]
    same = (lambda a, b: a is b) if view != 'items' else (
        lambda a, b: type(a) is tuple and len(a) == 2 and a[0] is b[0]
        and a[1] is b[1])
    label = view + '()[i]'
    if not sl:
        i = ctx.int('i')
        st, r = ctx.call(V.__getitem__, i)
        if st == 'exc':
            if not isinstance(r, IndexError):
                ctx.fail(label + ': unexpected ' + type(r).__name__, repr(r))
            ctx.check(ctx.Not(inside(ctx, i, n)), label + ': IndexError')
        else:
            ctx.check(inside(ctx, i, n), label + ': no IndexError')
            p = clamp(ctx, i, n)
            ctx.check(same(r, want(A[p])), label + ': value')
    else:
        parts = sym_slice(ctx, 'sym', 'sym', step)
        r = ctx.ok(label, V.__getitem__, slice(*parts))
        pos = slice_positions(ctx, parts, n)
        ctx.check(type(r) is list and len(r) == len(pos) and all(
            same(a, want(A[p])) for a, p in zip(r, pos)),
            view + '()[slice]: values')
    dict_is(ctx, d, A, vals, 'after ' + label, index=False)


def h_view_del(ctx, shape, warm, view, sl, step=None, order='strict'):
    d, A = build(ctx, shape, warm, order, cls='dict')
    n = len(A)
    other = [d.keys(), d.values(), d.items()]
    V = getattr(d, view)()
    label = 'del %s()[i]' % view
    if not sl:
        i = ctx.int('i')
        st, r = ctx.call(V.__delitem__, i)
        if st == 'exc':
            if not isinstance(r, IndexError):
                ctx.fail(label + ': unexpected ' + type(r).__name__, repr(r))
            ctx.check(ctx.Not(inside(ctx, i, n)), label + ': IndexError')
            R = A
        else:
            ctx.check(inside(ctx, i, n), label + ': no IndexError')
            p = clamp(ctx, i, n) % n
            R = A[:p] + A[p + 1:]
    else:
        parts = sym_slice(ctx, 'sym', 'sym', step)
        ctx.ok(label, V.__delitem__, slice(*parts))
        pos = set(slice_positions(ctx, parts, n))
        R = [t for q, t in enumerate(A) if q not in pos]
    dict_is(ctx, d, R, ctx.dvals, 'after ' + label)
    for t in A:
        if not any(t is u for u in R):
            ctx.check(not bool(t in d), label + ': key still there')
    for o in other:
        ctx.check(len(o) == len(R), label + ': len of other views')
    R = list(R)
    while R:
        k, v = ctx.ok('drain', d.popitem, len(R) // 3)
        ctx.check(k is R.pop(len(R) // 3), 'drain: key')


def h_history(ctx, shape, ops, order='strict'):
    d, A = build(ctx, shape, True, order, cls='dict')
    R = list(A)
    vals = dict(ctx.dvals)
    for j, op in enumerate(ops):
        n = len(R)
        if op == 'popitem':
            i = ctx.int('i%d' % j, -n, n - 1)
            k, v = ctx.ok(op, d.popitem, i)
            p = int(i) % n
            ctx.check(k is R[p] and v is vals[k.uid], 'history: popitem')
            del R[p]
        elif op == 'peek':
            i = ctx.int('i%d' % j, -n, n - 1)
            k, v = ctx.ok(op, d.peekitem, i)
            p = int(i) % n
            ctx.check(k is R[p] and v is vals[k.uid], 'history: peekitem')
        elif op == 'delkey':
            t = ctx.pick('which%d' % j, R)
            del d[t]
            R = [u for u in R if u is not t]
        elif op == 'set':
            t = ctx.tok('k%d' % j)
            for u in R:
                ctx.assume(ctx.Not(ctx.eq(u, t)))
            vals[t.uid] = ctx.val('w%d' % j)
            d[t] = vals[t.uid]
            got = list(d)
            check_perm(ctx, got, R + [t], 'history: set')
            check_sorted(ctx, got, 'history: order')
            R = got
    dict_is(ctx, d, R, vals, 'after history')
    for i in range(-len(R), len(R)):
        k, v = d.peekitem(i)
        ctx.check(k is R[i] and v is vals[k.uid], 'after history: peekitem')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for sh in SHAPES + [(4, (3,) * 9)] + ([(4, (3,) * 17)]
                                              if full else []):
            for op in ('peekitem', 'popitem'):
                for warm in (False, True):
                    if warm == (op == 'popitem') and not full and keyed:
                        continue
                    add('h_item', shape=sh, warm=warm, op=op,
                        cost=sum(sh[1]) ** 2 / 5)
                add('h_item', shape=sh, warm=True, op=op, default=True)
        for view in ('keys', 'values', 'items'):
            for sh in [(4, ()), (4, (3, 3)), (4, (3, 8)), (4, (3, 4, 3, 3, 4))]:
                for f in ('h_view_get', 'h_view_del'):
                    add(f, shape=sh, warm=f == 'h_view_get', view=view,
                        sl=False, cost=sum(sh[1]))
            for sh in [(4, ()), (4, (3,)), (4, (3, 3))] + (
                    [(4, (3, 8))] if full else []):
                steps = (None, -1, 2) if not keyed or full else (None,)
                if full:
                    steps += (1, -2, 3)
                if sum(sh[1]) < 4 or full and sum(sh[1]) < 7:
                    steps += ('sym',)
                elif sum(sh[1]) < 7:
                    steps += (-2,)
                for step in steps:
                    for f in ('h_view_get', 'h_view_del'):
                        add(f, shape=sh, warm=True, view=view, sl=True,
                            step=step, cost=sum(sh[1]) ** 2 * 2)
        for ops in [('popitem', 'popitem'), ('delkey', 'peek'),
                    ('set', 'popitem'), ('popitem', 'set')] + (
                [('popitem', 'set', 'popitem')] if full else []):
            for sh in [(4, (3, 3)), (4, (3, 4, 3))]:
                if not full and sh[1] != (3, 3) and keyed:
                    continue
                add('h_history', shape=sh, ops=ops, cost=80)
        if keyed:
            for sh in [(4, (3,)), (4, (4, 1)), (4, (3, 3)),
                       (4, (3, 4, 3))]:
                for op in ('peekitem', 'popitem'):
                    add('h_item', shape=sh, warm=True, op=op,
                        order='distinct', cost=20)
                for view in ('keys', 'values', 'items'):
                    for f in ('h_view_get', 'h_view_del'):
                        add(f, shape=sh, warm=True, view=view, sl=False,
                            order='distinct', cost=20)
                    if len(sh[1]) < 3 and (full or view == 'keys'):
                        for step in (None, -1, 2):
                            add('h_view_del', shape=sh, warm=True, view=view,
                                sl=True, step=step, order='distinct',
                                cost=40)
            add('h_history', shape=(4, (3, 3)), ops=('delkey', 'peek'),
                order='distinct', cost=80)
        for j, sh in enumerate(pasts('dict', tier)):
            for op in ('peekitem', 'popitem'):
                add('h_item', shape=sh, warm=False, op=op, cost=40)
            view = ('keys', 'values', 'items')[j % 3]
            add('h_view_del', shape=sh, warm=False, view=view, sl=False,
                cost=40)
            add('h_view_get', shape=sh, warm=False, view=view, sl=False,
                cost=40)
    T += big('dictpos', tier)
    T += calls('C16', tier)
    T += variants(T, M, tier)
    return T
