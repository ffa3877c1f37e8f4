"""C11: a sorted set holds each value once, in order, in both views."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'up to 15 stored values in up to 5 sublists, histories of up to '
             '3 operations with any arguments (equal to any stored value, to '
             'each other, or new)',
    'thorough': 'up to 27 stored values in 9 sublists, histories of up to 4 '
                'operations',
}
M = 'harness.c11'


def find(ctx, R, v):
    """Index of the stored value equal to v on this path, or None."""
    for i, t in enumerate(R):
        if ctx.truth(ctx.eq(t, v)):
            return i
    return None


def step(ctx, s, R, op, j):
    """One operation; decides its outcome and returns the new contents."""
    label = 'set ' + op
    if op in ('add', 'remove', 'discard', 'in', 'count'):
        v = ctx.tok('v%d' % j)
        hit = [ctx.eq(t, v) for t in R]
        st, r = ctx.call({'in': s.__contains__}.get(op) or getattr(s, op), v)
        got = ctx.ok(label, list, s)
        if op in ('in', 'count'):
            if st == 'exc':
                ctx.fail(label + ': exception', repr(r))
            ctx.check(ctx.Or(*hit) if r else ctx.Not(ctx.Or(*hit)), label)
            ctx.check(int(r) in (0, 1), label + ': at most one')
            ctx.same_list(got, R, label + ': set changed')
            return R
        if op == 'add':
            if st == 'exc':
                ctx.fail(label + ': exception', repr(r))
            ctx.check(r is None, label + ': returns None')
            if len(got) == len(R):
                ctx.check(ctx.Or(*hit), label + ': value not added')
                ctx.same_list(got, R, label + ': contents')
            else:
                ctx.check(ctx.Not(ctx.Or(*hit)), label + ': duplicate added')
                check_perm(ctx, got, R + [v], label + ': contents')
                check_sorted(ctx, got, label + ': order')
                ctx.same_list([t for t in got if t is not v], R,
                              label + ': others keep their order')
            return got
        if st == 'exc':
            ctx.check(op == 'remove' and isinstance(r, KeyError),
                      label + ': unexpected ' + type(r).__name__)
            ctx.check(any(a is v for a in r.args),
                      label + ': KeyError names the value')
            ctx.check(ctx.Not(ctx.Or(*hit)), label + ': KeyError for a member')
            ctx.same_list(got, R, label + ': set changed')
            return R
        if len(got) == len(R):
            ctx.check(op == 'discard', label + ': nothing removed')
            ctx.check(ctx.Not(ctx.Or(*hit)), label + ': member not removed')
            ctx.same_list(got, R, label + ': contents')
            return R
        left = {t.uid for t in got}
        out = [i for i, t in enumerate(R) if t.uid not in left]
        ctx.check(len(out) == 1, label + ': one value removed')
        ctx.check(hit[out[0]], label + ': the equal value removed')
        ctx.same_list(got, R[:out[0]] + R[out[0] + 1:], label + ': contents')
        return got
    if op == 'update':
        T = [ctx.tok('u%d_%d' % (j, i)) for i in range(2)]
        ctx.ok(label, s.update, T)
        got = ctx.ok(label, list, s)
        ids = {t.uid for t in R}
        ctx.same_list([t for t in got if t.uid in ids], R,
                      label + ': stored values stay')
        new = [t for t in got if t.uid not in ids]
        ctx.check(all(any(t is u for u in T) for t in new),
                  label + ': foreign value')
        for t in new:
            for u in got:
                ctx.check(u is t or ctx.Not(ctx.eq(t, u)),
                          label + ': duplicate added')
        for u in T:
            ctx.check(ctx.Or(*[ctx.eq(u, t) for t in got]),
                      label + ': value missing')
        check_sorted(ctx, got, label + ': order')
        return got
    if op in ('pop', 'del'):
        n = len(R)
        i = ctx.int('i%d' % j, -n - 1, n)
        st, r = ctx.call(s.pop if op == 'pop' else s.__delitem__, i)
        p = int(i)
        if st == 'exc':
            ctx.check(isinstance(r, IndexError) and not -n <= p < n,
                      label + ': exception')
            ctx.same_list(ctx.ok(label, list, s), R, label + ': changed')
            return R
        ctx.check(-n <= p < n, label + ': no IndexError')
        p %= n
        if op == 'pop':
            ctx.check(r is R[p], label + ': value')
        return R[:p] + R[p + 1:]
    if op == 'delslice':
        n = len(R)
        start = ctx.int('a%d' % j)
        stop = ctx.int('b%d' % j)
        p = slice_positions(ctx, (start, stop, None), n)
        ctx.ok(label, s.__delitem__, slice(start, stop))
        p = set(p)
        return [t for i, t in enumerate(R) if i not in p]
    if op == 'delstep':
        i = ctx.int('a%d' % j)
        p = set(slice_positions(ctx, (i, None, 2), len(R)))
        ctx.ok(label, s.__delitem__, slice(i, None, 2))
        return [t for i, t in enumerate(R) if i not in p]
    if op == 'poplast':
        if not R:
            ctx.raises(IndexError, label, s.pop)
            return R
        ctx.check(ctx.ok(label, s.pop) is R[-1], label + ': value')
        return R[:-1]
    if op == 'clear':
        ctx.ok(label, s.clear)
        return []
    if op == 'get':
        for i in range(len(R)):
            ctx.check(s[i] is R[i], label)
        return R
    raise ValueError(op)


def h_history(ctx, shape, warm, ops, order='strict'):
    s, R = build(ctx, shape, warm, order, cls='set')
    all_ = list(R)
    for j, op in enumerate(ops):
        R = step(ctx, s, R, op, j)
        ctx.check(len(s) == len(R), 'len after ' + op)
    if order == 'strict' and all(op in (
            'remove', 'pop', 'del', 'poplast', 'clear', 'delslice', 'delstep',
            'get', 'discard') for op in ops):
        gone = [t for t in all_ if not any(t is u for u in R)]
        ctx.check(s.isdisjoint(gone), 'after history: removed value in set')
        for t in gone:
            ctx.check(not (t in s), 'after history: removed value a member')
    after(ctx, s, R, 'after history', 'set', finds=False)
    for t in R:
        ctx.check(int(s.count(t)) == 1, 'after history: count')
        for f in (s.isdisjoint, lambda x: not s.issuperset(x)):
            ctx.check(not f([t]), 'after history: member not in set view')
    drain(ctx, s, R, 'after history')


def h_init(ctx, k, form, load):
    T = [ctx.tok('t%d' % i) for i in range(k)]
    sc = ctx.sc
    arg = forms(T, form, ctx)
    s = ctx.ok('constructor', lambda: sc.SortedSet(arg, key=seq_key(ctx)))
    s._reset(load)
    R = list(s)
    for a in range(len(R)):
        ctx.check(any(R[a] is t for t in T), 'constructor: foreign value')
        for b in range(a):
            ctx.check(ctx.Not(ctx.eq(R[a], R[b])), 'constructor: duplicate')
    for t in T:
        ctx.check(ctx.Or(*[ctx.eq(t, r) for r in R]),
                  'constructor: value missing')
    check_sorted(ctx, R, 'constructor: order')
    after(ctx, s, R, 'constructor', 'set', finds=False)


def h_absent(ctx, shape):
    """A value different from all members is not found anywhere."""
    s, A = build(ctx, shape, True, cls='set')
    v = ctx.tok('v')
    hit = ctx.Or(*[ctx.eq(t, v) for t in A])
    st, r = ctx.call(s.index, v)
    if st == 'exc':
        ctx.check(isinstance(r, ValueError), 'index: exception kind')
        ctx.check(ctx.Not(hit), 'index: ValueError for a member')
    else:
        ctx.check(ctx.eq(A[r], v), 'index: position')
    ctx.check(bool(v in s) == (st == 'ok'), 'index agrees with membership')


def h_alien(ctx, shape, warm):
    """Hashed lookups never compare or need a key: foreign values are absent."""
    s, A = build(ctx, shape, warm, cls='set')
    z = ctx.Alien()
    ctx.check(ctx.ok('in', s.__contains__, z) is False, 'in: foreign value')
    ctx.check(ctx.ok('count', s.count, z) == 0, 'count: foreign value')
    ctx.check(ctx.ok('discard', s.discard, z) is None,
              'discard: foreign value')
    e = ctx.raises(KeyError, 'remove: foreign value', s.remove, z)
    ctx.check(any(a is z for a in e.args),
              'remove: KeyError names the foreign value')
    after(ctx, s, A, 'after looking for a foreign value', 'set')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        base = [(4, ()), (4, (1,)), (4, (3, 3)), (4, (8,)), (4, (3, 8)),
                (4, (4, 4, 2)), (4, (3, 4, 3, 3, 4))] + (
            [(4, (3,) * 9), (4, (3, 8, 3))] if full else [])
        for op in ('add', 'remove', 'discard', 'in', 'count', 'pop', 'del',
                   'poplast', 'clear', 'delstep'):
            for sh in base:
                for warm in (False, True):
                    if warm == (op in ('pop', 'add')) and not full:
                        continue
                    add('h_history', shape=sh, warm=warm, ops=(op,),
                        cost=sum(sh[1]))
        for ops in [('add', 'add'), ('add', 'remove'), ('add', 'discard'),
                    ('remove', 'add'), ('discard', 'add'), ('pop', 'add'),
                    ('del', 'in'), ('add', 'pop'), ('clear', 'add', 'add'),
                    ('poplast', 'get', 'add'), ('remove', 'in'),
                    ('clear', 'add', 'discard'), ('update',),
                    ('remove', 'update'), ('delslice',), ('delstep', 'add')]:
            for sh in [(4, ()), (4, (3,)), (4, (3, 3))] + (
                    [(4, (8,)), (4, (3, 4, 3))] if full else []):
                if not full and len(sh[1]) > 1 and ops == (
                        'remove', 'update'):
                    continue
                if not full and ops[0] == 'clear' and sh[1] == (3,):
                    continue
                add('h_history', shape=sh, warm=True, ops=ops, cost=60)
        for sh in [(4, (8, 3)), (4, (3, 4, 3))]:
            add('h_history', shape=sh, warm=True, ops=('update',), cost=80)
        if keyed:
            for op in ('add', 'remove', 'discard', 'pop', 'del', 'delslice',
                       'delstep', 'poplast', 'in', 'clear'):
                for sh in [(4, (3,)), (4, (4, 1))] + (
                        [(4, (3, 3))] if full or op in (
                            'pop', 'del', 'poplast', 'delstep') else []):
                    add('h_history', shape=sh, warm=True, ops=(op,),
                        order='distinct', cost=50)
        if full:
            for ops in [('add', 'add', 'add'), ('add', 'add', 'remove'),
                        ('pop', 'add', 'pop'), ('remove', 'add', 'discard')]:
                for sh in [(4, ()), (4, (3,))]:
                    add('h_history', shape=sh, warm=True, ops=ops, cost=500)
        for k in range(4 if not full else 5):
            for form in ('list', 'gen', 'set'):
                add('h_init', k=k, form=form, load=4, cost=k ** 3)
        for sh in base:
            add('h_absent', shape=sh, cost=10)
            add('h_alien', shape=sh, warm=len(sh[1]) > 1)
        for j, sh in enumerate(pasts('set', tier, True)):
            add('h_history', shape=sh, warm=False,
                ops=(('add', 'discard')[j % 2],), cost=40)
            ask = sh[1].startswith('ask ')
            add('h_history', shape=sh, warm=False,
                ops=(('pop', 'remove')[j % 2 or ask],), cost=40)
            if keyed or full:
                add('h_history', shape=sh, warm=False, ops=('update',),
                    cost=400) if full else None
                add('h_absent', shape=sh, cost=20)
    T += kinds('set', tier)
    T += big('set', tier)
    T += calls('C11', tier)
    T += variants(T, M, tier)
    return T
