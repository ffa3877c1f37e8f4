"""C04: deleting and popping by position behaves like a list."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'every integer index, every slice start/stop (unbounded '
             'integers), steps None, 1, 2, -1, -2, 3, -3 and any step on small '
             'shapes; at most 51 values in at most 17 sublists for indices, '
             '17 values for slices; histories of 2 deletions',
    'thorough': 'any step with any start/stop on up to 11 values; at most 132 '
                'values in 33 sublists for indices; histories of 3 deletions',
}
M = 'harness.c04'


def single(ctx, s, A, op, i, label):
    """del s[i] or s.pop(i); returns the list afterwards."""
    n = len(A)
    if op == 'del':
        st, r = ctx.call(s.__delitem__, i)
    elif op == 'pop':
        st, r = ctx.call(s.pop, i)
    else:
        st, r = ctx.call(s.pop)
        i = -1
    ii = ctx.n(i)
    inside = ctx.And(-n <= ii, ii < n)
    R = ctx.ok(label, list, s)
    if st == 'exc':
        if not isinstance(r, IndexError):
            ctx.fail(label + ': unexpected ' + type(r).__name__, repr(r))
        ctx.check(ctx.Not(inside), label + ': IndexError for a valid index')
        ctx.same_list(R, A, label + ': changed by a failed removal')
        return R
    ctx.check(inside, label + ': no IndexError for an invalid index')
    p = clamp(ctx, i, n)
    p = p + n if p < 0 else p
    ctx.same_list(R, A[:p] + A[p + 1:], label + ': values left')
    if op != 'del':
        ctx.check(r is A[p], label + ': popped value')
    return R


def h_single(ctx, shape, warm, cls, op, order='strict'):
    s, A = build(ctx, shape, warm, order, cls=cls)
    i = -1 if op == 'poplast' else ctx.int('i')
    R = single(ctx, s, A, op, i, op)
    after(ctx, s, R, 'after ' + op, cls, finds=order == 'strict')
    if order == 'strict':
        for t in A:
            if not any(t is u for u in R):
                gone(ctx, s, t, 'after ' + op)
    drain(ctx, s, R, 'after ' + op)


def h_history(ctx, shape, warm, cls, ops):
    s, A = build(ctx, shape, warm, cls=cls)
    R = A
    for j, op in enumerate(ops):
        if op == 'add':
            v = ctx.tok('n%d' % j)
            s.add(v)
            R2 = list(s)
            if cls == 'list':
                check_perm(ctx, R2, R + [v], 'add: multiset')
            check_sorted(ctx, R2, 'add: sorted')
            R = R2
        elif op == 'get':
            m = len(R) // 2
            ctx.check(s[m] is R[m], 'history: s[i]')
        else:
            i = -1 if op == 'poplast' else ctx.int(
                'i%d' % j, -len(R), len(R) - 1)
            R = single(ctx, s, R, op, i, 'history ' + op)
    after(ctx, s, R, 'after history', cls, finds='add' not in ops)
    drain(ctx, s, R, 'after history')


def h_slice(ctx, shape, warm, cls, a, b, step):
    s, A = build(ctx, shape, warm, cls=cls)
    parts = sym_slice(ctx, a, b, step)
    st, r = ctx.call(s.__delitem__, slice(*parts))
    if st == 'exc':
        ctx.fail('del s[slice]: unexpected ' + type(r).__name__, repr(r))
    pos = set(slice_positions(ctx, parts, len(A)))
    R = [t for i, t in enumerate(A) if i not in pos]
    ctx.same_list(list(s), R, 'del s[slice]: values left')
    after(ctx, s, R, 'after del s[slice]', cls)
    for i in pos:
        gone(ctx, s, A[i], 'after del s[slice]')
    drain(ctx, s, R, 'after del s[slice]')


def h_drain(ctx, shape, cls, style):
    """Pop everything in one style, checking all along."""
    s, A = build(ctx, shape, style != 'last', cls=cls)
    R = list(A)
    j = 0
    while R:
        j += 1
        i = {'first': 0, 'last': -1, 'mid': len(R) // 2,
             'neg': -len(R), 'second': min(1, len(R) - 1)}[style]
        if style == 'last' and j % 2:
            v = ctx.ok('pop', s.pop)
        elif j % 3 == 2:
            v = R[i]
            ctx.ok('del', s.__delitem__, i)
        else:
            v = ctx.ok('pop', s.pop, i)
        ctx.check(v is R.pop(i), 'drain: value')
        observe(ctx, s, R, 'drain')
    for op in ('pop', '__delitem__'):
        ctx.raises(IndexError, 'empty ' + op, getattr(s, op), 0)
    ctx.raises(IndexError, 'empty pop', s.pop)
    v = ctx.tok('v')
    s.add(v)
    observe(ctx, s, [v], 'reuse after draining')


def h_zero_step(ctx, shape, cls):
    s, A = build(ctx, shape, True, cls=cls)
    ctx.raises(ValueError, 'del s[::0]', s.__delitem__,
               slice(None, None, 0))
    observe(ctx, s, A, 'after del s[::0]')


def h_default_load(ctx, cls, lo, hi, op):
    n = 2600
    s = new_list(ctx, None) if cls == 'list' else ctx.sc.SortedSet(
        key=seq_key(ctx))
    A = ctx.const_chain(n, hashed=True)
    s.update(A)
    i = ctx.int('i')
    ctx.assume(ctx.And(lo <= ctx.n(i), ctx.n(i) <= hi))
    if op == 'slice':
        ctx.ok('del slice', s.__delitem__, slice(i, i + 5))
        p = int(i)
        R = A[:p] + A[p + 5:]
    else:
        R = single(ctx, s, A, op, i, 'default load ' + op)
    ctx.same_list(list(s), R, 'default load: contents')
    ctx.check(len(s) == len(R), 'default load: len')
    for p in range(0, len(R), 97):
        ctx.check(s[p] is R[p], 'default load: s[i]')
        ctx.check(s.index(R[p]) == p, 'default load: index')
    del s[1], R[1]
    s[3]
    # shrink one sublist below half the load factor
    for _ in range(520):
        del s[1200], R[1200]
    ctx.same_list(list(s), R, 'default load: after shrinking')
    for p in range(0, len(R), 97):
        ctx.check(s[p] is R[p], 'default load: s[i] after shrinking')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for cls in ('list', 'set'):
            for sh in SHAPES + [(4, (3,) * 9), (4, (3,) * 17),
                                (4, (4,) * 8 + (1,))] + (
                    [(4, (4,) * 33), (8, (16, 7) * 8)] if full else []):
                for op in ('del', 'pop'):
                    if cls == 'set' and keyed and not full and op == 'del':
                        continue
                    if not full and len(sh[1]) == 17 and (
                            cls == 'set' or keyed):
                        continue
                    for warm in (False, True):
                        if not full and warm == (op == 'pop') and (
                                keyed or cls == 'set' or sum(sh[1]) > 14):
                            continue
                        add('h_single', shape=sh, warm=warm, cls=cls, op=op,
                            cost=sum(sh[1]) ** 2 / 10)
                add('h_single', shape=sh, warm=True, cls=cls, op='poplast')
            for sh in [(4, (3, 3)), (4, (3, 8)), (4, ()), (4, (3,)),
                       (4, (4, 3, 4, 3))] + (
                    [(4, (3, 8, 3)), (4, (3,) * 9)] if full else []):
                steps = (None, 1, -1, 2, -2, 3, -3)
                if not full:
                    if keyed and cls == 'set':
                        steps = (None,)
                    elif keyed or cls == 'set':
                        steps = (None, -1, 2)
                    if sum(sh[1]) > 8:
                        steps = steps[:3] if sum(sh[1]) < 12 else (None,)
                for step in steps:
                    add('h_slice', shape=sh, warm=True, cls=cls, a='sym',
                        b='sym', step=step, cost=sum(sh[1]) ** 2)
                if keyed and cls == 'set' and not full:
                    continue
                for a, b in ((None, None), (None, 'sym'), ('sym', None)):
                    add('h_slice', shape=sh, warm=False, cls=cls, a=a, b=b,
                        step=None, cost=9)
                    if sum(sh[1]) < 12:
                        add('h_slice', shape=sh, warm=False, cls=cls, a=a,
                            b=b, step='sym', cost=sum(sh[1]) * 5)
            if full:
                for sh in [(4, (3,)), (4, (3, 3)), (4, (3, 8))]:
                    add('h_slice', shape=sh, warm=True, cls=cls, a='sym',
                        b='sym', step='sym', cost=1000)
            for style in ('first', 'last', 'mid', 'neg', 'second'):
                for sh in [(4, (3, 8, 3)), (4, (3,) * 9)]:
                    add('h_drain', shape=sh, cls=cls, style=style, cost=20)
            add('h_zero_step', shape=(4, (3, 3)), cls=cls)
            for ops in [('pop', 'pop'), ('del', 'get', 'pop'),
                        ('pop', 'add'), ('poplast', 'del')] + (
                    [('del', 'del', 'del'), ('pop', 'add', 'pop')]
                    if full else []):
                for sh in [(4, (3, 3)), (4, (3, 4, 3))]:
                    if not full and cls == 'set' and sh[1] == (3, 4, 3):
                        continue
                    add('h_history', shape=sh, warm=True, cls=cls, ops=ops,
                        cost=100)
            for lo, hi in ((998, 1002), (-1602, -1599), (2598, 2602)):
                for op in ('del', 'pop', 'slice'):
                    if not full and (cls == 'set' or (keyed and lo != 998)):
                        continue
                    if op == 'slice' and lo > 2000:
                        continue
                    add('h_default_load', cls=cls, lo=lo, hi=hi, op=op,
                        cost=200)
        for cls in ('list', 'set'):
            for j, sh in enumerate(pasts(cls, tier)):
                if cls == 'set' and keyed and not full:
                    continue
                add('h_single', shape=sh, warm=False, cls=cls,
                    op='del' if j % 2 == keyed else 'pop', cost=40)
                if not full and (keyed or cls == 'set'):
                    continue
                add('h_slice', shape=sh, warm=False, cls=cls, a='sym', b=None,
                    step=None, cost=40)
    T += anysize('position', tier)
    T += big('setpos', tier)
    T += calls('C04', tier)
    T += variants(T, M, tier)
    return T
