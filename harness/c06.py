"""C06: bisection returns the exact insertion points."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'any value or key argument; all ties between stored values on '
             'up to 14 values; strict orders up to 51 values in 17 sublists; '
             'after any 1 insertion or deletion',
    'thorough': 'all ties on up to 51 values; up to 132 values in 33 '
                'sublists; after any 2 insertions or deletions',
}
M = 'harness.c06'


def ask(ctx, s, R, v, label, keyarg=False):
    u = v if keyarg else ctx.rank_of(v)
    left = ctx.Count([ctx.lt(ctx.rank_of(t), u) for t in R])
    right = ctx.Count([ctx.Not(ctx.lt(u, ctx.rank_of(t))) for t in R])
    names = (('bisect_key_left', left), ('bisect_key_right', right),
             ('bisect_key', right)) if keyarg else (
        ('bisect_left', left), ('bisect_right', right), ('bisect', right))
    for name, want in names:
        r = ctx.ok(label + name, getattr(s, name), v)
        ctx.check(ctx.n(r) == want, label + name)


def h_bisect(ctx, shape, warm, order, keyarg):
    s, A = build(ctx, shape, warm, order)
    v = ctx.ktok('v') if keyarg else ctx.tok('v')
    ask(ctx, s, A, v, '', keyarg)
    ctx.same_list(list(s), A, 'bisect changed the list')
    # a stored value is its own neighbour
    for t in some(A) if order == 'strict' or len(A) <= 6 else ():
        ask(ctx, s, A, t.k if keyarg else t, 'stored: ', keyarg)


def h_run(ctx, shape, warm, keyarg):
    """Ties running over any part of any number of sublists."""
    s, A = build_run(ctx, shape, warm)
    v = ctx.ktok('v') if keyarg else ctx.tok('v')
    ask(ctx, s, A, v, 'run: ', keyarg)
    for t in A[::3]:
        ask(ctx, s, A, t.k if keyarg else t, 'run: stored: ', keyarg)


def h_history(ctx, shape, ops, keyarg):
    s, R = build(ctx, shape, True)
    for j, op in enumerate(ops):
        if op == 'add':
            v = ctx.tok('n%d' % j)
            s.add(v)
            R2 = list(s)
            check_perm(ctx, R2, R + [v], 'add: multiset')
            check_sorted(ctx, R2, 'add: sorted')
            R = R2
        elif op == 'upd':
            vs = ctx.chain(2, 'u%d_' % j)
            s.update(vs)
            R2 = list(s)
            check_perm(ctx, R2, R + vs, 'update: multiset')
            check_sorted(ctx, R2, 'update: sorted')
            R = R2
        elif op == 'rem':
            v = ctx.pick('which%d' % j, R)
            s.remove(v)
            R2 = list(s)
            R = R2
        elif op == 'del':
            i = ctx.int('i%d' % j, 0, len(R) - 1)
            del s[i]
            i = int(i)
            R = R[:i] + R[i + 1:]
            ctx.same_list(list(s), R, 'del: contents')
        elif op == 'clear':
            s.clear()
            R = []
    v = ctx.ktok('v') if keyarg else ctx.tok('v')
    ask(ctx, s, R, v, 'after history: ', keyarg)


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        deep = [(4, (3,) * 9), (4, (3,) * 17)] + (
            [(4, (4,) * 33), (8, (16, 7) * 8)] if full else [])
        for ka in (False, True) if keyed else (False,):
            for warm in (False, True):
                for sh in SHAPES + deep:
                    if sh in deep and not warm and not full:
                        continue
                    add('h_bisect', shape=sh, warm=warm, order='strict',
                        keyarg=ka, cost=sum(sh[1]))
                for sh in SHAPES + (deep if full else []):
                    if not full and not warm:
                        continue
                    add('h_bisect', shape=sh, warm=warm, order='weak',
                        keyarg=ka, cost=sum(sh[1]) * 5)
            for sh in [(4, (3, 4, 2))] + (
                    [(4, (8, 3, 4)), (4, (3, 8, 3)), (4, (3, 4, 3, 3, 4))] if full else []):
                add('h_run', shape=sh, warm=True, keyarg=ka,
                    cost=sum(sh[1]) ** 2)
            for ops in [('add',), ('rem',), ('del',), ('upd',),
                        ('clear', 'add', 'add'), ('del', 'add')] + (
                    [('add', 'rem'), ('del', 'del'), ('add', 'add'),
                     ('upd', 'del')] if full else []):
                for sh in [(4, (3, 3)), (4, (8, 3)), (4, (3, 4, 3))]:
                    if not full and len(ops) > 1 and sh[1] != (3, 3):
                        continue
                    add('h_history', shape=sh, ops=ops, keyarg=ka, cost=100)
        for sh in pasts('list', tier, True):
            for ka in (False, True) if keyed else (False,):
                add('h_bisect', shape=sh, warm=False, order='strict',
                    keyarg=ka, cost=40)
    T += anysize('bisect', tier)
    T += calls('C06', tier)
    T += variants(T, M, tier)
    return T
