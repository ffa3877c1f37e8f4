"""C22: order-breaking sequence operations are refused."""
import operator
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'lists of up to 17 values in up to 5 sublists, symbolic '
             'positions, slices and values',
    'thorough': 'lists of up to 27 values in up to 9 sublists',
}
M = 'harness.c22'


def h_list(ctx, shape, op, arg, order='strict'):
    s, A = build(ctx, shape, True, order)
    v = {'new': lambda: ctx.tok('v'), 'none': lambda: None,
         'own': lambda: ctx.pick('which', A) if A else None}[
             arg if arg in ('new', 'none', 'own') else 'none']()
    n = len(A)
    if op == 'append':
        f = lambda: s.append(v)
    elif op == 'extend':
        items = {'empty': [], 'self': s, 'gen': iter([]), 'bigger': A and [
            A[-1]], 'new': [v]}.get(arg, [v])
        f = lambda: s.extend(items)
    elif op == 'insert':
        i = ctx.int('i') if arg != 'end' else n
        f = lambda: s.insert(i, v)
    elif op == 'reverse':
        f = lambda: s.reverse()
    elif op == 'setitem':
        i = ctx.int('i') if arg != 'same' else 0
        w = A[0] if arg == 'same' and A else v
        f = lambda: s.__setitem__(i, w)
    elif op == 'setslice':
        i, j = ctx.int('i'), ctx.int('j')
        w = {'same': list(A), 'empty': [], 'new': [v]}.get(arg, [v])
        sl = slice(None) if arg == 'same' else slice(i, j)
        f = lambda: s.__setitem__(sl, w)
    elif op == 'setstep':
        f = lambda: s.__setitem__(slice(None, None, -1), list(A))
    ctx.raises(NotImplementedError, op, f)
    after(ctx, s, A, op)
    ctx.check(all(not hasattr(s, x) for x in ('sort',)), 'no sort method')
    for t in some(A):
        ctx.ok('later remove', s.remove, t)
    ctx.check(len(s) == len(A) - len(some(A)), 'later remove: len')


def h_set(ctx, shape, kind):
    """Sets and views take no value at a chosen position."""
    if kind == 'set':
        s, A = build(ctx, shape, True, cls='set')
        v = s
    else:
        s, A = build(ctx, shape, True, cls='dict')
        v = getattr(s, kind)()
    t = ctx.tok('v')
    i = ctx.int('i', -3, 3)

    def item():
        v[i] = t

    def slc():
        v[0:1] = [t]

    ctx.raises((TypeError, NotImplementedError, AttributeError), 'item', item)
    ctx.raises((TypeError, NotImplementedError, AttributeError), 'slice', slc)
    for name, args in (('append', (t,)), ('extend', ([t],)),
                       ('insert', (0, t)), ('reverse', ()), ('sort', ())):
        f = getattr(v, name, None)
        if f is not None:
            ctx.raises((TypeError, NotImplementedError), name, f, *args)
    if kind != 'set':
        for name in ('add', 'remove', 'discard', 'update', 'clear', 'pop'):
            ctx.check(not hasattr(v, name), 'views have no ' + name)
        dict_is(ctx, s, A, ctx.dvals, 'after')
    else:
        after(ctx, s, A, 'after', 'set')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for sh in [(4, ()), (4, (1,)), (4, (8,)), (4, (3, 8)),
                   (4, (3, 4, 3, 3, 4))] + ([(4, (3,) * 9)] if full else []):
            for op, args in (('append', ('new', 'none', 'own')),
                             ('extend', ('empty', 'self', 'gen', 'bigger',
                                         'new')),
                             ('insert', ('new', 'none', 'own', 'end')),
                             ('reverse', ('x',)),
                             ('setitem', ('new', 'none', 'same', 'own')),
                             ('setslice', ('same', 'empty', 'new')),
                             ('setstep', ('x',))):
                for a in args:
                    add('h_list', shape=sh, op=op, arg=a, cost=sum(sh[1]))
                    if sh == (4, (1,)):
                        add('h_list', shape=(4, (3,)), op=op, arg=a,
                            order='distinct' if keyed else 'strict')
            for kind in ('set', 'keys', 'values', 'items'):
                add('h_set', shape=sh, kind=kind)
    T += calls('C22', tier)
    T += variants(T, M, tier)
    return T
