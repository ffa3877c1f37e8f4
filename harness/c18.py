"""C18: copies and pickles reproduce the container and its key."""
import copy
import pickle
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'containers of up to 15 values in up to 5 sublists (symbolic '
             'ties included for up to 4 values), every copying method and '
             'pickle protocol 0-5, one symbolic change afterwards',
    'thorough': 'the same with up to 27 values and two symbolic changes '
                'afterwards',
}
M = 'harness.c18'
HOWS = ('copy', 'copy.copy', 'deepcopy', 'pickle0', 'pickle1', 'pickle2',
        'pickle3', 'pickle4', 'pickle5', 'repr')


def duplicate(ctx, s, how, vals=None):
    if how == 'copy':
        return s.copy()
    if how == 'copy.copy':
        return copy.copy(s)
    if how == 'deepcopy':
        return copy.deepcopy(s)
    if how == 'repr':
        scope = {n: getattr(ctx.sc, n) for n in (
            'SortedList', 'SortedKeyList', 'SortedSet', 'SortedDict')}
        if ctx.sub:
            scope.update((c.__name__, c) for c in ctx.subs.values())
        scope['KEY'] = ctx.key
        for t in list(s):
            scope[t.name] = t
        for v in (vals or {}).values():
            scope[v.name] = v
        return eval(repr(s), scope)
    return pickle.loads(pickle.dumps(s, int(how[-1])))


def has(ctx, c, R, cls, ties, label, vals):
    """The values in c are exactly R (as a set with ties: in some order)."""
    got = ctx.ok(label, list, c)
    if ties:
        check_perm(ctx, got, R, label + ': contents')
        check_sorted(ctx, got, label + ': order')
    else:
        ctx.same_list(got, R, label + ': contents')
    if cls == 'dict':
        dict_is(ctx, c, got, vals, label)
    else:
        observe(ctx, c, got, label)
        if cls == 'set' or not ties:
            for t in got:
                ctx.check(bool(ctx.ok(label, c.__contains__, t)),
                          label + ': value is not a member')
    return got


def change(ctx, s, R, cls, op, j, vals, label, untied=False):
    """One change of s; returns its contents afterwards."""
    R = list(R)
    if op == 'add':
        v = ctx.tok('n%s%d' % (label[:1], j))
        # a new value, at any position
        for t in R:
            ctx.assume(ctx.Not(ctx.eq(t, v)))
            if untied:
                ctx.assume(ctx.Not(ctx.eq(ctx.rank_of(t), ctx.rank_of(v))))
        if cls == 'dict':
            w = vals[v.uid] = ctx.val('nv%s%d' % (label[:1], j))
            ctx.ok(label, s.__setitem__, v, w)
        else:
            ctx.ok(label, s.add, v)
        got = list(s)
        check_perm(ctx, got, R + [v], label + ': after add')
        check_sorted(ctx, got, label + ': after add')
        ctx.same_list([t for t in got if t is not v], R,
                      label + ': after add, others')
        return got
    if op == 'del' and R:
        i = ctx.int('d%s%d' % (label[:1], j), 0, len(R) - 1)
        k = clamp(ctx, i, len(R))
        if cls == 'dict':
            del s.keys()[i]
        else:
            del s[i]
        del R[k]
        return R
    if op == 'remove' and R:
        p = R[len(R) // 2]
        if cls == 'dict':
            ctx.ok(label, s.pop, p)
        else:
            ctx.ok(label, s.remove, p)
        return [t for t in R if t is not p]
    if op == 'reset':
        ctx.ok(label, s._reset, 5)
        return R
    ctx.ok(label, s.clear)
    return []


def h_copy(ctx, shape, cls, how, order, op, side, sub=False):
    if sub:
        ctx.sub, ctx.subs = True, {}
    s, A = build(ctx, shape, True, order, cls=cls)
    vals = getattr(ctx, 'dvals', None)
    if cls == 'set' and order == 'distinct':
        A = list(s)
    c = ctx.ok(how, duplicate, ctx, s, how, vals)
    ties = cls == 'set' and order == 'distinct'
    ctx.check(c is not s, how + ': new object')
    ctx.check(type(c) is type(s), how + ': type')
    ctx.check(getattr(c, 'key', None) is getattr(s, 'key', None),
              how + ': key function')
    has(ctx, s, A, cls, False, how + ': original', vals)
    G = has(ctx, c, A, cls, ties, how + ': copy', vals)
    ctx.check(bool(c == s) or ties or (order == 'weak'), how + ': equal')
    X, RX, Y, RY = (c, G, s, A) if side == 'copy' else (s, A, c, G)
    X._reset(4)
    vx = dict(vals) if vals else {}
    RX = change(ctx, X, RX, cls, op, 0, vx, side + ' ' + op)
    has(ctx, X, RX, cls, False, 'changed ' + side, vx)
    has(ctx, Y, RY, cls, False, 'unchanged counterpart of ' + side, vals)
    # and the counterpart still works by itself
    Y._reset(4)
    vy = dict(vals) if vals else {}
    RY = change(ctx, Y, RY, cls, 'del' if order == 'weak' else 'remove', 1,
                vy, 'other remove')
    has(ctx, Y, RY, cls, False, 'counterpart after its own change', vy)
    has(ctx, X, RX, cls, False, 'after changing the counterpart', vx)


def h_after(ctx, shape, cls, how, op, op2):
    """Copies made after a history reproduce the current contents."""
    s, A = build(ctx, shape, True, cls=cls)
    vals = dict(getattr(ctx, 'dvals', None) or {})
    u = cls == 'set'      # values with tied keys may permute (see h_copy)
    R = change(ctx, s, A, cls, op, 0, vals, 'history ' + op, u)
    if op2:
        R = change(ctx, s, R, cls, op2, 1, vals, 'history ' + op2, u)
    c = ctx.ok(how, duplicate, ctx, s, how, vals)
    has(ctx, c, R, cls, False, how + ' after history', vals)
    has(ctx, s, R, cls, False, 'original after history', vals)
    lst = [c]
    if cls == 'list':
        drain(ctx, c, R, how + ' drained')
    has(ctx, s, R, cls, False, 'original after draining', vals)


def h_deep(ctx, n, how):
    """Dict values are shared by shallow and duplicated by deep copies."""
    sc = ctx.sc
    key = (ctx.key,) if ctx.keyed else ()
    c = ctx.chain(n, 'a', strict=True)
    d = sc.SortedDict(*key)
    vals = {}
    for i, t in enumerate(c):
        vals[t.uid] = [i]
        d[t] = vals[t.uid]
    r = ctx.ok(how, duplicate, ctx, d, how) if how != 'repr' else None
    ctx.same_list(list(r), c, how + ': keys')
    for i, t in enumerate(c):
        shared = how in ('copy', 'copy.copy')
        ctx.check((r[t] is vals[t.uid]) == shared, how + ': value identity')
        r[t].append('x')
        ctx.check(vals[t.uid] == ([i, 'x'] if shared else [i]),
                  how + ': value sharing')


class Box:
    """A mutable value, equal and ordered by its token."""

    def __init__(self, t):
        self.t = t
        self.log = []

    k = property(lambda self: self.t.k)

    def __eq__(self, other):
        return self.t == other.t

    def __hash__(self):
        return 11

    def __lt__(self, other):
        return self.t < other.t


def h_boxes(ctx, n, cls, how, i):
    """Deep copies copy the stored values, shallow ones share them."""
    sc = ctx.sc
    T = ctx.chain(n, 't', distinct=True)
    if not ctx.keyed or cls == 'set':
        for a, b in zip(T, T[1:]):
            ctx.assume(ctx.lt(ctx.rank_of(a), ctx.rank_of(b)))
    kw = {'key': ctx.key} if ctx.keyed else {}
    s = {'list': lambda: sc.SortedKeyList if ctx.keyed else sc.SortedList,
         'set': lambda: sc.SortedSet}[cls]()(**kw)
    s._reset(4)
    for t in T[i:] + T[:i]:
        s.add(Box(t))
    R = list(s)
    c = ctx.ok(how, duplicate, ctx, s, how)
    ctx.check(type(c) is type(s), how + ': type')
    G = list(c)
    shared = how in ('copy', 'copy.copy')
    ctx.check(len(G) == n, how + ': number of values')
    if shared:
        if cls == 'list':
            ctx.same_list(G, R, how + ': values are shared')
        else:
            ctx.check({id(b) for b in G} == {id(b) for b in R},
                      how + ': values are shared')
    else:
        ctx.check(not any(a is b for a in G for b in R),
                  how + ': values are copied')
        for a, b in zip(G, R):
            ctx.check(ctx.eq(a.t, b.t), how + ': copied values in order')
        G[i].log.append(1)
        ctx.check(not any(b.log for b in R), how + ': copied values')
    for b in R:
        ctx.check(bool(b in s), how + ': original membership')
    for b in G:
        ctx.check(bool(b in c), how + ': membership')
        ctx.ok(how, c.remove, b)
    ctx.check(len(c) == 0, how + ': emptied')
    ctx.same_list(list(s), R, how + ': original')


def h_repr(ctx, shape, cls, order):
    """repr lists the contents in order and names the key function."""
    s, A = build(ctx, shape, False, order, cls=cls)
    if order == 'distinct':
        A = list(s)
    r = repr(s)
    if cls == 'dict':
        body = '{%s}' % ', '.join('%s: %s' % (t.name, ctx.dvals[t.uid].name)
                                  for t in A)
        want = '%sSortedDict(%s%s)' % ('My' if ctx.sub else '',
                                       'KEY, ' if ctx.keyed else '', body)
    else:
        nm = {'list': 'SortedKeyList' if ctx.keyed else 'SortedList',
              'set': 'SortedSet'}[cls]
        want = '%s%s([%s]%s)' % ('My' if ctx.sub else '', nm, ', '.join(t.name for t in A),
                               ', key=KEY' if ctx.keyed else '')
    ctx.check(r == want, 'repr', lambda: '%s instead of %s' % (r, want))
    if cls == 'dict' and A:
        t = A[len(A) // 2]
        s[t] = s
        ctx.check('...' in ctx.ok('repr', repr, s), 'repr: recursive')
        ctx.check(repr(s).count(A[0].name) >= 1, 'repr: recursive')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        shs = [(4, ()), (4, (1,)), (4, (3, 3)), (4, (3, 4, 3, 3, 4))] + (
            [(4, (8, 4)), (4, (3,) * 9)] if full else [])
        for cls in ('list', 'set', 'dict'):
            for how in HOWS:
                for sh in shs:
                    for op in ('add', 'del', 'clear', 'reset'):
                        for side in ('copy', 'original'):
                            if not full and how in ('pickle0', 'pickle1',
                                                    'pickle3', 'pickle4') \
                                    and (op, side) != ('add', 'copy'):
                                continue
                            add('h_copy', shape=sh, cls=cls, how=how,
                                order='strict', op=op, side=side,
                                cost=sum(sh[1]))
                if how in ('pickle0', 'pickle1', 'pickle3',
                           'pickle4') and not full:
                    continue
                sh = (4, (3,))
                if cls == 'list':
                    add('h_copy', shape=sh, cls=cls, how=how, order='weak',
                        op='del', side='copy', cost=30)
                if keyed:
                    add('h_copy', shape=sh, cls=cls, how=how,
                        order='distinct', op='del', side='copy', cost=30)
                    add('h_copy', shape=sh, cls=cls, how=how,
                        order='distinct', op='add', side='original', cost=30)
                for op, op2 in (('add', None), ('del', None),
                                ('clear', 'add'), ('add', 'del'),
                                ('reset', 'del')):
                    add('h_after', shape=(4, (3, 3)), cls=cls, how=how, op=op,
                        op2=op2, cost=50)
            for sh in [(4, ()), (4, (1,)), (4, (4, 2))]:
                add('h_repr', shape=sh, cls=cls, order='strict')
            if keyed:
                add('h_repr', shape=(4, (3,)), cls=cls, order='distinct')
        for how in HOWS[:-1]:
            add('h_deep', n=4, how=how)
        for cls in ('list', 'set'):
            for how in ('copy', 'copy.copy', 'deepcopy'):
                add('h_boxes', n=3, cls=cls, how=how, i=1, cost=20)
        for cls in ('list', 'set', 'dict'):
            for how in ('copy', 'copy.copy', 'deepcopy'):
                for sh in [(4, ()), (4, (3, 3))]:
                    add('h_copy', shape=sh, cls=cls, how=how, order='strict',
                        op='add', side='copy', sub=True, cost=5)
        for cls in ('list', 'set', 'dict'):
            for j, sh in enumerate(pasts(cls, tier)):
                for i in range(3 if not full else 9):
                    add('h_copy', shape=sh, cls=cls, order='strict',
                        how=HOWS[(j + 3 * i + i // 3) % len(HOWS)],
                        op=('add', 'del', 'reset')[(i + j) % 3],
                        side=('copy', 'original')[(i + j) % 2], cost=30)
    T += big('copy', tier)
    T += variants(T, M, tier)
    return T
