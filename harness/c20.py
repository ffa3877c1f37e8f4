"""C20: load balance and the positional index hold for every load."""
import contextlib
import copy
import io
import pickle
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'layer 1: loads 4 to 9, up to 26 sublists, up to 2 symbolic '
             'operations after symbolic or fixed histories',
    'thorough': 'layer 1: loads 4 to 17, up to 40 sublists, up to 3 symbolic '
                'operations',
}
M = 'harness.c20'


def index_ok(index, offset, lens):
    """Leaves are the sublist lengths, every inner node sums its children.

    Trees padded with zero leaves are accepted too.
    """
    m = len(index)
    leaves = list(index[offset:])
    if leaves[:len(lens)] != lens or any(leaves[len(lens):]):
        return False
    for p in range(offset):
        c = 2 * p + 1
        if index[p] != sum(index[c:c + 2] if c < m else ()):
            return False
    return index[0] == sum(lens)


def internals(ctx, s, label):
    """The list's own check, and the same facts read off its parts."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        st, r = ctx.call(s._check)
    if st == 'exc':
        ctx.fail(label + ': _check fails', repr(r))
    lst = getattr(s, '_list', s)
    try:
        load, lists = lst._load, lst._lists
        maxes, index, offset = lst._maxes, lst._index, lst._offset
        keys = lst._keys if ctx.keyed else None
        if ctx.identity and hasattr(lst, '_keys'):
            ctx.check(len(lst._keys) == len(lst._lists) and all(
                a is b for x, y in zip(lst._keys, lst._lists)
                for a, b in zip(x, y)) and all(
                len(x) == len(y) for x, y in zip(lst._keys, lst._lists)),
                label + ': keys')
    except AttributeError:
        return              # another representation: its own check decides
    lens = [len(x) for x in lists]
    n = sum(lens)
    ctx.check(all(lens), label + ': empty sublist')
    ctx.check(all(x <= 2 * load for x in lens), label + ': sublist too long',
              lambda: '%r for load %r' % (lens, load))
    ctx.check(all(x >= load // 2 for x in lens[:-1]),
              label + ': sublist too short',
              lambda: '%r for load %r' % (lens, load))
    ctx.check(len(s) == n, label + ': len')
    ctx.check(len(maxes) == len(lists), label + ': maxes')
    for sub, mx in zip(lists, maxes):
        t = sub[-1].k if ctx.keyed else sub[-1]
        ctx.check(ctx.eq(t, mx), label + ': maximum of a sublist')
    if keys is not None:
        ctx.check([len(x) for x in keys] == lens, label + ': keys')
        for ks, vs in zip(keys, lists):
            for k, v in zip(ks, vs):
                ctx.check(ctx.eq(k, v.k), label + ': stored key')
    if index:
        ctx.check(index_ok(list(index), offset, lens),
                  label + ': positional index',
                  lambda: '%r offset %r for %r' % (index, offset, lens))


def apply(ctx, s, R, cls, op, j):
    """One operation with symbolic choices; the expected contents."""
    n = len(R)
    K = s.keys() if cls == 'dict' else s
    if op == 'add' or not n and op in ('del', 'pop', 'remove', 'read'):
        v = ctx.tok('v%d' % j)
        for t in R if cls != 'list' else ():
            ctx.assume(ctx.Not(ctx.eq(t, v)))
        if cls == 'dict':
            ctx.ok(op, s.__setitem__, v, 0)
        else:
            ctx.ok(op, s.add, v)
        G = list(s)
        check_perm(ctx, G, R + [v], op + ': contents')
        check_sorted(ctx, G, op + ': order')
        return G
    if op in ('bulk', 'iadd'):
        T = [ctx.tok('u%d_%d' % (j, i)) for i in range(2)]
        for t in R + T[:1] if cls != 'list' else ():
            for u in T:
                if t is not u:
                    ctx.assume(ctx.Not(ctx.eq(t, u)))
        if cls == 'dict':
            ctx.ok(op, s.update, [(t, 0) for t in T])
        elif op == 'iadd':
            s += T
        else:
            ctx.ok(op, s.update, T)
        G = list(s)
        check_perm(ctx, G, R + T, op + ': contents')
        check_sorted(ctx, G, op + ': order')
        return G
    if op in ('del', 'pop'):
        i = ctx.int('i%d' % j, 0, n - 1)
        p = clamp(ctx, i, n)
        if op == 'del':
            ctx.ok(op, K.__delitem__, i)
        elif cls == 'dict':
            ctx.check(ctx.ok(op, s.popitem, i)[0] is R[p], 'pop: value')
        else:
            ctx.check(ctx.ok(op, s.pop, i) is R[p], 'pop: value')
        return R[:p] + R[p + 1:]
    if op == 'remove':
        t = ctx.pick('r%d' % j, R)
        if cls == 'dict':
            ctx.ok(op, s.__delitem__, t)
        else:
            ctx.ok(op, s.remove, t)
        return [x for x in R if x is not t]
    if op == 'slice':
        i = ctx.int('i%d' % j, 0, n)
        m = ctx.int('m%d' % j, 0, 12)
        p, q = clamp(ctx, i, n), clamp(ctx, m, n)
        ctx.ok(op, K.__delitem__, slice(p, p + q))
        return R[:p] + R[p + q:]
    if op == 'evens':
        i = ctx.int('i%d' % j, 0, 3)
        p = clamp(ctx, i, n)
        ctx.ok(op, K.__delitem__, slice(p, None, 2))
        R = list(R)
        del R[p::2]
        return R
    if op == 'reset':
        load = ctx.int('load%d' % j, 4, 12)
        ctx.ok(op, s._reset, load if not ctx.symbolic else int(load))
        return R
    if op == 'clear':
        ctx.ok(op, s.clear)
        return []
    if op == 'imul':
        s *= 2
        G = list(s)
        check_perm(ctx, G, R * 2, op + ': contents')
        check_sorted(ctx, G, op + ': order')
        return G
    if op == 'read':
        if n:
            i = ctx.int('i%d' % j, 0, n - 1)
            p = clamp(ctx, i, n)
            ctx.check(ctx.ok(op, K.__getitem__, i) is R[p], 'read: value')
        return R
    raise ValueError(op)


def h_ops(ctx, shape, warm, cls, ops, order='strict', const=False):
    s, A = build(ctx, shape, warm, order, cls=cls, const=const)
    internals(ctx, s, 'before')
    R = A
    for j, op in enumerate(ops):
        R = apply(ctx, s, R, cls, op, j)
        internals(ctx, s, 'after ' + op)
    G = ctx.ok('iter', list, s)
    ctx.same_list(G, R, 'contents')
    K = s.keys() if cls == 'dict' else s
    for i in range(len(R)):
        ctx.check(ctx.ok('read', K.__getitem__, i) is R[i], 'read: [i]')
    internals(ctx, s, 'after reading')
    for t in some(R):
        ctx.check(bool(ctx.ok('in', s.__contains__, t)), 'lookup by value')
    if R:
        R = apply(ctx, s, R, cls, 'pop', 99) if len(ops) < 2 and not const \
            and len(R) < 8 else R
        internals(ctx, s, 'after a last pop')
    else:
        if cls != 'dict':
            v = ctx.tok('again')
            ctx.ok('add', s.add, v)
            internals(ctx, s, 'reuse')
            ctx.same_list(list(s), [v], 'reuse')


def h_growth(ctx, load, n, pattern, cls, probe=True):
    """n insertions in a fixed pattern, one in a symbolic place, then reads."""
    c = ctx.const_chain(n, hashed=cls != 'list')
    order = {'up': list(range(n)), 'down': list(range(n))[::-1],
             'zigzag': [i // 2 if i % 2 == 0 else n - 1 - i // 2
                        for i in range(n)],
             'inner': [(i * 7) % n for i in range(n)] if n % 7 else
             [(i * 5) % n for i in range(n)]}[pattern]
    s = {'list': lambda: new_list(ctx, load),
         'set': lambda: new_set(ctx, load)}[cls]()
    for j, i in enumerate(order):
        ctx.ok('add', s.add, c[i])
        if j % 3 == 0:
            ctx.ok('read', s.__getitem__, j // 2)
        internals(ctx, s, 'growing')
    ctx.same_list(list(s), c, 'grown')
    R = list(c)
    if probe and cls == 'list':
        v = ctx.tok('v')
        ctx.ok('add', s.add, v)
        p = ctx.ok('index', s.index, v)
        internals(ctx, s, 'symbolic insertion')
        G = list(s)
        check_perm(ctx, G, R + [v], 'symbolic insertion: contents')
        check_sorted(ctx, G, 'symbolic insertion: order')
        ctx.check(ctx.eq(G[p], v), 'symbolic insertion: index')
        R = G
    for i in range(len(R)):
        ctx.check(ctx.ok('read', s.__getitem__, i) is R[i], 'read')
    internals(ctx, s, 'read')


def h_drain(ctx, load, n, cls, how, warm):
    """Repeated removal at one symbolic position, from n values to none."""
    c = ctx.const_chain(n, hashed=cls != 'list')
    s = {'list': lambda: new_list(ctx, load),
         'set': lambda: new_set(ctx, load)}[cls]()
    s.update(c)
    R = list(c)
    i = ctx.int('i', -n, n - 1)
    p = clamp(ctx, i, n)
    j = 0
    while R:
        q = min(p, len(R) - 1) if p >= 0 else max(p, -len(R))
        if warm or j % 4 == 1:
            ctx.check(ctx.ok('read', s.__getitem__, q) is R[q], 'read')
        if how == 'pop':
            ctx.check(ctx.ok('pop', s.pop, q) is R.pop(q), 'pop')
        elif how == 'del':
            ctx.ok('del', s.__delitem__, q)
            del R[q]
        else:
            ctx.ok('remove', s.remove, R.pop(q))
        internals(ctx, s, 'draining')
        j += 1
        if j % 5 == 0 or len(R) < 4:
            ctx.same_list(list(s), R, 'draining')
            for t in range(len(R)):
                ctx.check(ctx.ok('read', s.__getitem__, t) is R[t], 'read')
    ctx.same_list(list(s), [], 'drained')


def h_load(ctx, n, cls):
    """Every load gives the same contents, and refuses nothing it took."""
    c = ctx.const_chain(n, hashed=cls != 'list')
    s = {'list': lambda: new_list(ctx), 'set': lambda: new_set(ctx, 4)}[cls]()
    s.update(c)
    a = ctx.pick('a', [4, 5, 6, 7, 8, 1000])
    b = ctx.pick('b', [4, 5, 7, 9, 1000])
    R = list(c)
    for L in (a, b):
        ctx.ok('_reset', s._reset, L)
        internals(ctx, s, '_reset')
        ctx.same_list(list(s), R, '_reset changed the contents')
        for i in range(len(R)):
            ctx.check(ctx.ok('read', s.__getitem__, i) is R[i], 'read')
        internals(ctx, s, 'read')
        if R:
            ctx.check(ctx.ok('pop', s.pop, len(R) // 2) is
                      R.pop(len(R) // 2), 'pop')
            internals(ctx, s, 'pop')


DERIVE = {
    'list': ('copy', 'copy.copy', 'deepcopy', 'pickle', 'init', 'again', '+',
             'r+', '*', 'r*', '*='),
    'set': ('copy', 'copy.copy', 'deepcopy', 'pickle', 'init', '&', '|', '-',
            '^', 'r-', 'slice', 'union', 'ior', 'iand', 'isub', 'ixor'),
    'dict': ('copy', 'copy.copy', 'deepcopy', 'pickle', 'init', '|', 'r|',
             'fromkeys', '|='),
}


def derive(ctx, s, A, cls, how):
    """(container made from s, its contents)."""
    sc = ctx.sc
    T = A[::2]
    if how == 'copy':
        return s.copy(), A
    if how == 'copy.copy':
        return copy.copy(s), A
    if how == 'deepcopy':
        return copy.deepcopy(s), A
    if how == 'pickle':
        return pickle.loads(pickle.dumps(s)), A
    if how == 'init':
        if cls == 'dict':
            r = sc.SortedDict(ctx.key, s) if ctx.keyed else sc.SortedDict(s)
        else:
            t = sc.SortedSet if cls == 'set' else sc.SortedList
            r = t(s, key=ctx.key) if ctx.keyed else t(s)
        return r, A
    if how == 'again':
        s.__init__(T, key=ctx.key) if ctx.keyed else s.__init__(T)
        return s, T
    if cls == 'list':
        if how == '+':
            return s + T, None
        if how == 'r+':
            return T + s, None
        if how == '*':
            return s * 2, None
        if how == 'r*':
            return 2 * s, None
        s *= 2
        return s, None
    if cls == 'dict':
        o = {t: 0 for t in T}
        if how == '|':
            return s | o, A
        if how == 'r|':
            return o | s, A
        if how == '|=':
            s |= o
            return s, A
        r = type(s).fromkeys(A)
        return r, None
    o = set(T)
    if how in ('&', '|', '-', '^', 'r-'):
        r = {'&': lambda: s & o, '|': lambda: s | o, '-': lambda: s - o,
             '^': lambda: s ^ o, 'r-': lambda: o - s}[how]()
        return r, {'&': T, '|': A, '-': A[1::2], '^': A[1::2], 'r-': []}[how]
    if how == 'slice':
        return s.difference(A[1:3]), A[:1] + A[3:]
    if how == 'union':
        return s.union(T, A), A
    getattr(s, '__%s__' % how)(o)
    return s, {'ior': A, 'iand': T, 'isub': A[1::2], 'ixor': A[1::2]}[how]


def h_derived(ctx, shape, cls, how, ops, load=None):
    """What is made from a container in any state is in order itself."""
    s, A = build(ctx, shape, True, 'strict', cls=cls)
    label = '%s of a %s' % (how, cls)
    r, R = ctx.ok(label, derive, ctx, s, A, cls, how)
    internals(ctx, s, label + ', original')
    internals(ctx, r, label)
    if R is None:
        R = list(r)
        check_sorted(ctx, R, label + ': order')
    else:
        ctx.same_list(list(r), R, label + ': contents')
    if load:
        ctx.ok('_reset', r._reset, load)
        internals(ctx, r, label + ', _reset')
    K = r.keys() if cls == 'dict' else r
    for j, op in enumerate(ops):
        R = apply(ctx, r, R, cls, op, j)
        internals(ctx, r, label + ', then ' + op)
        for i in range(len(R)):
            ctx.check(ctx.ok('read', K.__getitem__, i) is R[i], 'read: [i]')
        internals(ctx, r, label + ', then reading')
    if r is not s:
        internals(ctx, s, label + ', original after ' + ops[0])
        if how != 'again':
            ctx.same_list(list(s), A, label + ': original')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        one = [(4, ()), (4, (1,)), (4, (8,)), (4, (3, 3)), (4, (3, 8)),
               (4, (8, 3)), (4, (8, 8)), (4, (3, 8, 3)), (4, (8, 3, 8)),
               (5, (10,)), (5, (3, 10)), (5, (10, 3, 1)), (6, (12, 4)),
               (7, (4, 14)), (4, (3, 4, 3, 3, 4))]
        if full:
            one += [(8, (5, 16)), (9, (18, 5)), (4, (3,) * 9),
                    (4, (8, 3, 8, 3, 8)), (5, (3, 3, 10, 3, 3))]
        for sh in one:
            n = sum(sh[1])
            for warm in (False, True):
                for op in ('add', 'del', 'pop', 'remove', 'slice', 'evens',
                           'bulk', 'reset', 'clear', 'imul', 'read'):
                    if n == 0 and op in ('del', 'pop', 'remove', 'read'):
                        continue
                    if op == 'bulk' and n > (14 if full else 6):
                        continue
                    if not full and warm is False and op in (
                            'evens', 'clear', 'imul', 'reset', 'slice'):
                        continue
                    add('h_ops', shape=sh, warm=warm, cls='list', ops=(op,),
                        cost=n * (8 if op == 'bulk' else 1))
        for cls in ('set', 'dict'):
            for sh in [(4, (8,)), (4, (3, 8)), (5, (3, 10)),
                       (4, (3, 4, 3, 3, 4))]:
                for op in ('add', 'del', 'pop', 'remove', 'slice', 'evens',
                           'clear', 'reset'):
                    add('h_ops', shape=sh, warm=True, cls=cls, ops=(op,),
                        cost=sum(sh[1]))
            add('h_ops', shape=(4, (3,)), warm=True, cls=cls, ops=('bulk',),
                cost=20)
        two = [('del', 'read', 'del'), ('add', 'read', 'del'),
               ('del', 'add'), ('pop', 'pop'), ('add', 'add'),
               ('slice', 'add'), ('clear', 'add', 'add'), ('reset', 'add'),
               ('imul', 'del'), ('evens', 'del'), ('slice', 'read', 'del')]
        for ops in two:
            for sh in [(4, (3, 3)), (4, (8,))] + (
                    [(4, (3, 8)), (5, (10, 3)), (4, (3, 4, 3))]
                    if full else []):
                if not full and sh == (4, (8,)) and (
                        keyed or 'slice' in ops):
                    continue
                add('h_ops', shape=sh, warm=True, cls='list', ops=ops,
                    cost=sum(sh[1]) ** 2)
        for load, n in [(4, 21), (5, 40), (4, 60), (7, 50)] + (
                [(4, 160), (9, 120), (17, 200)] if full else []):
            for pat in ('up', 'down', 'zigzag', 'inner'):
                add('h_growth', load=load, n=n, pattern=pat, cls='list',
                    cost=n)
            add('h_growth', load=load, n=n, pattern='inner', cls='set',
                cost=n)
            for how in ('pop', 'del', 'remove'):
                if not full and n > 50:
                    continue
                add('h_drain', load=load, n=n, cls='list', how=how, warm=True,
                    cost=n * 2)
                if how == 'pop' or full:
                    add('h_drain', load=load, n=n, cls='list', how=how,
                        warm=False, cost=n * 2)
        add('h_drain', load=4, n=21, cls='set', how='pop', warm=True, cost=40)
        for cls in DERIVE:
            for how in DERIVE[cls]:
                for sh in [(4, ()), (4, (3, 3)), (4, (3, 8)), (5, (10, 3))] + (
                        [(4, (3, 4, 3, 3, 4))] if full else []):
                    for op in ('add', 'del', 'slice') if full else (
                            ('add',) if len(sh[1]) < 2 or sh[1][1] == 3
                            else ('del',)):
                        if op != 'add' and not sh[1] or (
                                keyed and how == 'fromkeys'):
                            continue
                        for load in (None, 4):
                            add('h_derived', shape=sh, cls=cls, how=how,
                                ops=(op,), load=load, cost=20)
        for n in (0, 1, 4, 9, 33):
            for cls in ('list', 'set'):
                add('h_load', n=n, cls=cls, cost=n)
        for cls in ('list', 'set', 'dict'):
            ops = ('add', 'del', 'pop', 'slice', 'remove')
            for j, sh in enumerate(pasts(cls, tier)):
                for op in ops if full else (ops[j % 5], ops[(j + 2) % 5]):
                    add('h_ops', shape=sh, warm=False, cls=cls, ops=(op,),
                        cost=40)
    T += anysize('balance', tier)
    T += variants(T, M, tier)
    return T
