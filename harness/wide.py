"""Wide lists: many sublists of known content, one symbolic query or change.

Concrete lists of up to thousands of sublists (every level of the positional
index in play); the index or the searched value is a solver variable ranging
over a window of positions: the start, the middle, the last power of two of
sublists, and the end.
"""
from .common import *
from .c20 import internals
from sx.task import Task

M = 'harness.wide'
KS = {'quick': (65, 257, 1025, 2049),
      'thorough': (65, 129, 257, 513, 1025, 2049, 4097)}
SPAN = 12


def wide(ctx, k):
    """(list of k sublists with a warm index, contents)."""
    c = ctx.const_chain(4 * k)
    s = new_list(ctx, 4)
    s.update(c)
    R = list(c)
    s[1]
    # shorter and longer sublists here and there, index kept up to date
    for p in (5, 2 * k + 1, 4 * k - 9):
        del s[p]
        del R[p]
    x = R.pop(8 * (k // 5) + 3)
    s.remove(x)
    s.add(x)
    R.insert(8 * (k // 5) + 3, x)
    s[2]
    return s, R


def window(k, n, where):
    top = 1
    while top * 2 < k:
        top *= 2
    w = {'start': 0, 'mid': n // 2 - 6, 'two': 4 * top - 8,
         'end': n - SPAN}[where]
    return max(0, min(w, n - SPAN))


def value(ctx, R, w):
    """A symbolic value somewhere in the window; its bisection positions."""
    v = ctx.tok('v')
    u = ctx.rank_of(v)
    part = R[w:w + SPAN]
    if w > 0:
        ctx.assume(ctx.lt(ctx.rank_of(R[w - 1]), u))
    if w + SPAN < len(R):
        ctx.assume(ctx.lt(u, ctx.rank_of(R[w + SPAN])))
    L = ctx.Sum(w, bl(ctx, part, v))
    U = ctx.Sum(w, br(ctx, part, v))
    return v, part, L, U


def cheap(ctx, n, label, f, *args):
    """f(*args), which may only use logarithmically many comparisons."""
    ctx.arm_count()
    st, r = ctx.call(f, *args)
    ctx.disarm()
    ctx.check(ctx.cmps <= 5 * n.bit_length() + 30,
              label + ': more comparisons than logarithmic',
              lambda: '%d comparisons for %d values' % (ctx.cmps, n))
    return st, r


def h_cost(ctx, k, where):
    """Lookups, additions and removals by value take logarithmic time."""
    s, R = wide(ctx, k)
    n = len(R)
    w = window(k, n, where)
    v, part, L, U = value(ctx, R, w)
    for nm in ('bisect_left', 'bisect_right', '__contains__', 'count',
               'index', 'discard', 'add', 'remove', 'remove', 'irange',
               '__getitem__', 'pop', '__len__'):
        args = {'irange': (v, v), '__getitem__': (w + 2,), 'pop': (w + 2,),
                '__len__': ()}
        st, r = cheap(ctx, n, nm, getattr(s, nm), *args.get(nm, (v,)))
        if nm == 'irange':
            list(r)
    # lookups in an unchanged list use the index that is there: a root that
    # is another object was computed anew from all sublists
    s[w + 2]
    s.bisect_left(v)
    root = s._index[0] if s._index else 0
    for nm, args in (('bisect_right', (v,)), ('__getitem__', (w + 2,)),
                     ('count', (v,)), ('__getitem__', (w + 2 - len(s),)),
                     ('index', (v,)), ('islice', (w, w + 3))):
        ctx.call(getattr(s, nm), *args)
        ctx.check(root <= 256 or bool(s._index) and s._index[0] is root,
                  nm + ': the index is rebuilt by a lookup')
    for i in (0, w, n // 2):
        cheap(ctx, n, 'del', s.__delitem__, i)
    internals(ctx, s, 'after cheap operations')


def h_wide(ctx, k, op, where):
    s, R = wide(ctx, k)
    n = len(R)
    w = window(k, n, where)
    label = 'wide ' + op
    if op in ('read', 'neg', 'del', 'pop'):
        i = ctx.int('i', w, w + SPAN - 1) if op != 'neg' else ctx.int(
            'i', w - n, w - n + SPAN - 1)
        f = {'del': s.__delitem__, 'pop': s.pop}.get(op, s.__getitem__)
        r = ctx.ok(label, f, i)
        p = int(i) % n
        if op != 'del':
            ctx.check(r is R[p], label + ': value')
        if op in ('del', 'pop'):
            R = R[:p] + R[p + 1:]
    elif op == 'islice':
        a = ctx.int('a', w, w + 5)
        b = ctx.int('b', w, w + 5)
        r = list(ctx.ok(label, s.islice, a, b, where == 'two'))
        p, q = int(a), int(b)
        ctx.same_list(r, R[p:q][::-1 if where == 'two' else 1], label)
    else:
        v, part, L, U = value(ctx, R, w)
        if op in ('find', 'bisect'):
            ctx.check(ctx.eqi(ctx.ok(label, s.bisect_left, v), L),
                      label + ': bisect_left')
            ctx.check(ctx.eqi(ctx.ok(label, s.bisect_right, v), U),
                      label + ': bisect_right')
        if op == 'find':
            hit = ctx.Or(*[ctx.eq(t, v) for t in part])
            r = bool(ctx.ok(label, s.__contains__, v))
            ctx.check(hit if r else ctx.Not(hit), label + ': in')
            ctx.check(ctx.eqi(ctx.ok(label, s.count, v), ctx.Count(
                [ctx.eq(t, v) for t in part])), label + ': count')
            st, r = ctx.call(s.index, v)
            if st == 'exc':
                ctx.check(isinstance(r, ValueError), label + ': exception')
                ctx.check(ctx.Not(hit), label + ': index of a stored value')
            else:
                p = int(r)
                ctx.check(w <= p < w + SPAN, label + ': index')
                ctx.check(ctx.eq(R[p], v), label + ': index')
        elif op in ('remove', 'discard'):
            t = ctx.pick('t', part)
            ctx.assume(ctx.eq(v, t))
            ctx.ok(label, getattr(s, op), v)
            R = [x for x in R if x is not t]
        elif op == 'irange':
            lo = R[w - 2] if w > 1 else None
            r = list(ctx.ok(label, s.irange, lo, v))
            m = len(r)
            w0 = w - 2 if w > 1 else 0
            ctx.same_list(r, R[w0:w0 + m], label)
            ctx.check(ctx.eqi(U, w0 + m), label + ': end')
            r = list(ctx.ok(label, s.irange, v, R[min(n - 1, w + SPAN)],
                            (True, False), True))
            r.reverse()
            q = min(n - 1, w + SPAN)
            ctx.same_list(r, R[q - len(r):q], label)
            ctx.check(ctx.Or(ctx.eqi(L, q - len(r)), ctx.And(
                not r, L > q)), label + ': start')
        elif op == 'add':
            ctx.ok(label, s.add, v)
            G = list(s)
            m = len(G)
            p = [i for i in range(m) if G[i] is v]
            ctx.check(len(p) == 1, label + ': added once')
            ctx.same_list([t for t in G if t is not v], R,
                          label + ': others stay')
            ctx.check(ctx.eqi(U, p[0]), label + ': place')
            R = G
        elif op == 'update':
            ctx.ok(label, s.update, [v])
            G = list(s)
            ctx.same_list([t for t in G if t is not v], R,
                          label + ': others stay')
            p = [i for i, t in enumerate(G) if t is v]
            ctx.check(len(p) == 1, label + ': added once')
            ctx.check(ctx.eqi(U, p[0]), label + ': place')
            R = G
    n = len(R)
    ctx.check(len(s) == n, label + ': len')
    if op in ('add', 'del', 'pop', 'remove', 'discard', 'update'):
        ctx.same_list(list(s), R, label + ': contents')
        for p in {0, 7, w, w + 3, w + SPAN - 1, n // 3, n // 2, n - 9, n - 1}:
            p = max(0, min(p, n - 1))
            ctx.check(s[p] is R[p], label + ': s[i] afterwards')
            ctx.check(s[p - n] is R[p], label + ': s[-i] afterwards')
            # neighbours have different ranks: the places are exact
            if op in ('del', 'pop', 'remove', 'discard'):
                ctx.check(s.bisect_left(R[p]) == p, label + ': bisect_left')
        internals(ctx, s, label)


OPS = {'read': ('read', 'neg'), 'position': ('del', 'pop'),
       'find': ('find',), 'bisect': ('bisect',),
       'range': ('islice', 'irange'), 'add': ('add', 'update'),
       'remove': ('remove', 'discard'),
       'balance': ('read', 'add', 'del', 'remove')}


def group(name, tier):
    T = []
    for keyed in (False, True):
        for k in KS[tier]:
            if name == 'balance' and k > 256:
                for w in ('start', 'mid', 'two', 'end'):
                    T.append(Task(M, 'h_cost', dict(k=k, where=w), keyed,
                                  k / 2))
            for op in OPS[name]:
                ws = ('start', 'mid', 'two', 'end')
                if tier == 'quick' and k < 1000:
                    ws = ws[2:] if k == 257 else ws[1:3]
                for w in ws:
                    T.append(Task(M, 'h_wide', dict(k=k, op=op, where=w),
                                  keyed, k / 3))
    return T
