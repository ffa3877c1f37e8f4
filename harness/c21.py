"""C21: delegated search methods of sets and dicts stay live."""
import copy
import operator
import pickle
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'sets and dicts of up to 13 values; references taken before, '
             'between and after up to 2 operations; symbolic probes for '
             'every delegated method; derived containers of every kind',
    'thorough': 'the same with up to 17 values and up to 3 operations',
}
M = 'harness.c21'
NAMES = ('bisect', 'bisect_left', 'bisect_right', 'index', 'irange',
         'islice')
KNAMES = ('bisect_key', 'bisect_key_left', 'bisect_key_right', 'irange_key')
SNAMES = ('isdisjoint', 'issubset', 'issuperset')


def methods(ctx, s, cls):
    out = {n: getattr(s, n) for n in NAMES}
    if ctx.keyed:
        out.update((n, getattr(s, n)) for n in KNAMES)
    if cls == 'set':
        out.update((n, getattr(s, n)) for n in SNAMES)
    return out


def ordered(ctx, R, lo, hi, inc):
    """Conditions saying which of R lie in the range."""
    out = []
    for t in R:
        c = []
        u = ctx.rank_of(t)
        if lo is not None:
            l = ctx.rank_of(lo)
            c.append(ctx.Not(ctx.lt(u, l)) if inc[0] else ctx.lt(l, u))
        if hi is not None:
            h = ctx.rank_of(hi)
            c.append(ctx.Not(ctx.lt(h, u)) if inc[1] else ctx.lt(u, h))
        out.append(ctx.And(*c))
    return out


def is_range(ctx, got, R, conds, label):
    """`got` is exactly the members of R whose condition holds, in order."""
    ids = [id(t) for t in got]
    ctx.same_list([t for t in R if id(t) in set(ids)], got,
                  label + ': order')
    ctx.check(ctx.And(*[c if id(t) in set(ids) else ctx.Not(c)
                        for t, c in zip(R, conds)]), label)


def probe(ctx, m, R, cls, label, v, sets=True):
    """Every method in m answers for contents R; v is a symbolic probe."""
    n = len(R)
    L, H = bl(ctx, R, v), br(ctx, R, v)
    ok = ctx.ok
    for nm, want in (('bisect_left', L), ('bisect_right', H), ('bisect', H)):
        p = ok(label, m[nm], v)
        ctx.check(ctx.eqi(p, want), '%s: %s' % (label, nm))
    if ctx.keyed:
        k = v.k
        for nm, want in (('bisect_key_left', L), ('bisect_key_right', H),
                         ('bisect_key', H)):
            p = ok(label, m[nm], k)
            ctx.check(ctx.eqi(p, want), '%s: %s' % (label, nm))
        is_range(ctx, list(ok(label, m['irange_key'], k)), R,
                 ordered(ctx, R, v, None, (True, True)),
                 label + ': irange_key')
    is_range(ctx, list(ok(label, m['irange'], None, v)), R,
             ordered(ctx, R, None, v, (True, True)), label + ': irange')
    is_range(ctx, list(ok(label, m['irange'], v, None, (False, True), True)
                       )[::-1], R,
             ordered(ctx, R, v, None, (False, True)),
             label + ': irange reversed')
    ctx.same_list(ok(label, lambda: list(m['irange']())), R,
                  label + ': irange()')
    ctx.same_list(ok(label, lambda: list(m['islice']())), R,
                  label + ': islice()')
    ctx.same_list(ok(label, lambda: list(m['islice'](1, n, True))),
                  R[1:n][::-1], label + ': islice(1, n, reverse)')
    for i, t in enumerate(R):
        if i in (0, n // 2, n - 1):
            ctx.check(ok(label, m['index'], t) == i, label + ': index')
    st, i = ctx.call(m['index'], v)
    e = [ctx.eq(t, v) for t in R]
    if st == 'exc':
        ctx.check(isinstance(i, ValueError), label + ': index error')
        ctx.check(ctx.Not(ctx.Or(*e)), label + ': index of a stored value')
    else:
        ctx.check(0 <= i < n, label + ': index range')
        ctx.check(e[i], label + ': index of a value')
    if cls == 'set' and sets:
        for B in ([v], R, R[1:], list(R) + [v]):
            disj = ctx.Not(ctx.Or(*[ctx.eq(a, b) for a in R for b in B])) \
                if not (B and any(b is a for a in R for b in B)) else False
            sub = ctx.And(*[ctx.Or(*[ctx.eq(a, b) for b in B]) for a in R])
            sup = ctx.And(*[ctx.Or(*[ctx.eq(a, b) for a in R]) for b in B])
            for nm, want in (('isdisjoint', disj), ('issubset', sub),
                             ('issuperset', sup)):
                r = bool(ok(label, m[nm], list(B)))
                ctx.check(want if r else ctx.Not(want),
                          '%s: %s' % (label, nm))


def fresh(ctx, name, R):
    """A new value different from (and not tied with) all of R."""
    v = ctx.tok(name)
    for t in R:
        ctx.assume(ctx.Not(ctx.eq(t, v)))
        if ctx.keyed:
            ctx.assume(ctx.Not(ctx.eq(ctx.rank_of(t), ctx.rank_of(v))))
    return v


SETOPS = ('add', 'discard', 'remove', 'pop', 'del', 'delslice', 'clear',
          'update', 'ior', 'iand', 'isub', 'ixor', 'isub self', 'iand empty',
          'intersection_update', 'difference_update', 'ixor self',
          'symmetric_difference_update', 'reset', 'init')
DICTOPS = ('set', 'overwrite', 'del', 'pop', 'popitem', 'clear', 'update',
           'ior', 'setdefault', 'delkeys', 'delitems', 'delvalues',
           'delslice', 'reset', 'update many', 'update empty')


def mutate(ctx, s, R, cls, op, j):
    """Contents after applying op (the other properties check them)."""
    mid = R[len(R) // 2] if R else None
    if op in ('add', 'set', 'setdefault', 'update', 'ior'):
        v = fresh(ctx, 'n%d' % j, R)
        if cls == 'set':
            {'add': lambda: s.add(v), 'update': lambda: s.update([v]),
             'ior': lambda: operator.ior(s, {v})}[op]()
        else:
            {'set': lambda: s.__setitem__(v, 1),
             'setdefault': lambda: s.setdefault(v, 1),
             'update': lambda: s.update([(v, 1)]),
             'ior': lambda: operator.ior(s, {v: 1})}[op]()
    elif op == 'update many':
        s.update([(fresh(ctx, 'n%d' % j, R), 1)] + [(t, 2) for t in R])
    elif op == 'update empty':
        s.update()
    elif op == 'overwrite' and mid is not None:
        s[mid] = 3
    elif op in ('discard', 'remove') and mid is not None:
        getattr(s, op)(mid)
    elif op == 'pop' and mid is not None:
        if cls == 'dict':
            s.pop(mid)
        else:
            s.pop(ctx.int('i%d' % j, 0, len(R) - 1))
    elif op == 'popitem' and R:
        s.popitem(0)
    elif op == 'del' and R:
        if cls == 'dict':
            del s[mid]
        else:
            del s[0]
    elif op in ('delkeys', 'delitems', 'delvalues') and R:
        del getattr(s, op[3:])()[ctx.int('i%d' % j, 0, len(R) - 1)]
    elif op == 'delslice':
        (s if cls == 'set' else s.keys()).__delitem__(slice(0, 2))
    elif op == 'clear':
        s.clear()
    elif op in ('iand', 'isub', 'ixor', 'intersection_update',
                'difference_update', 'symmetric_difference_update'):
        B = set(R[1:3])
        if op in ('ixor', 'symmetric_difference_update'):
            B.add(fresh(ctx, 'n%d' % j, R))
        if op in ('iand', 'isub', 'ixor'):
            s2 = getattr(operator, op)(s, B)
            ctx.check(s2 is s, op + ': identity')
        else:
            getattr(s, op)(list(B))
    elif op == 'isub self':
        s -= s
    elif op == 'ixor self':
        s ^= s
    elif op == 'iand empty':
        s &= set()
    elif op == 'reset':
        s._reset(5)
    elif op == 'init':
        s.update(R)
    G = list(s)
    return G


def h_past(ctx, shape, cls, op):
    """A long-lived container: references from before and after agree."""
    s, A = build(ctx, shape, False, cls=cls)
    m0 = methods(ctx, s, cls)
    mid = A[len(A) // 2] if A else None
    if not A:
        op = 'update'
    if cls == 'set':
        s.discard(mid) if op == 'remove' else s.update(A[:2])
    elif op == 'remove':
        del s[mid]
    else:
        s.update([(t, 1) for t in A[:2]])
    R = [t for t in A if t is not mid] if op == 'remove' else A
    v = ctx.tok('probe')
    m1 = methods(ctx, s, cls)
    for m, lab in ((m0, 'taken before'), (m1, 'taken after')):
        p = ctx.ok(lab, m['bisect_left'], v)
        ctx.check(ctx.eqi(p, bl(ctx, R, v)), lab + ': bisect_left')
        is_range(ctx, list(ctx.ok(lab, m['irange'], v)), R,
                 ordered(ctx, R, v, None, (True, True)), lab + ': irange')
        ctx.same_list(ctx.ok(lab, lambda: list(m['islice']())), R,
                      lab + ': islice()')
        for i in (0, len(R) // 2, len(R) - 1) if R else ():
            ctx.check(ctx.ok(lab, m['index'], R[i]) == i, lab + ': index')
        if cls == 'set':
            ctx.check(ctx.ok(lab, m['issubset'], R), lab + ': issubset')
            ctx.check(ctx.ok(lab, m['isdisjoint'], R[-1:]) == (not R),
                      lab + ': isdisjoint')


def h_live(ctx, shape, cls, ops, build_index):
    s, A = build(ctx, shape, build_index, cls=cls)
    refs = [('taken at first', methods(ctx, s, cls))]
    R = A
    for j, op in enumerate(ops):
        R = ctx.ok(op, mutate, ctx, s, R, cls, op, j)
        refs.append(('taken after ' + op, methods(ctx, s, cls)))
    v = ctx.tok('probe')
    for lab, m in (refs[0], refs[-1]):
        probe(ctx, m, R, cls, lab, v)
    ctx.same_list(list(s), R, 'probing changed the contents')
    ctx.check(len(s) == len(R), 'len')


DERIVE = {
    'set': ('copy', 'copy.copy', 'deepcopy', 'pickle', 'or', 'and', 'sub',
            'xor', 'union', 'intersection', 'difference',
            'symmetric_difference', 'rsub', 'ror', 'rand', 'rxor', 'init',
            'union()', 'difference()', 'intersection()'),
    'dict': ('copy', 'copy.copy', 'deepcopy', 'pickle', 'or', 'ror', 'init',
             'or empty', 'keys and'),
}


def derive(ctx, s, A, cls, how):
    """A derived container; its contents are read off it."""
    sc = ctx.sc
    if how == 'copy':
        return s.copy()
    if how == 'copy.copy':
        return copy.copy(s)
    if how == 'deepcopy':
        return copy.deepcopy(s)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(s))
    if cls == 'dict':
        key = (ctx.key,) if ctx.keyed else ()
        return {'or': lambda: s | {A[0]: 9}, 'or empty': lambda: s | {},
                'ror': lambda: {A[0]: 9} | s,
                'init': lambda: sc.SortedDict(*key, s),
                'keys and': lambda: s.copy()}[how]()
    if how == 'init':
        return sc.SortedSet(s, key=seq_key(ctx))
    if how.endswith('()'):
        return getattr(s, how[:-2])()
    B = set(A[1:])
    if how == 'rsub':
        x = fresh(ctx, 'extra', A)
        return (set(A) | {x, fresh(ctx, 'extra2', A + [x])}) - s
    if how in ('ror', 'rand', 'rxor'):
        return getattr(operator, how[1:] + '_' if how != 'rxor' else 'xor')(
            B, s)
    if how == 'sub':
        return s - {A[0]}
    if how == 'difference':
        return s.difference([A[0]])
    if how in ('or', 'and', 'xor'):
        return getattr(operator, {'or': 'or_', 'and': 'and_'}.get(how, how))(
            s, B)
    return getattr(s, how)(B)


def h_derived(ctx, shape, cls, how, op):
    """Methods of a derived container answer for it alone."""
    s, A = build(ctx, shape, True, cls=cls)
    m0 = methods(ctx, s, cls)
    d = ctx.ok(how, derive, ctx, s, A, cls, how)
    R = list(d)
    md = methods(ctx, d, cls)
    d._reset(4)
    v = ctx.tok('probe')
    # change one side, probe both
    if op == 'original':
        A = ctx.ok(op, mutate, ctx, s, A, cls, 'clear', 0)
    elif op == 'original pop':
        A = ctx.ok(op, mutate, ctx, s, A, cls,
                   'remove' if cls == 'set' else 'pop', 0)
    elif op == 'derived':
        R = ctx.ok(op, mutate, ctx, d, R, cls, 'clear', 0)
    elif op == 'derived del':
        R = ctx.ok(op, mutate, ctx, d, R, cls, 'del', 0)
    probe(ctx, md, R, cls, how + ' derived', v)
    probe(ctx, m0, A, cls, how + ' original', v)
    probe(ctx, methods(ctx, d, cls), R, cls, how + ' derived later', v)


def h_iterators(ctx, shape, cls, what):
    """Ranges asked for later see later contents."""
    s, A = build(ctx, shape, True, cls=cls)
    f = s.irange if what == 'irange' else s.islice
    list(f())
    v = fresh(ctx, 'v', A)
    if cls == 'set':
        s.add(v)
    else:
        s[v] = 1
    R = list(s)
    ctx.same_list(list(f()), R, what + ' after adding')
    s.clear()
    ctx.same_list(list(f()), [], what + ' after clear')
    if cls == 'set':
        s.add(v)
    else:
        s[v] = 1
    ctx.same_list(list(f()), [v], what + ' after adding again')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for cls, ops in (('set', SETOPS), ('dict', DICTOPS)):
            for op in ops:
                for sh in [(4, ()), (4, (3,)), (4, (3, 3)), (4, (8, 4))] + (
                        [(4, (3, 4, 3, 3, 4))] if full else []):
                    if not full and sh == (4, (8, 4)) and (
                            keyed or op not in ('clear', 'del', 'isub',
                                                'delkeys', 'update many')):
                        continue
                    add('h_live', shape=sh, cls=cls, ops=(op,),
                        build_index=True, cost=sum(sh[1]))
                a = 'add' if cls == 'set' else 'set'
                b = 'update'
                for pair in ((op, a), (a, op), (op, b), ('clear', op)) + (
                        (('clear', a, op), (op, 'clear', a), (op, op, b))
                        if full else ()):
                    add('h_live', shape=(4, (3,)), cls=cls, ops=pair,
                        build_index=False, cost=30)
            for how in DERIVE[cls]:
                for op in ('none', 'original', 'original pop', 'derived',
                           'derived del'):
                    for sh in [(4, (3,)), (4, (3, 3))] + (
                            [(4, (8, 4))] if full else []):
                        if not full and sum(sh[1]) > 3 and op in (
                                'original pop', 'derived del'):
                            continue
                        add('h_derived', shape=sh, cls=cls, how=how, op=op,
                            cost=sum(sh[1]))
            for what in ('irange', 'islice'):
                for sh in [(4, ()), (4, (3, 3))]:
                    add('h_iterators', shape=sh, cls=cls, what=what)
        for cls in ('set', 'dict'):
            for j, sh in enumerate(pasts(cls, tier, True)):
                add('h_past', shape=sh, cls=cls,
                    op=('remove', 'update')[j % 2], cost=40)
    T += big('derived', tier)
    T += calls('C21', tier)
    T += variants(T, M, tier)
    return T
