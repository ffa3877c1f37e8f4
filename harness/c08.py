"""C08: a key function fully determines order and is used consistently.

Values of these harnesses have no ordering at all (comparing them raises
TypeError); the key function is an uninterpreted function of the value.
"""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'any key function (uninterpreted), values without an ordering, '
             'up to 11 stored values, all key ties on up to 6 values',
    'thorough': 'up to 27 stored values, all key ties on up to 9 values',
}
M = 'harness.c08'


def h_pairs(ctx, shape, order, warm):
    """Methods taking values answer as the key variants of key(value)."""
    s, A = build(ctx, shape, warm, order)
    v = ctx.tok('v')
    kv = ctx.key(v)
    for a, b in (('bisect_left', 'bisect_key_left'),
                 ('bisect_right', 'bisect_key_right'),
                 ('bisect', 'bisect_key')):
        x = ctx.ok(a, getattr(s, a), v)
        y = ctx.ok(b, getattr(s, b), kv)
        ctx.check(ctx.eqi(x, y), a + ' agrees with ' + b)
    for inc in ((True, True), (False, True), (True, False), (False, False)):
        for rev in (False, True):
            x = ctx.ok('irange', lambda: list(s.irange(v, None, inc, rev)))
            y = ctx.ok('irange_key', lambda: list(
                s.irange_key(kv, None, inc, rev)))
            ctx.same_list(x, y, 'irange(min) agrees with irange_key')
            x = ctx.ok('irange', lambda: list(s.irange(None, v, inc, rev)))
            y = ctx.ok('irange_key', lambda: list(
                s.irange_key(None, kv, inc, rev)))
            ctx.same_list(x, y, 'irange(max) agrees with irange_key')
    ctx.check(s.key is ctx.key, 'key property')


def key_of(ctx, c, label):
    ctx.check(ctx.ok(label, lambda: c.key) is seq_key(ctx),
              label + ': key function kept')


def sorted_by_key(ctx, c, label):
    check_sorted(ctx, list(c), label + ': ordered by key')


def h_list_derived(ctx, shape, order):
    s, A = build(ctx, shape, True, order)
    v = ctx.tok('v')
    d = {
        'copy': lambda: s.copy(), '+': lambda: s + [v], 'radd': lambda: [v] + s,
        '*': lambda: s * 2, 'rmul': lambda: 2 * s, '*0': lambda: s * 0,
        '0*': lambda: 0 * s, '*-1': lambda: s * -1, '*1': lambda: s * 1,
        '+empty': lambda: s + [], 'empty+': lambda: () + s,
    }
    import copy
    d['copy.copy'] = lambda: copy.copy(s)
    for name, f in d.items():
        r = ctx.ok(name, f)
        key_of(ctx, r, name)
        ctx.check(is_a(ctx, r, 'SortedKeyList'), name + ': type')
        sorted_by_key(ctx, r, name)
        w = ctx.tok('w')
        r.add(w)
        if not A or not len(r) > 1:
            r.add(v)
        sorted_by_key(ctx, r, name + ' then add')
    s.clear()
    key_of(ctx, s, 'clear')
    s.update([v, A[0]] if A else [v])
    sorted_by_key(ctx, s, 'clear then update')
    s *= 0
    key_of(ctx, s, '*= 0')
    s += [v, w]
    sorted_by_key(ctx, s, '*= 0 then +=')


def h_class(ctx, how):
    sc = ctx.sc
    v = [ctx.tok('a'), ctx.tok('b')]
    if how == 'kw':
        s = sc.SortedList(v, key=ctx.key)
    elif how == 'pos':
        s = sc.SortedList(v, ctx.key)
    else:
        s = sc.SortedKeyList(v, key=ctx.key)
    ctx.check(type(s) is sc.SortedKeyList, 'SortedList(key=f) class')
    ctx.check(isinstance(s, sc.SortedList), 'isinstance of SortedList')
    key_of(ctx, s, 'constructor')
    check_perm(ctx, list(s), v, 'constructor: contents')
    sorted_by_key(ctx, s, 'constructor')
    p = sc.SortedList()
    ctx.check(type(p) is sc.SortedList and p.key is None, 'SortedList() key')


def h_set(ctx, shape, n, order='strict'):
    """All operations of a keyed set order by the key and keep it."""
    sc = ctx.sc
    s, A = build(ctx, shape, True, order, cls='set')
    T = [ctx.tok('t%d' % i) for i in range(n)]
    t = set(T)
    key_of(ctx, s, 'set')
    d = {
        '|': lambda: s | t, '&': lambda: s & t, '-': lambda: s - t,
        '^': lambda: s ^ t, 'r|': lambda: t | s, 'r&': lambda: t & s,
        'r-': lambda: t - s, 'r^': lambda: t ^ s,
        'union': lambda: s.union(T, T), 'copy': lambda: s.copy(),
        'intersection': lambda: s.intersection(T),
        'difference': lambda: s.difference(T),
        'symmetric_difference': lambda: s.symmetric_difference(T),
    }
    for name, f in d.items():
        r = ctx.ok(name, f)
        ctx.check(is_a(ctx, r, 'SortedSet'), name + ': type')
        key_of(ctx, r, name)
        sorted_by_key(ctx, r, name)
        ctx.ok(name + ' then irange_key', lambda: list(r.irange_key()))
    for name in ('__ior__', '__iand__', '__isub__', '__ixor__', 'update',
                 'intersection_update', 'difference_update',
                 'symmetric_difference_update'):
        c = s.copy()
        ctx.ok(name, getattr(c, name), t)
        key_of(ctx, c, name)
        sorted_by_key(ctx, c, name)


def other_key(ctx, plain):
    """Key function of the other operand: the reverse order, or none."""
    if plain:
        ctx.orderable = True
        return None
    return ctx.key2


def sorted_by_other(ctx, c, plain, label):
    R = list(c)
    if plain:
        ctx.check(ctx.And(*[ctx.Not(ctx.lt(b, a)) for a, b in zip(R, R[1:])]),
                  label)
    else:
        check_sorted(ctx, R[::-1], label)


def h_mixed(ctx, shape, n, plain=False):
    """Operands that have another key function (or none) do not lend it."""
    sc = ctx.sc
    key2 = other_key(ctx, plain)
    s, A = build(ctx, shape, True, cls='set')
    T = [ctx.tok('t%d' % i) for i in range(n)]
    t = sc.SortedSet(T, key=key2)
    ops = {'|': '__or__', '&': '__and__', '-': '__sub__', '^': '__xor__'}
    for name, f in list(ops.items()):
        r = ctx.ok(name, getattr(s, f), t)
        key_of(ctx, r, name + ' mixed')
        sorted_by_key(ctx, r, name + ' mixed')
        if ctx.keyed:
            ctx.ok(name + ' then irange_key', lambda: list(r.irange_key()))
        q = ctx.ok(name, getattr(t, f), s)
        ctx.check(q.key is key2, name + ' mixed: key of the left operand')
        sorted_by_other(ctx, q, plain, name + ' mixed: ordered by the left key')
    for name in ('union', 'intersection', 'difference',
                 'symmetric_difference'):
        r = ctx.ok(name, getattr(s, name), t)
        key_of(ctx, r, name + ' mixed')
        sorted_by_key(ctx, r, name + ' mixed')
    for name in ('__ior__', '__iand__', '__isub__', '__ixor__', 'update',
                 'intersection_update', 'difference_update',
                 'symmetric_difference_update'):
        c = s.copy()
        ctx.ok(name, getattr(c, name), t)
        key_of(ctx, c, name + ' mixed')
        sorted_by_key(ctx, c, name + ' mixed')
    ctx.check(t.key is key2, 'operand keeps its own key')
    sorted_by_other(ctx, t, plain, 'operand keeps its own order')


def h_mixed_list(ctx, shape, n, plain=False):
    sc = ctx.sc
    key2 = other_key(ctx, plain)
    s, A = build(ctx, shape, True)
    T = [ctx.tok('t%d' % i) for i in range(n)]
    t = sc.SortedList(T, key=key2)
    r = ctx.ok('+', lambda: s + t)
    if ctx.keyed:
        key_of(ctx, r, '+ mixed')
        sorted_by_key(ctx, r, '+ mixed')
    else:
        # Python asks the operand of the more special class first
        ctx.check(r.key in (None, key2), '+ mixed: key of an operand')
        if r.key is None:
            sorted_by_key(ctx, r, '+ mixed')
        else:
            sorted_by_other(ctx, r, plain, '+ mixed')
    r = ctx.ok('+', lambda: t + s)
    if plain and r.key is not None:
        key_of(ctx, r, '+ mixed')
        sorted_by_key(ctx, r, '+ mixed')
    else:
        ctx.check(r.key is key2, '+ mixed: key of the left operand')
        sorted_by_other(ctx, r, plain, '+ mixed: ordered by the left key')
    c = s.copy()
    c += t
    key_of(ctx, c, '+= mixed')
    sorted_by_key(ctx, c, '+= mixed')
    c = sc.SortedList(t, key=seq_key(ctx))
    key_of(ctx, c, 'constructor mixed')
    sorted_by_key(ctx, c, 'constructor mixed')
    c = sc.SortedSet(t, key=seq_key(ctx))
    key_of(ctx, c, 'set constructor mixed')
    sorted_by_key(ctx, c, 'set constructor mixed')


def h_mixed_dict(ctx, shape, n, plain=False):
    sc = ctx.sc
    key2 = other_key(ctx, plain)
    d, A = build(ctx, shape, True, cls='dict')
    T = [ctx.tok('t%d' % i) for i in range(n)]
    e = sc.SortedDict(key2, [(t, 0) for t in T])
    ctx.check(e.key is key2, 'dict: key')
    for name, f in {'|': lambda: d | e, 'SortedDict(key, other)':
                    lambda: sc.SortedDict(seq_key(ctx), e)}.items():
        r = ctx.ok(name, f)
        key_of(ctx, r, name + ' mixed')
        sorted_by_key(ctx, r, name + ' mixed')
        if ctx.keyed:
            ctx.ok(name + ' then irange_key', lambda: list(r.irange_key()))
    r = ctx.ok('|', lambda: e | d)
    ctx.check(r.key is key2, '| mixed: key of the left operand')
    sorted_by_other(ctx, r, plain, '| mixed: ordered by the left key')
    c = d.copy()
    ctx.ok('update', c.update, e)
    key_of(ctx, c, 'update mixed')
    sorted_by_key(ctx, c, 'update mixed')
    c = d.copy()
    c |= e
    key_of(ctx, c, '|= mixed')
    sorted_by_key(ctx, c, '|= mixed')
    ctx.check(e.key is key2, 'operand keeps its own key')
    sorted_by_other(ctx, e, plain, 'operand keeps its own order')


def h_dict(ctx, shape, n, order='strict'):
    sc = ctx.sc
    d, A = build(ctx, shape, True, order, cls='dict')
    T = [ctx.tok('t%d' % i) for i in range(n)]
    other = {t: ctx.val('w%d' % i) for i, t in enumerate(T)}
    key_of(ctx, d, 'dict')
    sorted_by_key(ctx, d, 'dict')
    for name, f in {'copy': lambda: d.copy(), '|': lambda: d | other,
                    'r|': lambda: other | d}.items():
        r = ctx.ok(name, f)
        ctx.check(is_a(ctx, r, 'SortedDict'), name + ': type')
        key_of(ctx, r, name)
        sorted_by_key(ctx, r, name)
        ctx.ok(name + ' then irange_key', lambda: list(r.irange_key()))
    d.update(other)
    key_of(ctx, d, 'update')
    sorted_by_key(ctx, d, 'update')
    d |= other
    key_of(ctx, d, '|=')
    d.setdefault(ctx.tok('s'), 0)
    sorted_by_key(ctx, d, 'setdefault')
    d.clear()
    key_of(ctx, d, 'clear')
    d[ctx.tok('x')] = 1
    d[ctx.tok('y')] = 1
    sorted_by_key(ctx, d, 'clear then set')


def h_dict_pairs(ctx, shape, cls):
    s, A = build(ctx, shape, True, cls=cls)
    v = ctx.tok('v')
    kv = ctx.key(v)
    for a, b in (('bisect_left', 'bisect_key_left'),
                 ('bisect_right', 'bisect_key_right'),
                 ('bisect', 'bisect_key')):
        x = ctx.ok(a, getattr(s, a), v)
        y = ctx.ok(b, getattr(s, b), kv)
        ctx.check(ctx.eqi(x, y), '%s: %s agrees with %s' % (cls, a, b))
        want = bl(ctx, A, v) if 'left' in a else br(ctx, A, v)
        ctx.check(ctx.n(x) == want, '%s: %s' % (cls, a))
    x = ctx.ok('irange', lambda: list(s.irange(v)))
    y = ctx.ok('irange_key', lambda: list(s.irange_key(kv)))
    ctx.same_list(x, y, cls + ': irange agrees with irange_key')


def tasks(tier):
    T = []
    full = tier == 'thorough'

    def add(fn, cost=1, keyed=True, **p):
        T.append(Task(M, fn, p, keyed, cost))
    for sh in SHAPES + ([(4, (3,) * 9)] if full else []):
        for warm in (False, True):
            add('h_pairs', shape=sh, order='strict', warm=warm,
                cost=sum(sh[1]))
    for sh in [(4, (3,)), (4, (3, 3))] + ([(4, (4, 4)), (4, (3, 3, 3))]
                                          if full else []):
        add('h_pairs', shape=sh, order='weak', warm=True, cost=100)
    for sh in [(4, ()), (4, (1,)), (4, (3,)), (4, (3, 3))] + (
            [(4, (3, 8)), (4, (4, 4, 2))] if full else []):
        add('h_list_derived', shape=sh, order='strict', cost=60)
    for how in ('kw', 'pos', 'cls'):
        add('h_class', how=how)
    for order in ('strict', 'distinct'):
        for sh in [(4, ()), (4, (2,)), (4, (3,))] + (
                [(4, (3, 3)), (4, (8,))] if full else []):
            for n in (0, 1, 2):
                if order == 'distinct' and sh == (4, (3,)) and not full and (
                        n == 2):
                    continue
                add('h_set', shape=sh, n=n, order=order, cost=50 * n + 5)
                add('h_dict', shape=sh, n=n, order=order, cost=50 * n + 5)
    for sh in [(4, ()), (4, (2,)), (4, (3,))] + ([(4, (3, 3))]
                                                 if full else []):
        for n in (1, 2):
            for fn in ('h_mixed', 'h_mixed_list', 'h_mixed_dict'):
                add(fn, shape=sh, n=n, cost=50 * n)
                add(fn, shape=sh, n=n, keyed=False, cost=50 * n)
                if n == 1 or sum(sh[1]) < 3 or full:
                    add(fn, shape=sh, n=n, plain=True, cost=50 * n)
    for cls in ('set', 'dict'):
        for sh in [(4, (3, 3)), (4, (8, 3))]:
            add('h_dict_pairs', shape=sh, cls=cls, cost=30)
    for sh in pasts('list', tier, True):
        add('h_pairs', shape=sh, order='strict', warm=False, cost=30)
    for cls in ('set', 'dict'):
        for sh in pasts(cls, tier, True):
            add('h_dict_pairs', shape=sh, cls=cls, cost=20)
    T += anysize('range', tier, True) + anysize('bisect', tier, True)
    T += variants(T, M, tier, ('h_mixed_list',))
    return T
