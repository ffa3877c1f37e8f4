"""Big sets and dicts: thousands of known values, one or two symbolic ones.

The container holds values of known rank, spread over the hash table as usual
(hash of the rank), at the default load factor or a small one.  Each argument
is a solver variable ranging over a window of positions (equal to a stored
value there, or new, between any two of them); when its hash is needed the
solver decides which stored value it equals.  Whole contents are compared
afterwards.
"""
from .common import *
from sx.task import Task

M = 'harness.big'
SPAN = 5
SIZES = {'quick': ((1000, 2300), (1000, 5100), (4, 420)),
         'thorough': ((1000, 2300), (1000, 5100), (1000, 12000), (4, 420),
                      (5, 2200), (7, 3000))}
WHERE = ('start', 'mid', 'end')


def window(n, where):
    return {'start': 0, 'mid': n // 2 - 2, 'end': n - SPAN}[where]


def fill(ctx, cls, load, n):
    """(container, contents in order) after some history, index warm."""
    c = ctx.const_chain(n, hashed=True)
    ctx.dvals = {}
    if cls == 'set':
        s = new_set(ctx, load)
        s.update(c)
        rem, add = s.remove, s.add
    else:
        s = new_dict(ctx, load)
        filler = 1
        for t in c:
            ctx.dvals[t.uid] = filler
        for i in range(0, n, max(1, n // 7)):
            ctx.dvals[c[i].uid] = ctx.val('v%d' % i)
        s.update((t, ctx.dvals[t.uid]) for t in c)
        rem = s.pop

        def add(t):
            s[t] = ctx.dvals[t.uid]
    for p in (5, n // 3, n - 9):
        rem(c[p])
    add(c[n // 3])
    R = [t for i, t in enumerate(c) if i not in (5, n - 9)]
    seq = s if cls == 'set' else s.keys()
    seq[n // 2]
    seq[n - 5]
    return s, R


def fresh(ctx, R, w, name='v'):
    """A symbolic value in the window: (value, neighbours it may equal)."""
    v = ctx.tok(name)
    u = ctx.rank_of(v)
    part = R[w:w + SPAN]
    if w > 0:
        ctx.assume(ctx.lt(ctx.rank_of(R[w - 1]), u))
    if w + SPAN < len(R):
        ctx.assume(ctx.lt(u, ctx.rank_of(R[w + SPAN])))
    ctx.hash_near(v, part)
    return v, part


def equals(ctx, v, part):
    """The stored value v equals on this path, or None."""
    hits = [t for t in part if ctx.truth(ctx.eq(t, v))]
    return hits[0] if hits else None


def merged(ctx, got, R, new, label):
    """`got` is R plus the values `new`, in order; returns it."""
    got = list(got)
    n = {t.uid for t in new}
    ctx.same_list([t for t in got if t.uid not in n], R, label + ': others')
    ctx.check(len(got) == len(R) + len(new), label + ': each once')
    for i, t in enumerate(got):
        if t.uid in n:
            u = ctx.rank_of(t)
            if i:
                ctx.check(ctx.Not(ctx.lt(u, ctx.rank_of(got[i - 1]))),
                          label + ': place')
            if i + 1 < len(got):
                ctx.check(ctx.Not(ctx.lt(ctx.rank_of(got[i + 1]), u)),
                          label + ': place')
    return got


def places(n, w):
    return sorted({max(0, min(p, n - 1)) for p in (
        0, w, w + 2, w + SPAN, n // 4, n // 2, n - 2, n - 1)}) if n else []


def set_is(ctx, s, R, w, label):
    n = len(R)
    ctx.same_list(ctx.ok(label, list, s), R, label + ': contents')
    ctx.check(len(s) == n, label + ': len')
    for p in places(n, w):
        t = R[p]
        ctx.check(ctx.ok(label, s.__getitem__, p) is t, label + ': s[i]')
        ctx.check(ctx.ok(label, s.__getitem__, p - n) is t, label + ': s[-i]')
        ctx.check(ctx.ok(label, s.__contains__, t), label + ': in')
        ctx.check(s.count(t) == 1, label + ': count')
        a = ctx.ok(label, s.bisect_left, t)
        b = ctx.ok(label, s.bisect_right, t)
        ctx.check(a <= p < b and b - a < 4, label + ': bisect')
        ctx.check(ctx.ok(label, s.index, t) == p, label + ': index')
    ctx.same_list(list(reversed(s))[:50], R[::-1][:50], label + ': reversed')
    ctx.same_list(list(s.islice(n // 2, n // 2 + 9)), R[n // 2:n // 2 + 9],
                  label + ': islice')


def dict_ok(ctx, d, R, w, label):
    n = len(R)
    V = ctx.dvals
    ctx.same_list(ctx.ok(label, list, d), R, label + ': keys')
    ctx.check(len(d) == n, label + ': len')
    vals = list(d.values())
    ctx.check(len(vals) == n and all(v is V[t.uid] for v, t in zip(vals, R)),
              label + ': values')
    items = list(d.items())
    ctx.check(len(items) == n and all(
        k is t and v is V[t.uid] for (k, v), t in zip(items, R)),
        label + ': items')
    for p in places(n, w):
        t = R[p]
        ctx.check(ctx.ok(label, d.__getitem__, t) is V[t.uid], label + ': d[k]')
        for i in (p, p - n):
            k, v = ctx.ok(label, d.peekitem, i)
            ctx.check(k is t and v is V[t.uid], label + ': peekitem')
            ctx.check(d.keys()[i] is t and d.values()[i] is V[t.uid],
                      label + ': views by position')
        ctx.check(ctx.ok(label, d.index, t) == p, label + ': index')
        a = ctx.ok(label, d.bisect_left, t)
        ctx.check(a <= p < a + 4, label + ': bisect')


def h_set(ctx, load, n, op, where):
    s, R = fill(ctx, 'set', load, n)
    n = len(R)
    w = window(n, where)
    label = 'big set ' + op
    if op in ('pop', 'del', 'read'):
        i = ctx.int('i', w - n, w - n + 2) if where == 'mid' else ctx.int(
            'i', w, w + SPAN - 1)
        f = {'pop': s.pop, 'del': s.__delitem__, 'read': s.__getitem__}[op]
        r = ctx.ok(label, f, i)
        p = int(i) % n
        if op != 'del':
            ctx.check(r is R[p], label + ': value')
        if op != 'read':
            gone = R.pop(p)
            ctx.check(gone not in s, label + ': still a member')
        return set_is(ctx, s, R, w, label)
    if op == 'dels':
        a = ctx.int('a', w, w + 2)
        b = ctx.int('b', w + 2, w + SPAN)
        st = max(7, n // 200) if where == 'mid' else None
        ctx.ok(label, s.__delitem__, slice(a, None if st else b, st))
        sl = slice(int(a), None if st else int(b), st)
        gone = R[sl]
        del R[sl]
        ctx.check(not any(t in s for t in gone[:5] + gone[-5:]),
                  label + ': still a member')
        return set_is(ctx, s, R, w, label)
    v, part = fresh(ctx, R, w)
    t = equals(ctx, v, part)
    if op in ('add', 'discard', 'remove', 'in', 'index'):
        st, r = ctx.call({'in': s.__contains__}.get(op) or getattr(s, op), v)
        if op == 'add':
            ctx.check(st == 'ok', label)
            R = merged(ctx, s, R, [] if t is not None else [v], label)
        elif op in ('discard', 'remove'):
            if t is None:
                ctx.check(st == ('ok' if op == 'discard' else 'exc') and (
                    op == 'discard' or isinstance(r, KeyError)), label)
            else:
                ctx.check(st == 'ok', label)
                R = [x for x in R if x is not t]
        elif op == 'in':
            ctx.check(r is (t is not None), label)
            ctx.check(s.count(v) == (t is not None), label + ': count')
        else:
            ctx.check((st, r) == ('ok', R.index(t)) if t is not None else
                      st == 'exc' and isinstance(r, ValueError), label)
    else:
        name, size = op.rsplit(' ', 1)
        # the other operand: some stored values and the symbolic one
        own = R[3:n:211] if size == 'few' else R[3:] if size == 'most' \
            else R[n // 5: 4 * n // 5]
        own = [x for x in own if x is not t]
        B = own + [v]
        inB = {x.uid for x in own} | ({t.uid} if t is not None else set())
        arg = set(B) if name.startswith('__') else (
            list(B) if size == 'few' else ctx.sc.SortedSet(
                B, key=seq_key(ctx)))
        r = ctx.ok(label, getattr(s, name), arg)
        kind = {'update': 'or', 'union': 'or', 'difference': 'sub',
                'difference_update': 'sub', 'intersection': 'and',
                'intersection_update': 'and', 'symmetric_difference': 'xor',
                'symmetric_difference_update': 'xor'}.get(
                    name, name.strip('_').lstrip('i') if name not in
                    ('__isub__', '__ixor__', '__ior__', '__iand__') else
                    name[3:-2])
        new = [v] if t is None and kind in ('or', 'xor') else []
        keep = {'or': lambda x: True, 'sub': lambda x: x.uid not in inB,
                'and': lambda x: x.uid in inB,
                'xor': lambda x: x.uid not in inB}[kind]
        want = [x for x in R if keep(x)]
        got = list(r)
        if kind == 'and' and t is not None:
            # either of the two equal values may be the one that is kept
            merged(ctx, [t if x is v else x for x in got], want, [], label)
        else:
            got = merged(ctx, got, want, new, label)
        if r is not s:
            set_is(ctx, s, R, w, label + ': operand')
            s.clear()
        ctx.check(len(arg) == len(B), label + ': argument')
        set_is(ctx, r, got, min(w, max(0, len(got) - SPAN)), label)
        # still usable
        if new:
            ctx.ok(label, r.remove, v)
            got = [x for x in got if x is not v]
        else:
            ctx.ok(label, r.add, v)
            if t is None:
                got = merged(ctx, r, got, [v], label + ' then add')
            else:
                g = list(r)
                got = merged(ctx, r, [x for x in got if x is not t and
                                      x is not v], [
                    x for x in g if x is t or x is v], label + ' then add')
        R, s = got, r
    set_is(ctx, s, R, min(w, max(0, len(R) - SPAN)), label)


def h_cmp(ctx, load, n, where, drop):
    import operator
    s, R = fill(ctx, 'set', load, n)
    n = len(R)
    w = window(n, where)
    v, part = fresh(ctx, R, w)
    t = equals(ctx, v, part)
    # the other set: all, or all but one, of the values and the symbolic one
    B = [x for i, x in enumerate(R) if i != w + drop - 1 or not drop]
    lost = R[w + drop - 1] if drop else None
    B = [x for x in B if x is not t] + [v]
    sub = not drop or t is lost           # s <= B
    sup = t is not None                   # s >= B
    want = {'eq': sub and sup, 'ne': not (sub and sup), 'le': sub,
            'ge': sup, 'lt': sub and not sup, 'gt': sup and not sub}
    for o in (set(B), ctx.sc.SortedSet(B, key=seq_key(ctx))):
        for op, x in want.items():
            ctx.check(bool(ctx.ok(op, getattr(operator, op), s, o)) == x,
                      'big set ' + op)
    for o in (list(B), set(B)):
        ctx.check(s.issubset(o) == sub, 'big set issubset')
        ctx.check(s.issuperset(o) == sup, 'big set issuperset')
        ctx.check(s.isdisjoint(o) is False, 'big set isdisjoint')
    ctx.check(s.isdisjoint([v]) == (t is None), 'big set isdisjoint')
    set_is(ctx, s, R, w, 'big set compared')


def h_dict(ctx, load, n, op, where):
    d, R = fill(ctx, 'dict', load, n)
    n = len(R)
    V = ctx.dvals
    w = window(n, where)
    label = 'big dict ' + op
    if op in ('popitem', 'peekitem', 'delkey', 'delvalue', 'delitem'):
        i = ctx.int('i', w - n, w - n + 2) if where == 'mid' else ctx.int(
            'i', w, w + SPAN - 1)
        view = {'delkey': d.keys, 'delvalue': d.values,
                'delitem': d.items}.get(op)
        r = ctx.ok(label, view().__delitem__ if view else getattr(d, op), i)
        p = int(i) % n
        if op[:3] != 'del':
            ctx.check(r[0] is R[p] and r[1] is V[R[p].uid], label)
        if op != 'peekitem':
            ctx.check(R.pop(p) not in d, label + ': key still there')
        return dict_ok(ctx, d, R, w, label)
    if op == 'delview':
        a = ctx.int('a', w, w + 2)
        b = ctx.int('b', w + 2, w + SPAN)
        st = max(7, n // 200) if where == 'mid' else None
        view = (d.keys, d.values, d.items)[WHERE.index(where)]()
        ctx.ok(label, view.__delitem__, slice(a, None if st else b, st))
        sl = slice(int(a), None if st else int(b), st)
        gone = R[sl]
        del R[sl]
        ctx.check(not any(t in d for t in gone[:5] + gone[-5:]),
                  label + ': key still there')
        return dict_ok(ctx, d, R, w, label)
    v, part = fresh(ctx, R, w)
    t = equals(ctx, v, part)
    x = ctx.val('x')
    if op in ('set', 'setdefault', 'pop', 'popd', 'del', 'get', 'in'):
        f, a = {'set': (d.__setitem__, (v, x)), 'get': (d.get, (v, x)),
                'setdefault': (d.setdefault, (v, x)), 'pop': (d.pop, (v,)),
                'popd': (d.pop, (v, x)), 'del': (d.__delitem__, (v,)),
                'in': (d.__contains__, (v,))}[op]
        st, r = ctx.call(f, *a)
        old = V[t.uid] if t is not None else None
        if op == 'in':
            ctx.check(st == 'ok' and r is (t is not None), label)
        elif op == 'get':
            ctx.check(st == 'ok' and r is (x if t is None else old), label)
        elif op in ('set', 'setdefault'):
            ctx.check(st == 'ok', label)
            if t is None:
                V[v.uid] = x
                R = merged(ctx, d, R, [v], label)
            elif op == 'set':
                V[t.uid] = x
            if op == 'setdefault':
                ctx.check(r is (x if t is None else old), label + ': result')
        elif t is None:
            ctx.check(st == 'ok' and r is x if op == 'popd' else
                      st == 'exc' and isinstance(r, KeyError), label)
        else:
            ctx.check(st == 'ok' and (op == 'del' or r is old), label)
            R = [y for y in R if y is not t]
        return dict_ok(ctx, d, R, w, label)
    name, size = op.rsplit(' ', 1)
    own = R[3:n:211] if size == 'few' else R[n // 5: 4 * n // 5]
    own = [y for y in own if y is not t]
    z = ctx.val('z')
    pairs = [(y, z) for y in own] + [(v, x)]
    arg = dict(pairs) if name != 'update' else pairs if size == 'few' else \
        ctx.sc.SortedDict(*((ctx.key,) if ctx.keyed else ()), pairs)
    left = name != '__ror__'
    r = ctx.ok(label, getattr(d, name), arg)
    if name == 'update':
        r = d
    ctx.check((r is d) == (name in ('update', '__ior__')), label + ': object')
    old = dict(V)
    if left:
        for y in own:
            V[y.uid] = z
    if t is not None:
        if left:
            V[t.uid] = x
    else:
        V[v.uid] = x
    if not left and t is not None:
        # the argument's own key object stays, with this dict's value
        V[v.uid] = V[t.uid]
        g = list(r)
        got = merged(ctx, r, [y for y in R if y is not t],
                     [y for y in g if y is t or y is v], label)
    else:
        got = merged(ctx, r, R, [v] if t is None else [], label)
    dict_ok(ctx, r, got, w, label)
    ctx.check(len(arg) == len(pairs), label + ': argument')
    if r is not d:
        r.clear()
        ctx.dvals = old
        dict_ok(ctx, d, R, w, label + ': operand')


def h_view(ctx, load, n, op, where):
    """Set operations and comparisons of big keys and items views."""
    import operator
    if ctx.keyed:
        ctx.orderable = True
    d, R = fill(ctx, 'dict', load, n)
    n = len(R)
    w = window(n, where)
    v, part = fresh(ctx, R, w)
    t = equals(ctx, v, part)
    view = d.keys()
    label = 'big view ' + op
    ctx.check((v in view) == (t is not None), label + ': in')
    own = [y for y in R[n // 3: n // 2] if y is not t]
    inB = {y.uid for y in own} | ({t.uid} if t is not None else set())
    B = set(own + [v])
    if op == 'cmp':
        ctx.check(not view == B and view != B and not view <= B,
                  label)
        ctx.check((view >= B) == (t is not None), label + ' >=')
        ctx.check((view > B) == (t is not None), label + ' >')
        ctx.check(not view.isdisjoint(B), label + ' isdisjoint')
        ctx.check(view == set(R) and not view > set(R) and view <= set(R),
                  label + ' itself')
        return dict_ok(ctx, d, R, w, label)
    r = ctx.ok(label, getattr(operator, op), view, B)
    ctx.check(type(r) is ctx.sc.SortedSet, label + ': type')
    keep = {'or_': lambda y: True, 'sub': lambda y: y.uid not in inB,
            'and_': lambda y: y.uid in inB,
            'xor': lambda y: y.uid not in inB}[op]
    want = [y for y in R if keep(y)]
    if t is None and op in ('or_', 'xor'):
        want.append(v)
    g = [t if y is v and t is not None else y for y in r]
    ctx.check(len(g) == len(want) and {y.uid for y in g} == {
        y.uid for y in want}, label + ': elements')
    ctx.check(ctx.And(*[ctx.lt(a, b) for a, b in zip(g, g[1:])
                        if a is v or b is v]), label + ': order')
    L = [y for y in g if y is not v]
    ids = {y.uid for y in L}
    ctx.same_list(L, [y for y in R if y.uid in ids], label + ': order')
    dict_ok(ctx, d, R, w, label)


def h_copy(ctx, load, n, cls, how, where):
    """Copies, pickles and derived containers of big containers."""
    from .c18 import duplicate
    s, R = fill(ctx, cls, load, n)
    n = len(R)
    w = window(n, where)
    is_ = set_is if cls == 'set' else dict_ok
    if how == 'derived':
        r = s | (s if cls == 'set' else {})
    elif how == 'rebuilt':
        r = s
        r.update(list(R[5:]) if cls == 'set' else
                 [(t, ctx.dvals[t.uid]) for t in R[5:]])
        s = None
    else:
        r = duplicate(ctx, s, how)
    ctx.check(r is not s and type(r) is type(s or r), how + ': new object')
    is_(ctx, r, R, w, how)
    v, part = fresh(ctx, R, w)
    t = equals(ctx, v, part)
    x = ctx.val('x')
    if cls == 'set':
        r.discard(R[w])
        r.add(v)
    else:
        r.pop(R[w])
        r[v] = x
    R2 = [y for y in R if y is not R[w]]
    vals = ctx.dvals
    ctx.dvals = dict(vals)
    if t is None or t is R[w]:
        ctx.dvals[v.uid] = x
        R2 = merged(ctx, r, R2, [v], how + ' then changed')
    else:
        ctx.dvals[t.uid] = x
    is_(ctx, r, R2, w, how + ' then changed')
    if s is not None:
        ctx.dvals = vals
        is_(ctx, s, R, w, how + ': the original')


ALGEBRA = ('update', 'union', 'difference', 'difference_update',
           'intersection', 'intersection_update', 'symmetric_difference',
           'symmetric_difference_update', '__ior__', '__isub__', '__ixor__',
           '__iand__', '__sub__', '__xor__')


def group(name, tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        for load, n in SIZES[tier]:
            def add(fn, **p):
                T.append(Task(M, fn, dict(load=load, n=n, **p), keyed,
                              n / 20))
            if name == 'set':
                for op in ('add', 'discard', 'remove', 'in', 'pop', 'del',
                           'dels'):
                    for where in WHERE:
                        add('h_set', op=op, where=where)
            elif name == 'setpos':
                for op in ('pop', 'del', 'dels', 'read'):
                    add('h_set', op=op, where='mid')
            elif name == 'algebra':
                for j, op in enumerate(ALGEBRA):
                    for i, size in enumerate(('few', 'half', 'most')):
                        for where in WHERE if full else (WHERE[
                                (i + j) % 3],):
                            add('h_set', op=op + ' ' + size, where=where)
            elif name == 'cmp':
                for where in WHERE:
                    for drop in (0, 2):
                        add('h_cmp', where=where, drop=drop)
            elif name == 'dict':
                for op in ('set', 'setdefault', 'pop', 'popd', 'del', 'get',
                           'in', 'popitem'):
                    for where in WHERE:
                        add('h_dict', op=op, where=where)
            elif name == 'dictpos':
                for op in ('popitem', 'peekitem', 'delkey', 'delvalue',
                           'delitem', 'delview'):
                    for where in WHERE:
                        add('h_dict', op=op, where=where)
            elif name == 'dictbulk':
                for op in ('update', '__ior__', '__or__', '__ror__'):
                    for size in ('few', 'half'):
                        for where in WHERE:
                            add('h_dict', op=op + ' ' + size, where=where)
            elif name == 'view':
                for j, op in enumerate(('cmp', 'or_', 'and_', 'sub', 'xor')):
                    for where in WHERE if full else (WHERE[j % 3],):
                        add('h_view', op=op, where=where)
            elif name == 'copy':
                for cls in ('set', 'dict'):
                    for j, how in enumerate((
                            'copy', 'copy.copy', 'deepcopy', 'pickle2',
                            'pickle5')):
                        add('h_copy', cls=cls, how=how, where=WHERE[j % 3])
            elif name == 'derived':
                for cls in ('set', 'dict'):
                    for j, how in enumerate(('copy', 'derived', 'rebuilt',
                                             'pickle5')):
                        add('h_copy', cls=cls, how=how, where=WHERE[j % 3])
    return T
