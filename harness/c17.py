"""C17: sorted dict views are live, ordered, set-like sequences."""
import operator
from sx.task import Task
from .common import *
from .c11 import find
from .c14 import Model, step

BOUNDS = {
    'quick': 'dicts of up to 12 items; views taken before histories of up to '
             '2 operations; set operations and comparisons against sets of '
             'up to 2 symbolic elements plus all but up to 2 of the view\'s '
             'own elements',
    'thorough': 'up to 15 items, histories of up to 3 operations, up to 3 '
                'symbolic elements',
}
M = 'harness.c17'
CMP = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')
SETOP = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub,
         'xor': operator.xor}


def elements(m, kind):
    if kind == 'keys':
        return list(m.R)
    if kind == 'values':
        return [m.v[t.uid] for t in m.R]
    return [(t, m.v[t.uid]) for t in m.R]


def eq(ctx, a, b):
    if isinstance(a, tuple):
        return ctx.And(ctx.eq(a[0], b[0]), ctx.eq(a[1], b[1]))
    return ctx.eq(a, b)


def same(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(b) == 2 and a[0] is b[0] and \
            a[1] is b[1]
    return a is b


def same_seq(ctx, got, want, label):
    got = list(got)
    if len(got) != len(want) or not all(map(same, want, got)):
        ctx.fail(label, 'got %r want %r' % (got, want))
    ctx.check(True, label)


def view_is(ctx, view, m, kind, label, probes=()):
    E = elements(m, kind)
    n = len(E)
    label = '%s %s' % (kind, label)
    ctx.check(len(view) == n, label + ': len')
    ctx.check(bool(view) == (n > 0), label + ': truth')
    same_seq(ctx, ctx.ok(label, list, view), E, label + ': iteration')
    same_seq(ctx, ctx.ok(label, lambda: list(reversed(view))), E[::-1],
             label + ': reversed')
    for i in range(n):
        ctx.check(same(E[i], ctx.ok(label, view.__getitem__, i)),
                  label + ': [i]')
        ctx.check(same(E[i], ctx.ok(label, view.__getitem__, i - n)),
                  label + ': [-i]')
    ctx.raises(IndexError, label + ': [len]', view.__getitem__, n)
    for p in probes:
        hits = [eq(ctx, e, p) for e in E]
        r = bool(ctx.ok(label + ' in', lambda: p in view))
        ctx.check(ctx.Or(*hits) if r else ctx.Not(ctx.Or(*hits)),
                  label + ': membership')
        c = ctx.ok(label + ' count', view.count, p)
        ctx.check(ctx.n(c) == ctx.Count(hits), label + ': count')
        st, j = ctx.call(view.index, p)
        if st == 'exc':
            ctx.check(isinstance(j, ValueError), label + ': index error')
            ctx.check(ctx.Not(ctx.Or(*hits)), label + ': index of an element')
        else:
            ctx.check(0 <= j < n, label + ': index range')
            ctx.check(ctx.And(hits[j], *[ctx.Not(h) for h in hits[:j]]),
                      label + ': index')


def probe(ctx, m, kind, sym=True):
    n = len(m.R)
    if kind == 'values' and n > 3:
        # stored values may all be equal or not: 2^n patterns per probe, so
        # one probe, and for long views only two others may equal it
        E = elements(m, kind)
        for v in E[3:-1] if n > 6 else ():
            ctx.assume(ctx.Not(ctx.eq(v, E[-1])))
        return [E[-1]] if sym else []
    out = list(elements(m, kind)[:1]) + list(elements(m, kind)[-1:])
    if sym:
        k, v = ctx.tok('pk'), ctx.val('pv')
        out.append({'keys': k, 'values': v, 'items': (k, v)}[kind])
        if kind == 'items' and m.R:
            # a stored key with some other value
            out.append((m.R[len(m.R) // 2], v))
    return out


def h_live(ctx, shape, warm, ops, kind, order='strict', light=False):
    d, A = build(ctx, shape, warm, order, cls='dict')
    m = Model(ctx, A, ctx.dvals)
    old = getattr(d, kind)()
    if warm:
        same_seq(ctx, list(old), elements(m, kind), kind + ': first look')
    for j, op in enumerate(ops):
        if op == 'update':
            k, v = ctx.tok('u%d' % j), ctx.val('uv%d' % j)
            i = m.pos(k)
            ctx.ok('update', d.update, [(k, v)])
            if i is None:
                m.v[k.uid] = v
                m.place([k], list(d), 'update')
            else:
                m.v[m.R[i].uid] = v
        elif op == 'vdel':
            i = ctx.int('i%d' % j)
            p = clamp(ctx, i, len(m.R))
            st, r = ctx.call(old.__delitem__, i)
            if -len(m.R) <= p < len(m.R):
                ctx.check(st == 'ok', 'del view[i]')
                m.drop(p % len(m.R))
            else:
                ctx.check(st == 'exc' and isinstance(r, IndexError),
                          'del view[i]: IndexError')
        else:
            step(ctx, d, m, op, j)
    view_is(ctx, old, m, kind, 'view taken earlier',
            probe(ctx, m, kind) if not light else elements(m, kind)[:1]
            if kind != 'values' else ())
    view_is(ctx, getattr(d, kind)(), m, kind, 'new view',
            probe(ctx, m, kind, False))


def other_set(ctx, m, kind, nsym, drop, form):
    """(object, elements): own elements minus `drop`, plus nsym symbolic."""
    E = elements(m, kind)
    B = list(E[drop:]) if drop is not None else []
    for i in range(nsym):
        k = ctx.tok('o%d' % i)
        if kind == 'keys':
            B.append(k)
        elif i == 0 and E and drop is not None:
            B.append((E[0][0], ctx.tok('ov%d' % i)))
        else:
            B.append((k, ctx.tok('ov%d' % i)))
    if form == 'view':
        # a view of another sorted dict
        d2 = ctx.sc.SortedDict()
        if kind == 'keys':
            for t in B:
                d2[t] = 0
        else:
            for t, v in B:
                d2[t] = v
            B = list(d2.items())
        return getattr(d2, kind)(), B
    if form == 'self':
        return None, E
    o = {'set': set, 'frozenset': frozenset, 'list': list, 'tuple': tuple,
         'gen': iter, 'sset': ctx.sc.SortedSet,
         'sset2': lambda b: ctx.sc.SortedSet(b, key=(
             ctx.key2 if kind == 'keys' else None)),
         'keys': lambda b: {t: 1 for t in b}.keys()}[form](B)
    return o, B


def inset(ctx, e, B):
    return ctx.Or(*[eq(ctx, e, b) for b in B])


def mkdict(ctx, shape):
    ctx.orderable = True
    load, lens = shape
    n = sum(lens)
    c = ctx.chain(n, 'a', strict=True)
    if ctx.keyed:
        # the results order by the elements themselves; fix their order too
        # (reversed against the keys) so that only new elements fork
        for a, b in zip(c, c[1:]):
            ctx.assume(ctx.lt(b, a))
    d = new_dict(ctx, load)
    vals = {}
    for t in c:
        v = vals[t.uid] = ctx.tok('v_' + t.name)
        d[t] = v
    d.peekitem(0) if n else None
    return d, Model(ctx, c, vals)


def h_setop(ctx, shape, kind, op, nsym, drop, form, refl):
    d, m = mkdict(ctx, shape)
    o, B = other_set(ctx, m, kind, nsym, drop, form)
    E = elements(m, kind)
    view = getattr(d, kind)()
    if form == 'self':
        o = getattr(d, kind)()
    f = SETOP[op]
    label = '%s %s %s%s' % (kind, op, form, ' reflected' if refl else '')
    r = ctx.ok(label, (lambda: f(o, view)) if refl else
               (lambda: f(view, o)))
    ctx.check(type(r) is ctx.sc.SortedSet, label + ': type',
              lambda: repr(type(r)))
    R = list(r)
    X, Y = (B, E) if refl else (E, B)
    pool = X + Y
    # sound: every result element is an operand element belonging there
    conds = []
    for e in R:
        ctx.check(any(same(p, e) for p in pool), label + ': foreign element')
        a, b = inset(ctx, e, X), inset(ctx, e, Y)
        conds.append({'and': ctx.And(a, b), 'or': ctx.Or(a, b),
                      'sub': ctx.And(a, ctx.Not(b)),
                      'xor': ctx.Not(ctx.And(a, b))}[op])
    # complete: every element that belongs there is in the result
    for e in pool:
        a, b = inset(ctx, e, X), inset(ctx, e, Y)
        w = {'and': ctx.And(a, b), 'or': True,
             'sub': ctx.And(a, ctx.Not(b)),
             'xor': ctx.Not(ctx.And(a, b))}[op]
        conds.append(ctx.Implies(w, inset(ctx, e, R)))
    # strictly increasing, hence without duplicates
    for x, y in zip(R, R[1:]):
        if kind == 'keys':
            conds.append(ctx.lt(x, y))
        else:
            conds.append(ctx.Or(ctx.lt(x[0], y[0]),
                                ctx.And(ctx.eq(x[0], y[0]),
                                        ctx.lt(x[1], y[1]))))
    ctx.check(ctx.And(*conds), label + ': elements',
              lambda: 'result %r' % (R,))
    for e in R:
        ctx.check(bool(e in r), label + ': result membership')
    same_seq(ctx, list(view), E, label + ': view changed')
    if form in ('set', 'sset', 'list', 'view'):
        ctx.check(len(o) == len(list(o)), label + ': operand')
    if R:
        r.clear()
        same_seq(ctx, list(view), E, label + ': result is tied to the dict')
        ctx.check(len(d) == len(E), label + ': result is tied to the dict')


def h_cmp(ctx, shape, kind, nsym, drop, form, refl):
    d, m = mkdict(ctx, shape)
    o, B = other_set(ctx, m, kind, nsym, drop, form)
    E = elements(m, kind)
    view = getattr(d, kind)()
    if form == 'self':
        o = getattr(d, kind)()
    X, Y = (B, E) if refl else (E, B)
    ab = ctx.And(*[inset(ctx, e, Y) for e in X])
    ba = ctx.And(*[inset(ctx, e, X) for e in Y])
    want = {'eq': ctx.And(ab, ba), 'ne': ctx.Not(ctx.And(ab, ba)), 'le': ab,
            'ge': ba, 'lt': ctx.And(ab, ctx.Not(ba)),
            'gt': ctx.And(ba, ctx.Not(ab))}
    for op in CMP:
        f = getattr(operator, op)
        label = '%s %s %s' % (kind, op, form)
        r = bool(ctx.ok(label, (lambda: f(o, view)) if refl else
                        (lambda: f(view, o))))
        ctx.check(want[op] if r else ctx.Not(want[op]), label)
    for p in ([o] if form != 'self' else [o]) + [list(B), iter(B)]:
        r = bool(ctx.ok('isdisjoint', view.isdisjoint, p))
        dis = ctx.Not(ctx.Or(*[inset(ctx, e, B) for e in E]))
        ctx.check(dis if r else ctx.Not(dis), kind + ' isdisjoint')
    same_seq(ctx, list(view), E, kind + ': comparison changed the view')


def h_non(ctx, shape, kind):
    d, A = build(ctx, shape, True, cls='dict')
    view = getattr(d, kind)()
    for o in (None, 5, list(view), tuple(view)):
        ctx.check(not bool(view == o), 'a non-set is never equal')
        ctx.check(bool(view != o), 'a non-set is always unequal')
    for op in ('lt', 'le', 'gt', 'ge'):
        ctx.raises(TypeError, op, getattr(operator, op), view, list(view))
    for op in SETOP:
        ctx.raises(TypeError, op, SETOP[op], view, 5)
    dict_is(ctx, d, A, ctx.dvals, 'after', index=False)


FALSY = (None, 0, '', (), None, False, 7)


def h_falsy(ctx, shape, fill):
    """Stored values, and values asked for, that a lookup might mistake for
    an absent one: None, 0, '' ..., and defaults of the class itself."""
    d, A = build(ctx, shape, True, cls='dict')
    vals = [FALSY[(fill + i) % len(FALSY)] for i in range(len(A))]
    for t, v in zip(A, vals):
        d[t] = v
    p = ctx.tok('p')
    view, values = d.items(), d.values()
    for w in FALSY + (NotImplemented, Ellipsis):
        hit = [ctx.eq(t, p) for t, v in zip(A, vals) if v == w]
        r = ctx.ok('in', view.__contains__, (p, w))
        ctx.check(ctx.Or(*hit) if r else ctx.Not(ctx.Or(*hit)),
                  'items: (key, %r) in view' % (w,))
        c = ctx.ok('count', view.count, (p, w))
        ctx.check(ctx.n(c) == ctx.Count(hit), 'items: count of (key, %r)'
                  % (w,))
        ctx.check(ctx.ok('in', values.__contains__, w) is (w in vals),
                  'values: %r in view' % (w,))
        ctx.check(ctx.ok('count', values.count, w) == vals.count(w),
                  'values: count of %r' % (w,))
        if w in vals:
            ctx.check(ctx.ok('index', values.index, w) == vals.index(w),
                      'values: index of %r' % (w,))
        else:
            ctx.raises(ValueError, 'values: index', values.index, w)
        only = {(p, w)}
        all_in = len(A) == 0 or (len(A) == 1 and vals[0] == w)
        r = bool(ctx.ok('<=', operator.le, view, only))
        eq_all = ctx.eq(A[0], p) if A and all_in else not A
        ctx.check(eq_all if r else ctx.Not(eq_all), 'items <= {(key, %r)}'
                  % (w,))
        r = bool(ctx.ok('isdisjoint', view.isdisjoint, [(p, w)]))
        ctx.check(ctx.Not(ctx.Or(*hit)) if r else ctx.Or(*hit),
                  'items isdisjoint [(key, %r)]' % (w,))
    r = ctx.ok('in', d.keys().__contains__, p)
    hit = ctx.Or(*[ctx.eq(t, p) for t in A])
    ctx.check(hit if r else ctx.Not(hit), 'keys: key in view')
    dict_is(ctx, d, A, dict((t.uid, v) for t, v in zip(A, vals)), 'after',
            index=False)


class Reflects:
    """Not iterable; combines with and compares to anything."""

    def __rand__(self, o):
        return 'and'

    def __ror__(self, o):
        return 'or'

    def __rsub__(self, o):
        return 'sub'

    def __rxor__(self, o):
        return 'xor'


def h_foreign(ctx, shape, kind):
    from .c10 import Reflects as Cmp, SWAP
    d, A = build(ctx, shape, True, cls='dict')
    view = getattr(d, kind)()
    for op in SETOP:
        r = ctx.ok(op, SETOP[op], view, Reflects())
        ctx.check(r == op, kind + ' %s with an operand that knows how' % op)
    for op in CMP:
        r = ctx.ok(op, getattr(operator, op), view, Cmp())
        ctx.check(r == SWAP[op], op + ' with an operand that knows how')
        r = ctx.ok(op, getattr(operator, op), Cmp(), view)
        ctx.check(r == op, op + ' of an operand that knows how')
    dict_is(ctx, d, A, ctx.dvals, 'after', index=False)


def h_alien(ctx, shape, kind, form):
    """Views look elements up by hash and equality, never by order."""
    d, A = build(ctx, shape, True, cls='dict')
    m = Model(ctx, A, ctx.dvals)
    E = elements(m, kind)
    view = getattr(d, kind)()
    z = ctx.Alien()
    probes = {'keys': [z], 'values': [z], 'items': [
        (z, z), (z, ctx.val('w')), z, (z,)] + [(t, z) for t in A[:1]]}[kind]
    for p in probes:
        if type(p) is tuple and len(p) == 2 or kind != 'items':
            ctx.check(ctx.ok('in', view.__contains__, p) is False,
                      kind + ' in: foreign value')
        ctx.check(ctx.ok('count', view.count, p) == 0,
                  kind + ' count: foreign value')
        ctx.raises(ValueError, kind + ' index: foreign value', view.index, p)
    if kind != 'values':
        p = probes[0]
        o = {'set': set, 'frozenset': frozenset}[form](E[1:] + [p])
        sub = len(E) <= 1 and not E
        for op, want in (('eq', False), ('ne', True), ('le', sub),
                         ('lt', sub), ('ge', False), ('gt', False)):
            ctx.check(bool(ctx.ok(op, getattr(operator, op), view, o)) ==
                      want, '%s %s: foreign value' % (kind, op))
        ctx.check(bool(ctx.ok('isdisjoint', view.isdisjoint, o)) ==
                  (not E[1:]), kind + ' isdisjoint: foreign value')
    dict_is(ctx, d, A, ctx.dvals, 'after looking for a foreign value',
            index=False)


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for kind in ('keys', 'values', 'items'):
            for sh in [(4, ()), (4, (3,)), (4, (3, 3))] + (
                    [(4, (4, 4, 2)), (4, (3, 4, 3, 3, 4))] if full else []):
                for op in ('set', 'setdefault', 'pop', 'del', 'popitem',
                           'popitem0', 'clear', 'update', 'vdel'):
                    add('h_live', shape=sh, warm=True, ops=(op,), kind=kind,
                        cost=sum(sh[1]) ** 2)
            for ops in (('clear', 'set'), ('popitem', 'set'),
                        ('update', 'vdel'), ('set', 'pop'), ('vdel', 'vdel'),
                        ('del', 'update')) + (
                    (('set', 'set', 'pop'), ('clear', 'update', 'set'),
                     ('vdel', 'set', 'vdel')) if full else ()):
                add('h_live', shape=(4, (3,)), warm=True, ops=ops, kind=kind,
                    cost=80)
            for op in ('set', 'del', 'vdel', 'update'):
                if not full and kind == 'items' and (
                        op == 'update' or keyed):
                    continue
                add('h_live', shape=(4, (8, 4)), warm=True, ops=(op,),
                    kind=kind, cost=150)
            if keyed:
                for op in ('set', 'pop', 'vdel', 'popitem', 'del'):
                    add('h_live', shape=(4, (3,)), warm=True, ops=(op,),
                        kind=kind, order='distinct', cost=80)
            for sh in [(4, ()), (4, (1,)), (4, (3, 3))]:
                for form in ('set', 'frozenset'):
                    if kind != 'values' or form == 'set':
                        add('h_alien', shape=sh, kind=kind, form=form)
        for sh in [(4, ()), (4, (1,)), (4, (3,)), (4, (3, 3))]:
            for fill in range(len(FALSY)) if full or sum(sh[1]) == 1 else (
                    0, 3):
                add('h_falsy', shape=sh, fill=fill, cost=60)
        for kind in ('keys', 'items'):
            mid = (4, (3, 1))
            shs = [(4, ()), (4, (1,)), (4, (3,)), mid]
            for sh in shs:
                n = sum(sh[1])
                add('h_cmp', shape=sh, kind=kind, nsym=0, drop=0, form='self',
                    refl=False)
                for op in SETOP:
                    add('h_setop', shape=sh, kind=kind, op=op, nsym=0, drop=0,
                        form='self', refl=False)
                for nsym, drop in ((0, None), (1, None), (0, 0), (1, 0),
                                   (0, 1), (1, 1), (2, None)) + (
                        ((2, 1), (2, 0), (3, None)) if full else ()):
                    if drop is not None and drop > n:
                        continue
                    cost = (n + 2) ** (nsym + 1) * (2 if kind == 'items' else 1)
                    for form in ('set', 'frozenset', 'sset', 'view', 'keys'):
                        if form in ('frozenset', 'keys') and not full and (
                                n != 3 or (nsym, drop) not in (
                                    (0, None), (1, 1))):
                            continue
                        if form == 'view' and kind == 'items' and \
                                nsym > 1 and not full:
                            continue
                        for refl in (False, True):
                            if refl and form == 'view':
                                continue
                            add('h_cmp', shape=sh, kind=kind, nsym=nsym,
                                drop=drop, form=form, refl=refl, cost=cost)
                    if nsym > 1 and n > 3 and not full:
                        continue
                    if nsym > 1 and n > 1 and kind == 'items' and not full:
                        continue
                    for form in ('set', 'frozenset', 'list', 'gen', 'sset',
                                 'view', 'keys'):
                        for refl in (False, True):
                            if refl and form in ('view', 'keys', 'sset'):
                                # the left operand's own business, or C12
                                continue
                            if form in ('frozenset', 'keys', 'gen') and \
                                    not full and (n != 3 or (nsym, drop) not
                                                  in ((0, None), (1, 1))):
                                continue
                            for op in SETOP:
                                if refl and form in ('list', 'gen') and \
                                        full is False and nsym > 1:
                                    continue
                                add('h_setop', shape=sh, kind=kind, op=op,
                                    nsym=nsym, drop=drop, form=form,
                                    refl=refl, cost=cost)
            add('h_non', shape=(4, (3, 3)), kind=kind)
            for sh in [(4, ()), (4, (3, 3))]:
                add('h_foreign', shape=sh, kind=kind)
            for op in SETOP if kind == 'keys' else ():
                for nsym, drop in ((1, None), (1, 1)):
                    add('h_setop', shape=(4, (3,)), kind=kind, op=op,
                        nsym=nsym, drop=drop, form='sset2', refl=False,
                        cost=20)
            if kind == 'keys':
                for nsym, drop in ((1, None), (1, 1)):
                    add('h_cmp', shape=(4, (3,)), kind=kind, nsym=nsym,
                        drop=drop, form='sset2', refl=False, cost=20)
        ops = ('set', 'pop', 'vdel', 'del', 'update', 'popitem')
        for j, sh in enumerate(pasts('dict', tier)):
            kinds = ('keys', 'values', 'items')
            for kind in kinds if full else (kinds[j % 3],):
                add('h_live', shape=sh, warm=False, ops=(ops[j % 6],),
                    kind=kind, light=True, cost=80)
    T += big('view', tier)
    T += variants(T, M, tier)
    return T
