"""C13: sorted-set comparisons are subset and superset relations."""
import operator
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'sets of up to 6 values against sets of up to 3 symbolic values '
             'and against themselves with up to 2 values changed',
    'thorough': 'sets of up to 11 values against sets of up to 4 symbolic '
                'values',
}
M = 'harness.c13'
OPS = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')


def sub(ctx, A, B):
    return ctx.And(*[ctx.Or(*[ctx.eq(a, b) for b in B]) for a in A])


def spec(ctx, A, B, op):
    ab, ba = sub(ctx, A, B), sub(ctx, B, A)
    return {'eq': ctx.And(ab, ba), 'ne': ctx.Not(ctx.And(ab, ba)),
            'le': ab, 'ge': ba, 'lt': ctx.And(ab, ctx.Not(ba)),
            'gt': ctx.And(ba, ctx.Not(ab))}[op]


def mk(ctx, B, form):
    if form == 'sset':
        return ctx.sc.SortedSet(B, key=seq_key(ctx))
    if form == 'sset2':
        return ctx.sc.SortedSet(B, key=ctx.key2)
    if form == 'skeys':
        return ctx.sc.SortedDict(seq_key(ctx), [(t, 1) for t in B]).keys()
    if form == 'set':
        return set(B)
    if form == 'frozenset':
        return frozenset(B)
    if form == 'keys':
        return {t: 1 for t in B}.keys()
    return forms(B, form, ctx)


def h_cmp(ctx, shape, m, drop, form, refl):
    """s against (s minus `drop` values, plus m symbolic values)."""
    s, A = build(ctx, shape, True, cls='set')
    T = [ctx.tok('t%d' % i) for i in range(m)]
    B = (A[drop:] if drop is not None else []) + T
    o = mk(ctx, B, form)
    for op in OPS:
        f = getattr(operator, op)
        if refl:
            r = bool(ctx.ok(op, f, o, s))
            want = spec(ctx, B, A, op)
        else:
            r = bool(ctx.ok(op, f, s, o))
            want = spec(ctx, A, B, op)
        ctx.check(want if r else ctx.Not(want), '%s with %s%s' % (
            op, form, ' (reflected)' if refl else ''))
    ctx.same_list(list(s), A, 'comparison changed the set')


def h_methods(ctx, shape, m, drop, form):
    s, A = build(ctx, shape, True, cls='set')
    T = [ctx.tok('t%d' % i) for i in range(m)]
    B = (A[drop:] if drop is not None else []) + T
    some_ = ctx.Or(*[ctx.Or(*[ctx.eq(a, b) for b in B]) for a in A])
    for name, want in (('isdisjoint', ctx.Not(some_)),
                       ('issubset', sub(ctx, A, B)),
                       ('issuperset', sub(ctx, B, A))):
        r = bool(ctx.ok(name, getattr(s, name), mk(ctx, B, form)))
        ctx.check(want if r else ctx.Not(want), '%s with %s' % (name, form))
    ctx.same_list(list(s), A, 'method changed the set')


def h_non(ctx, shape, kind):
    s, A = build(ctx, shape, True, cls='set')
    o = {'list': list(A), 'tuple': tuple(A), 'int': 5, 'none': None,
         'dict': {t: 1 for t in A}}[kind]
    ctx.check(not bool(s == o), 'a non-set is never equal')
    ctx.check(bool(s != o), 'a non-set is always unequal')
    for op in ('lt', 'le', 'gt', 'ge'):
        ctx.raises(TypeError, op + ' with a non-set',
                   getattr(operator, op), s, o)


def h_list(ctx, shape, form, drop, m):
    """A sorted list compares the set as a sequence, on either side."""
    ctx.orderable = True
    s, A = build(ctx, shape, True, cls='set')
    B = A[drop:] + [ctx.tok('t%d' % i) for i in range(m)]
    o = forms(B, 'slist', ctx) if form == 'slist' else \
        ctx.sc.SortedKeyList(B, key=ctx.key2)
    L = list(o)
    for op in OPS:
        f = getattr(operator, op)
        r = ctx.call(f, A, L)
        for q in (ctx.call(f, s, o), ctx.call(f, A, o), ctx.call(f, s, o)):
            ctx.check(q[0] == r[0] == 'ok' and bool(q[1]) == bool(r[1]),
                      '%s with a %s' % (op, form),
                      lambda: '%r instead of %r' % (q, r))
        r = ctx.call(f, L, A)
        q = ctx.call(f, o, s)
        ctx.check(q[0] == r[0] == 'ok' and bool(q[1]) == bool(r[1]),
                  '%s of a %s' % (op, form),
                  lambda: '%r instead of %r' % (q, r))
    ctx.same_list(list(s), A, 'comparison changed the set')


def h_foreign(ctx, shape):
    """The other operand's own comparison decides when it is no set."""
    from .c10 import Reflects, SWAP
    s, A = build(ctx, shape, True, cls='set')
    for op in OPS:
        r = ctx.ok(op, getattr(operator, op), s, Reflects())
        ctx.check(r == SWAP[op], op + ' with an operand that knows how')
        r = ctx.ok(op, getattr(operator, op), Reflects(), s)
        ctx.check(r == op, op + ' of an operand that knows how')
    ctx.same_list(list(s), A, 'comparison changed the set')


def h_after(ctx, shape, op, cls_other):
    """Answers and bound methods follow earlier mutations."""
    s, A = build(ctx, shape, True, cls='set')
    early = (s.isdisjoint, s.issubset, s.issuperset)
    v = ctx.tok('v')
    inplace = {'update': '__ior__', 'isub': '__isub__', 'iand': '__iand__',
               'ixor': '__ixor__'}
    if op in inplace:
        getattr(s, inplace[op])([v])
    elif op == 'add':
        s.add(v)
    elif op == 'discard':
        s.discard(v)
    elif op == 'pop':
        s.pop(ctx.int('i', 0, len(A) - 1))
    elif op == 'del':
        i = ctx.int('i', 0, len(A) - 1)
        del s[i:i + 2]
    elif op == 'clear':
        s.clear()
        s.add(v)
    R = list(s)
    for nm, B in (('old contents', A), ('new contents', R), ('v', [v]),
                  ('nothing', [])):
        o = mk(ctx, B, cls_other)
        for c in OPS:
            r = bool(ctx.ok(c, getattr(operator, c), s, o))
            want = spec(ctx, R, B, c)
            ctx.check(want if r else ctx.Not(want),
                      '%s with %s after %s' % (c, nm, op))
        some_ = ctx.Or(*[ctx.Or(*[ctx.eq(a, b) for b in B]) for a in R])
        wants = (ctx.Not(some_), sub(ctx, R, B), sub(ctx, B, R))
        for f, e, want in zip((s.isdisjoint, s.issubset, s.issuperset),
                              early, wants):
            for g in (f, e):
                r = bool(ctx.ok('method', g, list(B)))
                ctx.check(want if r else ctx.Not(want),
                          'set methods with %s after %s' % (nm, op))


def h_alien(ctx, shape, form, drop):
    """The other set may hold values that are not comparable, without key."""
    s, A = build(ctx, shape, True, cls='set')
    z = ctx.Alien()
    B = A[drop:]
    o = {'set': set, 'frozenset': frozenset}[form](B + [z])
    ab = drop == 0 or not A
    want = {'eq': False, 'ne': True, 'le': ab, 'lt': ab, 'ge': False,
            'gt': False}
    for op in OPS:
        f = getattr(operator, op)
        ctx.check(bool(ctx.ok(op, f, s, o)) == want[op],
                  op + ' with a foreign value')
        w = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt'}.get(op, op)
        ctx.check(bool(ctx.ok(op, f, o, s)) == want[w],
                  op + ' with a foreign value (reflected)')
    for a in (o, list(o), iter(list(o))):
        st = 'with a foreign value'
        if type(a) is not list and a is not o:
            a, b, c = (iter(list(o)) for _ in range(3))
        else:
            b = c = a
        ctx.check(bool(ctx.ok('isdisjoint', s.isdisjoint, a)) == (
            not B), 'isdisjoint ' + st)
        ctx.check(bool(ctx.ok('issubset', s.issubset, b)) == ab,
                  'issubset ' + st)
        ctx.check(ctx.ok('issuperset', s.issuperset, c) is False,
                  'issuperset ' + st)
    ctx.same_list(list(s), A, 'comparison changed the set')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        shs = [(4, ()), (4, (1,)), (4, (3,)), (4, (3, 3))] + (
            [(4, (8, 3))] if full else [])
        for sh in shs:
            n = sum(sh[1])
            for form in ('sset', 'set', 'frozenset', 'keys', 'sset2',
                         'skeys'):
                for m, drop in ((0, None), (1, None), (2, None), (0, 0),
                                (1, 0), (0, 1), (1, 1), (2, 1), (2, 2)) + (
                        ((3, None), (3, 2)) if full else ()):
                    if drop is not None and drop > n:
                        continue
                    if form not in ('sset', 'set') and m > 1 and not full:
                        continue
                    for refl in (False, True):
                        if refl and form in ('sset', 'sset2'):
                            continue
                        add('h_cmp', shape=sh, m=m, drop=drop, form=form,
                            refl=refl, cost=(n + 1) ** m)
            for form in ('sset', 'set', 'list', 'gen', 'tuple', 'keys',
                         'sset2', 'skeys'):
                for m, drop in ((0, None), (1, None), (0, 0), (1, 0), (1, 1),
                                (2, 2)):
                    if drop is not None and drop > n:
                        continue
                    add('h_methods', shape=sh, m=m, drop=drop, form=form,
                        cost=(n + 1) ** m)
            for op in ('update', 'isub', 'iand', 'ixor', 'add', 'discard',
                       'pop', 'del', 'clear'):
                if n > 0:
                    for o in ('set', 'sset'):
                        add('h_after', shape=sh, op=op, cls_other=o, cost=30)
        for sh in shs:
            for form in ('set', 'frozenset'):
                for drop in (0, 1):
                    add('h_alien', shape=sh, form=form, drop=drop)
        for sh in [(4, ()), (4, (3, 3))]:
            add('h_foreign', shape=sh)
        for sh in [(4, ()), (4, (2,)), (4, (3,))]:
            for form in ('slist', 'sklist'):
                for drop, m in ((0, 0), (0, 1), (1, 1), (2, 1), (2, 2)):
                    if drop <= sum(sh[1]):
                        add('h_list', shape=sh, form=form, drop=drop, m=m,
                            cost=30)
        for kind in ('list', 'tuple', 'int', 'none', 'dict'):
            add('h_non', shape=(4, (3, 3)), kind=kind)
        for j, sh in enumerate(pasts('set', tier)):
            for form, refl in (('sset', False), ('set', j % 2 == 1)):
                add('h_cmp', shape=sh, m=1, drop=j % 3, form=form, refl=refl,
                    cost=30)
            add('h_methods', shape=sh, m=1, drop=j % 2, form='list', cost=30)
    T += big('cmp', tier)
    T += args('C13', tier)
    T += variants(T, M, tier)
    return T
