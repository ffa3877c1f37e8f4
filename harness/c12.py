"""C12: sorted-set algebra equals set algebra, in sorted order."""
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'a set of up to 11 values against up to 3 iterables with up to 3 '
             'symbolic values each (equal to members, to each other, or new); '
             'every operator, method and in-place form; list, tuple, '
             'generator, set, frozenset, dict key view and SortedSet operands',
    'thorough': 'up to 16 values against up to 5 symbolic values',
}
M = 'harness.c12'


def member(ctx, v, B):
    return ctx.Or(*[ctx.eq(v, t) for t in B])


def decide(ctx, R, A, others, cond, label):
    """R is exactly {v : cond(v in A, v in others[0], ...)}, each once.

    `R` may hold any of several equal values.
    """
    pool = {t.uid: t for t in A}
    for B in others:
        pool.update((t.uid, t) for t in B)
    conds = []
    for a in range(len(R)):
        if R[a].uid not in pool:
            ctx.fail(label + ': foreign value')
        for b in range(a):
            conds.append(ctx.Not(ctx.eq(R[a], R[b])))
    ctx.check(ctx.And(*conds), label + ': each value once')
    check_sorted(ctx, R, label + ': order')
    conds = []
    for v in pool.values():
        want = cond(member(ctx, v, A), *[member(ctx, v, B) for B in others])
        got = member(ctx, v, R)
        conds.append(ctx.And(ctx.Implies(want, got), ctx.Implies(got, want)))
    ctx.check(ctx.And(*conds), label + ': exactly the elements of the set',
              lambda: 'result %r' % (R,))


def conds(ctx, kind):
    if kind == 'union':
        return lambda a, *b: ctx.Or(a, *b)
    if kind == 'intersection':
        return lambda a, *b: ctx.And(a, *b)
    if kind == 'difference':
        return lambda a, *b: ctx.And(a, ctx.Not(ctx.Or(*b)))
    if kind == 'symmetric_difference':
        return lambda a, b: ctx.Or(ctx.And(a, ctx.Not(b)),
                                   ctx.And(b, ctx.Not(a)))
    if kind == 'rdifference':
        return lambda a, b: ctx.And(b, ctx.Not(a))


SYM = {'union': ('__or__', '__ior__', 'update'),
       'intersection': ('__and__', '__iand__', 'intersection_update'),
       'difference': ('__sub__', '__isub__', 'difference_update'),
       'symmetric_difference': ('__xor__', '__ixor__',
                                'symmetric_difference_update')}
REFL = {'union': '__or__', 'intersection': '__and__',
        'rdifference': '__sub__', 'symmetric_difference': '__xor__'}


def operand(ctx, T, form):
    if form == 'sset':
        o = ctx.sc.SortedSet(T, key=seq_key(ctx))
        o._reset(4)
        return o
    if form == 'sset2':
        return ctx.sc.SortedSet(T, key=ctx.key2)
    if form in ('skeys', 'sdict'):
        d = ctx.sc.SortedDict(seq_key(ctx), [(t, 1) for t in T])
        return d.keys() if form == 'skeys' else d
    if form == 'frozenset':
        return frozenset(T)
    if form == 'keys':
        return {t: 1 for t in T}.keys()
    if form == 'dict':
        return {t: 1 for t in T}
    return forms(T, form, ctx)


def same_operand(ctx, o, T, form, label):
    """A reusable operand still holds its elements."""
    if form in ('list', 'tuple', 'slist'):
        check_perm(ctx, list(o), T, label + ': argument changed')
    elif form in ('set', 'frozenset', 'keys', 'dict', 'sset', 'sset2',
                  'skeys', 'sdict'):
        L = list(o)
        for t in T:
            ctx.check(member(ctx, t, L), label + ': argument changed')
        ctx.check(all(any(u is t for t in T) for u in L),
                  label + ': argument changed')


def h_new(ctx, shape, kind, how, ks, fms, order='strict', tail=True):
    """method / operator / reflected forms that return a new set."""
    s, A = build(ctx, shape, True, order, cls='set')
    Ts = [[ctx.tok('t%d_%d' % (j, i)) for i in range(k)]
          for j, k in enumerate(ks)]
    ops = [operand(ctx, T, f) for T, f in zip(Ts, fms)]
    label = '%s %s %s' % (kind, how, ','.join(fms))
    if how == 'method':
        r = ctx.ok(label, getattr(s, kind), *ops)
    elif how == 'operator':
        r = ctx.ok(label, lambda: getattr(
            __import__('operator'), SYM[kind][0])(s, ops[0]))
    else:
        r = ctx.ok(label, lambda: getattr(
            __import__('operator'), REFL[kind])(ops[0], s))
    ctx.check(is_a(ctx, r, 'SortedSet'), label + ': type')
    ctx.check(r is not s and all(r is not o for o in ops),
              label + ': new object')
    R = list(r)
    decide(ctx, R, A, Ts, conds(ctx, kind), label)
    ctx.check(len(r) == len(R), label + ': len')
    ctx.same_list(list(s), A, label + ': operand changed')
    ctx.check(len(s) == len(A), label + ': len of operand')
    for o, T, f in zip(ops, Ts, fms):
        same_operand(ctx, o, T, f, label)
    if tail:
        after(ctx, r, R, label + ' result', 'set', finds=False)
        # independence
        r.clear()
        after(ctx, s, A, label + ' operand', 'set', finds=False)
        for o, T, f in zip(ops, Ts, fms):
            same_operand(ctx, o, T, f, label)
        s.clear()
        for o, T, f in zip(ops, Ts, fms):
            same_operand(ctx, o, T, f, label)


def h_inplace(ctx, shape, kind, how, ks, fms, order='strict', tail=True):
    s, A = build(ctx, shape, True, order, cls='set')
    Ts = [[ctx.tok('t%d_%d' % (j, i)) for i in range(k)]
          for j, k in enumerate(ks)]
    ops = [operand(ctx, T, f) for T, f in zip(Ts, fms)]
    name = SYM[kind][1] if how == 'operator' else SYM[kind][2]
    label = '%s %s' % (name, ','.join(fms))
    r = ctx.ok(label, getattr(s, name), *ops)
    ctx.check(r is s, label + ': same object')
    R = list(s)
    decide(ctx, R, A, Ts, conds(ctx, kind), label)
    ctx.check(len(s) == len(R), label + ': len')
    for o, T, f in zip(ops, Ts, fms):
        same_operand(ctx, o, T, f, label)
    if tail:
        after(ctx, s, R, label, 'set', finds=False)
        drain(ctx, s, R, label)
        for o, T, f in zip(ops, Ts, fms):
            same_operand(ctx, o, T, f, label + ' then draining')


def h_long(ctx, shape, kind, how, form, m, drop):
    """An argument several times as long as the set: one symbolic value, and
    values that equal the stored ones without being the same objects."""
    s, A = build(ctx, shape, True, cls='set', const=True)
    n = len(A)
    T = [ctx.tok('t')] + ctx.const_chain(n + m, name='twin')[drop:]
    if form == 'list twice':
        T, form = T + T[1:3], 'list'
    o = operand(ctx, T, form)
    label = '%s %s, long %s' % (kind, how, form)
    if how == 'new':
        r = ctx.ok(label, getattr(s, kind), o)
    elif how == 'operator':
        r = ctx.ok(label, lambda: getattr(
            __import__('operator'), SYM[kind][0])(s, o))
    else:
        r = ctx.ok(label, getattr(
            s, SYM[kind][1 if how == 'iop' else 2]), o)
    R = list(r)
    if how in ('new', 'operator'):
        ctx.check(is_a(ctx, r, 'SortedSet') and r is not s, label + ': type')
        ctx.same_list(list(s), A, label + ': operand changed')
    else:
        ctx.check(r is s, label + ': same object')
    decide(ctx, R, A, [T], conds(ctx, kind), label)
    ctx.check(len(r) == len(R), label + ': len')
    for v in R[:2] + R[-1:]:
        ctx.check(ctx.ok(label, r.__contains__, v), label + ': in')
    if form != 'gen':
        same_operand(ctx, o, T, form, label)


def h_big(ctx, shape, kind, own):
    """Few arguments against a large set: the element-wise path."""
    s, A = build(ctx, shape, True, cls='set')
    T = [ctx.pick('which', A)] if own else [ctx.tok('t')]
    name = SYM[kind][2]
    r = ctx.ok(name, getattr(s, name), T)
    R = list(s)
    decide(ctx, R, A, [T], conds(ctx, kind), name)
    after(ctx, s, R, name, 'set', finds=False)
    drain(ctx, s, R, name)


def h_noniter(ctx, shape):
    s, A = build(ctx, shape, True, cls='set')
    for name in ('union', 'intersection', 'difference',
                 'symmetric_difference', 'update', 'intersection_update',
                 'difference_update', 'symmetric_difference_update'):
        ctx.raises(TypeError, name + '(5)', getattr(s, name), 5)
        ctx.same_list(list(s), A, name + '(5): set changed')
    import operator
    for nm in ('or_', 'and_', 'sub', 'xor', 'ior', 'iand', 'isub', 'ixor'):
        for bad in (5, None):
            f = getattr(operator, nm)
            ctx.raises(TypeError, '%s with %r' % (nm, bad), f, s, bad)
            if nm[0] != 'i':
                ctx.raises(TypeError, '%s of %r' % (nm, bad), f, bad, s)
        ctx.same_list(list(s), A, nm + ': set changed')
    after(ctx, s, A, 'after failed calls', 'set')


def h_alien(ctx, shape, kind, how, form, own):
    """Operands may hold values that are not comparable and have no key."""
    s, A = build(ctx, shape, True, cls='set')
    T = [ctx.tok('t')] + (A[:own] if own else [])
    z = ctx.Alien()
    o = {'list': lambda: [z] + T, 'set': lambda: {z} | set(T),
         'frozenset': lambda: frozenset([z] + T)}[form]()
    label = '%s %s with a foreign value' % (kind, how)
    if how == 'method':
        r = ctx.ok(label, getattr(s, kind), o)
    elif how == 'operator':
        r = ctx.ok(label, getattr(__import__('operator'), SYM[kind][0]), s, o)
    else:
        name = SYM[kind][1] if how == 'ioperator' else SYM[kind][2]
        r = ctx.ok(label, getattr(s, name), o)
        ctx.check(r is s, label + ': same object')
    decide(ctx, list(r), A, [T], conds(ctx, kind), label)
    ctx.check(len(o) == len(set(o)) or form == 'list', label)
    ctx.check(any(u is z for u in o), label + ': argument changed')
    after(ctx, r, list(r), label, 'set', finds=False)
    if r is not s:
        ctx.same_list(list(s), A, label + ': set changed')
    else:
        drain(ctx, s, list(r), label)


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        shs = [(4, ()), (4, (2,)), (4, (3, 3))] + ([(4, (8, 3))]
                                                   if full else [])
        for kind in SYM:
            for sh in shs:
                n = sum(sh[1])
                for k in (0, 1, 2) + ((3,) if full else ()):
                    fm = ('list', 'gen', 'set', 'sset')[k]
                    c = (n + 1) ** k
                    add('h_new', shape=sh, kind=kind, how='method', ks=(k,),
                        fms=(fm,), cost=c)
                    add('h_inplace', shape=sh, kind=kind, how='method',
                        ks=(k,), fms=(fm,), cost=c)
                for fm in ('set', 'frozenset', 'sset', 'keys', 'list'):
                    k = 2 if fm in ('sset', 'set') and not (
                        keyed and n > 2 and not full) else 1
                    add('h_new', shape=sh, kind=kind, how='operator', ks=(k,),
                        fms=(fm,), cost=(n + 1) ** k)
                    add('h_inplace', shape=sh, kind=kind, how='operator',
                        ks=(k,), fms=(fm,), cost=(n + 1) ** k)
                for fm in ('list', 'tuple', 'gen', 'dict', 'slist'):
                    if fm == 'slist' and keyed:
                        continue
                    add('h_new', shape=sh, kind=kind, how='method', ks=(1,),
                        fms=(fm,), cost=n)
                    add('h_inplace', shape=sh, kind=kind, how='method',
                        ks=(1,), fms=(fm,), cost=n)
                for fm in ('sset2', 'skeys', 'sdict'):
                    for how in ('method', 'operator'):
                        if fm == 'sdict' and how == 'operator':
                            continue     # may answer as a mapping
                        k = 2 if n < 3 or full and n < 7 else 1
                        add('h_new', shape=sh, kind=kind, how=how, ks=(k,),
                            fms=(fm,), cost=(n + 1) ** k)
                        add('h_inplace', shape=sh, kind=kind, how=how,
                            ks=(k,), fms=(fm,), cost=(n + 1) ** k)
                if kind != 'symmetric_difference':
                    for ks, fms in (((), ()), ((1, 1), ('list', 'gen')),
                                    ((1, 1), ('sset', 'set'))) + (
                            (((1, 1, 1), ('gen', 'tuple', 'list')),
                             ((2, 1), ('list', 'set'))) if full or n < 3
                            else ()):
                        add('h_new', shape=sh, kind=kind, how='method',
                            ks=ks, fms=fms, cost=(n + 1) ** len(ks))
                        add('h_inplace', shape=sh, kind=kind, how='method',
                            ks=ks, fms=fms, cost=(n + 1) ** len(ks))
            for j, sh in enumerate([(4, ()), (4, (1,)), (4, (3,))] + (
                    [(4, (3, 3))] if full else [])):
                n = sum(sh[1])
                for i, form in enumerate(('list', 'list twice', 'tuple',
                                          'gen', 'set', 'sset', 'keys')):
                    for how in ('new', 'operator', 'update', 'iop'):
                        if how in ('operator', 'iop') and form not in (
                                'set', 'sset', 'list'):
                            continue
                        for drop in (0, 1) if n and (full or (
                                i + j) % 2) else (0,):
                            add('h_long', shape=sh, kind=kind, how=how,
                                form=form, m=5 * n + 5, drop=drop,
                                cost=10 + 6 * n)
            for sh in [(4, (8, 3)), (4, (3, 4, 3, 3, 4))] + (
                    [(4, (3,) * 9)] if full else []):
                for own in (False, True):
                    add('h_big', shape=sh, kind=kind, own=own, cost=30)
            if keyed:
                for k in (1, 2):
                    add('h_new', shape=(4, (3,)), kind=kind, how='method',
                        ks=(k,), fms=('list',), order='distinct', cost=60)
                    add('h_inplace', shape=(4, (3,)), kind=kind,
                        how='method', ks=(k,), fms=('list',),
                        order='distinct', cost=60)
        for kind in REFL:
            for sh in shs:
                for fm in ('set', 'frozenset', 'keys'):
                    for k in (0, 1, 2):
                        if fm == 'keys' and kind != 'rdifference' or (
                                fm == 'frozenset' and k == 2):
                            continue
                        if fm == 'keys':
                            continue     # dict views answer with plain sets
                        add('h_new', shape=sh, kind=kind, how='reflected',
                            ks=(k,), fms=(fm,), cost=(sum(sh[1]) + 1) ** k)
        for sh in shs:
            for kind in ('difference', 'intersection'):
                for how in ('method', 'operator', 'iop', 'ioperator'):
                    for form in ('set', 'frozenset') + (
                            ('list',) if how in ('method', 'iop') else ()):
                        for own in (0, 2):
                            if own and not sh[1]:
                                continue
                            add('h_alien', shape=sh, kind=kind, how=how,
                                form=form, own=own, cost=20)
        add('h_noniter', shape=(4, (3, 3)))
        kinds = list(SYM)
        for j, sh in enumerate(pasts('set', tier)):
            for kind in kinds if full else (kinds[j % 4],
                                            kinds[(j + 1) % 4]):
                add('h_big', shape=sh, kind=kind, own=False, cost=30)
            kind = kinds[(j + 2) % 4]
            add('h_new', shape=sh, kind=kind, how='operator', ks=(1,),
                fms=(('set', 'sset')[j % 2],), cost=40)
    T += big('algebra', tier)
    T += calls('C12', tier)
    T += args('C12', tier)
    T += variants(T, M, tier)
    return T
