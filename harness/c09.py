"""C09: derived lists are complete, independent and alias-safe."""
import copy
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'up to 11 stored values, up to 3 values in the other operand, '
             'repetition counts -1..3, every kind of self-referring argument',
    'thorough': 'up to 27 stored values, up to 4 values in the other operand',
}
M = 'harness.c09'


def is_list(ctx, r, want, seq, label):
    R = ctx.ok(label, list, r)
    check_perm(ctx, R, want, label + ': exactly the combined values')
    check_sorted(ctx, R, label + ': sorted', seq)
    return R


def probe(ctx, s, A, others, label):
    """Mutate s in several ways; `others` must not notice."""
    if not ctx.nprobe:
        # the same value each time: no new forks
        ctx.nprobe = ctx.const_chain(1, 131, 'probe')[0] if ctx.past else \
            ctx.tok('probe')
    w = ctx.nprobe
    s.add(w)
    R = list(s)
    check_perm(ctx, R, A + [w], label + ': add to it')
    for c, want, nm in others:
        ctx.same_list(list(c), want, label + ': change shows in ' + nm)
        ctx.check(len(c) == len(want), label + ': len of ' + nm)
    del s[0]
    R = R[1:]
    ctx.same_list(list(s), R, label + ': delete from it')
    s[len(R) // 2] if R else None
    for c, want, nm in others:
        ctx.same_list(list(c), want, label + ': deletion shows in ' + nm)
    s.clear()
    ctx.same_list(list(s), [], label + ': clear it')
    for c, want, nm in others:
        observe(ctx, c, want, label + ': after clearing, ' + nm)


def h_binary(ctx, shape, op, k, kind):
    ctx.nprobe, ctx.past = 0, shape[0] == 'past'
    s, A = build(ctx, shape, True)
    T = [ctx.tok('t%d' % i) for i in range(k)]
    if kind == 'slist':
        other = new_list(ctx, 4, list(T))
        TT = list(other)
    elif kind == 'klist':
        # another key function; its ties are this list's ties
        other = ctx.sc.SortedKeyList(T, key=ctx.key2)
        other._reset(4)
        TT = list(other)
    elif kind == 'sset':
        other = ctx.sc.SortedSet(T, key=seq_key(ctx))
        TT = list(other)
    elif kind == 'plain':
        other, TT = list(T), list(T)
    elif kind == 'tuple':
        other, TT = tuple(T), list(T)
    elif kind == 'gen':
        other, TT = (t for t in T), list(T)
    cls = type(s)
    label = '%s %s' % (op, kind)
    if op == '+':
        r = ctx.ok(label, lambda: s.__add__(other) if kind == 'klist'
                   else s + other)
    elif op == 'radd':
        r = ctx.ok(label, lambda: other.__add__(s) if kind == 'slist'
                   else s.__radd__(other))
    elif op == '+=':
        r0 = s
        r = s
        r += other
        ctx.check(r is r0, label + ': identity kept')
    seq = {t.uid: i for i, t in enumerate(A + TT)}
    if op == 'radd' and kind == 'slist':
        seq = {t.uid: i for i, t in enumerate(TT + A)}
    if op == 'radd' and kind != 'slist':
        seq = None       # which operand's equal value comes first is free
    R = is_list(ctx, r, A + TT, seq, label)
    ctx.check(type(r) is cls, label + ': type')
    if kind in ('plain', 'slist', 'klist', 'sset'):
        ctx.same_list(list(other), TT, label + ': argument unchanged')
    rest = [(other, TT, 'argument')] if kind in (
        'slist', 'klist', 'sset') else []
    if op != '+=':
        ctx.same_list(list(s), A, label + ': operand unchanged')
        probe(ctx, r, R, [(s, A, 'operand')] + rest, label + ' result')
        if kind == 'plain':
            del other[:]
        probe(ctx, s, A, rest, label + ' operand')
    else:
        if kind == 'plain':
            del other[:]
            ctx.same_list(list(s), R, label + ': list shares the argument')
        probe(ctx, s, R, rest, label + ' left operand')


def h_mul(ctx, shape, op, num):
    ctx.nprobe, ctx.past = 0, shape[0] == 'past'
    s, A = build(ctx, shape, True)
    want = [t for t in A for _ in range(max(num, 0))]
    cls = type(s)
    if op == '*':
        r = ctx.ok(op, lambda: s * num)
    elif op == 'rmul':
        r = ctx.ok(op, lambda: num * s)
    else:
        r0 = r = s
        r *= num
        ctx.check(r is r0, '*=: identity kept')
    ctx.check(type(r) is cls, op + ': type')
    ctx.same_list(list(r), want, op + ': values')
    observe(ctx, r, want, op)
    if op != '*=':
        ctx.same_list(list(s), A, op + ': operand unchanged')
        probe(ctx, r, want, [(s, A, 'operand')], op + ' result')
        observe(ctx, s, A, op + ' operand')


def h_copy(ctx, shape, how):
    ctx.nprobe, ctx.past = 0, shape[0] == 'past'
    s, A = build(ctx, shape, True)
    c = ctx.ok('copy', s.copy if how == 'method' else lambda: copy.copy(s))
    ctx.check(type(c) is type(s), 'copy: type')
    ctx.check(c is not s, 'copy: new object')
    after(ctx, c, A, 'copy')
    i = ctx.int('i', 0, max(len(A) - 1, 0))
    if A:
        del s[i]
        p = int(i)
        R = A[:p] + A[p + 1:]
        ctx.same_list(list(s), R, 'del in the original')
        observe(ctx, c, A, 'copy after deletion in the original')
        probe(ctx, c, A, [(s, R, 'original')], 'copy')
        probe(ctx, s, R, [], 'original')
    else:
        probe(ctx, c, A, [(s, A, 'original')], 'copy')
        probe(ctx, s, A, [(c, [], 'copy')], 'original')


def h_subclass(ctx, shape, op):
    """Derived lists of a subclass are of that subclass."""
    ctx.sub, ctx.subs = True, {}
    s, A = build(ctx, shape, True)
    v = ctx.tok('v')
    r, want = {
        '+': (lambda: s + [v], A + [v]), 'r+': (lambda: [v] + s, A + [v]),
        '*': (lambda: s * 2, A * 2), 'r*': (lambda: 2 * s, A * 2),
        'copy': (lambda: s.copy(), A), 'copy.copy': (lambda: copy.copy(s), A),
        '+=': (lambda: s.__iadd__([v]), A + [v]),
        '*=': (lambda: s.__imul__(2), A * 2)}[op]
    r = ctx.ok(op, r)
    label = 'subclass ' + op
    ctx.check(type(r) is type(s), label + ': type')
    R = is_list(ctx, r, want, None, label)
    observe(ctx, r, R, label)
    if op in ('+=', '*='):
        ctx.check(r is s, label + ': identity')
    else:
        r.clear()
        observe(ctx, s, A, label + ': operand')


def alias(s, how, A):
    n = len(A)
    return {
        'self': (lambda: s, A), 'iter': (lambda: iter(s), A),
        'reversed': (lambda: reversed(s), A[::-1]),
        'islice': (lambda: s.islice(1, n - 1), A[1:n - 1]),
        'irange': (lambda: s.irange(), A),
        'slice': (lambda: s[::2], A[::2]),
        'gen': (lambda: (t for t in s), A),
        'filter': (lambda: (t for i, t in enumerate(s) if i % 4 == 0), A[::4]),
        'one': (lambda: (t for i, t in enumerate(s) if i == n // 2),
                A[n // 2:n // 2 + 1]),
    }[how]


def h_alias_list(ctx, shape, op, how):
    s, A = build(ctx, shape, True)
    mk, extra = alias(s, how, A)
    arg = mk()
    label = '%s with own %s' % (op, how)
    if op == 'update':
        ctx.ok(label, s.update, arg)
        r = s
    elif op == '+=':
        r = ctx.ok(label, s.__iadd__, arg)
        ctx.check(r is s, label + ': identity')
    elif op == '+':
        r = ctx.ok(label, s.__add__, arg)
        ctx.same_list(list(s), A, label + ': operand unchanged')
    elif op == 'radd':
        r = ctx.ok(label, s.__radd__, arg)
        ctx.same_list(list(s), A, label + ': operand unchanged')
    want = sorted([(A.index(t), t) for t in A + extra], key=lambda p: p[0])
    R = [t for _, t in want]
    ctx.same_list(list(r), R, label + ': contents')
    observe(ctx, r, R, label)


def h_alias_set(ctx, shape, op, how):
    s, A = build(ctx, shape, True, cls='set')
    mk, extra = alias(s, how, A)
    arg = mk()
    label = 'set %s with own %s' % (op, how)
    e = {t.uid for t in extra}
    inside = [t for t in A if t.uid in e]
    outside = [t for t in A if t.uid not in e]
    want = {'update': A, 'difference_update': outside,
            'intersection_update': inside, 'symmetric_difference_update':
            outside, '__ior__': A, '__isub__': outside, '__iand__': inside,
            '__ixor__': outside, 'union': A, 'difference': outside,
            'intersection': inside, 'symmetric_difference': outside}[op]
    r = ctx.ok(label, getattr(s, op), arg)
    if op in ('union', 'difference', 'intersection', 'symmetric_difference'):
        ctx.same_list(list(s), A, label + ': operand unchanged')
        ctx.check(r is not s, label + ': new object')
        after(ctx, r, want, label, 'set')
    else:
        ctx.check(r is s, label + ': identity')
        after(ctx, s, want, label, 'set')


def h_alias_dict(ctx, shape, op, how):
    d, A = build(ctx, shape, True, cls='dict')
    args = {
        'self': lambda: d, 'items': lambda: d.items(),
        'iter items': lambda: iter(d.items()),
        'swapped': lambda: ((k, ctx.dvals[k.uid]) for k in reversed(d)),
        'keys': lambda: ((k, k) for k in d.keys()),
    }
    vals = dict(ctx.dvals)
    if how == 'keys':
        for t in A:
            vals[t.uid] = t
    arg = args[how]()
    label = 'dict %s with own %s' % (op, how)
    if op == 'update':
        ctx.ok(label, d.update, arg)
    elif op == '|=':
        r = ctx.ok(label, d.__ior__, arg)
        ctx.check(r is d, label + ': identity')
    elif op == '|':
        if how not in ('self',):
            arg = dict(arg)
        r = ctx.ok(label, d.__or__, arg)
        dict_is(ctx, d, A, ctx.dvals, label + ': operand')
        d = r
    dict_is(ctx, d, A, vals, label)


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        shs = [(4, ()), (4, (1,)), (4, (3, 3))] + (
            [(4, (8, 3)), (4, (4, 4, 2))] if full else [])
        for sh in shs:
            for op in ('+', 'radd', '+='):
                for kind in ('plain', 'tuple', 'gen', 'slist'):
                    ks = (2,) if kind in ('tuple', 'gen') else (0, 2) \
                        if not full else (0, 1, 2, 3)
                    if keyed and not full and kind in ('tuple', 'gen') and (
                            sh[1]):
                        ks = (1,)
                    for k in ks:
                        add('h_binary', shape=sh, op=op, k=k, kind=kind,
                            cost=sum(sh[1]) ** 2 * (k * k + 1))
                for kind in ('klist', 'sset'):
                    add('h_binary', shape=sh, op=op, k=2 if sum(sh[1]) < 3
                        or full else 1, kind=kind, cost=50)
        for sh in [(4, (8, 3))]:
            for op in ('+', '+='):
                add('h_binary', shape=sh, op=op, k=1, kind='plain', cost=50)
                add('h_binary', shape=sh, op=op, k=1, kind='slist', cost=50)
        for sh in shs + [(4, (8, 3))]:
            for op in ('*', 'rmul', '*='):
                for num in (-1, 0, 1, 2, 3):
                    add('h_mul', shape=sh, op=op, num=num, cost=5)
            for how in ('method', 'module'):
                add('h_copy', shape=sh, how=how, cost=20)
        for sh in [(4, (3,)), (4, (8, 3)), (4, (3, 4, 3, 3, 4))] + (
                [(4, (3,) * 9)] if full else []):
            for how in ('self', 'iter', 'reversed', 'islice', 'irange',
                        'slice', 'gen', 'filter', 'one'):
                for op in ('update', '+=', '+', 'radd'):
                    add('h_alias_list', shape=sh, op=op, how=how)
                for op in ('update', 'difference_update',
                           'intersection_update',
                           'symmetric_difference_update', '__ior__',
                           '__isub__', '__iand__', '__ixor__', 'union',
                           'difference', 'intersection',
                           'symmetric_difference'):
                    add('h_alias_set', shape=sh, op=op, how=how)
            for how in ('self', 'items', 'iter items', 'swapped', 'keys'):
                for op in ('update', '|=', '|'):
                    add('h_alias_dict', shape=sh, op=op, how=how)
        for op in ('+', 'r+', '*', 'r*', 'copy', 'copy.copy', '+=', '*='):
            for sh in [(4, ()), (4, (3, 3))]:
                add('h_subclass', shape=sh, op=op)
        for j, sh in enumerate(pasts('list', tier)):
            add('h_copy', shape=sh, how=('method', 'module')[j % 2], cost=40)
            add('h_binary', shape=sh, op=('+', '+=', 'radd')[j % 3], k=1,
                kind=('plain', 'slist')[j % 2], cost=40)
            add('h_mul', shape=sh, op=('*', '*=', 'rmul')[j % 3],
                num=j % 3, cost=9)
            for how in ('self', 'iter', 'irange'):
                add('h_alias_list', shape=sh, op='+=', how=how)
    T += anysize('copy', tier)
    T += args('C09', tier)
    T += variants(T, M, tier)
    return T
