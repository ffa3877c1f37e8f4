"""C10: sorted lists compare lexicographically like sequences."""
import collections
import collections.abc
import operator
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'lists of up to 7 values against sequences of up to 7 symbolic '
             'values (list, tuple, SortedList, itself, a non-sequence), all '
             'six comparisons, all orders and ties',
    'thorough': 'up to 11 against 12 values',
}
M = 'harness.c10'
OPS = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')


class Seq(collections.abc.Sequence):
    """A sequence by declaration only."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class Virtual:
    """A sequence by registration."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __iter__(self):
        return iter(self.items)


collections.abc.Sequence.register(Virtual)


class LSub(list):
    pass


SEQS = {'user list': collections.UserList, 'deque': collections.deque,
        'sequence': Seq, 'virtual': Virtual, 'list subclass': LSub}


def spec(ctx, A, B, op):
    """Lexicographic comparison as a formula."""
    eqs = [ctx.eq(a, b) for a, b in zip(A, B)]
    if op in ('eq', 'ne'):
        e = False if len(A) != len(B) else ctx.And(*eqs)
        return e if op == 'eq' else ctx.Not(e)
    if op in ('gt', 'ge'):
        A, B = B, A
    strict = op in ('lt', 'gt')
    tail = len(A) < len(B) if strict else len(A) <= len(B)
    r = tail
    for a, b in reversed(list(zip(A, B))):
        e, l = ctx.eq(a, b), ctx.lt(a, b)
        r = ctx.Or(l, ctx.And(e, r))
    return r


def h_cmp(ctx, shape, m, kind, op, order, same):
    ctx.orderable = True
    s, A = build(ctx, shape, True, order)
    T = []
    for i in range(m):
        # a shared prefix makes late differences and length ties reachable
        T.append(A[i] if i < same and i < len(A) else ctx.tok('t%d' % i))
    if kind == 'list':
        other, B = list(T), list(T)
    elif kind == 'tuple':
        other, B = tuple(T), list(T)
    elif kind in SEQS:
        other, B = SEQS[kind](list(T)), list(T)
    elif kind == 'slist':
        other = new_list(ctx, 5, list(T))
        B = list(other)
    elif kind == 'klist':
        other = ctx.sc.SortedKeyList(T, key=ctx.key2)
        B = list(other)
    elif kind == 'plain slist':
        other = ctx.sc.SortedList(list(T))
        B = list(other)
    elif kind == 'self':
        other, B = s, A
    elif kind == 'copy':
        other, B = s.copy(), list(A)
    f = getattr(operator, op)
    r = bool(ctx.ok(op, f, s, other))
    want = spec(ctx, A, B, op)
    ctx.check(want if r else ctx.Not(want), '%s against %s' % (op, kind))
    if kind == 'klist':
        r = bool(ctx.ok(op, f, other, s))
        want = spec(ctx, B, A, op)
        ctx.check(want if r else ctx.Not(want), '%s of %s' % (op, kind))
    ctx.same_list(list(s), A, op + ': left operand changed')
    ctx.same_list(list(other), B, op + ': right operand changed')


def h_reflected(ctx, shape, m, op):
    """list OP SortedList reaches the reflected method."""
    ctx.orderable = True
    s, A = build(ctx, shape, True)
    T = [A[i] if i < m - 1 and i < len(A) else ctx.tok('t%d' % i)
         for i in range(m)]
    r = bool(ctx.ok(op, getattr(operator, op), T, s))
    want = spec(ctx, T, A, op)
    ctx.check(want if r else ctx.Not(want), '%s of a plain list' % op)


def h_nonseq(ctx, shape, kind):
    s, A = build(ctx, shape, True)
    sc = ctx.sc
    other = {'none': None, 'int': 5, 'set': set(A), 'dict': {t: 1 for t in A},
             'gen': (t for t in A), 'float': 1.5, 'object': object(),
             'sset': None}[kind]
    ctx.check(not bool(s == other), 'a non-sequence is never equal')
    ctx.check(bool(s != other), 'a non-sequence is always unequal')
    for op in ('lt', 'le', 'gt', 'ge'):
        ctx.raises(TypeError, op + ' with a non-sequence',
                   getattr(operator, op), s, other)
    observe(ctx, s, A, 'after comparing with a non-sequence', index=False)


class Reflects:
    """Not a sequence; compares with anything by its own rules."""

    def __init__(self):
        self.asked = []

    def _cmp(self, name):
        self.asked.append(name)
        return name

    def __eq__(self, o):
        return self._cmp('eq')

    def __ne__(self, o):
        return self._cmp('ne')

    def __lt__(self, o):
        return self._cmp('lt')

    def __le__(self, o):
        return self._cmp('le')

    def __gt__(self, o):
        return self._cmp('gt')

    def __ge__(self, o):
        return self._cmp('ge')


SWAP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge',
        'ge': 'le'}


def h_foreign(ctx, shape):
    """The other operand's own comparison decides when it is no sequence."""
    s, A = build(ctx, shape, True)
    for op in OPS:
        r = ctx.ok(op, getattr(operator, op), s, Reflects())
        ctx.check(r == SWAP[op], op + ' with an operand that knows how')
        r = ctx.ok(op, getattr(operator, op), Reflects(), s)
        ctx.check(r == op, op + ' of an operand that knows how')
    ctx.same_list(list(s), A, 'comparison changed the list')


def h_views(ctx, shape, op, kind):
    """Sets and dict views are sequences too."""
    ctx.orderable = True
    s, A = build(ctx, shape, True)
    T = A[:-1] + [ctx.tok('t')]
    if kind == 'sset':
        other = ctx.sc.SortedSet(T, key=seq_key(ctx))
    else:
        d = ctx.sc.SortedDict(seq_key(ctx))
        for t in T:
            d[t] = t
        other = d.keys() if kind == 'keys' else d.values()
    B = list(other)
    r = bool(ctx.ok(op, getattr(operator, op), s, other))
    if kind != 'values':
        # the other side is a set as well and may answer in its own way;
        # list order decides only when the list is asked
        r = getattr(s, '__%s__' % op)(other)
        if r is NotImplemented:
            return
    want = spec(ctx, A, B, op)
    ctx.check(want if r else ctx.Not(want), '%s against %s' % (op, kind))


def h_after(ctx, shape, op):
    """Comparisons see the current contents."""
    ctx.orderable = True
    s, A = build(ctx, shape, True)
    i = ctx.int('i', 0, len(A) - 1)
    del s[i]
    p = int(i)
    B = A[:p] + A[p + 1:]
    v = ctx.tok('v')
    s.add(v)
    R = list(s)
    f = getattr(operator, op)
    for other in (A, B):
        r = bool(ctx.ok(op, f, s, other))
        want = spec(ctx, R, other, op)
        ctx.check(want if r else ctx.Not(want), op + ' after changes')


def h_past(ctx, shape, op):
    """Whatever happened before, the current contents are compared."""
    ctx.orderable = True
    s, A = build(ctx, shape)
    v = ctx.tok('v')
    f = getattr(operator, op)
    p = len(A) // 2
    for B in (A, A[:p] + [v] + A[p + 1:], A + [v], A[:-1], A[:-1] + [v]):
        for other in (list(B), tuple(B)):
            r = bool(ctx.ok(op, f, s, other))
            want = spec(ctx, A, B, op)
            ctx.check(want if r else ctx.Not(want), op + ' after a history')
    o = new_list(ctx, 4, A)
    for x, y in ((s, o), (o, s)):
        r = bool(ctx.ok(op, f, x, y))
        want = spec(ctx, A, A, op)
        ctx.check(want if r else ctx.Not(want), op + ' after a history')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for op in OPS:
            for sh in [(4, ()), (4, (1,)), (4, (3,)), (4, (3, 3))] + (
                    [(4, (3, 4, 3)), (4, (8, 3))] if full else []):
                n = sum(sh[1])
                for m in {0, max(n - 1, 0), n, n + 1}:
                    for kind in ('list', 'tuple'):
                        if kind == 'tuple' and m != n:
                            continue
                        add('h_cmp', shape=sh, m=m, kind=kind, op=op,
                            order='strict', same=0, cost=n)
                        if m > 2:
                            add('h_cmp', shape=sh, m=m, kind=kind, op=op,
                                order='strict', same=m - 1, cost=n)
                add('h_cmp', shape=sh, m=0, kind='self', op=op,
                    order='weak', same=0)
                add('h_cmp', shape=sh, m=0, kind='copy', op=op,
                    order='weak', same=0)
                add('h_reflected', shape=sh, m=n, op=op)
                add('h_reflected', shape=sh, m=n + 1, op=op)
            for sh, m in [((4, (3,)), 2), ((4, (3,)), 3), ((4, (2,)), 3)] + (
                    [((4, (3,)), 4), ((4, (3, 3)), 4)] if full else []):
                for kind in ('slist', 'plain slist', 'list', 'klist'):
                    add('h_cmp', shape=sh, m=m, kind=kind, op=op,
                        order='weak', same=0, cost=m ** 3)
            for kind in SEQS:
                for m in (2, 3, 4):
                    add('h_cmp', shape=(4, (3,)), m=m, kind=kind, op=op,
                        order='strict', same=m - 1, cost=9)
                add('h_cmp', shape=(4, ()), m=m % 2, kind=kind, op=op,
                    order='strict', same=0)
            add('h_cmp', shape=(4, (3, 3)), m=6, kind='slist', op=op,
                order='strict', same=4, cost=50)
            add('h_views', shape=(4, (3,)), op=op, kind='values', cost=9)
            add('h_after', shape=(4, (3, 3)), op=op, cost=60)
        for kind in ('none', 'int', 'set', 'dict', 'gen', 'float', 'object'):
            for sh in [(4, ()), (4, (3, 3))]:
                add('h_nonseq', shape=sh, kind=kind)
        for sh in [(4, ()), (4, (3, 3))]:
            add('h_foreign', shape=sh)
        for j, sh in enumerate(pasts('list', tier)):
            add('h_past', shape=sh, op=OPS[j % 6], cost=20)
            if full:
                for op in OPS:
                    add('h_past', shape=sh, op=op, cost=20)
    T += variants(T, M, tier)
    return T
