"""Every kind of iterable as the argument of the bulk operations.

The values are ordinary integers and characters; in keyed containers their
keys are symbolic, so the order of the values is the solver's to choose.
"""
import array
import collections
import types
from .common import *
from sx.task import Task

M = 'harness.args'


class Table:
    """Key function: the symbolic key of each value."""

    def __init__(self, ctx):
        self.ctx, self.k = ctx, {}

    def __call__(self, v):
        if v not in self.k:
            self.k[v] = self.ctx.ktok('key%s' % len(self.k))
        return self.k[v].fresh()


class Indexed:
    """Iterable by the old protocol only."""

    def __init__(self, L):
        self.L = list(L)

    def __getitem__(self, i):
        return self.L[i]


class Hinted:
    """An iterator whose length hint is wrong."""

    def __init__(self, L):
        self.i = iter(list(L))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.i)

    def __length_hint__(self):
        return 5000


class Keyed:
    """A mapping by its keys() and [] only."""

    def __init__(self, d):
        self.d = dict(d)

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


class List(list):
    pass


class Str(str):
    pass


def minus(v):
    return -v


VALUES = ('list', 'tuple', 'gen', 'range', 'range-', 'range2', 'bytes',
          'bytearray', 'array', 'memoryview', 'deque', 'dict', 'keys',
          'values', 'map', 'filter', 'reversed', 'indexed', 'hinted', 'List',
          'frozenset', 'set', 'userlist', 'counter', 'slist', 'sklist',
          'sset', 'sset-', 'sdict', 'skeys', 'svalues', 'str', 'Str',
          'strkeys', 'repeat')
ONCE = ('gen', 'map', 'filter', 'reversed', 'hinted')
SETS = ('keys', 'frozenset', 'set', 'sset', 'sset-', 'skeys', 'strkeys')


def values(ctx, form, n):
    """An iterable of n values, in no particular order."""
    sc = ctx.sc
    L = [4, 2, 3][:n]
    if form in ('range', 'range-', 'range2'):
        return {'range': range(2, 2 + n), 'range-': range(4, 4 - n, -1),
                'range2': range(5, 5 - 2 * n, -2)}[form]
    if form in ('str', 'Str', 'strkeys'):
        s = 'dbc'[:n]
        return {'str': s, 'Str': Str(s),
                'strkeys': dict.fromkeys(s).keys()}[form]
    if form == 'repeat':
        return L + L[:1]
    f = {'list': list, 'tuple': tuple, 'gen': lambda x: (v for v in x),
         'bytes': bytes, 'bytearray': bytearray,
         'array': lambda x: array.array('i', x),
         'memoryview': lambda x: memoryview(bytes(x)),
         'deque': collections.deque, 'dict': dict.fromkeys,
         'keys': lambda x: dict.fromkeys(x).keys(),
         'values': lambda x: dict(enumerate(x)).values(),
         'map': lambda x: map(int, x), 'filter': lambda x: filter(None, x),
         'reversed': reversed, 'indexed': Indexed, 'hinted': Hinted,
         'List': List, 'frozenset': frozenset, 'set': set,
         'userlist': collections.UserList, 'counter': collections.Counter,
         'slist': sc.SortedList,
         'sklist': lambda x: sc.SortedKeyList(x, key=minus),
         'sset': sc.SortedSet, 'sset-': lambda x: sc.SortedSet(x, key=minus),
         'sdict': lambda x: sc.SortedDict(minus, dict.fromkeys(x)),
         'skeys': lambda x: sc.SortedDict(minus, dict.fromkeys(x)).keys(),
         'svalues': lambda x: sc.SortedDict(enumerate(x)).values()}[form]
    return f(L)


def start(ctx, form, m, new):
    """A container of m values (some of them also in the argument)."""
    if ctx.keyed:
        ctx.key = Table(ctx)
    s = new(ctx, 4)
    old = list('bdfhjlnprtvxz'[:m]) if form in ('str', 'Str', 'strkeys') \
        else list(range(3, 3 + 2 * m, 2))
    if ctx.keyed:
        K = [ctx.key(v) for v in old]
        for a, b in zip(K, K[1:]):
            ctx.assume(ctx.lt(a, b))
    return s, old


def in_order(ctx, L, label):
    if not ctx.keyed:
        ctx.check(L == sorted(L), label + ': order', lambda: repr(L))
        return
    K = [ctx.key(v) for v in L]
    for a, b in zip(K, K[1:]):
        ctx.check(ctx.Not(ctx.lt(b, a)), label + ': order',
                  lambda: 'values %r' % (L,))


def holds(ctx, s, want, label):
    """s holds exactly these values, in order, and finds each."""
    L = ctx.ok(label, list, s)
    ctx.check(collections.Counter(L) == collections.Counter(list(want)),
              label + ': contents', lambda: '%r, should be %r' % (L, want))
    in_order(ctx, L, label)
    ctx.check(len(s) == len(L), label + ': len')
    ctx.check(list(reversed(s)) == L[::-1], label + ': reversed')
    for v in set(want):
        ctx.check(ctx.ok(label, s.__contains__, v) is True, label + ': in')
    return L


def unchanged(ctx, arg, before, form, label):
    if form not in ONCE:
        L = list(arg)
        ctx.check(L == before if form not in SETS else
                  sorted(L) == sorted(before), label + ': argument changed')


def fresh(ctx, form, n):
    """(argument, its values)."""
    return values(ctx, form, n), list(values(ctx, form, n))


def h_list(ctx, form, m, n, op):
    s, old = start(ctx, form, m, new_list)
    s.update(old)
    arg, L = fresh(ctx, form, n)
    label = '%s %s' % (op, form)
    if op == 'init':
        c = ctx.sc.SortedKeyList if ctx.keyed else ctx.sc.SortedList
        r = ctx.ok(label, lambda: c(arg, key=ctx.key) if ctx.keyed else
                   c(arg))
        want = L
    elif op == 'update':
        ctx.check(ctx.ok(label, s.update, arg) is None, label)
        r, want = s, old + L
    elif op == 'iadd':
        r = ctx.ok(label, s.__iadd__, arg)
        ctx.check(r is s, label + ': same object')
        want = old + L
    else:
        r = ctx.ok(label, s.__add__, arg)
        ctx.check(list(s) == old, label + ': operand changed')
        want = old + L
    R = holds(ctx, r, want, label)
    unchanged(ctx, arg, L, form, label)
    for v in set(want):
        ctx.check(ctx.ok(label, r.count, v) == want.count(v),
                  label + ': count')
        p = ctx.ok(label, r.index, v)
        ctx.check(R[p] == v and v not in R[:p], label + ': index')
    for v in list(R):
        ctx.ok(label + ' then remove', r.remove, v)
    ctx.check(list(r) == [], label + ': emptied')
    unchanged(ctx, arg, L, form, label)


NEW = ('union', 'intersection', 'difference', 'symmetric_difference')
CHANGE = ('update', 'intersection_update', 'difference_update',
          'symmetric_difference_update')
ASK = ('isdisjoint', 'issubset', 'issuperset')
SYMBOL = ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__',
          '__rsub__', '__rxor__', '__ior__', '__iand__', '__isub__',
          '__ixor__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__',
          '__ge__')


def h_set(ctx, form, m, n, op):
    s, old = start(ctx, form, m, new_set)
    s.update(old)
    arg, L = fresh(ctx, form, n)
    label = '%s %s' % (op, form)
    if op == 'init':
        r = ctx.ok(label, ctx.sc.SortedSet, arg, ctx.key if ctx.keyed
                   else None)
        holds(ctx, r, set(L), label)
        unchanged(ctx, arg, L, form, label)
        return
    want = getattr(set(old), op)(set(L))
    r = ctx.ok(label, getattr(s, op), arg)
    if op in CHANGE:
        ctx.check(r is None or r is s, label)
        holds(ctx, s, want if want is not None else getattr(
            set(old), {'update': 'union'}.get(op, op[:-7]))(L), label)
        r = s
    elif op.startswith('__i') or type(want) is not bool:
        if op.startswith('__i'):
            ctx.check(r is s, label + ': same object')
        else:
            ctx.check(list(s) == old, label + ': operand changed')
        holds(ctx, r, want, label)
    else:
        ctx.check(type(r) is bool and r == want, label,
                  lambda: '%r instead of %r' % (r, want))
        ctx.check(list(s) == old, label + ': set changed')
        return unchanged(ctx, arg, L, form, label)
    unchanged(ctx, arg, L, form, label)
    R = list(r)
    ctx.check(all(r.index(v) == i for i, v in enumerate(R)),
              label + ': index')
    while R:
        ctx.check(ctx.ok(label, r.pop, len(R) // 2) == R.pop(len(R) // 2),
                  label + ': pop')
    ctx.check(len(r) == 0 and list(r) == [], label + ': emptied')
    unchanged(ctx, arg, L, form, label)


PAIRS = ('list', 'lists', 'zip', 'gen', 'items', 'dict', 'ordered', 'default',
         'counter', 'chainmap', 'proxy', 'userdict', 'keyed', 'sdict',
         'sdict-', 'sitems', 'strings', 'indexed', 'repeat', 'deque',
         'hinted', 'set')


def pairs(ctx, form, n):
    """(argument, its pairs): an argument of dict() in some form."""
    if form == 'strings':
        L = ['d4', 'b2', 'c3'][:n]
        return L, [tuple(p) for p in L]
    L = [(4, 44), (2, 22), (3, 33)][:n]
    if form == 'repeat':
        L = L + [(L[0][0], 55)] if L else L
    d = dict(L)
    sc = ctx.sc
    f = {'list': lambda: list(L), 'lists': lambda: [list(p) for p in L],
         'zip': lambda: zip([k for k, v in L], [v for k, v in L]),
         'gen': lambda: (p for p in L), 'items': d.items, 'dict': lambda: d,
         'ordered': lambda: collections.OrderedDict(L),
         'default': lambda: collections.defaultdict(int, L),
         'counter': lambda: collections.Counter(d),
         'chainmap': lambda: collections.ChainMap({}, d),
         'proxy': lambda: types.MappingProxyType(d),
         'userdict': lambda: collections.UserDict(d),
         'keyed': lambda: Keyed(d), 'sdict': lambda: sc.SortedDict(L),
         'sdict-': lambda: sc.SortedDict(minus, L),
         'sitems': lambda: sc.SortedDict(minus, L).items(),
         'indexed': lambda: Indexed(L), 'repeat': lambda: list(L),
         'deque': lambda: collections.deque(L), 'hinted': lambda: Hinted(L),
         'set': lambda: set(L)}[form]
    return f(), L


def h_dict(ctx, form, m, n, op):
    d, old = start(ctx, 'str' if form == 'strings' else form, m, new_dict)
    for v in old:
        d[v] = -1
    label = '%s %s' % (op, form)
    if op == 'fromkeys':
        arg, L = fresh(ctx, form, n)
        r = ctx.ok(label, ctx.sc.SortedDict.fromkeys, arg, 7)
        got = ctx.ok(label, list, r)
        ctx.check(got == sorted(set(L)) and r == dict.fromkeys(L, 7) and
                  list(r.values()) == [7] * len(r), label)
        return unchanged(ctx, arg, L, form, label)
    arg, L = pairs(ctx, form, n)
    want = dict.fromkeys(old, -1)
    if op == 'init':
        want = dict(L)
        a = ((ctx.key, arg) if ctx.keyed else (arg,))
        d = ctx.ok(label, ctx.sc.SortedDict, *a)
    elif op == 'initnone':
        want = dict(L)
        d = ctx.ok(label, ctx.sc.SortedDict, None, arg)
        ctx.keyed = False
    elif op == 'update':
        want.update(L)
        ctx.check(ctx.ok(label, d.update, arg) is None, label)
    elif op == '__ior__':
        want.update(L)
        ctx.check(ctx.ok(label, d.__ior__, arg) is d, label)
    else:
        r = ctx.ok(label, getattr(d, op), arg)
        ctx.check(dict(d) == want and list(d) == old,
                  label + ': operand changed')
        want = {**want, **dict(L)} if op == '__or__' else {**dict(L), **want}
        d = r
    R = holds(ctx, d, want, label)
    ctx.check(list(d.values()) == [want[v] for v in R] and
              list(d.items()) == [(v, want[v]) for v in R] and
              [d[v] for v in R] == [want[v] for v in R] and
              bool(d == want), label + ': values')
    while R:
        i = len(R) // 2
        v = R.pop(i)
        ctx.check(ctx.ok(label, d.popitem, i) == (v, want[v]),
                  label + ': popitem')
    ctx.check(len(d) == 0 and list(d) == [], label + ': emptied')
    if form in ('dict', 'ordered', 'default', 'counter', 'sdict', 'sdict-',
                'userdict', 'chainmap', 'proxy'):
        ctx.check(dict(arg) == dict(L), label + ': argument changed')


def group(prop, tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost if keyed else 1))
        if prop in ('C01', 'C09'):
            ops = ('init', 'update', 'iadd') if prop == 'C01' else ('add',)
            for f in VALUES:
                for op in ops:
                    for m, n in [(0, 3), (2, 2), (6, 1)] + (
                            [(3, 3), (9, 2), (0, 0), (2, 0)] if full else []):
                        if op == 'init' and m:
                            continue
                        add('h_list', form=f, m=m, n=n, op=op,
                            cost=1 + m * n)
        if prop in ('C12', 'C13'):
            ops = NEW + CHANGE + ('init',) if prop == 'C12' else ASK
            rel = SYMBOL[:12] if prop == 'C12' else SYMBOL[12:]
            for f in VALUES:
                for op in ops + (rel if f in SETS else ()):
                    for m, n in [(0, 3), (2, 2), (6, 1)] + (
                            [(3, 3), (9, 2), (0, 0), (2, 0)] if full else []):
                        if op == 'init' and m:
                            continue
                        if prop == 'C12' and not full and n != (
                                2 if len(f + op) % 2 else 1) and m:
                            continue
                        add('h_set', form=f, m=m, n=n, op=op, cost=1 + m * n)
        if prop == 'C15':
            for f in VALUES:
                if not keyed:
                    for n in (0, 1, 3):
                        add('h_dict', form=f, m=0, n=n, op='fromkeys')
            for f in PAIRS:
                for op in ('init', 'initnone', 'update', '__ior__', '__or__',
                           '__ror__'):
                    if op == 'initnone' and keyed:
                        continue
                    if op in ('__or__', '__ror__') and f not in (
                            'dict', 'ordered', 'default', 'counter',
                            'chainmap', 'proxy', 'userdict', 'sdict',
                            'sdict-'):
                        continue
                    for m, n in [(0, 3), (2, 2), (11, 1)] + (
                            [(3, 3), (21, 2), (0, 0), (2, 0)]
                            if full else []):
                        if op.startswith('init') and m:
                            continue
                        add('h_dict', form=f, m=m, n=n, op=op, cost=1 + m * n)
    return T
