"""C15: bulk update and merge of sorted dicts follow dict semantics."""
import collections
from sx.task import Task
from .common import *
from .c11 import find
from .c14 import Model, same_as_dict

BOUNDS = {
    'quick': 'up to 24 stored items, up to 3 symbolic pairs in the argument '
             '(keys equal to stored keys, to each other, or new), every kind '
             'of argument; keyword arguments over 4 names',
    'thorough': 'up to 24 stored items, up to 4 symbolic pairs',
}
M = 'harness.c15'


class Keyed:
    """A minimal mapping: keys() and __getitem__ only."""

    def __init__(self, pairs):
        self.p = pairs

    def keys(self):
        return [k for k, _ in self.p]

    def __getitem__(self, k):
        for t, v in self.p:
            if t is k:
                return v
        raise KeyError(k)


class DSub(dict):
    pass


def argument(ctx, pairs, form):
    sc = ctx.sc
    key = (ctx.key,) if ctx.keyed else ()
    return {
        'pairs': lambda: list(pairs), 'tuple': lambda: tuple(pairs),
        'gen': lambda: (p for p in pairs),
        'lists': lambda: [list(p) for p in pairs],
        'dict': lambda: dict(pairs), 'sub': lambda: DSub(pairs),
        'odict': lambda: collections.OrderedDict(pairs),
        'user': lambda: collections.UserDict(dict(pairs)),
        'keyed': lambda: Keyed(uniq_pairs(ctx, pairs)),
        'sdict': lambda: sc.SortedDict(*key, pairs),
        'sdict2': lambda: sc.SortedDict(ctx.key2, pairs),
        'items': lambda: dict(pairs).items(),
        'sitems': lambda: sc.SortedDict(*key, pairs).items(),
    }[form]()


def uniq_pairs(ctx, pairs):
    out = []
    for k, v in pairs:
        i = find(ctx, [t for t, _ in out], k)
        if i is None:
            out.append((k, v))
        else:
            out[i] = (out[i][0], v)
    return out


def apply(ctx, m, pairs):
    """dict.update on the model; returns the new keys."""
    new = []
    for k, v in pairs:
        i = find(ctx, m.R, k)
        if i is not None:
            m.v[m.R[i].uid] = v
            continue
        i = find(ctx, new, k)
        if i is not None:
            m.v[new[i].uid] = v
            continue
        new.append(k)
        m.v[k.uid] = v
    return new


def mkpairs(ctx, k, own, A):
    T = [ctx.tok('t%d' % i) for i in range(k)]
    if own:
        T.append(ctx.pick('which', A))
    return [(t, ctx.val('n%d' % i)) for i, t in enumerate(T)]


def h_update(ctx, shape, how, k, form, own=False, order='strict'):
    ctx.spare = object()
    d, A = build(ctx, shape, True, order, cls='dict')
    m = Model(ctx, A, ctx.dvals)
    pairs = mkpairs(ctx, k, own, A)
    arg = argument(ctx, pairs, form)
    label = '%s %s' % (how, form)
    if how == 'update':
        r = ctx.ok(label, d.update, arg)
        ctx.check(r is None, label + ': result')
    else:
        r = ctx.ok(label, d.__ior__, arg)
        ctx.check(r is d, label + ': identity')
    new = apply(ctx, m, pairs)
    m.place(new, list(d), label)
    same_as_dict(ctx, d, m, label)
    unchanged(ctx, arg, pairs, form, label)
    R = list(m.R)
    while R:
        t = R.pop(0 if len(R) % 2 else -1)
        ctx.check(ctx.ok('drain', d.pop, t) is m.v[t.uid], 'drain: value')
    ctx.check(len(d) == 0 and list(d) == [], 'drain: empty')


def unchanged(ctx, arg, pairs, form, label):
    if form in ('dict', 'sub', 'odict', 'user', 'sdict', 'sdict2'):
        u = uniq_pairs(ctx, pairs)
        ctx.check(len(arg) == len(u), label + ': argument changed')
        for k, v in u:
            ctx.check(arg[k] is v, label + ': argument changed')


def h_none(ctx, shape):
    ctx.spare = object()
    d, A = build(ctx, shape, True, cls='dict')
    m = Model(ctx, A, ctx.dvals)
    ctx.ok('update()', d.update)
    for arg in ((), [], {}, (x for x in ())):
        ctx.ok('update(empty)', d.update, arg)
    same_as_dict(ctx, d, m, 'after empty updates')


def h_or(ctx, shape, k, form, side, own=False, order='strict'):
    ctx.spare = object()
    d, A = build(ctx, shape, True, order, cls='dict')
    pairs = mkpairs(ctx, k, own, A)
    o = argument(ctx, pairs, form)
    label = '| %s %s' % (side, form)
    if side == 'left':
        r = ctx.ok(label, lambda: d | o)
        m = Model(ctx, A, ctx.dvals)
        new = apply(ctx, m, pairs)
        m.place(new, list(r), label)
    else:
        r = ctx.ok(label, lambda: o | d)
        m = Model(ctx, [], {})
        new = apply(ctx, m, pairs + [(t, ctx.dvals[t.uid]) for t in A])
        R = list(r)
        check_perm(ctx, R, new, label + ': keys')
        check_sorted(ctx, R, label + ': key order')
        m.R = R
    ctx.check(is_a(ctx, r, 'SortedDict'), label + ': type')
    ctx.check(r is not d and r is not o, label + ': new object')
    ctx.check(r.key is d.key, label + ': key function')
    same_as_dict(ctx, r, m, label)
    m0 = Model(ctx, A, ctx.dvals)
    same_as_dict(ctx, d, m0, label + ': operand')
    unchanged(ctx, o, pairs, form, label)
    r.clear()
    same_as_dict(ctx, d, m0, label + ': operand after clearing the result')
    unchanged(ctx, o, pairs, form, label)


class Reflects:
    """Not a mapping; merges by its own rules."""

    def __or__(self, other):
        return 'or'

    def __ror__(self, other):
        return 'ror'


def h_foreign(ctx, shape):
    ctx.spare = object()
    d, A = build(ctx, shape, True, cls='dict')
    ctx.check(ctx.ok('|', lambda: d | Reflects()) == 'ror',
              '| with an operand that knows how')
    ctx.check(ctx.ok('|', lambda: Reflects() | d) == 'or',
              '| of an operand that knows how')
    same_as_dict(ctx, d, Model(ctx, A, ctx.dvals), 'after |')


def h_or_bad(ctx, shape, kind):
    ctx.spare = object()
    d, A = build(ctx, shape, True, cls='dict')
    o = {'list': [(t, 1) for t in A], 'none': None, 'int': 3,
         'set': set(A)}[kind]
    import operator
    ctx.raises(TypeError, '| with a non-mapping', operator.or_, d, o)
    ctx.raises(TypeError, 'non-mapping |', operator.or_, o, d)
    same_as_dict(ctx, d, Model(ctx, A, ctx.dvals), 'after |')


def h_fromkeys(ctx, k, form, given):
    ctx.spare = object()
    sc = ctx.sc
    T = [ctx.tok('t%d' % i) for i in range(k)]
    v = ctx.val('v')
    arg = forms(T, form, ctx)
    d = ctx.ok('fromkeys', sc.SortedDict.fromkeys, arg,
               *((v,) if given else ()))
    ctx.check(type(d) is sc.SortedDict, 'fromkeys: type')
    m = Model(ctx, [], {})
    new = apply(ctx, m, [(t, v if given else None) for t in T])
    m.place(new, list(d), 'fromkeys')
    same_as_dict(ctx, d, m, 'fromkeys')


NAMES = ('b', 'd', 'f', 'c')
# keyword names a method may also use for its own parameters
NAMES2 = ('self', 'key', 'iterable', 'args', 'other', 'b')


def h_kwargs(ctx, how, stored, npairs, nkw, names=NAMES):
    """Keyword arguments; names are concrete, which ones are symbolic."""
    sc = ctx.sc
    key = (lambda s: -ord(s[0]),) if ctx.keyed else ()
    sv = [ctx.val('s%d' % i) for i in range(stored)]
    base = dict(zip(names, sv))
    pairs = [(ctx.pick('p%d' % i, names), ctx.val('pv%d' % i))
             for i in range(npairs)]
    kw = {}
    for i in range(nkw):
        kw[ctx.pick('q%d' % i, names)] = ctx.val('qv%d' % i)
    want = dict(base)
    if how == 'init':
        want = {}
        d = ctx.ok('constructor', lambda: sc.SortedDict(*key, pairs, **kw))
    else:
        d = sc.SortedDict(*key, base)
        if npairs:
            ctx.ok('update', lambda: d.update(
                dict(pairs) if how == 'dict' else pairs, **kw))
        else:
            ctx.ok('update', lambda: d.update(**kw))
    want.update(pairs, **kw)
    order = sorted(want, key=key[0] if key else None)
    ctx.check(list(d) == order, 'keywords: key order')
    ctx.check(all(d[x] is want[x] for x in order) and len(d) == len(want),
              'keywords: values')
    ctx.check([x for x, _ in d.items()] == order, 'keywords: items')


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        shs = [(4, ()), (4, (2,)), (4, (3, 3))]
        fms = ('pairs', 'gen', 'dict', 'sub', 'user', 'keyed', 'sdict',
               'items', 'lists', 'odict', 'sitems', 'tuple', 'sdict2')
        for sh in shs:
            n = sum(sh[1])
            for how in ('update', 'ior'):
                for form in fms:
                    ks = (1,)
                    if form in ('pairs', 'dict', 'sdict') or (
                            n < 3 and not keyed):
                        ks = (1, 2)
                    if n == 0 and form in ('pairs', 'dict'):
                        ks = (1, 2, 3)
                    if full:
                        ks = (1, 2, 3) if n < 6 else (1, 2)
                    for k in ks:
                        add('h_update', shape=sh, how=how, k=k, form=form,
                            cost=(n + 1) ** k)
            for side in ('left', 'right'):
                for form in ('dict', 'sdict', 'sub', 'user', 'sdict2'):
                    if form != 'dict' and side == 'right':
                        # a dict subclass or UserDict on the left decides
                        # the result's type itself (Python's rules)
                        continue
                    for k in ((0, 1, 2) if form == 'dict' or full else (1,)):
                        add('h_or', shape=sh, k=k, form=form, side=side,
                            cost=(n + 1) ** k)
            add('h_none', shape=sh)
        # few pairs against many items: the item-wise path (10*k <= n)
        for sh in [(4, (8, 4)), (4, (3, 4, 3, 3, 4))] + (
                [(4, (8, 8, 8))] if full else []):
            for form in ('pairs', 'dict', 'gen', 'sdict'):
                add('h_update', shape=sh, how='update', k=1, form=form,
                    cost=50)
                add('h_update', shape=sh, how='ior', k=0, form=form, own=True,
                    cost=50)
            add('h_or', shape=sh, k=1, form='dict', side='left', cost=50)
        add('h_update', shape=(4, (8, 8, 8)), how='update', k=1, form='dict',
            own=True, cost=500) if not keyed or full else None
        if keyed:
            for k in (1, 2):
                add('h_update', shape=(4, (3,)), how='update', k=k,
                    form='pairs', order='distinct', cost=60)
            add('h_or', shape=(4, (3,)), k=1, form='dict', side='left',
                order='distinct', cost=60)
        add('h_foreign', shape=(4, (3, 3)))
        for kind in ('list', 'none', 'int', 'set'):
            add('h_or_bad', shape=(4, (3, 3)), kind=kind)
        if not keyed:
            for k in range(4):
                for form in ('list', 'gen', 'set'):
                    for given in (False, True):
                        add('h_fromkeys', k=k, form=form, given=given,
                            cost=k ** 3)
        for how in ('init', 'pairs', 'dict'):
            for stored in (0, 3):
                for npairs, nkw in ((0, 1), (0, 2), (1, 1), (2, 2), (1, 0)):
                    if how == 'init' and stored:
                        continue
                    add('h_kwargs', how=how, stored=stored, npairs=npairs,
                        nkw=nkw, cost=20)
                    if npairs < 2:
                        add('h_kwargs', how=how, stored=stored, npairs=npairs,
                            nkw=nkw, names=NAMES2, cost=20)
        for j, sh in enumerate(pasts('dict', tier)):
            add('h_update', shape=sh, how=('update', 'ior')[j % 2], k=1,
                form=('pairs', 'dict', 'gen', 'sdict')[j % 4], cost=40)
            add('h_or', shape=sh, k=1, form='dict',
                side=('left', 'right')[j % 2], cost=40)
    T += big('dictbulk', tier)
    T += calls('C15', tier)
    T += args('C15', tier)
    T += variants(T, M, tier)
    return T
