"""Values of other kinds: None and tuples among the stored values."""
from .common import *
from sx.task import Task

M = 'harness.kinds'


class WrapKey:
    """Key function over None (its own key) and tuples (of their first)."""

    def __init__(self, key, none):
        self.key, self.none = key, none

    def __call__(self, v):
        if v is None:
            return self.none
        if type(v) is tuple:
            v = v[0]
        return self.key(v)


def rank(ctx, v, none):
    if v is None:
        return none
    if type(v) is tuple:
        v = v[0]
    return ctx.rank_of(v)


def in_order(ctx, L, none, label):
    for a, b in zip(L, L[1:]):
        ctx.check(ctx.Not(ctx.lt(rank(ctx, b, none), rank(ctx, a, none))),
                  label + ': order')


def without(L, v):
    return [x for x in L if x is not v]


def same_but(ctx, s, v, rest, none, label):
    """s holds v once, among the others in their order."""
    L = ctx.ok(label, list, s)
    ctx.check(sum(x is v for x in L) == 1, label + ': stored once')
    ctx.check(len(s) == len(L), label + ': len')
    R = without(L, v)
    ctx.check(len(R) == len(rest) and all(a is b for a, b in zip(R, rest)),
              label + ': others', lambda: '%r, others %r' % (L, rest))
    in_order(ctx, L, none, label)
    p = [i for i, x in enumerate(L) if x is v][0]
    return L, p


def gone(ctx, s, rest, label):
    L = ctx.ok(label, list, s)
    ctx.check(len(L) == len(rest) and all(a is b for a, b in zip(L, rest)),
              label + ': contents', lambda: '%r instead of %r' % (L, rest))
    ctx.check(len(s) == len(rest), label + ': len')


def contents(ctx, kind, n):
    """(stored values, special value): None or a tuple among n others."""
    c = ctx.chain(n, strict=True)
    if kind == 'none':
        return list(c), None
    width = {'one': 1, 'two': 2}[kind]
    pad = ('x',) * (width - 1)
    v = ctx.tok('v')
    # a value different from the others
    for t in c:
        ctx.assume(ctx.Not(ctx.eq(t, v)))
    return [(t,) + pad for t in c], (v,) + pad


def errors(ctx, exc, label, f, *args):
    r = ctx.raises(exc, label, f, *args)
    ctx.check(isinstance(ctx.ok(label + ': message', str, r), str), label)
    ctx.ok(label + ': message', repr, r)


def setup(ctx, kind, n):
    none = ctx.ktok('knone') if kind == 'none' else None
    if ctx.keyed:
        ctx.key = WrapKey(ctx.key, none)
    rest, v = contents(ctx, kind, n)
    return none, rest, v


def h_list(ctx, kind, n):
    none, rest, v = setup(ctx, kind, n)
    s = new_list(ctx, 4)
    s.update(rest)
    for w in range(n):
        s[w]
    # not there yet
    ctx.check(ctx.ok('in', s.__contains__, v) is False, 'in: missing')
    ctx.check(ctx.ok('count', s.count, v) == 0, 'count: missing')
    errors(ctx, ValueError, 'index: missing', s.index, v)
    errors(ctx, ValueError, 'remove: missing', s.remove, v)
    ctx.ok('discard: missing', s.discard, v)
    gone(ctx, s, rest, 'missing value')
    for how in ('add', 'update', 'iadd'):
        if how == 'add':
            ctx.ok('add', s.add, v)
        elif how == 'update':
            ctx.ok('update', s.update, [v])
        else:
            ctx.ok('+=', s.__iadd__, [v])
        L, p = same_but(ctx, s, v, rest, none, how)
        ctx.check(s[p] is v and s[p - len(L)] is v, how + ': s[p]')
        ctx.check(ctx.ok('in', s.__contains__, v) is True, 'in')
        ctx.check(ctx.ok('count', s.count, v) == 1, 'count')
        ctx.check(ctx.ok('index', s.index, v) == p, 'index')
        ctx.check(ctx.ok('index', s.index, v, p) == p, 'index from')
        errors(ctx, ValueError, 'index after', s.index, v, p + 1)
        errors(ctx, ValueError, 'index before', s.index, v, 0, p)
        ctx.check(list(s.islice(p, p + 1))[0] is v, 'islice')
        ctx.check(list(reversed(s))[len(L) - 1 - p] is v, 'reversed')
        if how == 'add':
            ctx.ok('remove', s.remove, v)
        elif how == 'update':
            ctx.ok('discard', s.discard, v)
        else:
            ctx.check(ctx.ok('pop', s.pop, p) is v, 'pop')
        gone(ctx, s, rest, how + ' and removal')
    t = s.copy() if n % 2 else s + []
    t.add(v)
    same_but(ctx, t, v, rest, none, 'copy')
    gone(ctx, s, rest, 'original')
    u = s + [v]
    same_but(ctx, u, v, rest, none, '+')
    w = list(u * 2)
    ctx.check(sum(x is v for x in w) == 2, '*')
    ctx.check((u == list(u)) is True and (u != list(u)) is False, '==')


def h_set(ctx, kind, n):
    none, rest, v = setup(ctx, kind, n)
    s = new_set(ctx, 4)
    s.update(rest)
    ctx.check(ctx.ok('in', s.__contains__, v) is False, 'in: missing')
    ctx.check(ctx.ok('count', s.count, v) == 0, 'count: missing')
    errors(ctx, KeyError, 'remove: missing', s.remove, v)
    ctx.ok('discard: missing', s.discard, v)
    gone(ctx, s, rest, 'missing value')
    ops = {'add': lambda: s.add(v), 'update': lambda: s.update([v]),
           'ior': lambda: s.__ior__({v}),
           'ixor': lambda: s.__ixor__({v})}
    outs = {'add': lambda: s.remove(v), 'update': lambda: s.discard(v),
            'ior': lambda: s.__isub__({v}),
            'ixor': lambda: s.intersection_update(rest)}
    for how in ops:
        ctx.ok(how, ops[how])
        L, p = same_but(ctx, s, v, rest, none, 'set ' + how)
        ctx.check(s[p] is v, how + ': s[p]')
        ctx.check(ctx.ok('in', s.__contains__, v) is True, 'in')
        ctx.check(ctx.ok('index', s.index, v) == p, 'index')
        ctx.ok('add again', s.add, v)
        same_but(ctx, s, v, rest, none, 'set add again')
        ctx.check(not s.isdisjoint([v]) and s.issuperset([v]), 'issuperset')
        ctx.ok(how + ' out', outs[how])
        gone(ctx, s, rest, how + ' and out')
    u = s.union([v])
    L, p = same_but(ctx, u, v, rest, none, 'union')
    ctx.check(ctx.ok('pop', u.pop, p) is v, 'pop')
    gone(ctx, u, rest, 'pop')
    u = s | {v}
    same_but(ctx, u, v, rest, none, '|')
    gone(ctx, u - {v}, rest, '-')
    ctx.check(list(u & {v})[0] is v, '&')
    u.clear()
    u.add(v)
    ctx.check(u.pop() is v, 'pop of the only value')


def h_dict(ctx, kind, n):
    none, rest, v = setup(ctx, kind, n)
    d = new_dict(ctx, 4)
    vals = [ctx.val('w%d' % i) for i in range(n)]
    d.update(zip(rest, vals))
    x = ctx.val('x')
    ctx.check(ctx.ok('in', d.__contains__, v) is False, 'in: missing')
    ctx.check(ctx.ok('get', d.get, v, x) is x, 'get: missing')
    errors(ctx, KeyError, '[]: missing', d.__getitem__, v)
    errors(ctx, KeyError, 'del: missing', d.__delitem__, v)
    errors(ctx, KeyError, 'pop: missing', d.pop, v)
    ctx.check(ctx.ok('pop', d.pop, v, x) is x, 'pop: missing')
    ctx.check(ctx.ok('pop', d.pop, v, None) is None, 'pop: missing')
    gone(ctx, d, rest, 'missing key')
    ops = {'set': lambda: d.__setitem__(v, x),
           'setdefault': lambda: d.setdefault(v, x),
           'update': lambda: d.update({v: x}),
           'ior': lambda: d.__ior__({v: x})}
    outs = {'set': lambda: d.__delitem__(v),
            'setdefault': lambda: d.pop(v),
            'update': lambda: d.keys().__delitem__(d.index(v)),
            'ior': lambda: d.popitem(d.index(v))}
    for how in ops:
        ctx.ok(how, ops[how])
        L, p = same_but(ctx, d, v, rest, none, 'dict ' + how)
        ctx.check(d[v] is x and d.get(v) is x, how + ': value')
        ctx.check(ctx.ok('setdefault', d.setdefault, v, None) is x,
                  'setdefault of a stored key')
        ctx.check(ctx.ok('in', d.__contains__, v) is True, 'in')
        k, w = ctx.ok('peekitem', d.peekitem, p)
        ctx.check(k is v and w is x, 'peekitem')
        ctx.check(d.keys()[p] is v and d.values()[p] is x, 'views')
        ctx.check(ctx.ok('index', d.keys().index, v) == p, 'view index')
        ctx.check((v, x) in d.items(), 'items')
        ctx.ok(how + ' out', outs[how])
        gone(ctx, d, rest, how + ' and out')
        ctx.check(len(d.values()) == n, how + ' and out: values')
    e = d | {v: x}
    same_but(ctx, e, v, rest, none, '|')
    ctx.check(e[v] is x, '|: value')
    e = {v: x} | d
    same_but(ctx, e, v, rest, none, 'r|')
    gone(ctx, d, rest, 'operand')


def group(cls, tier):
    T = []
    for keyed in (False, True):
        for kind in ('none', 'one', 'two'):
            for n in (0, 1, 4, 9) + ((14,) if tier == 'thorough' else ()):
                if kind == 'none' and not keyed:
                    continue        # None is not comparable
                T.append(Task(M, 'h_' + cls, dict(kind=kind, n=n), keyed,
                              n + 1))
    return T
