"""The same call with positional and with keyword arguments, part by part."""
from .common import *
from sx.task import Task

M = 'harness.calls'

# property: (class, method, parameter names in order); the documented names
V = ('value',)
RANGE = ('minimum', 'maximum', 'inclusive', 'reverse')
CALLS = {
    'C01': [('list', 'add', V), ('list', 'update', ('iterable',)),
            ('list', 'new', ('iterable', 'key'))],
    'C02': [('list', 'remove', V), ('list', 'discard', V)],
    'C04': [('list', 'pop', ('index',)), ('set', 'pop', ('index',))],
    'C05': [('list', 'count', V), ('list', 'index',
                                   ('value', 'start', 'stop'))],
    'C06': [('list', m, V) for m in ('bisect', 'bisect_left',
                                     'bisect_right')] +
           [('list', m, ('key',)) for m in (
               'bisect_key', 'bisect_key_left', 'bisect_key_right')],
    'C07': [('list', 'irange', RANGE), ('list', 'islice', (
        'start', 'stop', 'reverse')), ('list', 'irange_key', (
            'min_key', 'max_key', 'inclusive', 'reverse'))],
    'C11': [('set', 'add', V), ('set', 'discard', V), ('set', 'remove', V),
            ('set', 'count', V), ('set', 'pop', ('index',)),
            ('set', 'new', ('iterable', 'key'))],
    'C12': [('set', 'symmetric_difference', ('other',)),
            ('set', 'symmetric_difference_update', ('other',))],
    'C14': [('dict', 'setdefault', ('key', 'default')),
            ('dict', 'pop', ('key', 'default'))],
    'C15': [('dict', 'fromkeys', ('iterable', 'value'))],
    'C16': [('dict', 'popitem', ('index',)), ('dict', 'peekitem',
                                              ('index',))],
    'C21': [(c, 'irange', RANGE) for c in ('set', 'dict')] +
           [(c, 'index', ('value', 'start', 'stop')) for c in (
               'set', 'dict')] +
           [(c, 'islice', ('start', 'stop', 'reverse')) for c in (
               'set', 'dict')] +
           [(c, 'irange_key', ('min_key', 'max_key', 'inclusive', 'reverse'))
            for c in ('set', 'dict')] +
           [(c, m, ('key',)) for c in ('set', 'dict') for m in (
               'bisect_key', 'bisect_key_left', 'bisect_key_right')],
    'C22': [('list', 'append', V), ('list', 'extend', ('values',)),
            ('list', 'insert', ('index', 'value'))],
}


def h_call(ctx, cls, method, names, shape, first):
    s, A = build(ctx, shape, True, cls=cls)
    t = s.copy()
    v, w = ctx.tok('v'), ctx.tok('w')
    if method.startswith('symm'):
        # values of a set whose keys tie may come in either order
        for u in A:
            a, b = ctx.rank_of(u), ctx.rank_of(v)
            ctx.assume(ctx.Or(ctx.eq(u, v), ctx.lt(a, b), ctx.lt(b, a)))
    make = {
        'value': lambda: v, 'minimum': lambda: v, 'maximum': lambda: w,
        'key': lambda: v if cls == 'dict' else ctx.key(v),
        'min_key': lambda: ctx.key(v), 'max_key': lambda: ctx.key(w),
        'inclusive': lambda: (False, True), 'reverse': lambda: True,
        'index': lambda: ctx.int('i', -len(A) - 1, len(A)),
        'start': lambda: ctx.int('a', -len(A) - 1, len(A) + 1),
        'stop': lambda: ctx.int('b', -len(A) - 1, len(A) + 1),
        'iterable': lambda: [v, w], 'values': lambda: [v, w],
        'other': lambda: [v] + A[:1], 'default': lambda: ctx.val('d')}
    if method == 'fromkeys':
        make['value'] = make['default']
    if method in ('bisect_key', 'bisect_key_left', 'bisect_key_right'):
        make['key'] = lambda: ctx.key(v)
    if method == 'new':
        c = ctx.sc.SortedList if cls == 'list' else ctx.sc.SortedSet
        f = g = c
        make['key'] = lambda: seq_key(ctx)
    else:
        f, g = getattr(s, method), getattr(t, method)
    args = [make[n]() for n in names]
    # the first `first` arguments by position, the others by name
    kw = dict(list(zip(names, args))[first:])
    a = ctx.call(f, *args[:first], **kw)
    b = ctx.call(g, *args)
    label = '%s with %s by name' % (method, ', '.join(names[first:]))
    ctx.check(a[0] == b[0], label + ': result', lambda: repr((a, b)))
    if a[0] == 'exc':
        ctx.check(type(a[1]) is type(b[1]), label + ': exception',
                  lambda: repr((a, b)))
    else:
        x, y = a[1], b[1]
        if method in ('irange', 'islice', 'irange_key', 'fromkeys', 'new',
                      'symmetric_difference'):
            x, y = list(x), list(y)
            # equal arguments of a set may be represented by either
            ctx.check(len(x) == len(y), label + ': result')
            for p, q in zip(x, y):
                ctx.check(p is q or ctx.eq(p, q), label + ': result')
        elif type(x) is tuple:
            ctx.check(all(p is q for p, q in zip(x, y)), label + ': result')
        elif method in ('symmetric_difference_update', 'update', 'add'):
            ctx.check((x is s) == (y is t), label + ': result')
        else:
            ctx.check(x is y or ctx.eqi(x, y), label + ': result')
    ctx.same_list(list(s), list(t), label + ': contents')


def group(prop, tier):
    T = []
    for keyed in (False, True):
        for cls, m, names in CALLS[prop]:
            if '_key' in m and not keyed:
                continue
            for sh in ((4, ()), (4, (3, 3))):
                for first in range(len(names)):
                    T.append(Task(M, 'h_call', dict(
                        cls=cls, method=m, names=names, shape=sh,
                        first=first), keyed, 10))
    return T
