"""C19: a failing operation leaves the container consistent."""
import operator
from sx.ctx import CmpError
from sx.task import Task
from .common import *

BOUNDS = {
    'quick': 'containers of up to 15 values in up to 5 sublists; single-value '
             'operations with an argument comparable or not, separately, '
             'with every stored value it meets; bulk operations with up to 3 '
             'symbolic arguments of either kind in any order',
    'thorough': 'up to 27 values, bulk operations with up to 4 arguments',
}
ASSUME = ['in bulk operations values are of two kinds, comparable within a '
          'kind and not across; in single-value operations any pattern of '
          'comparable pairs; incomparable values are unequal']
M = 'harness.c19'


class Foreign:
    """Hashable, not comparable with anything and without a key."""

    def __hash__(self):
        return 11

    def __repr__(self):
        return 'FOREIGN'


def usable(ctx, s, R, cls, label, vals=None):
    """The container still takes, finds and gives back values."""
    ctx.disarm()
    ctx.key.bad = ()
    label += ', later use'
    v = ctx.tok('later')
    for t in R:
        ctx.assume(ctx.Not(ctx.eq(t, v)))
        if len(R) > 2:
            ctx.assume(ctx.lt(ctx.rank_of(t), ctx.rank_of(v)))
    if cls == 'dict':
        w = ctx.val('laterv')
        ctx.ok(label, s.__setitem__, v, w)
        ctx.check(s[v] is w, label + ': value')
    else:
        ctx.ok(label, s.add, v)
    G = list(s)
    check_perm(ctx, G, R + [v], label + ': contents')
    check_sorted(ctx, G, label + ': order')
    ctx.check(len(s) == len(G), label + ': len')
    ctx.check(bool(v in s), label + ': membership')
    while G:
        i = len(G) // 2
        t = G.pop(i)
        if cls == 'dict':
            r = ctx.ok(label, s.popitem, i)[0]
        else:
            r = ctx.ok(label, s.pop, i)
        ctx.check(r is t, label + ': pop')
        ctx.check(len(s) == len(G), label + ': len')
    ctx.same_list(list(s), [], label + ': emptied')


def single_ops(cls, keyed):
    if cls == 'list':
        r = ['add', 'remove', 'discard', 'index', 'count', '__contains__',
             'bisect_left', 'bisect_right', 'irange']
    elif cls == 'set':
        r = ['add', 'remove', 'discard', 'index', 'count', '__contains__',
             'bisect_left', 'irange']
    else:
        r = ['set', 'setdefault', 'setdefault1', 'pop', 'pop1', '__delitem__',
             '__getitem__', 'get', '__contains__', 'index', 'bisect_left']
    return r


def do_single(ctx, s, cls, op, v):
    if op == 'set':
        return ctx.call(s.__setitem__, v, ctx.val('w'))
    if op in ('setdefault1', 'pop1'):
        return ctx.call(getattr(s, op[:-1]), v, ctx.val('w'))
    if op == 'irange':
        return ctx.call(lambda: list(s.irange(v, v)))
    return ctx.call(getattr(s, op), v)


ADDING = ('update', 'iadd', 'add', 'radd', 'ior', 'or', 'ror', 'union', 'two',
          'update two', 'update three', 'union two', 'union three')


def added(ctx, s, new, cls, label):
    """An adding operation that did not raise has added its values."""
    R = list(s)
    for t in new:
        if any(t is u for u in R):
            continue
        if cls == 'list' or not hasattr(t, 'uid'):
            ctx.fail(label + ': neither added nor refused', repr(t))
        ctx.check(ctx.Or(*[ctx.eq(t, u) for u in R]),
                  label + ': neither added nor refused')


def h_single(ctx, shape, cls, op, fault, order='strict'):
    s, A = build(ctx, shape, True, order, cls=cls)
    vals = getattr(ctx, 'dvals', None)
    if fault == 'relation':
        v = ctx.tok('v')
        ctx.arm_relation([v], A)
    elif fault == 'badkey':
        v = ctx.tok('v')
        ctx.key.bad = (v,)
        for t in A:
            ctx.assume(ctx.Not(ctx.eq(t, v)))
    elif fault == 'foreign':
        v = Foreign()
    else:
        v = []
    st, r = do_single(ctx, s, cls, op, v)
    ctx.disarm()
    if st != 'exc':
        # not swallowed either (what lookups say is for other properties)
        if op in ('add', 'set', 'setdefault', 'setdefault1'):
            added(ctx, s, [v], cls, '%s.%s (%s)' % (cls, op, fault))
        return
    label = '%s.%s fails (%s)' % (cls, op, fault)
    ctx.check(isinstance(r, Exception), label)
    after(ctx, s, A, label, cls)
    if cls == 'set':
        ctx.check(bool(s.issuperset(A)) and bool(s.issubset(A)), label)
    if fault in ('relation', 'badkey'):
        # nothing changed, so v is present only if it equals a stored value
        ctx.key.bad = ()
        r = bool(ctx.ok(label, s.__contains__, v))
        e = ctx.Or(*[ctx.eq(t, v) for t in A])
        ctx.check(e if r else ctx.Not(e), label + ': membership')
    elif cls != 'list' and fault == 'foreign':
        ctx.check(v not in s, label + ': membership')
    usable(ctx, s, A, cls, label, vals)


def consistent(ctx, s, A, cls, new, label, vals=None, newvals=()):
    """Nothing lost, and every way of looking agrees."""
    R = ctx.ok(label, list, s)
    ids = {t.uid for t in A}
    ctx.same_list([t for t in R if getattr(t, 'uid', None) in ids], A,
                  label + ': stored values')
    for t in R:
        if not any(t is u for u in A) and not any(t is u for u in new):
            ctx.fail(label + ': foreign value', repr(R))
    seen = [id(t) for t in R]
    ctx.check(cls == 'list' or len(set(seen)) == len(seen),
              label + ': value twice')
    observe(ctx, s if cls != 'dict' else s.keys(), R, label)
    ctx.check(len(s) == len(R), label + ': len')
    for t in R:
        ctx.check(bool(ctx.ok(label + ' in', s.__contains__, t)),
                  label + ': iterated value is not a member')
    for t in A:
        i = ctx.ok(label + ' index', s.index, t)
        ctx.check(0 <= i < len(R), label + ': index')
        ctx.check(ctx.eq(R[i], t), label + ': index')
    for t in new:
        if any(t is u for u in R):
            continue
        st, r = ctx.call(s.__contains__, t)
        if st == 'exc' and (cls == 'list' or t == [] or True):
            continue
        if not hasattr(t, 'uid'):
            ctx.check(not r, label + ': absent value is a member')
            continue
        e = ctx.Or(*[ctx.eq(t, u) for u in R])
        ctx.check(e if r else ctx.Not(e), label + ': membership')
    if cls == 'dict':
        items = list(s.items())
        ctx.same_list([k for k, _ in items], R, label + ': items')
        for k, v in items:
            ok = any(v is w for w in newvals) or (
                k.uid in vals and v is vals[k.uid])
            ctx.check(ok, label + ': value')
            ctx.check(s[k] is v, label + ': value')
    if cls == 'set':
        ctx.check(bool(s == set(R)) and bool(s.issuperset(R)),
                  label + ': set view')
    return R


SETOPS = ('update', 'symmetric_difference_update', 'intersection_update',
          'difference_update', 'ior', 'ixor', 'iand', 'isub', 'or', 'xor',
          'and', 'sub', 'union')


TWO = tuple(op + ' ' + n for op in (
    'update', 'intersection_update', 'difference_update', 'union',
    'intersection', 'difference') for n in ('two', 'three'))


def raising(items):
    for t in items:
        yield t
    raise CmpError('iterable fails')


def h_bulk(ctx, shape, cls, op, k, fault, order='strict', form='list'):
    s, A = build(ctx, shape, True, order, cls=cls)
    vals = dict(getattr(ctx, 'dvals', None) or {})
    new = [ctx.tok('t%d' % i, tagged=(fault == 'tags')) for i in range(k)]
    if fault == 'badkey':
        b = ctx.pick('bad', new)
        ctx.key.bad = (b,)
        # equal values are interchangeable: b equals no value with a key
        for t in A + new:
            if t is not b:
                ctx.assume(ctx.Not(ctx.eq(t, b)))
    elif fault in ('foreign', 'unhashable'):
        x = Foreign() if fault == 'foreign' else []
        at = ctx.pick('at', list(range(k + 1)))
        new.insert(at, x)
    newvals = []
    if cls == 'dict':
        newvals = [ctx.val('n%d' % i) for i in range(len(new))]
        arg = list(zip(new, newvals))
        if fault == 'nonpair':
            arg.insert(ctx.pick('at', list(range(k + 1))), (new[0],))
    else:
        arg = list(new)
    if fault == 'raise':
        arg = raising(arg)
    elif form == 'gen':
        arg = iter(arg)
    elif form == 'dict':
        if fault == 'unhashable':
            return
        arg = dict(arg)
    elif form == 'set':
        if fault == 'unhashable':
            return
        arg = set(arg)
    if fault == 'tags':
        ctx.arm_tags()
    f = {'iadd': operator.iadd, 'add': operator.add, 'ior': operator.ior,
         'ixor': operator.ixor, 'iand': operator.iand, 'isub': operator.isub,
         'or': operator.or_, 'xor': operator.xor, 'and': operator.and_,
         'sub': operator.sub}.get(op)
    if op == 'radd':
        st, r = ctx.call(lambda: arg + s)
    elif op == 'ror':
        st, r = ctx.call(lambda: arg | s)
    elif f is not None:
        st, r = ctx.call(f, s, arg)
    elif op == 'two':
        # a good iterable first, the failing one second
        st, r = ctx.call(s.update, [new[0]], arg)
    elif op.endswith(' two'):
        st, r = ctx.call(getattr(s, op[:-4]), A[1:] + new[:1], arg)
    elif op.endswith(' three'):
        st, r = ctx.call(getattr(s, op[:-6]), A[1:], iter(A[:2]), arg)
    else:
        st, r = ctx.call(getattr(s, op), arg)
    if st != 'exc':
        ctx.disarm()
        if op in ADDING:
            label = '%s %s (%s)' % (cls, op, fault)
            ctx.check(fault != 'raise', label + ': the error is swallowed')
            if fault != 'nonpair':
                added(ctx, s if r is None else r, new, cls, label)
        return
    label = '%s %s fails (%s)' % (cls, op, fault)
    R = consistent(ctx, s, A, cls, new, label, vals, newvals)
    if op.split()[0] in ('add', 'radd', 'or', 'ror', 'xor', 'and', 'sub',
                         'union', 'difference', 'intersection'):
        ctx.same_list(R, A, label + ': operand changed')
    ctx.check(s.key is ctx.key if ctx.keyed else True, label + ': key')
    usable(ctx, s, R, cls, label)


def h_misuse(ctx, shape, cls, op):
    """Wrong kinds of argument."""
    s, A = build(ctx, shape, True, cls=cls)
    v = ctx.keyed
    K = s.keys() if cls == 'dict' else s
    calls = {
        'update none': lambda: s.update(None),
        'update int': lambda: s.update(5),
        'del str': lambda: K.__delitem__('x'),
        'get str': lambda: K.__getitem__('x'),
        'pop str': lambda: s.popitem('x') if cls == 'dict' else s.pop('x'),
        'del zero step': lambda: K.__delitem__(slice(None, None, 0)),
        'get zero step': lambda: K.__getitem__(slice(None, None, 0)),
        'del float': lambda: K.__delitem__(1.5),
        'del far': lambda: K.__delitem__(len(A)),
        'pop far': lambda: s.popitem(len(A)) if cls == 'dict'
        else s.pop(len(A)),
        'imul str': lambda: operator.imul(s, 'x'),
        'ior int': lambda: operator.ior(s, 5),
        'iand int': lambda: operator.iand(s, 5),
        'isub none': lambda: operator.isub(s, None),
        'update good bad': lambda: s.update([A[0]] if A else [], 5),
        'setdefault list': lambda: s.setdefault([], 1),
        'update two dicts': lambda: s.update({}, {}),
    }
    st, r = ctx.call(calls[op])
    if st != 'exc':
        return
    label = '%s %s' % (cls, op)
    after(ctx, s, A, label, cls)
    usable(ctx, s, A, cls, label)


MISUSE = {
    'list': ('update none', 'update int', 'del str', 'get str', 'pop str',
             'del zero step', 'get zero step', 'del float', 'del far',
             'pop far', 'imul str'),
    'set': ('update none', 'update int', 'del str', 'pop str', 'pop far',
            'del zero step', 'del far', 'ior int', 'iand int', 'isub none',
            'update good bad'),
    'dict': ('update none', 'update int', 'del str', 'pop str',
             'del zero step', 'del far', 'pop far', 'ior int',
             'setdefault list', 'update two dicts'),
}


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        for cls in ('list', 'set', 'dict'):
            for op in single_ops(cls, keyed):
                for fault in ('relation', 'badkey', 'foreign', 'unhashable'):
                    if fault == 'badkey' and not keyed:
                        continue
                    for sh in [(4, ()), (4, (1,)), (4, (8,)), (4, (3, 3)),
                               (4, (3, 8)), (4, (3, 4, 3, 3, 4))] + (
                            [(4, (3,) * 9)] if full else []):
                        if fault != 'relation' and len(sh[1]) > 2:
                            continue
                        add('h_single', shape=sh, cls=cls, op=op, fault=fault,
                            cost=sum(sh[1]))
                if keyed:
                    add('h_single', shape=(4, (3,)), cls=cls, op=op,
                        fault='relation', order='distinct', cost=20)
            ops = {'list': ('update', 'iadd', 'add', 'radd'), 'set': SETOPS +
                   ('two',) + TWO, 'dict': ('update', 'ior', 'or', 'ror')}[cls]
            for op in ops:
                for fault in ('tags', 'badkey', 'foreign', 'unhashable',
                              'raise', 'nonpair'):
                    if fault == 'badkey' and not keyed:
                        continue
                    if fault == 'nonpair' and cls != 'dict' or \
                            fault == 'unhashable' and cls == 'list':
                        continue
                    form = 'list'
                    if cls == 'dict' and op in ('ior', 'or', 'ror'):
                        if fault in ('raise', 'nonpair', 'unhashable') and \
                                op != 'ior':
                            continue
                        form = 'dict' if op != 'ior' else 'list'
                    if cls == 'set' and op in (
                            'ior', 'ixor', 'iand', 'isub', 'or', 'xor', 'and',
                            'sub'):
                        if fault in ('unhashable',):
                            continue
                        form = 'set' if fault != 'raise' else 'list'
                    if op == 'radd' and fault == 'raise':
                        continue
                    for sh, ks in [((4, ()), (1, 2)), ((4, (1,)), (1, 2)),
                                   ((4, (3,)), (1, 2)), ((4, (3, 3)), (1, 2)),
                                   ((4, (3, 4, 3, 3, 4)), (1,))]:
                        n = sum(sh[1])
                        if full:
                            ks += (3,) if n < 6 else ()
                        for k in ks:
                            if k > 1 and n > 3 and not full and op not in (
                                    'update', 'iadd'):
                                continue
                            if k > 1 and n > 5 and keyed and not full:
                                continue
                            if fault == 'nonpair' and k > 1:
                                continue
                            add('h_bulk', shape=sh, cls=cls, op=op, k=k,
                                fault=fault, form=form, cost=(n + 1) ** k)
                    if cls == 'list' and fault == 'tags' and op in (
                            'update', 'iadd'):
                        add('h_bulk', shape=(4, (3,)), cls=cls, op=op, k=3,
                            fault=fault, form='gen', cost=300)
            for op in MISUSE[cls]:
                for sh in [(4, ()), (4, (3, 3))]:
                    add('h_misuse', shape=sh, cls=cls, op=op)
        # few arguments against many values: the one-by-one paths
        for cls in ('list', 'set', 'dict'):
            for fault in ('tags', 'foreign', 'raise'):
                add('h_bulk', shape=(4, (8, 4)), cls=cls, op='update', k=2 if
                    full else 1, fault=fault, cost=200)
    T += variants(T, M, tier)
    return T
