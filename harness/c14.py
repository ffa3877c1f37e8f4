"""C14: a sorted dict is the dict it mirrors, iterated in key order."""
from sx.task import Task
from .common import *
from .c11 import find

BOUNDS = {
    'quick': 'up to 15 items in up to 5 sublists, histories of up to 3 '
             'operations with any keys (equal to stored keys, to each other, '
             'or new) and any values including falsy ones',
    'thorough': 'up to 27 items in 9 sublists, histories of up to 4 '
                'operations',
}
M = 'harness.c14'


class Model:
    """What a built-in dict does, with the keys kept sorted."""

    def __init__(self, ctx, R, vals):
        self.ctx, self.R, self.v = ctx, list(R), dict(vals)

    def pos(self, k):
        return find(self.ctx, self.R, k)

    def set(self, k, v, got):
        """Store; a new key's place is read off `got` and checked."""
        i = self.pos(k)
        if i is None:
            self.v[k.uid] = v
            return k
        self.v[self.R[i].uid] = v
        return None

    def place(self, new, got, label):
        """Keys after adding `new`, whose order the solver confirms."""
        ctx = self.ctx
        check_perm(ctx, got, self.R + new, label + ': keys')
        check_sorted(ctx, got, label + ': key order')
        u = {t.uid for t in new}
        ctx.same_list([t for t in got if t.uid not in u], self.R,
                      label + ': other keys keep their order')
        self.R = got

    def drop(self, i):
        t = self.R[i]
        del self.R[i]
        return self.v.pop(t.uid)


def step(ctx, d, m, op, j):
    label = 'dict ' + op
    k = ctx.tok('k%d' % j) if op not in ('popitem', 'clear', 'popitem0') \
        else None
    v = ctx.first if j == 0 and ctx.first is not None else ctx.val('w%d' % j)
    if op in ('setnone', 'popnone'):
        v = None
    i = m.pos(k) if k is not None else None
    new = []
    if op in ('set', 'setnone', 'setdefault', 'setdefault0'):
        if op in ('set', 'setnone'):
            r = ctx.ok(label, d.__setitem__, k, v)
            ctx.check(r is None, label + ': result')
            if i is None:
                new = [k]
                m.v[k.uid] = v
            else:
                m.v[m.R[i].uid] = v
        else:
            args = (k, v) if op == 'setdefault' else (k,)
            r = ctx.ok(label, d.setdefault, *args)
            dv = v if op == 'setdefault' else None
            if i is None:
                new = [k]
                m.v[k.uid] = dv
                ctx.check(r is dv, label + ': returns the default')
            else:
                ctx.check(r is m.v[m.R[i].uid],
                          label + ': returns the stored value')
    elif op in ('del', 'pop', 'popd', 'popnone', 'popkw'):
        f, args, kw = {'del': (d.__delitem__, (k,), {}),
                       'pop': (d.pop, (k,), {}), 'popd': (d.pop, (k, v), {}),
                       'popnone': (d.pop, (k, None), {}),
                       'popkw': (d.pop, (k,), {'default': v})}[op]
        st, r = ctx.call(f, *args, **kw)
        if i is None:
            if op in ('del', 'pop'):
                ctx.check(st == 'exc' and isinstance(r, KeyError),
                          label + ': KeyError for a missing key')
                ctx.check(any(a is k for a in r.args),
                          label + ': KeyError names the key')
            else:
                ctx.check(st == 'ok' and r is (None if op == 'popnone'
                                               else v),
                          label + ': returns the default')
        else:
            if st == 'exc':
                ctx.fail(label + ': exception for a stored key', repr(r))
            w = m.drop(i)
            ctx.check(r is (None if op == 'del' else w), label + ': result')
    elif op in ('get', 'getd', 'item', 'in'):
        st, r = ctx.call({'get': d.get, 'getd': d.get, 'item': d.__getitem__,
                          'in': d.__contains__}[op],
                         *((k, v) if op == 'getd' else (k,)))
        if op == 'in':
            ctx.check(st == 'ok' and bool(r) == (i is not None), label)
        elif i is not None:
            ctx.check(st == 'ok' and r is m.v[m.R[i].uid],
                      label + ': stored value')
        elif op == 'item':
            ctx.check(st == 'exc' and isinstance(r, KeyError),
                      label + ': KeyError')
            ctx.check(any(a is k for a in r.args),
                      label + ': KeyError names the key')
        else:
            ctx.check(st == 'ok' and r is (v if op == 'getd' else None),
                      label + ': default')
    elif op in ('popitem', 'popitem0'):
        st, r = ctx.call(d.popitem, *((0,) if op == 'popitem0' else ()))
        if not m.R:
            ctx.check(st == 'exc' and isinstance(r, KeyError),
                      label + ': KeyError on an empty dict')
        else:
            p = 0 if op == 'popitem0' else -1
            t = m.R[p]
            w = m.drop(p)
            ctx.check(st == 'ok' and r[0] is t and r[1] is w,
                      label + ': item')
    elif op == 'clear':
        ctx.ok(label, d.clear)
        m.R, m.v = [], {}
    got = ctx.ok(label, list, d)
    if new:
        m.place(new, got, label)
    else:
        ctx.same_list(got, m.R, label + ': keys')
    ctx.check(len(d) == len(m.R), label + ': len')


def same_as_dict(ctx, d, m, label):
    dict_is(ctx, d, m.R, m.v, label)
    plain = {}
    for t in reversed(m.R):
        plain[t] = m.v[t.uid]
    ctx.check(bool(d == plain) and bool(plain == d),
              label + ': equal to the built-in dict')
    ctx.check(not bool(d != plain), label + ': not unequal')
    plain[ctx.spare] = 0
    ctx.check(not bool(d == plain), label + ': unequal to a bigger dict')


def h_history(ctx, shape, warm, ops, order='strict', special=False):
    d, A = build(ctx, shape, warm, order, cls='dict')
    ctx.first = None
    if special:
        # one stored value is None, or the very object passed to the first
        # operation, or another key's value
        t = ctx.pick('special', A)
        ctx.first = ctx.val('w0')
        d[t] = ctx.dvals[t.uid] = ctx.pick(
            'kind', [None, ctx.first, ctx.dvals[A[0].uid]])
    m = Model(ctx, A, ctx.dvals)
    ctx.spare = object()
    for j, op in enumerate(ops):
        step(ctx, d, m, op, j)
    same_as_dict(ctx, d, m, 'after history')
    # drain: every stored key can still be deleted
    R = list(m.R)
    while R:
        t = R.pop(len(R) // 2)
        r = ctx.ok('drain', d.pop, t)
        ctx.check(r is m.v[t.uid], 'drain: value')
        ctx.check(not bool(t in d), 'drain: key still there')
        ctx.same_list(list(d), R, 'drain: keys')
    ctx.check(len(d) == 0 and not d, 'drain: empty')


def h_init(ctx, k, form):
    T = [ctx.tok('t%d' % i) for i in range(k)]
    V = [ctx.val('v%d' % i) for i in range(k)]
    pairs = list(zip(T, V))
    sc = ctx.sc
    key = (ctx.key,) if ctx.keyed else ()
    if form == 'none key':
        key = (None,)
    arg = {'pairs': lambda: pairs, 'gen': lambda: (p for p in pairs),
           'dict': lambda: dict(pairs), 'none key': lambda: pairs,
           'sdict': lambda: sc.SortedDict(*key, pairs)}[form]()
    d = ctx.ok('constructor', sc.SortedDict, *key, arg)
    d._reset(4)
    m = Model(ctx, [], {})
    ctx.spare = object()
    uniq = []
    for t, v in pairs:
        i = find(ctx, uniq, t)
        if i is None:
            uniq.append(t)
            m.v[t.uid] = v
        else:
            m.v[uniq[i].uid] = v
    m.place(uniq, list(d), 'constructor')
    same_as_dict(ctx, d, m, 'constructor')


def h_alien(ctx, shape, warm):
    """Lookups never compare or need a key: foreign keys are just missing."""
    d, A = build(ctx, shape, warm, cls='dict')
    z, w = ctx.Alien(), ctx.val('w')
    ctx.check(ctx.ok('in', d.__contains__, z) is False, 'in: foreign key')
    ctx.check(ctx.ok('get', d.get, z) is None, 'get: foreign key')
    ctx.check(ctx.ok('get', d.get, z, w) is w, 'get: foreign key')
    ctx.check(ctx.ok('pop', d.pop, z, w) is w, 'pop: foreign key')
    ctx.check(ctx.ok('pop', d.pop, z, None) is None, 'pop: foreign key')
    for label, f in (('[]', d.__getitem__), ('del', d.__delitem__),
                     ('pop', d.pop)):
        e = ctx.raises(KeyError, label + ': foreign key', f, z)
        ctx.check(any(a is z for a in e.args),
                  label + ': KeyError names the foreign key')
    ctx.check(not bool(d == {z: w}) and bool(d != {z: w}),
              '==: foreign key')
    dict_is(ctx, d, A, ctx.dvals, 'after looking for a foreign key')


def h_missing(ctx, shape, op, warm):
    """A subclass may say what a missing key gives (dict's __missing__)."""
    asked = []

    class Default(ctx.sc.SortedDict):
        def __missing__(self, key):
            asked.append(key)
            return given

    given = ctx.val('given')
    load, lens = shape
    n = sum(lens)
    A = ctx.chain(n, 'a', strict=True)
    V = [ctx.val('v%d' % i) for i in range(n)]
    key = (ctx.key,) if ctx.keyed else ()
    d = Default(*key, zip(A, V))
    d._reset(load)
    if warm and n:
        d.peekitem(n // 2)
    ctx.dvals = {t.uid: v for t, v in zip(A, V)}
    m = Model(ctx, A, ctx.dvals)
    ctx.spare = object()
    ctx.first = None
    if op == 'item':
        k = ctx.tok('k')
        i = m.pos(k)
        r = ctx.ok('d[k]', d.__getitem__, k)
        if i is None:
            ctx.check(r is given and len(asked) == 1 and asked[0] is k,
                      'd[k]: __missing__ decides')
        else:
            ctx.check(r is V[i] and not asked, 'd[k]: stored value')
    else:
        step(ctx, d, m, op, 0)
        ctx.check(not asked, op + ' does not ask __missing__')
    same_as_dict(ctx, d, m, 'after ' + op)


def tasks(tier):
    T = []
    full = tier == 'thorough'
    for keyed in (False, True):
        def add(fn, cost=1, **p):
            T.append(Task(M, fn, p, keyed, cost))
        base = [(4, ()), (4, (1,)), (4, (3, 3)), (4, (8,)), (4, (4, 4, 2)),
                (4, (3, 8)), (4, (3, 4, 3, 3, 4))] + (
            [(4, (3, 8, 3)), (4, (3,) * 9)] if full else [])
        allops = ('set', 'setdefault', 'setdefault0', 'del', 'pop', 'popd',
                  'popnone', 'popkw', 'get', 'getd', 'item', 'in', 'popitem',
                  'popitem0', 'clear')
        for op in allops:
            for sh in base:
                if not full and keyed and sum(sh[1]) > 8 and op in (
                        'popnone', 'popkw', 'get', 'getd', 'item'):
                    continue
                add('h_history', shape=sh, warm=op != 'set', ops=(op,),
                    cost=sum(sh[1]))
        two = [(a, b) for a in ('set', 'setdefault', 'del', 'pop', 'popitem',
                                'popd')
               for b in ('set', 'setdefault', 'del', 'pop', 'in')]
        for ops in two + [('clear', 'set', 'set'), ('set', 'clear', 'set'),
                          ('popitem0', 'popitem', 'set')]:
            for sh in [(4, ()), (4, (3,))] + (
                    [(4, (3, 3)), (4, (8,))] if full else []):
                add('h_history', shape=sh, warm=True, ops=ops, cost=30)
            if not keyed and not full and ops[0] in ('set', 'del'):
                add('h_history', shape=(4, (3, 3)), warm=True, ops=ops,
                    cost=60)
        for op in allops:
            for sh in [(4, (1,)), (4, (3,))] + ([(4, (3, 3))] if full else []):
                add('h_history', shape=sh, warm=True, ops=(op,), special=True,
                    cost=20)
        for op in ('set', 'setnone', 'setdefault', 'setdefault0', 'popd',
                   'popnone', 'getd', 'in', 'pop', 'del'):
            for a in ('setnone', 'setdefault0'):
                for sh in [(4, ()), (4, (2,))] + ([(4, (3, 3))]
                                                  if full else []):
                    add('h_history', shape=sh, warm=True, ops=(a, op),
                        cost=20)
        if keyed:
            for op in ('set', 'setdefault', 'pop', 'del', 'popitem',
                       'popitem0', 'popd', 'item', 'clear'):
                for sh in [(4, (3,)), (4, (4, 1))] + (
                        [(4, (3, 3))] if op[:4] == 'popi' else []):
                    add('h_history', shape=sh, warm=True, ops=(op,),
                        order='distinct', cost=50)
        if full:
            for ops in [('set', 'set', 'set'), ('set', 'set', 'del'),
                        ('pop', 'set', 'pop'), ('set', 'del', 'setdefault'),
                        ('set', 'popitem', 'set', 'in')]:
                for sh in [(4, ()), (4, (3,))]:
                    add('h_history', shape=sh, warm=True, ops=ops, cost=500)
        for op in allops:
            for sh in [(4, ()), (4, (3, 3))]:
                add('h_missing', shape=sh, op=op, warm=True, cost=9)
        for sh in base:
            add('h_alien', shape=sh, warm=len(sh[1]) > 1)
        for k in range(4 if not full else 5):
            for form in ('pairs', 'gen', 'dict', 'sdict', 'none key'):
                if form == 'none key' and keyed:
                    continue
                add('h_init', k=k, form=form, cost=k ** 3)
        ops = ('set', 'pop', 'setdefault', 'del', 'popd', 'in', 'item')
        for j, sh in enumerate(pasts('dict', tier, True)):
            for op in ops if full else (ops[j % 7], ops[(j + 1) % 7],
                                        ops[(j + 3) % 7]):
                add('h_history', shape=sh, warm=False, ops=(op,), cost=40)
    T += kinds('dict', tier)
    T += big('dict', tier)
    T += calls('C14', tier)
    T += variants(T, M, tier)
    return T
