"""Shared harness pieces: building pre-states, observing, oracles.

A *shape* is (load, (len, len, ...)): the sublist lengths a sorted list should
have before the operation under test.  Pre-states are always built through the
public API (plus the documented `_reset` for the load factor), so they are
states a user can reach; if a changed implementation arranges its sublists
differently the harness still applies.
"""

# load 4 (the smallest the consistency check admits): split above 8, merge at 2
EMPTY = (4, ())
SHAPES = [
    (4, ()), (4, (1,)), (4, (3,)), (4, (8,)), (4, (4, 1)), (4, (3, 3)),
    (4, (8, 3)), (4, (3, 8)), (4, (4, 4, 2)), (4, (3, 8, 3)),
    (5, (3, 5, 10)), (4, (3, 4, 3, 3, 4)),
]


def seq_key(ctx):
    return ctx.key if ctx.keyed else None


def cls_of(ctx, name):
    """The container class, or a subclass of it for tasks about those."""
    c = getattr(ctx.sc, name)
    if not ctx.sub:
        return c
    if name not in ctx.subs:
        m = type('My' + name, (c,), {'__module__': __name__})
        ctx.subs[name] = globals()['My' + name] = m      # for pickle
    return ctx.subs[name]


def is_a(ctx, obj, name):
    c = getattr(ctx.sc, name)
    return isinstance(obj, c) if ctx.sub else type(obj) is c


def new_list(ctx, load=None, items=None):
    c = cls_of(ctx, 'SortedKeyList' if ctx.keyed or ctx.identity else
               'SortedList')
    args = () if items is None else (items,)
    s = c(*args, key=ctx.key) if ctx.keyed else c(*args)
    if load is not None:
        s._reset(load)
    return s


def new_set(ctx, load=4):
    s = cls_of(ctx, 'SortedSet')(key=seq_key(ctx))
    s._reset(load)
    return s


def new_dict(ctx, load=4):
    c = cls_of(ctx, 'SortedDict')
    d = c(ctx.key) if ctx.keyed else c()
    d._reset(load)
    return d


def split_plan(load, lens):
    """Which of the chain's tokens are bulk-loaded, removed, added."""
    bulk, removed, added, final = [], [], [], []
    i = 0
    for j, t in enumerate(lens):
        last = j == len(lens) - 1
        if t >= load:
            ids = list(range(i, i + t))
            i += t
            # spread the extras over the interior of the sublist
            extra = t - load
            ex = ids[1:1 + extra]
            bulk += [x for x in ids if x not in ex]
            added += ex
            final += ids
        elif last:
            ids = list(range(i, i + t))
            i += t
            bulk += ids
            final += ids
        else:
            ids = list(range(i, i + load))
            i += load
            bulk += ids
            drop = load - t
            gone = ids[-1:] if drop == 1 else [ids[0]] + ids[-1:]
            gone = (gone + ids[1:])[:drop] if len(gone) < drop else gone[:drop]
            removed += gone
            final += [x for x in ids if x not in gone]
    return i, bulk, removed, added, final


def build(ctx, shape, warm=False, order='strict', name='a', cls='list',
          const=False):
    """(container, expected value list) in the given shape.

    order 'strict': stored values pairwise different (keys strictly
    increasing); 'weak': any ties; 'distinct': values different, keys may tie.
    """
    if shape[0] == 'past':
        from .past import past
        return past(ctx, shape[1], cls)
    load, lens = shape
    if order == 'strict' or cls in ('set', 'dict') and order != 'distinct':
        n, bulk, removed, added, final = split_plan(load, lens)
        c = ctx.const_chain(n, name=name) if const else ctx.chain(
            n, name, strict=True)
        if cls == 'list':
            s = new_list(ctx, load)
            ins, rem = s.add, s.remove
            s.update([c[i] for i in bulk])
        elif cls == 'set':
            s = new_set(ctx, load)
            ins, rem = s.add, s.remove
            s.update([c[i] for i in bulk])
        else:
            s = new_dict(ctx, load)
            vals = ctx.dvals = {}

            def ins(t):
                v = vals[t.uid] = ctx.val('v_' + t.name)
                s[t] = v

            rem = s.pop
            s.update([(c[i], vals.setdefault(c[i].uid,
                                             ctx.val('v_' + c[i].name)))
                      for i in bulk])
        for i in removed:
            rem(c[i])
        for i in added:
            ins(c[i])
        A = [c[i] for i in final]
    else:
        # ties allowed: bulk load, then position deletes only (no comparison
        # outcome beyond the assumed order is needed to reach the state)
        n, dels = weak_plan(load, lens)
        c = ctx.chain(n, name, strict=False, distinct=(order == 'distinct'))
        if cls == 'list':
            s = new_list(ctx, load)
            s.update(c)
        elif cls == 'set':
            s = new_set(ctx, load)
            for t in c:
                s.add(t)
        else:
            s = new_dict(ctx, load)
            vals = ctx.dvals = {}
            for t in c:
                v = vals[t.uid] = ctx.val('v_' + t.name)
                s[t] = v
        if cls != 'list':
            s._reset(load)
        A = list(c)
        for i in dels:
            if cls == 'dict':
                s.popitem(i)
            else:
                del s[i]
            del A[i]
    if warm and len(A) > 1:
        m = len(A) // 2
        if cls == 'dict':
            s.peekitem(m)
        else:
            s[m]
        for i in range(len(A)):
            s.keys()[i] if cls == 'dict' else s[i]
    return s, A


def weak_plan(load, lens):
    """Bulk size and position deletes that lead to `lens` (load-L chunks)."""
    half = load >> 1
    sim = []          # simulated sublist lengths
    target = []
    for j, t in enumerate(lens):
        last = j == len(lens) - 1
        if t <= load:
            sim.append([load if not last else t])
        else:
            k = 1
            while load + (k - 1) * half < t:
                k += 1
            sim.append([load] * k)
        target.append(t)
    n = sum(map(sum, sim))
    dels = []
    base = 0
    for grp, t in zip(sim, target):
        grp = list(grp)
        while len(grp) > 1:
            # shrink the second chunk to `half`: it merges into the first
            need = grp[1] - half
            for _ in range(need):
                dels.append(base + grp[0])
            grp[0] += half
            del grp[1]
        while grp[0] > t:
            dels.append(base + grp[0] // 2)
            grp[0] -= 1
        base += grp[0]
    return n, dels


def build_run(ctx, shape, warm=False, period=None, lo=None, hi=None):
    """(list, contents) of the given shape with one symbolic run of ties.

    The run covers positions lo..hi-1 of the final contents; both are solver
    variables (every place and length, across any number of sublists) unless
    given.
    """
    load, lens = shape
    n, dels = weak_plan(load, lens)
    idx = list(range(n))
    for i in dels:
        del idx[i]
    m = len(idx)
    a = clamp(ctx, ctx.int('run_lo', 0, m - 1), m) if lo is None else lo
    b = clamp(ctx, ctx.int('run_hi', a + 1, m), m) if hi is None else hi
    c = ctx.run_chain(n, idx[a], idx[b - 1] + 1, period)
    s = new_list(ctx, load)
    s.update(c)
    for i in dels:
        del s[i]
    A = [c[i] for i in idx]
    if warm:
        for i in range(m):
            s[i]
    return s, A


def pasts(cls, tier='quick', ask=False):
    """Shapes that are histories (see past.py)."""
    from .past import names
    r = [k for k in names(cls) if not k.startswith('ask ')]
    if tier == 'thorough':
        q = [k for k in r if not k.startswith('pry ')]
        r += ['%s+%s' % (a, b) for i, a in enumerate(q)
              for j, b in enumerate(q) if (i * 7 + j) % 5 == 0]
        r += ['%s+%s' % (a, b) for i, a in enumerate(q)
              for j, b in enumerate(r) if b.startswith('pry ') and '+' not in
              b and (i * 7 + j) % 19 == 0]
    if ask:
        r += [k for k in names(cls) if k.startswith('ask ')]
    return [('past', k) for k in r]


def lens_of(s):
    """Actual sublist lengths, when the representation still has them."""
    try:
        lst = getattr(s, '_list', s)
        return tuple(len(x) for x in lst._lists)
    except Exception:
        return None


# -- oracles -----------------------------------------------------------------

def check_sorted(ctx, R, label, seq=None):
    """R is non-decreasing; with seq, ties are in insertion order."""
    conds = []
    for a, b in zip(R, R[1:]):
        u, v = ctx.rank_of(a), ctx.rank_of(b)
        conds.append(ctx.Not(ctx.lt(v, u)))
        if seq is not None and seq[a.uid] > seq[b.uid]:
            conds.append(ctx.lt(u, v))
    ctx.check(ctx.And(*conds), label, lambda: 'order %r' % (R,))


def check_perm(ctx, R, want, label):
    got = sorted(t.uid for t in R)
    exp = sorted(t.uid for t in want)
    if got != exp:
        ctx.fail(label, 'got %r want (any order) %r' % (R, want))
    ctx.check(True, label)


def bl(ctx, R, v):
    """Number of values of R whose rank is below v's rank."""
    u = ctx.rank_of(v)
    return ctx.Count([ctx.lt(ctx.rank_of(t), u) for t in R])


def br(ctx, R, v):
    u = ctx.rank_of(v)
    return ctx.Count([ctx.Not(ctx.lt(u, ctx.rank_of(t))) for t in R])


def observe(ctx, s, R, label, index=True):
    """list, len, reversed, truth and indexing all describe exactly R."""
    ctx.same_list(ctx.ok(label + ' iter', list, s), R, label + ': iteration')
    n = len(R)
    ctx.check(len(s) == n, label + ': len')
    ctx.check(bool(s) == (n > 0), label + ': truth value')
    ctx.same_list(ctx.ok(label + ' reversed', lambda: list(reversed(s))),
                  R[::-1], label + ': reversed')
    if index:
        for i in range(n):
            ctx.check(ctx.ok(label + ' s[i]', s.__getitem__, i) is R[i],
                      label + ': s[%d] of %d' % (i, n))
        for i in range(1, n + 1):
            ctx.check(ctx.ok(label + ' s[-i]', s.__getitem__, -i) is R[-i],
                      label + ': s[-%d] of %d' % (i, n))
        for i in (n, -n - 1):
            ctx.raises(IndexError, label + ': s[%d] of %d' % (i, n),
                       s.__getitem__, i)


def lookups(ctx, s, which, label, R=None):
    """The stored values `which` are found where they are."""
    R = which if R is None else R
    for i, t in enumerate(which):
        ctx.check(ctx.ok(label + ' contains', s.__contains__, t),
                  label + ': stored value not found')
        p = ctx.ok(label + ' bisect_left', s.bisect_left, t)
        ctx.check(ctx.n(p) == bl(ctx, R, t), label + ': bisect_left')
        p = ctx.ok(label + ' bisect_right', s.bisect_right, t)
        ctx.check(ctx.n(p) == br(ctx, R, t), label + ': bisect_right')


def drain(ctx, s, R, label):
    """Pop everything from varying places, checking contents as we go."""
    R = list(R)
    turn = 0
    while R:
        i = (len(R) // 2, 0, -1, len(R) // 3)[turn % 4]
        turn += 1
        v = ctx.ok(label + ' pop', s.pop, i)
        w = R.pop(i)
        ctx.check(v is w, label + ': pop(%d)' % i)
        if turn % 3 == 0 or len(R) < 3:
            ctx.same_list(list(s), R, label + ': contents while draining')
    ctx.check(len(s) == 0, label + ': empty after draining')


def forms(tokens, form, ctx=None):
    """The same values as different kinds of iterable argument."""
    if form == 'list':
        return list(tokens)
    if form == 'tuple':
        return tuple(tokens)
    if form == 'gen':
        return (t for t in tokens)
    if form == 'iter':
        return iter(list(tokens))
    if form == 'set':
        return set(tokens)
    if form == 'slist':
        return new_list(ctx, 4, list(tokens))
    raise ValueError(form)


# -- positions ---------------------------------------------------------------

def clamp(ctx, v, n):
    """Python integer equivalent to index or bound `v` for a list of n.

    Everything below -n (or above n) behaves alike for lists, so the solver
    forks only over the classes -n-1 .. n+1.
    """
    if v is None:
        return None
    return ctx.classify(v, -n - 1, n + 1)


def sym_slice(ctx, a, b, step, pre=''):
    """(slice, bounds) with symbolic, None or constant parts."""
    def part(x, nm):
        return ctx.int(pre + nm) if x == 'sym' else x
    start, stop = part(a, 'start'), part(b, 'stop')
    if step == 'sym':
        st = ctx.int(pre + 'step')
        ctx.assume(ctx.Not(ctx.eqi(st, 0)))
    else:
        st = step
    return start, stop, st


def slice_positions(ctx, parts, n):
    """Positions list(range(n))[slice] selects, forking over clamp classes."""
    start, stop, step = (clamp(ctx, p, n) for p in parts)
    return list(range(n))[slice(start, stop, step)]


def some(R):
    """A few representative values: ends and middle."""
    if len(R) <= 3:
        return list(R)
    return [R[0], R[len(R) // 2], R[-1]]


def after(ctx, s, R, label, cls='list', finds=True):
    """The container now describes exactly R in every way."""
    if cls == 'dict':
        return dict_is(ctx, s, R, ctx.dvals, label)
    observe(ctx, s, R, label)
    if finds:
        for t in some(R):
            ctx.check(ctx.ok(label + ' contains', s.__contains__, t),
                      label + ': stored value not found')
            p = ctx.ok(label + ' bisect_left', s.bisect_left, t)
            ctx.check(ctx.n(p) == bl(ctx, R, t), label + ': bisect_left')
            p = ctx.ok(label + ' bisect_right', s.bisect_right, t)
            ctx.check(ctx.n(p) == br(ctx, R, t), label + ': bisect_right')
    if cls == 'set':
        for t in R:
            ctx.check(ctx.ok(label + ' in', s.__contains__, t),
                      label + ': iterated value is not a member')


def gone(ctx, s, t, label):
    """t (different from all remaining values) is not found any more."""
    ctx.check(not ctx.ok(label + ' contains', s.__contains__, t),
              label + ': removed value still found')


def dict_is(ctx, d, R, vals, label, index=True):
    """d has exactly the keys R (in order) with the values vals[uid]."""
    ctx.same_list(ctx.ok(label + ' iter', list, d), R, label + ': key order')
    ctx.check(len(d) == len(R), label + ': len')
    ctx.same_list(ctx.ok(label + ' reversed', lambda: list(reversed(d))),
                  R[::-1], label + ': reversed')
    want = [vals[t.uid] for t in R]
    ctx.same_list(list(d.keys()), R, label + ': keys()')
    ctx.same_list(list(d.values()), want, label + ': values()')
    items = list(d.items())
    ctx.same_list([k for k, _ in items], R, label + ': items() keys')
    ctx.same_list([v for _, v in items], want, label + ': items() values')
    for t, v in zip(R, want):
        ctx.check(ctx.ok(label + ' in', d.__contains__, t),
                  label + ': key not found')
        ctx.check(ctx.ok(label + ' d[k]', d.__getitem__, t) is v,
                  label + ': d[key]')
    if index:
        n = len(R)
        for i in list(range(n)) + [-1] * (n > 0):
            k, v = ctx.ok(label + ' peekitem', d.peekitem, i)
            ctx.check(k is R[i] and v is want[i], label + ': peekitem')


def anysize(group, tier, keyed_only=False):
    """Layer-2 tasks: lists of any size (anysize.py); wide lists (wide.py)."""
    from . import anysize as A, wide as W
    T = A.group(group, tier, keyed_only)
    if group in W.OPS and not keyed_only:
        T += W.group(group, tier)
    return T


def kinds(cls, tier):
    """Tasks with None and tuples as values (see kinds.py)."""
    from . import kinds as K
    return K.group(cls, tier)


def big(group, tier):
    """Sets and dicts of thousands of values (see big.py)."""
    from . import big as B
    return B.group(group, tier)


def calls(prop, tier):
    """The same calls with arguments by name (see calls.py)."""
    from . import calls as K
    return K.group(prop, tier)


def h_variant(ctx, variant, mod, fn, **params):
    """Another harness, on subclasses or with the default key function."""
    import importlib
    if variant == 'sub':
        ctx.sub, ctx.subs = True, {}
    else:
        ctx.identity = True
    getattr(importlib.import_module(mod), fn)(ctx, **params)


def variants(tasks, mod, tier, skip=(), step=8, kinds=('sub', 'identity')):
    """Some of a property's own tasks, in both variants."""
    from sx.task import Task
    out = []
    for kind in kinds:
        S = [t for t in tasks if t.mod == mod and t.fn not in skip and
             not t.layer2 and t.cost < 100 and
             t.params.get('shape', ('past',))[0] != 'past' and
             not (kind == 'identity' and (
                 t.keyed or t.params.get('cls', 'list') != 'list' or
                 t.params.get('how') == 'repr' or t.fn == 'h_repr'))]
        for t in S[::2 if tier == 'thorough' else step]:
            out.append(Task('harness.common', 'h_variant', dict(
                t.params, variant=kind, mod=t.mod, fn=t.fn), t.keyed, t.cost))
    return out


def args(prop, tier):
    """Every kind of iterable argument (see args.py)."""
    from . import args as A
    return A.group(prop, tier)
