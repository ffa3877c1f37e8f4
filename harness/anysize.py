"""Layer 2: sorted lists of any size and any load factor.

One operation from an arbitrary consistent state with k sublists: the sublist
lengths, the load factor, the contents (through cut points), the argument and
every index are solver variables without upper bound.  The state after it must
again be consistent and hold the right contents, so these are induction steps
over histories (within k sublists).  See sx/rope.py.
"""
from .common import *
from .c20 import internals
from sx.task import Task

M = 'harness.anysize'
TIES = 3           # bound on the number of values sharing the searched key


def _half(load):
    return load // 2


class ConBig:
    """The same state built on the plain package through public calls."""

    def __init__(self, ctx, k, warm, probes=(), ties=True):
        from sx.ctx import Skip
        self.ctx = ctx
        load = ctx.int('load', 4)
        lens = [ctx.int('n%d' % i, 1) for i in range(k)]
        if any(n > 2 * load for n in lens) or any(
                n < _half(load) for n in lens[:-1]):
            raise Skip('lengths')
        if sum(lens) > 200000:
            raise Skip('too large to build')
        n, bulk, removed, added, final = split_plan(load, lens)
        keyed = ctx.keyed
        ctx.key.renew = False      # ranks are assigned after construction
        from sx.ctx import CEq, CKey, COrd
        toks = []
        for i in range(n):
            if keyed:
                kk = ctx._tok(CKey, 'ka%d' % i, i + 1)
                toks.append(ctx._tok(CEq, 'a%d' % i, i + 1, kk))
            else:
                toks.append(ctx._tok(COrd, 'a%d' % i, i + 1))
        s = new_list(ctx, load)
        s.update([toks[i] for i in bulk])
        for i in removed:
            s.remove(toks[i])
        for i in added:
            s.add(toks[i])
        A = list(s)
        N = self.N = len(A)
        if N != sum(lens):
            raise Skip('construction')
        if warm:
            for i in range(N):
                s[i]
        # ranks by cut points: equal to a probe in [L, R), between otherwise
        P = []
        for p in probes:
            L, R = ctx.int('L_' + p, 0), ctx.int('R_' + p, 0)
            if not L <= R <= N or not ties and L != R:
                raise Skip('cuts')
            P.append((ctx._get('rank_' + p), L, R, p))
        P.sort()
        for a, b in zip(P, P[1:]):
            if (a[1:3] != b[1:3]) if a[0] == b[0] else a[2] > b[1]:
                raise Skip('cuts')
        ranks = sorted({p[0] for p in P})
        big = N + 5
        self.val, self._cuts = {}, {}
        for r, L, R, p in P:
            x = big * (ranks.index(r) + 1)
            if keyed:
                kk = ctx._tok(CKey, 'k_' + p, x)
                t = ctx._tok(CEq, p, -5 - len(self.val), kk)
            else:
                t = ctx._tok(COrd, p, x)
            self._cuts[p] = L, R
            self.val[p] = t
        for g, t in enumerate(A):
            u = t.k if keyed else t
            u.x = g + 1
            for i, r in enumerate(ranks):
                _, L, R, p = [q for q in P if q[0] == r][0]
                if L <= g < R:
                    u.x = big * (i + 1)
                    if keyed and g - L < TIES and ctx._get(
                            'E_%s_%d' % (p, g - L)):
                        t.x = self.val[p].x
                elif R <= g:
                    u.x = big * (i + 1) + g + 1
            if keyed and t.x >= 0:
                t.x = g + 1
        if keyed and any(R - L > TIES for _, L, R, _ in P):
            raise Skip('ties')
        self.s, self.A, self.load = s, A, load

    def cuts(self, v):
        return self._cuts[v.name]

    def equals(self, v):
        """(whether a stored value equals v, position of the first)."""
        p = [i for i, t in enumerate(self.A) if t == v]
        return bool(p), (p[0] if p else 0), len(p)

    def base(self):
        return list(self.A)

    def is_at(self, v, exp, i):
        return v is exp[i]

    def same(self, got, exp, label, eq=False):
        got = list(got)
        if eq:
            ok = len(got) == len(exp) and all(
                a == b for a, b in zip(got, exp))
            self.ctx.check(ok, label, lambda: '%r want %r' % (got, exp))
        else:
            self.ctx.same_list(got, exp, label)

    def size(self, exp):
        return len(exp)

    def inv(self, label):
        internals(self.ctx, self.s, label)


class SymBig:
    def __init__(self, ctx, k, warm, probes=(), ties=True):
        import z3
        from sx import rope as R
        from sx.engine import Inconclusive
        self.z3, self.R, self.ctx = z3, R, ctx
        eng = ctx.eng
        load = ctx.int('load', 4)
        lens = [ctx.int('n%d' % i, 1) for i in range(k)]
        ctx.sizes = [load.e]
        c = [n.e <= 2 * load.e for n in lens] + [
            n.e >= load.e / 2 for n in lens[:-1]]
        eng.assume(z3.And(*c)) if c else None
        start = z3.IntVal(0)
        ropes, keys, maxes = [], [], []
        for n in lens:
            ropes.append(R.Rope([(start, n)]))
            keys.append(R.Rope([(start, n)], 'key'))
            start = z3.simplify(start + n.e)
            maxes.append(R.Elt(z3.simplify(start - 1),
                               'key' if ctx.keyed else 'val'))
        self.N = R._s(start) if k else 0
        s = new_list(ctx, None)
        want = {'_len', '_load', '_lists', '_maxes', '_index'} | (
            {'_keys'} if ctx.keyed else set())
        have = vars(s)
        if not want <= set(have) or any(
                type(have[a]) is not list
                for a in want - {'_len', '_load'}):
            raise Inconclusive('another representation')
        s._load = load
        s._lists.extend(ropes)
        s._maxes.extend(maxes)
        if ctx.keyed:
            s._keys.extend(keys)
        s._len = self.N
        if warm:
            if not hasattr(s, '_build_index'):
                raise Inconclusive('another representation')
            s._build_index()
        self.s, self.load = s, load
        self.val = {}
        N = R.term(self.N)
        ps = []
        for p in probes:
            L, RR, rk = z3.Int('L_' + p), z3.Int('R_' + p), z3.Int('rank_' + p)
            ctx.names.update({'L_' + p: L, 'R_' + p: RR, 'rank_' + p: rk})
            eng.assume(z3.And(L >= 0, L <= RR, RR <= N))
            if not ties:
                eng.assume(L == RR)
            E = None
            if ctx.keyed:
                eng.assume(RR - L <= TIES)
                es = []
                for t in range(TIES):
                    e = z3.Int('E_%s_%d' % (p, t))
                    ctx.names['E_%s_%d' % (p, t)] = e
                    es.append(e)

                def E(g, es=es, L=L):
                    return z3.Or(*[z3.And(g == L + t, e != 0)
                                   for t, e in enumerate(es)])
            v = R.Probe(p, L, RR, rk, E)
            v.k = R.ProbeKey('k_' + p, L, RR, rk) if ctx.keyed else None
            v.code = -1 - len(ps)
            if ctx.keyed:
                v.k.code = v.code
            for w in ps:
                eng.assume(z3.And(
                    z3.Implies(w.rank < rk, w.R <= L),
                    z3.Implies(rk < w.rank, RR <= w.L),
                    z3.Implies(rk == w.rank,
                               z3.And(w.L == L, w.R == RR))))
            ps.append(v)
            self.val[p] = v

    def cuts(self, v):
        return self.R._s(v.L), self.R._s(v.R)

    def equals(self, v):
        z3 = self.z3
        if not self.ctx.keyed:
            return v.L < v.R, self.R._s(v.L), self.R._s(v.R - v.L)
        c = [z3.And(v.L + t < v.R, v.E(v.L + t)) for t in range(TIES)]
        first = z3.IntVal(0)
        for t in reversed(range(TIES)):
            first = z3.If(c[t], v.L + t, first)
        return z3.Or(*c), self.R._s(first), self.R._s(z3.Sum(
            *[z3.If(x, 1, 0) for x in c]))

    def base(self):
        return self.R.Rope([(self.z3.IntVal(0), self.N)])

    def _code(self, v):
        if isinstance(v, self.R.Elt):
            return v.g
        return self.z3.IntVal(v.code)

    def _at(self, segs, j):
        z3 = self.z3
        e = z3.IntVal(-1000)
        off = z3.IntVal(0)
        parts = []
        for a, b in segs:
            m = self.R.term(b) if a is not None else z3.IntVal(1)
            parts.append((off, m, a, b))
            off = off + m
        for off, m, a, b in reversed(parts):
            val = self._code(b) if a is None else a + (j - off)
            e = z3.If(j < off + m, val, e)
        return e

    def is_at(self, v, exp, i):
        return self._code(v) == self._at(self.R.as_rope(exp).segs,
                                         self.R.term(i))

    def same(self, got, exp, label, eq=False):
        from sx.engine import Inconclusive
        R, z3 = self.R, self.z3
        if hasattr(got, '_lists'):
            got = R.as_rope(got)
        if not isinstance(got, R.Rope):
            got = R.as_rope(list(got))
        n, m = got.size(), exp.size()
        self.ctx.check(R.term(n) == R.term(m), label + ': number of values')
        j = z3.Int('j!%d' % self.ctx.nuid)
        self.ctx.nuid += 1
        self.ctx.check(z3.Implies(
            z3.And(j >= 0, j < R.term(m)),
            self._at(got.segs, j) == self._at(exp.segs, j)), label)

    def size(self, exp):
        return exp.size()

    def inv(self, label):
        R, z3, s, ctx = self.R, self.z3, self.s, self.ctx
        T = R.term
        lens = [T(R.sx_len(x)) for x in s._lists]
        load = T(s._load)
        ctx.check(z3.And(True, *[n >= 1 for n in lens]),
                  label + ': empty sublist')
        ctx.check(z3.And(True, *[n <= 2 * load for n in lens]),
                  label + ': sublist too long')
        ctx.check(z3.And(True, *[n >= load / 2 for n in lens[:-1]]),
                  label + ': sublist too short')
        ctx.check(T(s._len) == z3.Sum(z3.IntVal(0), *lens), label + ': len')
        ctx.check(len(s._maxes) == len(s._lists), label + ': maxes')
        for sub, mx in zip(s._lists, s._maxes):
            sub = R.as_rope(sub)
            ctx.check(self._code(mx) == self._at(
                sub.segs, T(sub.size()) - 1), label + ': maximum')
        if ctx.keyed:
            ctx.check(len(s._keys) == len(s._lists), label + ': keys')
            for sub, ks in zip(s._lists, s._keys):
                self.same(R.as_rope(ks), R.as_rope(sub), label + ': keys')
        if s._index:
            ix = [T(v) for v in s._index]
            off = s._offset
            lv = ix[off:]
            ctx.check(len(lv) >= len(lens), label + ': positional index')
            ctx.check(z3.And(True, *[a == b for a, b in zip(lv, lens)]
                             + [a == 0 for a in lv[len(lens):]]),
                      label + ': leaves of the positional index')
            ctx.check(z3.And(True, *[ix[p] == z3.Sum(
                z3.IntVal(0), *ix[2 * p + 1:2 * p + 3])
                for p in range(off)]), label + ': positional index')
            ctx.check(ix[0] == z3.Sum(z3.IntVal(0), *lens),
                      label + ': root of the positional index')


def make(ctx, k, warm, probes=(), ties=True):
    return (SymBig if ctx.symbolic else ConBig)(ctx, k, warm, probes, ties)


def length(s):
    return type(s).__len__(s)


def follow(ctx, B, exp, label, v=None, read=True):
    """After a change: contents, consistency, and a read anywhere."""
    s = B.s
    B.same(s, exp, label + ': contents')
    ctx.check(ctx.eqi(length(s), B.size(exp)), label + ': len')
    B.inv(label)
    if read:
        j = ctx.int('j')
        n = B.size(exp)
        ctx.assume(ctx.And(ctx.n(j) >= 0, ctx.n(j) < ctx.n(n)))
        x = ctx.ok(label + ' read', s.__getitem__, j)
        ctx.check(B.is_at(x, exp, j), label + ': s[j] afterwards')
    if v is not None:
        a, b = v
        p = ctx.ok(label + ' bisect', s.bisect_left, a)
        ctx.check(ctx.eqi(p, b), label + ': bisect_left afterwards')


def h_add(ctx, k, warm, read=True):
    B = make(ctx, k, warm, ('v',))
    v = B.val['v']
    L, R = B.cuts(v)
    exp = B.base()
    ctx.ok('add', B.s.add, v)
    exp.insert(R, v)
    follow(ctx, B, exp, 'add', (v, L), read)


def h_remove(ctx, k, warm, op, read=True):
    B = make(ctx, k, warm, ('v',))
    v = B.val['v']
    has, first, _ = B.equals(v)
    exp = B.base()
    st, r = ctx.call(getattr(B.s, op), v)
    if st == 'exc':
        ctx.check(op == 'remove' and isinstance(r, ValueError),
                  op + ': exception')
        ctx.check(ctx.Not(has), op + ': stored value not found')
    elif op == 'remove' or ctx.truth(has):
        ctx.check(has, op + ': missing value removed')
        del exp[first]
    B.same(B.s, exp, op + ': contents', eq=True)
    B.inv(op)
    if read:
        j = ctx.int('j')
        n = B.size(exp)
        ctx.assume(ctx.And(ctx.n(j) >= 0, ctx.n(j) < ctx.n(n)))
        x = ctx.ok(op, B.s.__getitem__, j)
        if not ctx.symbolic:
            ctx.check(x == exp[j], op + ': s[j] afterwards')
        else:
            ctx.check(B.is_at(x, exp, j), op + ': s[j] afterwards')


def _valid(ctx, i, n):
    i, n = ctx.n(i), ctx.n(n)
    return ctx.And(i >= -n, i < n)


def _from_end(ctx, i, n):
    """The position i denotes (i valid)."""
    if not ctx.symbolic:
        return i + n if i < 0 else i
    from sx.rope import ite
    return ite(i < 0, i + n, i)


def h_read(ctx, k, warm):
    B = make(ctx, k, warm)
    i = ctx.int('i')
    st, r = ctx.call(B.s.__getitem__, i)
    ok = _valid(ctx, i, B.N)
    if st == 'exc':
        ctx.check(isinstance(r, IndexError), 's[i]: exception')
        ctx.check(ctx.Not(ok), 's[i]: valid index refused')
    else:
        ctx.check(ok, 's[i]: invalid index accepted')
        ctx.check(B.is_at(r, B.base(), _from_end(ctx, i, B.N)), 's[i]')
    B.same(B.s, B.base(), 'reading changed the contents')
    B.inv('read')


def h_position(ctx, k, warm, op, read=True):
    """del s[i] and pop(i) at any index, valid or not."""
    B = make(ctx, k, warm)
    i = ctx.int('i')
    exp = B.base()
    st, r = ctx.call(B.s.pop if op == 'pop' else B.s.__delitem__, i)
    ok = _valid(ctx, i, B.N)
    if st == 'exc':
        ctx.check(isinstance(r, IndexError), op + ': exception')
        ctx.check(ctx.Not(ok), op + ': valid index refused')
        follow(ctx, B, exp, op + ' refused', read=False)
    else:
        ctx.check(ok, op + ': invalid index accepted')
        ctx.assume(ok)
        p = _from_end(ctx, i, B.N)
        if op == 'pop':
            ctx.check(B.is_at(r, exp, p), 'pop: returned value')
        del exp[p]
        follow(ctx, B, exp, op, read=read)


def h_slice(ctx, k, warm, op, read=True):
    """s[a:b] and del s[a:b] (open ends through large or small bounds)."""
    B = make(ctx, k, warm)
    exp = B.base()
    a, b = ctx.int('a'), ctx.int('b')
    N = B.N
    if op == 'get':
        # the full slice copies into a machine list: layer 1
        ctx.assume(ctx.Or(ctx.n(a) > 0, ctx.n(b) < ctx.n(N)))
        ctx.assume(ctx.Or(ctx.n(a) > -ctx.n(N), ctx.n(b) < ctx.n(N)))
        r = ctx.ok('s[a:b]', B.s.__getitem__, slice(a, b))
        if ctx.symbolic:
            exp = exp[a:b]
        else:
            exp = exp[a:b]
        B.same(r, exp, 's[a:b]')
        B.same(B.s, B.base(), 'reading changed the contents')
        B.inv('s[a:b]')
    else:
        if op == 'del few':
            # short: deleted one by one
            ctx.assume(ctx.And(ctx.n(a) >= 0, ctx.n(b) <= ctx.n(a) + 2,
                               ctx.n(N) > 8 * (ctx.n(b) - ctx.n(a)),
                               ctx.n(a) < ctx.n(b), ctx.n(b) <= ctx.n(N)))
        else:
            # a rebuild from what is left
            ctx.assume(ctx.And(ctx.n(a) >= 0, ctx.n(a) < ctx.n(b),
                               ctx.n(b) <= ctx.n(N),
                               ctx.n(N) <= 8 * (ctx.n(b) - ctx.n(a))))
        ctx.ok('del s[a:b]', B.s.__delitem__, slice(a, b))
        del exp[a:b]
        follow(ctx, B, exp, 'del s[a:b]', read=read)


def h_step(ctx, k, warm, back=False):
    """Stepped slices that select at most three values."""
    B = make(ctx, k, warm)
    a, b, st = ctx.int('a'), ctx.int('b'), ctx.int('step')
    N = ctx.n(B.N)
    A_, B_, S = ctx.n(a), ctx.n(b), ctx.n(st)
    if back:
        ctx.assume(ctx.And(A_ >= 0, B_ >= 0, A_ < N, S <= -2,
                           A_ - B_ <= -3 * S))
    else:
        ctx.assume(ctx.And(A_ >= 0, B_ >= 0, B_ <= N, S >= 2,
                           B_ - A_ <= 3 * S))
    r = ctx.ok('s[a:b:c]', B.s.__getitem__, slice(a, b, st))
    r = list(r)
    m = len(r)
    ctx.check(m <= 3, 's[a:b:c]: number of values')
    span = (A_ - B_) if back else (B_ - A_)
    q = -S if back else S
    ctx.check(ctx.And(span > (m - 1) * q, span <= m * q) if m else
              span <= 0, 's[a:b:c]: number of values')
    base = B.base()
    for t, x in enumerate(r):
        p = a + st * t
        ctx.check(B.is_at(x, base, p), 's[a:b:c]: value')


def h_find(ctx, k, warm):
    """Membership and count."""
    B = make(ctx, k, warm, ('v',))
    v = B.val['v']
    has, first, n = B.equals(v)
    r = ctx.ok('in', B.s.__contains__, v)
    r = ctx.truth(r) if not isinstance(r, bool) else r
    ctx.check(has if r else ctx.Not(has), 'in')
    c = ctx.ok('count', B.s.count, v)
    ctx.check(ctx.eqi(c, n), 'count')
    B.same(B.s, B.base(), 'searching changed the contents')


def h_index(ctx, k, warm, bounds):
    B = make(ctx, k, warm, ('v',))
    v = B.val['v']
    has, first, n = B.equals(v)
    N = B.N
    args = []
    if bounds:
        args.append(ctx.int('a'))
    if bounds > 1:
        args.append(ctx.int('b'))
    st, r = ctx.call(B.s.index, v, *args)
    if ctx.symbolic:
        from sx.rope import ite, _s, term
        z3 = B.z3
        a = args[0] if bounds else 0
        b = args[1] if bounds > 1 else N
        lo = _s(z3.If(term(a) < 0, z3.If(term(a) + term(N) < 0, 0, term(
            a) + term(N)), term(a)))
        hi = _s(z3.If(term(b) < 0, term(b) + term(N), z3.If(
            term(b) > term(N), term(N), term(b))))
        lo, hi = term(lo), term(hi)
        if ctx.keyed:
            cand = [(v.L + t, z3.And(v.L + t < v.R, v.E(v.L + t),
                                     lo <= v.L + t, v.L + t < hi))
                    for t in range(TIES)]
            some_ = z3.Or(*[c for _, c in cand])
            want = z3.IntVal(-1)
            for g, c in reversed(cand):
                want = z3.If(c, g, want)
        else:
            m = z3.If(lo > v.L, lo, v.L)
            some_ = z3.And(m < v.R, m < hi)
            want = m
        if st == 'exc':
            ctx.check(isinstance(r, ValueError), 'index: exception')
            ctx.check(z3.Not(some_), 'index: stored value not found')
        else:
            ctx.check(some_, 'index: found outside the bounds')
            ctx.check(term(r) == want, 'index')
    else:
        w = ctx.call(B.A.index, v, *args)
        if st == 'exc':
            ctx.check(isinstance(r, ValueError), 'index: exception')
            ctx.check(w[0] == 'exc', 'index: stored value not found')
        else:
            ctx.check(w[0] == 'ok', 'index: found outside the bounds')
            ctx.check(r == w[1], 'index')


def h_bisect(ctx, k, warm):
    B = make(ctx, k, warm, ('v',))
    v = B.val['v']
    L, R = B.cuts(v)
    s = B.s
    names = [('bisect_left', L), ('bisect_right', R), ('bisect', R)]
    for nm, want in names:
        ctx.check(ctx.eqi(ctx.ok(nm, getattr(s, nm), v), want), nm)
    if ctx.keyed:
        for nm, want in (('bisect_key_left', L), ('bisect_key_right', R),
                         ('bisect_key', R)):
            ctx.check(ctx.eqi(ctx.ok(nm, getattr(s, nm), v.k), want), nm)
    B.same(s, B.base(), 'bisecting changed the contents')
    B.inv('bisect')


WIDTH = 3


def h_islice(ctx, k, warm, reverse):
    """Ranges of positions up to three wide, anywhere."""
    B = make(ctx, k, warm)
    a, b = ctx.int('a'), ctx.int('b')
    N = ctx.n(B.N)
    A_, B_ = ctx.n(a), ctx.n(b)
    ctx.assume(ctx.And(A_ >= 0, B_ <= N, B_ - A_ <= WIDTH, B_ >= 0))
    r = list(ctx.ok('islice', B.s.islice, a, b, reverse))
    m = len(r)
    if reverse:
        r.reverse()
    ctx.check(ctx.Or(B_ - A_ == m, ctx.And(m == 0, B_ <= A_)),
              'islice: number of values')
    base = B.base()
    for t, x in enumerate(r):
        ctx.check(B.is_at(x, base, a + t), 'islice: value')


def h_irange(ctx, k, warm, inc, reverse, via='irange'):
    """Ranges of values that hold at most three stored values."""
    B = make(ctx, k, warm, ('v', 'w'))
    v, w = B.val['v'], B.val['w']
    (vl, vr), (wl, wr) = B.cuts(v), B.cuts(w)
    lo = vl if inc[0] else vr
    hi = wr if inc[1] else wl
    ctx.assume(ctx.n(hi) - ctx.n(lo) <= WIDTH)
    f = getattr(B.s, via)
    args = (v.k, w.k) if via == 'irange_key' else (v, w)
    r = list(ctx.ok(via, f, *args, inc, reverse))
    m = len(r)
    if reverse:
        r.reverse()
    ctx.check(ctx.Or(ctx.n(hi) - ctx.n(lo) == m,
                     ctx.And(m == 0, ctx.n(hi) <= ctx.n(lo))),
              via + ': number of values')
    base = B.base()
    for t, x in enumerate(r):
        ctx.check(B.is_at(x, base, lo + t), via + ': value')


def h_update(ctx, k, warm, how, m, read=False):
    """update / += with up to two values: rebuilt or added one by one."""
    names = ('v', 'w')[:m]
    B = make(ctx, k, warm, names)
    vs = [B.val[p] for p in names]
    exp = B.base()
    # expected: sorted stably, after equal stored values
    pos = []
    for i, v in enumerate(vs):
        p = B.cuts(v)[1]
        pos.append(p)
    if m == 2:
        v, w = vs
        a, b = (v.k, w.k) if ctx.keyed else (v, w)
        first = w if ctx.truth(b < a) else v
        second = v if first is w else w
        exp.insert(B.cuts(first)[1], first)
        exp.insert(B.cuts(second)[1] + 1, second)
    elif m == 1:
        exp.insert(pos[0], vs[0])
    if how == 'iadd':
        t = B.s
        t += list(vs)
        ctx.check(t is B.s, '+=: identity')
    else:
        ctx.ok('update', B.s.update, list(vs))
    follow(ctx, B, exp, how, read=read)


def h_reset(ctx, k, warm, read=False):
    B = make(ctx, k, warm)
    new = ctx.int('new', 4)
    ctx.assume(ctx.n(B.N) <= 5 * ctx.n(new))
    ctx.ok('_reset', B.s._reset, new)
    follow(ctx, B, B.base(), '_reset', read=read)


def h_copy(ctx, k, warm, how):
    """copy() and + of a list of any size with few values (load 1000)."""
    B = make(ctx, k, warm, ('v',) if how == 'add' else ())
    ctx.assume(ctx.n(B.N) <= 3500)
    exp = B.base()
    if how == 'copy':
        c = ctx.ok('copy', B.s.copy)
    else:
        v = B.val['v']
        c = ctx.ok('+', lambda: B.s + [v])
        exp.insert(B.cuts(v)[1], v)
    B.same(c, exp, how)
    ctx.ok('clear', c.clear)
    B.same(B.s, B.base(), how + ': operand changed')
    B.inv(how + ': operand')


KS = {'quick': (1, 2, 3), 'thorough': (1, 2, 3, 4, 5, 6)}
WIDE = {'quick': (5, 8, 9), 'thorough': (7, 8, 9, 15, 16, 17, 32, 33)}
VERY = {'quick': (17,), 'thorough': (64, 65, 129)}


def group(name, tier, keyed_only=False):
    """Layer-2 tasks of one property."""
    T = []
    ks, wide, very = KS[tier], WIDE[tier], VERY[tier]

    for keyed in (False, True):
        if keyed_only and not keyed:
            continue

        def add(fn, k, warm, **p):
            T.append(Task(M, fn, dict(k=k, warm=warm, **p), keyed,
                          10 * k, layer2=True))
        for k in ks:
            for warm in (False, True):
                if k == 1 and warm:
                    continue
                if name == 'add':
                    add('h_add', k, warm)
                    if k <= 2 + (tier == 'thorough'):
                        for how, m in (('update', 1), ('update', 2),
                                       ('iadd', 1), ('iadd', 2)):
                            if tier == 'quick' and (how, m) == (
                                    'iadd', 2) or k == 2 and m == 2 and (
                                    tier == 'quick' and not warm):
                                continue
                            add('h_update', k, warm, how=how, m=m)
                elif name == 'remove':
                    for op in ('remove', 'discard'):
                        add('h_remove', k, warm, op=op,
                            read=k < 3 or not keyed or tier != 'quick')
                elif name == 'read':
                    add('h_read', k, warm)
                    add('h_slice', k, warm, op='get')
                    add('h_step', k, warm)
                    add('h_step', k, warm, back=True)
                elif name == 'position':
                    add('h_position', k, warm, op='del')
                    add('h_position', k, warm, op='pop')
                    if k <= 2 + (tier == 'thorough'):
                        add('h_slice', k, warm, op='del', read=False)
                        add('h_slice', k, warm, op='del few', read=False)
                elif name == 'find':
                    add('h_find', k, warm)
                    for b in (0, 1, 2):
                        if b == 2 and keyed and tier == 'quick' and (
                                k == 3 or k == 2 and warm):
                            continue
                        add('h_index', k, warm, bounds=b)
                elif name == 'bisect':
                    add('h_bisect', k, warm)
                elif name == 'range':
                    for rev in (False, True):
                        add('h_islice', k, warm, reverse=rev)
                        for inc in ((True, True), (True, False),
                                    (False, True), (False, False)):
                            if tier == 'quick' and k == 3 and warm:
                                continue
                            add('h_irange', k, warm, inc=inc, reverse=rev)
                            if keyed and inc[0] != inc[1]:
                                add('h_irange', k, warm, inc=inc,
                                    reverse=rev, via='irange_key')
                elif name == 'balance':
                    add('h_add', k, warm)
                    add('h_remove', k, warm, op='remove', read=False)
                    add('h_position', k, warm, op='del')
                    if k <= 2 + (tier == 'thorough'):
                        add('h_reset', k, warm)
                        if k == 1 or warm:
                            add('h_update', k, warm, how='update', m=2)
                elif name == 'copy':
                    add('h_copy', k, warm, how='copy')
                    if k < 3 or tier != 'quick':
                        add('h_copy', k, warm, how='add')
        for k in wide + very:
            if name in ('read', 'balance') and k < 100:
                add('h_read', k, True)
            if name == 'bisect':
                add('h_bisect', k, True)
        for k in wide:
            if name == 'add' and k < 20:
                add('h_add', k, True, read=False)
            if name == 'balance' and k < 20:
                add('h_add', k, True, read=False)
                add('h_position', k, True, op='del', read=False)
            if name == 'remove' and k < 20:
                add('h_remove', k, True, op='remove', read=False)
    return T
