"""Harness contexts: the same harness runs symbolically and concretely.

ConCtx replays one assignment on the unmodified package with ordinary Python
objects (no z3 involved); SymCtx (symctx.py) runs all assignments at once.
"""


class Violated(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label = label
        self.detail = detail


class Skip(Exception):
    """The assignment does not satisfy the harness's assumptions."""


REG = {}


def _lookup(uid):
    return REG[uid]


class CTok:
    """Concrete stored value: equality, hash and total order by rank."""
    __slots__ = ('x', 'k', 'tag', 'uid', 'name', 'h')

    def __init__(self, x, k, tag, uid, name):
        self.x, self.k, self.tag, self.uid, self.name = x, k, tag, uid, name
        self.h = 11

    def __eq__(self, o):
        if o.__class__ is not self.__class__:
            return NotImplemented
        return self.tag == o.tag and self.x == o.x

    def __ne__(self, o):
        if o.__class__ is not self.__class__:
            return NotImplemented
        return not (self.tag == o.tag and self.x == o.x)

    def __hash__(self):
        return self.h

    def __bool__(self):
        return self.x != 0

    def __repr__(self):
        return self.name

    def __reduce__(self):
        return _lookup, (self.uid,)

    def __deepcopy__(self, memo):
        return self


HOOK = None


def _ordered(base, name):
    def mk(op):
        def f(self, o):
            if o.__class__ is not self.__class__:
                return NotImplemented
            if HOOK is not None:
                HOOK(self, o)
            return op(self.x, o.x)
        return f
    import operator
    d = {'__slots__': ()}
    for n in ('lt', 'le', 'gt', 'ge'):
        d['__%s__' % n] = mk(getattr(operator, n))
    return type(name, (base,), d)


COrd = _ordered(CTok, 'COrd')        # orderable value
CKey = _ordered(CTok, 'CKey')        # comparison key


def _fresh(self):
    """The same key as another object."""
    t = CKey(self.x, self.k, self.tag, self.uid, self.name)
    t.h = self.h
    return t


CKey.fresh = _fresh
CEq = type('CEq', (CTok,), {'__slots__': ()})   # value without ordering


class KeyFn:
    """The key function object given to keyed containers."""

    def __init__(self):
        self.calls = 0
        self.renew = True     # a new key object each time
        self.bad = ()         # values that have no key

    def __call__(self, tok):
        self.calls += 1
        if any(t is tok for t in self.bad):
            raise CmpError('no key for %r' % (tok,))
        k = tok.k
        return k.fresh() if self.renew else k   # as keys usually are

    def __repr__(self):
        return 'KEY'

    def __reduce__(self):
        return _lookup, ('KEY',)

    def __deepcopy__(self, memo):
        return self


class Rev:
    """A key ordered the other way round."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return self.k == o.k

    def __ne__(self, o):
        return self.k != o.k

    def __lt__(self, o):
        return o.k < self.k

    def __gt__(self, o):
        return o.k > self.k

    def __le__(self, o):
        return o.k <= self.k

    def __ge__(self, o):
        return o.k >= self.k

    def __hash__(self):
        return hash(self.k)


def key2(tok):
    """A key function other than KEY: the reverse order."""
    k = getattr(tok, 'k', None)
    return Rev(tok if k is None else k)


class Alien:
    """Hashable, equal to itself only, comparable with nothing, no key.

    Its hash collides with every other value's, so it is compared with them.
    """
    __slots__ = ('name',)

    def __init__(self, name='alien'):
        self.name = name

    def __hash__(self):
        return 11

    def __repr__(self):
        return self.name

    @property
    def k(self):
        raise CmpError('%s has no key' % self.name)

    def _no(self, o):
        raise CmpError('%s is not comparable' % self.name)

    __lt__ = __gt__ = __le__ = __ge__ = _no


class BaseCtx:
    symbolic = False
    Alien = Alien
    key2 = staticmethod(key2)
    sub = False           # containers are subclass instances
    identity = False      # SortedKeyList with its default key function
    first = None          # value the next dict operation stores (C14)
    orderable = False     # values of keyed containers have an order too

    # --- structural helpers shared by both contexts

    def check(self, cond, label, detail=''):
        raise NotImplementedError

    def fail(self, label, detail=''):
        raise NotImplementedError

    def check_all(self, conds, label, detail=''):
        self.check(self.And(*conds), label, detail)

    def same_list(self, got, want, label):
        """`got` and `want` hold the same objects in the same order."""
        got = list(got)
        if len(got) != len(want) or any(
                a is not b for a, b in zip(got, want)):
            self.fail(label, 'got %r want %r' % (got, want))
        else:
            self.check(True, label)

    def call(self, fn, *args, **kw):
        """('ok', result) or ('exc', exception)."""
        try:
            return 'ok', fn(*args, **kw)
        except Violated:
            raise
        except Exception as e:   # engine control flow is BaseException
            return 'exc', e

    def ok(self, label, fn, *args, **kw):
        st, r = self.call(fn, *args, **kw)
        if st == 'exc':
            self.fail(label + ': unexpected ' + type(r).__name__, repr(r))
        return r

    def raises(self, exc, label, fn, *args, **kw):
        st, r = self.call(fn, *args, **kw)
        if st != 'exc':
            self.fail(label + ': no exception', 'returned %r' % (r,))
        if not isinstance(r, exc):
            self.fail(label + ': wrong exception ' + type(r).__name__, repr(r))
        return r


class ConCtx(BaseCtx):
    """Concrete replay of one assignment {name: int}."""

    def __init__(self, sc, assignment, keyed=False):
        self.sc = sc
        self.env = assignment
        self.keyed = keyed
        self.key = KeyFn()
        self.nuid = 0
        self.nops = 0
        REG.clear()
        REG['KEY'] = self.key
        global HOOK
        HOOK = None
        self.fault_at = None

    # values
    def _get(self, name, default=0):
        return int(self.env.get(name, default))

    def _tok(self, cls, name, x, k=None, tag=0):
        self.nuid += 1
        t = cls(x, k, tag, self.nuid, name)
        REG[self.nuid] = t
        return t

    next_tok = None

    def tok(self, name, tagged=False):
        if self.next_tok is not None and not tagged:
            t, self.next_tok = self.next_tok, None
            return t
        x = self._get(name)
        tag = self._get('tag_' + name) if tagged else 0
        if self.keyed:
            k = self._tok(CKey, 'k_' + name, self._get('k_' + name), None, tag)
            return self._tok(COrd if self.orderable else CEq, name, x, k, tag)
        return self._tok(COrd, name, x, None, tag)

    def ktok(self, name):
        if self.next_tok is not None:
            return self.tok(name).k
        return self._tok(CKey, name, self._get(name))

    def chain(self, n, name='a', strict=False, distinct=False):
        r = [self.tok('%s%d' % (name, i)) for i in range(n)]
        for a, b in zip(r, r[1:]):
            u, v = (a.k, b.k) if self.keyed else (a, b)
            if not (u.x < v.x if strict else u.x <= v.x):
                raise Skip('chain order')
        if distinct and len({t.x for t in r}) != n:
            raise Skip('chain distinct')
        return r

    def const_chain(self, n, gap=8, name='c', hashed=False):
        r = []
        for i in range(n):
            x = gap * (i + 1)
            nm = '%s%d' % (name, i)
            if self.keyed:
                r.append(self._tok(COrd if self.orderable else CEq, nm, x,
                                   self._tok(CKey, 'k' + nm, x // 2)))
            else:
                r.append(self._tok(COrd, nm, x))
            if hashed:
                r[-1].h = x
        return r

    def hash_near(self, v, near):
        v.h = next((t.h for t in near if t == v), 7)

    def run_chain(self, n, lo, hi, period=None, gap=8, name='r'):
        r = []
        for i in range(n):
            run = lo <= i < hi
            kk = lo if run else i
            xx = lo + (i - lo) % period if run and period else i
            nm = '%s%d' % (name, i)
            if self.keyed:
                k = self._tok(CKey, 'k' + nm, gap * (kk + 1))
                r.append(self._tok(CEq, nm, gap * (xx + 1), k))
            else:
                r.append(self._tok(COrd, nm, gap * (kk + 1)))
        return r

    def val(self, name):
        return self._tok(CEq, name, self._get(name))

    def int(self, name, lo=None, hi=None):
        v = self._get(name, lo or 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def pick(self, name, options):
        i = self._get(name)
        if not 0 <= i < len(options):
            raise Skip(name)
        return options[i]

    # terms
    def lt(self, a, b):
        return a.x < b.x

    def le(self, a, b):
        return a.x <= b.x

    def eq(self, a, b):
        return a.tag == b.tag and a.x == b.x

    def nz(self, a):
        return a.x != 0

    def rank_of(self, t):
        return t.k if self.keyed else t

    def tag_eq(self, a, b):
        return a.tag == b.tag

    def n(self, v):
        return v

    def And(self, *c):
        return all(c)

    def Or(self, *c):
        return any(c)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or b

    def If(self, c, a, b):
        return a if c else b

    def Sum(self, *v):
        return sum(v)

    def Count(self, conds):
        return sum(1 for c in conds if c)

    def eqi(self, a, b):
        return a == b

    def classify(self, v, lo, hi):
        return max(lo, min(hi, v))

    def truth(self, c):
        """Decide a spec condition on this path (forks symbolically)."""
        return bool(c)

    # faults
    def arm_fault(self, name='fault'):
        """The fault-th ordering comparison from now on raises."""
        global HOOK
        self.fault_at = self._get(name, -1)
        self.cmps = 0

        def hook(a, b):
            self.cmps += 1
            if self.cmps == self.fault_at:
                raise CmpError('comparison %d fails' % self.cmps)
        HOOK = hook

    def arm_tags(self):
        global HOOK

        def hook(a, b):
            if a.tag != b.tag:
                raise TypeError('values of different kinds are not comparable')
        HOOK = hook

    def arm_relation(self, new, stored):
        """Values in `new` may be incomparable with any stored value.

        Equal values are interchangeable, so an incomparable value differs
        from every stored one.
        """
        global HOOK
        ids = {self.rank_of(t).uid for t in new}

        def hook(a, b):
            if a.uid == b.uid or not (a.uid in ids or b.uid in ids):
                return
            if a.uid > b.uid:
                a, b = b, a
            if not self._get('cmp_%s_%s' % (a.name, b.name), 1):
                new = a if a.uid in ids else b
                if any(self.rank_of(t).x == new.x for t in stored):
                    raise Skip('equal but not comparable')
                raise TypeError('not comparable')
        HOOK = hook

    def arm_count(self):
        """Count ordering comparisons in self.cmps."""
        global HOOK
        self.cmps = 0

        def hook(a, b):
            self.cmps += 1
        HOOK = hook

    def disarm(self):
        global HOOK
        HOOK = None

    def check(self, cond, label, detail=''):
        if not cond:
            raise Violated(label, detail() if callable(detail) else detail)

    def fail(self, label, detail=''):
        raise Violated(label, detail() if callable(detail) else detail)

    def assume(self, cond):
        if not cond:
            raise Skip('assume')


class CmpError(Exception):
    """Raised by an injected comparison failure."""
