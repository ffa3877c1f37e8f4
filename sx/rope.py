"""Sorted lists of any size: sublists whose length is a symbolic integer.

The stored values are positions 0..N-1 of one sorted sequence.  A sublist is a
`Rope`: a sequence of segments, each an interval of positions (both ends
symbolic) or one explicit value.  What a searched value compares like is given
by two symbolic cut points L <= R: positions below L are less, those from R on
are greater, those in between are equal (tie).  The code under test indexes,
slices, splits and joins ropes as it would lists; nothing enumerates lengths.

Operations a rope has no closed form for raise `Inconclusive`; the harness
instance is then reported as declined, never as a violation.
"""
import copy
import bisect as _bisect
import builtins
import operator

import z3

from . import values as V
from .engine import Inconclusive
from .values import SymBool, SymInt, _ie, slice_indices


def term(v):
    e = _ie(v)
    if e is None:
        raise Inconclusive('not an integer: %r' % type(v).__name__)
    return e if not isinstance(e, int) else z3.IntVal(e)


def _s(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def ite(c, a, b):
    if isinstance(c, SymBool):
        c = c.term()
    if isinstance(c, bool):
        return a if c else b
    return _s(z3.If(c, term(a), term(b)))


class Probe:
    """A value handed to an operation; ordered against positions by cuts."""

    def __init__(self, name, L, R, rank, E=None):
        self.name, self.L, self.R, self.rank, self.E = name, L, R, rank, E
        self.key = None           # the comparison key (keyed lists)

    def __hash__(self):
        raise Inconclusive('hash of a symbolic value')

    def __repr__(self):
        return self.name


def _cmp(a, b):
    """('<' term, '=' term) of a vs b; None where not ordered."""
    if isinstance(a, Elt) and isinstance(b, Elt):
        if a is b:
            return False, True
        raise Inconclusive('two stored values of unknown order compared')
    if isinstance(a, Elt):
        if a.kind != b.kind:
            return None
        if a.kind == 'val' and b.E is not None:
            return None, z3.And(a.g >= b.L, a.g < b.R, b.E(a.g))
        return a.g < b.L, z3.And(a.g >= b.L, a.g < b.R)
    if isinstance(b, Elt):
        r = _cmp(b, a)
        if r is None or r[0] is None:
            return r
        return b.g >= a.R, r[1]
    if a is b:
        return False, True
    if a.kind != b.kind:
        return None
    if a.E is not None:
        return None, False
    return a.rank < b.rank, a.rank == b.rank


def _sb(c):
    return c if isinstance(c, bool) else SymBool(c)


def _ops(cls):
    def same_kind(o):
        return isinstance(o, (Elt, Probe))

    def __eq__(self, o):
        if not same_kind(o):
            return NotImplemented
        r = _cmp(self, o)
        return NotImplemented if r is None else _sb(r[1])

    def __ne__(self, o):
        r = __eq__(self, o)
        return r if r is NotImplemented else V._not(r)

    def __lt__(self, o):
        if not same_kind(o):
            return NotImplemented
        r = _cmp(self, o)
        if r is None or r[0] is None:
            return NotImplemented
        return _sb(r[0])

    def __gt__(self, o):
        if not same_kind(o):
            return NotImplemented
        r = _cmp(o, self)
        if r is None or r[0] is None:
            return NotImplemented
        return _sb(r[0])

    def __le__(self, o):
        r = __gt__(self, o)
        return r if r is NotImplemented else V._not(r)

    def __ge__(self, o):
        r = __lt__(self, o)
        return r if r is NotImplemented else V._not(r)

    for f in (__eq__, __ne__, __lt__, __gt__, __le__, __ge__):
        setattr(cls, f.__name__, f)
    return cls


@_ops
class Elt:
    """The stored value (or its key) at position g of the initial contents."""

    def __init__(self, g, kind):
        self.g, self.kind = g, kind

    def __hash__(self):
        raise Inconclusive('hash of a symbolic value')

    def __bool__(self):
        raise Inconclusive('truth of a stored value')

    def __repr__(self):
        return 'a[%s]' % self.g

    @property
    def k(self):
        return Elt(self.g, 'key')


    def fresh(self):
        return Elt(self.g, self.kind)


_ops(Probe)
Probe.fresh = lambda self: copy.copy(self)
Probe.kind = 'val'
Probe.__hash__ = lambda self: 1
Elt.__hash__ = lambda self: 1


class ProbeKey(Probe):
    kind = 'key'


class Rope:
    """A mutable sequence of symbolic length."""

    def __init__(self, segs=(), kind='val'):
        self.segs = list(segs)     # (start term, length) or (None, value)
        self.kind = kind

    # length -------------------------------------------------------------

    def size(self):
        n = 0
        for a, b in self.segs:
            n = n + (b if a is not None else 1)
        return n if isinstance(n, int) else _s(n.e)

    def __len__(self):
        raise Inconclusive('machine length of a symbolic list')

    def __bool__(self):
        return bool(self.size() > 0)

    __hash__ = None

    # reading --------------------------------------------------------------

    def _elt(self, a, off):
        return Elt(z3.simplify(a + term(off)), self.kind)

    def _norm(self, i):
        n = self.size()
        if not isinstance(i, (int, SymInt)):
            i = operator.index(i)
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('list index out of range')
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = slice_indices(i, self.size())
            if not isinstance(st, int) or st != 1:
                raise Inconclusive('stepped slice of a symbolic list')
            if a >= b:
                return Rope([], self.kind)
            return Rope(self._split(b)[0]._split(a)[1].segs, self.kind)
        i = self._norm(i)
        for a, b in self.segs:
            m = b if a is not None else 1
            if i < m:
                return b if a is None else self._elt(a, i)
            i = i - m
        raise IndexError('list index out of range')

    def _split(self, o):
        """Two ropes, cut before offset o (0 <= o <= size)."""
        left, right = [], []
        segs = self.segs
        for j, (a, b) in enumerate(segs):
            m = b if a is not None else 1
            if o >= m:
                left.append((a, b))
                o = o - m
                if not isinstance(o, int):
                    o = _s(o.e)
                continue
            if a is None or isinstance(o, int) and o == 0:
                right = segs[j:]
            else:
                # 0 <= o < m; o may be zero: an empty segment is harmless
                left.append((a, o))
                rest = m - o
                right = [(z3.simplify(a + term(o)),
                          rest if isinstance(rest, int) else _s(rest.e))]
                right += segs[j + 1:]
            break
        return Rope(left, self.kind), Rope(right, self.kind)

    def __iter__(self):
        i = 0
        while i < self.size():
            yield self[i]
            i += 1
            if i > 40:
                raise Inconclusive('iteration over a symbolic list')

    def __reversed__(self):
        n = self.size()
        i = 0
        while i < n:
            i += 1
            yield self[n - i]
            if i > 40:
                raise Inconclusive('iteration over a symbolic list')

    def __contains__(self, v):
        raise Inconclusive('linear search in a symbolic list')

    index = count = __contains__

    # changing -------------------------------------------------------------

    def __delitem__(self, i):
        if isinstance(i, slice):
            a, b, st = slice_indices(i, self.size())
            if not isinstance(st, int) or st != 1:
                raise Inconclusive('stepped slice of a symbolic list')
            if a >= b:
                return
        else:
            a = self._norm(i)
            b = a + 1
        l, r = self._split(a)
        self.segs = l.segs + r._split(b - a)[1].segs

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i == slice(None, None, None):
                self.segs = as_rope(v, self.kind).segs
                return
            raise Inconclusive('slice assignment')
        i = self._norm(i)
        l, r = self._split(i)
        self.segs = l.segs + [(None, v)] + r._split(1)[1].segs

    def insert(self, i, v):
        n = self.size()
        if i < 0:
            i = i + n
            if i < 0:
                i = 0
        if i > n:
            i = n
        l, r = self._split(i)
        self.segs = l.segs + [(None, v)] + r.segs

    def append(self, v):
        self.segs = self.segs + [(None, v)]

    def extend(self, other):
        self.segs = self.segs + as_rope(other, self.kind).segs

    def __iadd__(self, other):
        self.extend(other)
        return self

    def __add__(self, other):
        return Rope(self.segs + as_rope(other, self.kind).segs, self.kind)

    def __radd__(self, other):
        return Rope(as_rope(other, self.kind).segs + self.segs, self.kind)

    def copy(self):
        return Rope(self.segs, self.kind)

    def clear(self):
        self.segs = []

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def sort(self, key=None, reverse=False):
        if reverse:
            raise Inconclusive('reverse sort')
        out = Rope([], self.kind)
        last = None
        for a, b in self.segs:
            if a is None:
                continue
            if last is not None and not V.ENG.branch(z3.Or(
                    term(b) == 0, last <= a)):
                raise Inconclusive('sorting an unsorted symbolic list')
            if V.ENG.branch(term(b) == 0):
                continue
            out.segs.append((a, b))
            last = a + term(b)
        seen_base = False
        before, after = [], []
        for a, b in self.segs:
            if a is not None:
                seen_base = True
            else:
                (after if seen_base else before).append(b)
        # stable: explicit values go after equal ones they followed
        if before and seen_base:
            raise Inconclusive('explicit values before symbolic ones')
        for v in before + after:
            out.insert(out._cut(_key_of(v, key), False, key), v)
        self.segs = out.segs

    def _cut(self, v, left, key=None):
        """Where v goes in this sorted rope."""
        n = 0
        for a, b in self.segs:
            if a is None:
                w = _key_of(b, key)
                if w is v:
                    c = False if left else True
                else:
                    c = (w < v) if left else V._not(v < w)
                n = n + ite(c, 1, 0)
            else:
                if not isinstance(v, Probe):
                    raise Inconclusive('search for a stored value')
                cut = v.L if left else v.R
                d = cut - a
                e = z3.If(d <= 0, z3.IntVal(0),
                          z3.If(d >= term(b), term(b), d))
                n = n + _s(e)
        return n if isinstance(n, int) else _s(n.e)

    def __mul__(self, n):
        raise Inconclusive('repetition of a symbolic list')

    __rmul__ = __imul__ = __mul__

    def reverse(self):
        raise Inconclusive('reversing a symbolic list')

    def __eq__(self, o):
        raise Inconclusive('comparison of symbolic lists')

    def __repr__(self):
        return 'Rope(%s)' % ', '.join(
            repr(b) if a is None else '%s+%s' % (a, b) for a, b in self.segs)


def _key_of(v, key):
    return v if key is None else key(v)


def as_rope(x, kind='val'):
    if isinstance(x, Rope):
        return x
    if isinstance(x, (list, tuple)):
        return Rope([(None, v) for v in x], kind)
    if isinstance(x, MapRope):
        return x.rope()
    if hasattr(type(x), '_getitem') and hasattr(x, '_lists'):
        # another (or the same) sorted list: its contents, in order
        out = Rope([], kind)
        for sub in x._lists:
            out.extend(sub)
        return out
    return as_rope(builtins.list(x), kind)


class MapRope:
    """map(key, rope): the rope of the keys."""

    def __init__(self, f, src):
        self.f, self.src = f, src

    def rope(self):
        return Rope([(a, b) if a is not None else (None, self.f(b))
                     for a, b in self.src.segs], 'key')

    def __iter__(self):
        for v in self.src:
            yield self.f(v)


# -- builtins and imported names the package sees ---------------------------

_PLAIN = (list, tuple, dict, set, frozenset, str, range)


def sx_len(x):
    if isinstance(x, Rope):
        return x.size()
    if type(x) in _PLAIN:
        return len(x)
    f = getattr(type(x), '__len__', None)
    if f is None:
        return len(x)
    return f(x)


def sx_sorted(x, key=None, reverse=False):
    if isinstance(x, (list, tuple)) and not any(
            isinstance(v, Elt) for v in x):
        return sorted(x, key=key, reverse=reverse)
    r = as_rope(x).copy()
    r.sort(key=key, reverse=reverse)
    return r


def sx_map(f, *its):
    if len(its) == 1 and isinstance(its[0], Rope):
        return MapRope(f, its[0])
    return map(f, *its)


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (list, Rope))

    def __subclasscheck__(cls, c):
        return issubclass(c, list)


class SxList(metaclass=_ListMeta):
    def __new__(cls, *a):
        if a and isinstance(a[0], Rope):
            return a[0].copy()
        if a and isinstance(a[0], MapRope):
            return a[0].rope()
        return list(*a)


def sx_iadd(a, b):
    if type(a) is list and isinstance(b, Rope):
        return as_rope(a, b.kind) + b
    return operator.iadd(a, b)


def _clip(v, lo, hi):
    if lo and v < lo:
        v = lo
    if hi is not None and v > hi:
        v = hi
    return v


def sx_bisect_left(a, x, lo=0, hi=None, key=None):
    if isinstance(a, Rope):
        return _clip(a._cut(x, True, key), lo, hi)
    return _bisect.bisect_left(a, x, lo, hi, key=key)


def sx_bisect_right(a, x, lo=0, hi=None, key=None):
    if isinstance(a, Rope):
        return _clip(a._cut(x, False, key), lo, hi)
    return _bisect.bisect_right(a, x, lo, hi, key=key)


def sx_insort(a, x, lo=0, hi=None, key=None):
    if isinstance(a, Rope):
        a.insert(sx_bisect_right(a, _key_of(x, key), lo, hi), x)
    else:
        _bisect.insort(a, x, lo, hi, key=key)


def sx_insort_left(a, x, lo=0, hi=None, key=None):
    if isinstance(a, Rope):
        a.insert(sx_bisect_left(a, _key_of(x, key), lo, hi), x)
    else:
        _bisect.insort_left(a, x, lo, hi, key=key)


BUILTINS = {'len': sx_len, 'sorted': sx_sorted, 'map': sx_map,
            'list': SxList}
NAMES = {
    _bisect.bisect_left: sx_bisect_left,
    _bisect.bisect_right: sx_bisect_right,
    _bisect.insort_right: sx_insort,
    _bisect.insort_left: sx_insort_left,
    operator.iadd: sx_iadd,
}


class _BisectModule:
    bisect_left = staticmethod(sx_bisect_left)
    bisect_right = bisect = staticmethod(sx_bisect_right)
    insort_left = staticmethod(sx_insort_left)
    insort_right = insort = staticmethod(sx_insort)


def patch(module):
    """Bind the imported C functions to their models in `module`."""
    for k, v in builtins.list(vars(module).items()):
        try:
            m = NAMES.get(v)
        except TypeError:
            continue
        if m is not None:
            setattr(module, k, m)
        elif v is _bisect:
            setattr(module, k, _BisectModule)
