"""Symbolic values handed to the code under test."""
import z3

ENG = None          # current engine (one per process)
_new = object.__new__
CMP_HOOK = None     # fault-injection hook called before each ordering test


def set_engine(e):
    global ENG
    ENG = e


def set_hook(h):
    global CMP_HOOK
    CMP_HOOK = h


# z3 terms are cached across paths (building them costs more than solving)
_LT, _EQ, _NE0, _NOT = {}, {}, {}, {}


def lt_term(x, y):
    k = (id(x), id(y))
    r = _LT.get(k)
    if r is None:
        r = (x < y, x, y)         # keeps x and y alive: ids stay valid
        _LT[k] = r
    return r[0]


def eq_term(x, y):
    k = (id(x), id(y))
    r = _EQ.get(k)
    if r is None:
        r = (x == y, x, y)
        _EQ[k] = r
    return r[0]


def nz_term(x):
    r = _NE0.get(id(x))
    if r is None:
        r = _NE0[id(x)] = (x != 0, x)
    return r[0]


def not_term(e):
    r = _NOT.get(id(e))
    if r is None:
        if len(_NOT) > 200000:
            _NOT.clear()
        r = _NOT[id(e)] = (z3.Not(e), e)
    return r[0]


class SymBool:
    """A truth value the code has not looked at yet."""
    __slots__ = ('e', 'key', 'neg')

    def __init__(self, e, key=None, neg=False):
        self.e = e
        self.key = key
        self.neg = neg

    def __bool__(self):
        if self.key is not None:
            memo = ENG.memo
            v = memo.get(self.key)
            if v is None:
                v = ENG.branch(self.e)
                memo[self.key] = v
            return (not v) if self.neg else v
        v = ENG.branch(self.e)
        return (not v) if self.neg else v

    def term(self):
        return not_term(self.e) if self.neg else self.e

    def __eq__(self, other):
        return bool(self) == other

    def __ne__(self, other):
        return bool(self) != other

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        return bool(self) & other

    def __or__(self, other):
        return bool(self) | other

    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, other):
        return bool(self) ^ other

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, other):
        return int(bool(self)) + other

    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))


class _Ordered:
    """Symbolic element of a total order; subclasses define the rank term."""
    __slots__ = ('x', 'uid', 'chain', 'ci', 'strict', 'name', 'h')

    def _lt(self, other):
        """bool or SymBool for self < other (both of the same class)."""
        if self.uid == other.uid:
            return False
        c = self.chain
        if c is not None and c is other.chain:
            if self.ci > other.ci:
                return False
            if self.strict:
                return self.ci < other.ci
        key = ('lt', self.uid, other.uid)
        memo = ENG.memo
        v = memo.get(key)
        if v is not None:
            return v
        if memo.get(('lt', other.uid, self.uid)):
            return False
        return SymBool(lt_term(self.x, other.x), key)

    def _eq(self, other):
        if self.uid == other.uid:
            return True
        c = self.chain
        if c is not None and c is other.chain and self.strict:
            return self.ci == other.ci
        a, b = self.uid, other.uid
        key = ('eq', a, b) if a < b else ('eq', b, a)
        memo = ENG.memo
        v = memo.get(key)
        if v is not None:
            return v
        if memo.get(('lt', a, b)) or memo.get(('lt', b, a)):
            return False
        ta, tb = getattr(self, 'tag', 0), getattr(other, 'tag', 0)
        if not (isinstance(ta, int) and isinstance(tb, int)):
            return SymBool(z3.And(ta == tb, self.x == other.x), key)
        return SymBool(eq_term(self.x, other.x), key) if ta == tb else False


def _not(v):
    if isinstance(v, SymBool):
        return SymBool(v.e, v.key, not v.neg)
    return not v


def _mk_order(cls):
    def guard(a, b):
        if b.__class__ is not a.__class__:
            return False
        if CMP_HOOK is not None:
            CMP_HOOK(a, b)
        return True

    def __lt__(self, other):
        if not guard(self, other):
            return NotImplemented
        return self._lt(other)

    def __gt__(self, other):
        if not guard(self, other):
            return NotImplemented
        return other._lt(self)

    def __le__(self, other):
        if not guard(self, other):
            return NotImplemented
        return _not(other._lt(self))

    def __ge__(self, other):
        if not guard(self, other):
            return NotImplemented
        return _not(self._lt(other))

    for f in (__lt__, __gt__, __le__, __ge__):
        setattr(cls, f.__name__, f)
    return cls


class _Eq(_Ordered):
    __slots__ = ()

    def __eq__(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented
        return self._eq(other)

    def __ne__(self, other):
        if other.__class__ is not self.__class__:
            return NotImplemented
        return _not(self._eq(other))

    def __hash__(self):
        h = self.h
        return h if h.__class__ is int else h()

    def __bool__(self):
        # Values model integers: the value zero is falsy.
        return bool(SymBool(nz_term(self.x), ('nz', self.uid)))

    def __repr__(self):
        return self.name


class EqTok(_Eq):
    """Stored value that has equality and hash but no ordering."""
    __slots__ = ('tag', 'key')


@_mk_order
class Tok(_Eq):
    """Stored value with equality, hash and a total order."""
    __slots__ = ('tag', 'key')


@_mk_order
class KTok(_Eq):
    """Comparison key returned by the symbolic key function."""
    __slots__ = ('tag',)

    def fresh(self):
        """The same key as another object."""
        t = _new(KTok)
        t.x = self.x
        t.uid = self.uid
        t.chain = self.chain
        t.ci = self.ci
        t.strict = self.strict
        t.name = self.name
        t.h = self.h
        t.tag = self.tag
        return t


class Val(_Eq):
    """Dict value: equality and truth only."""
    __slots__ = ()


def _ie(v):
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    return None


class SymInt:
    """Symbolic Python integer (unbounded)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __index__(self):
        return ENG.concretize(self.e)

    __int__ = __index__

    def __hash__(self):
        return hash(ENG.concretize(self.e))

    def __bool__(self):
        return ENG.branch(self.e != 0)

    def __repr__(self):
        return str(z3.simplify(self.e))

    def __float__(self):
        return float(ENG.concretize(self.e))

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __invert__(self):
        return SymInt(-self.e - 1)

    def __abs__(self):
        return self if ENG.branch(self.e >= 0) else SymInt(-self.e)

    def __lshift__(self, n):
        return SymInt(self.e * (1 << int(n)))

    def __rshift__(self, n):
        return SymInt(self.e / (1 << int(n)))

    def __and__(self, o):
        if o == 1:
            return SymInt(self.e % 2)
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(o)

    __rxor__ = __xor__

    def __rlshift__(self, o):
        return o << int(self)

    def __rrshift__(self, o):
        return o >> int(self)

    def __pow__(self, o):
        return int(self) ** int(o)

    def __rpow__(self, o):
        return o ** int(self)

    def __truediv__(self, o):
        return int(self) / o

    def __divmod__(self, o):
        return self // o, self % o

    def bit_length(self):
        return int(self).bit_length()


def _arith(name, fn):
    def op(self, other):
        o = _ie(other)
        if o is None:
            return NotImplemented
        return SymInt(fn(self.e, o))

    def rop(self, other):
        o = _ie(other)
        if o is None:
            return NotImplemented
        return SymInt(fn(z3.IntVal(o), self.e))

    setattr(SymInt, '__%s__' % name, op)
    setattr(SymInt, '__r%s__' % name, rop)


def _mul(a, b):
    return a * b


_arith('add', lambda a, b: a + b)
_arith('sub', lambda a, b: a - b)


def _seqmul(self, other):
    o = _ie(other)
    if o is None:
        # sequence repetition: let the sequence see a real integer
        try:
            return other * int(self)
        except TypeError:
            return NotImplemented
    if isinstance(other, SymInt) and not z3.is_int_value(other.e):
        return SymInt(self.e * int(other))
    return SymInt(self.e * o)


SymInt.__mul__ = _seqmul
SymInt.__rmul__ = _seqmul


def _floordiv(self, other):
    o = int(other)
    if o == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if o > 0:
        return SymInt(self.e / o)
    return SymInt((-self.e) / (-o))


def _mod(self, other):
    o = int(other)
    if o == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    return self - (self // o) * o


SymInt.__floordiv__ = _floordiv
SymInt.__mod__ = _mod
SymInt.__rfloordiv__ = lambda self, o: o // int(self)
SymInt.__rmod__ = lambda self, o: o % int(self)


def _cmp(name, fn):
    def op(self, other):
        o = _ie(other)
        if o is None:
            if isinstance(other, float):
                return fn(int(self), other)
            return NotImplemented
        return SymBool(fn(self.e, o))

    setattr(SymInt, '__%s__' % name, op)


_cmp('lt', lambda a, b: a < b)
_cmp('le', lambda a, b: a <= b)
_cmp('gt', lambda a, b: a > b)
_cmp('ge', lambda a, b: a >= b)


def _int_eq(self, other):
    o = _ie(other)
    if o is None:
        return NotImplemented
    return SymBool(self.e == o)


def _int_ne(self, other):
    o = _ie(other)
    if o is None:
        return NotImplemented
    return SymBool(self.e != o)


SymInt.__eq__ = _int_eq
SymInt.__ne__ = _int_ne


# -- models of builtins that insist on machine integers ---------------------

class _RangeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, (range, SymRangeObj))


class SymRange(metaclass=_RangeMeta):
    """Replacement for the name `range` in the instrumented package."""

    def __new__(cls, *args):
        if not any(isinstance(a, SymInt) for a in args):
            return range(*args)
        start, step = 0, 1
        if len(args) == 1:
            stop = args[0]
        elif len(args) == 2:
            start, stop = args
        else:
            start, stop, step = args
        if step == 0:
            raise ValueError('range() arg 3 must not be zero')
        return SymRangeObj(start, stop, step)


class SymRangeObj:
    """range() over symbolic bounds; its length is found by forking."""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        self._n = None

    def __iter__(self):
        cur = self.start
        up = bool(self.step > 0)
        while (cur < self.stop) if up else (cur > self.stop):
            yield cur
            cur = cur + self.step

    def _items(self):
        return list(self.__iter__())

    def __reversed__(self):
        return reversed(self._items())

    def __len__(self):
        return len(self._items())

    def __bool__(self):
        return bool(self.start < self.stop) if self.step > 0 else bool(
            self.start > self.stop)

    def __getitem__(self, i):
        return self._items()[i]

    def __contains__(self, v):
        return any(bool(v == i) for i in self._items())


def _clip(v, lo, hi):
    if v < lo:
        return lo
    if v > hi:
        return hi
    return v


def slice_indices(obj, *args):
    """`obj.indices(*args)`; slices holding symbolic ints stay symbolic."""
    if isinstance(obj, slice) and len(args) == 1 and any(
            isinstance(v, SymInt)
            for v in (obj.start, obj.stop, obj.step, args[0])):
        n = args[0]
        step = 1 if obj.step is None else obj.step
        if step == 0:
            raise ValueError('slice step cannot be zero')
        if step > 0:
            lo, hi = 0, n
            start = lo if obj.start is None else obj.start
            stop = hi if obj.stop is None else obj.stop
        else:
            lo, hi = -1, n - 1
            start = hi if obj.start is None else obj.start
            stop = lo if obj.stop is None else obj.stop
        if obj.start is not None:
            if start < 0:
                start = start + n
                if start < lo:
                    start = lo
            elif start > hi:
                start = hi
        if obj.stop is not None:
            if stop < 0:
                stop = stop + n
                if stop < lo:
                    stop = lo
            elif stop > hi:
                stop = hi
        return start, stop, step
    return obj.indices(*args)
