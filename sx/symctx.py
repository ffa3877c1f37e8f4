"""Symbolic harness context (see ctx.py for the concrete twin)."""
import z3

from . import values as V
from .ctx import BaseCtx, CmpError, KeyFn, REG, _lookup
from .engine import Engine, Found
from .values import eq_term

EqTok, Tok, KTok, Val, SymInt, SymBool = (
    V.EqTok, V.Tok, V.KTok, V.Val, V.SymInt, V.SymBool)


def _reduce(self):
    return _lookup, (self.uid,)


for _c in (EqTok, Tok, KTok, Val):
    _c.__reduce__ = _reduce
    _c.__deepcopy__ = lambda self, memo: self

EqTok.k = property(lambda self: self.key)
Tok.k = EqTok.k

_K = z3.Function('K', z3.IntSort(), z3.IntSort())
_INT = {}


def _iv(name):
    v = _INT.get(name)
    if v is None:
        v = _INT[name] = z3.Int(name)
    return v


_KX = {}
_CONST = {}
_IF = {}


def _kv(x):
    r = _KX.get(id(x))
    if r is None:
        r = _KX[id(x)] = (_K(x), x)
    return r[0]


def _const(v):
    r = _CONST.get(v)
    if r is None:
        r = _CONST[v] = z3.IntVal(v)
    return r


def _one_if(c):
    r = _IF.get(id(c))
    if r is None:
        if len(_IF) > 200000:
            _IF.clear()
        r = _IF[id(c)] = (z3.If(c, _const(1), _const(0)), c)
    return r[0]


def _b(c):
    """z3 BoolRef or Python bool of a spec condition."""
    if isinstance(c, SymBool):
        return c.term()
    return c


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, sc, eng, keyed=False, int_mode='sym'):
        self.sc = sc
        self.eng = eng
        self.keyed = keyed
        self.int_mode = int_mode
        self.half_keys = False
        V.set_engine(eng)
        V.set_hook(None)
        self.key = KeyFn()
        self.nuid = 0
        self.names = {}       # name -> z3 term, for the counterexample
        REG.clear()
        REG['KEY'] = self.key
        self.checks = 0
        self.pending = []

    # -- values

    def _mk(self, cls, name, x, chain=None, ci=0, strict=False, tag=0,
            key=None):
        t = cls()
        self.nuid += 1
        t.uid = self.nuid
        t.x = x
        t.name = name
        t.chain = chain
        t.ci = ci
        t.strict = strict
        t.h = 11
        if cls is EqTok or cls is Tok:
            t.tag = tag
            t.key = key
        elif cls is KTok:
            t.tag = tag
        REG[t.uid] = t
        return t

    def _tok(self, name, chain=None, ci=0, strict=False, tag=0, distinct=None):
        x = _iv(name)
        self.names[name] = x
        if self.keyed:
            kx = x / 2 if self.half_keys else _kv(x)
            self.names['k_' + name] = kx
            k = self._mk(KTok, 'k_' + name, kx, chain, ci, strict, tag)
            # value identity: a strict key order or `distinct` separates them
            return self._mk(Tok if self.orderable else EqTok, name, x,
                            None if self.orderable else distinct, ci,
                            distinct is not None, tag, k)
        return self._mk(Tok, name, x, chain, ci, strict, tag)

    next_tok = None

    def tok(self, name, tagged=False):
        if self.next_tok is not None and not tagged:
            # a value an earlier step asked about, asked about again
            t, self.next_tok = self.next_tok, None
            return t
        tag = 0
        if tagged:
            tag = _iv('tag_' + name)
            self.names['tag_' + name] = tag
            self.eng.assume(z3.And(tag >= 0, tag <= 1))
        return self._tok(name, tag=tag)

    def ktok(self, name):
        if self.next_tok is not None:
            return self.tok(name).k
        x = _iv(name)
        self.names[name] = x
        return self._mk(KTok, name, x)

    def chain(self, n, name='a', strict=False, distinct=False):
        ch = object()
        ds = object() if (self.keyed and (distinct or strict)) else None
        r = [self._tok('%s%d' % (name, i), ch, i, strict, 0, ds)
             for i in range(n)]
        for a, b in zip(r, r[1:]):
            u, v = (a.k.x, b.k.x) if self.keyed else (a.x, b.x)
            self.eng.assume(V.lt_term(u, v) if strict else
                            V.not_term(V.lt_term(v, u)))
        if ds is not None and not strict and n > 1:
            self.eng.assume(z3.Distinct(*[t.x for t in r]))
        return r

    def const_chain(self, n, gap=8, name='c', hashed=False):
        """n values with known ranks; keys (if any) are half the rank."""
        r = []
        ch = object()
        ds = object()
        self.half_keys = True
        for i in range(n):
            g = gap * (i + 1)
            x = _const(g)
            nm = '%s%d' % (name, i)
            if self.keyed:
                k = self._mk(KTok, 'k' + nm, _const(g // 2), ch, i, True)
                r.append(self._mk(Tok if self.orderable else EqTok, nm, x, ds,
                                  i, True, 0, k))
            else:
                r.append(self._mk(Tok, nm, x, ch, i, True))
            if hashed:
                r[-1].h = g     # no symbolic value is hashed in such tasks
        return r

    def hash_near(self, v, near):
        """Hash of v: that of the equal value among `near`, or its own.

        The solver decides which one it equals when the hash is needed.
        """
        def h():
            for t in near:
                if bool(v._eq(t)):
                    return t.h
            return 7
        v.h = h

    def run_chain(self, n, lo, hi, period=None, gap=8, name='r'):
        """n values of known rank, those at lo..hi-1 tied.

        Without a key the tied values are equal; with one they share a key
        and repeat with the given period (all different without one).
        """
        r = []
        kch, xch = object(), object()
        for i in range(n):
            run = lo <= i < hi
            kk = lo if run else i
            xx = lo + (i - lo) % period if run and period else i
            nm = '%s%d' % (name, i)
            if not self.keyed:
                r.append(self._mk(Tok, nm, _const(gap * (kk + 1)), xch, kk,
                                  True))
                continue
            kx, x = _const(gap * (kk + 1)), _const(gap * (xx + 1))
            k = self._mk(KTok, 'k' + nm, kx, kch, kk, True)
            r.append(self._mk(EqTok, nm, x, xch, xx, True, 0, k))
            if xx == i:
                self.eng.assume(eq_term(_kv(x), kx))
        return r

    def val(self, name):
        x = _iv(name)
        self.names[name] = x
        return self._mk(Val, name, x)

    def int(self, name, lo=None, hi=None, bound=40):
        x = _iv(name)
        self.names[name] = x
        if lo is not None:
            self.eng.assume(x >= lo)
        if hi is not None:
            self.eng.assume(x <= hi)
        if self.int_mode == 'conc':
            if lo is None:
                self.eng.assume(x >= -bound)
            if hi is None:
                self.eng.assume(x <= bound)
            return self.eng.concretize(x)
        return SymInt(x)

    def pick(self, name, options):
        if len(options) == 1:
            return options[0]
        x = _iv(name)
        self.names[name] = x
        self.eng.assume(z3.And(x >= 0, x < len(options)))
        return options[self.eng.concretize(x)]

    # -- terms (Python bools where the chain assumption already decides)

    def lt(self, a, b):
        if a.uid == b.uid:
            return False
        if a.chain is not None and a.chain is b.chain:
            if a.ci >= b.ci:
                return False
            if a.strict:
                return True
        return V.lt_term(a.x, b.x)

    def le(self, a, b):
        return self.Not(self.lt(b, a))

    def eq(self, a, b):
        if a.uid == b.uid:
            return True
        if a.chain is not None and a.chain is b.chain and a.strict:
            return a.ci == b.ci
        r = V.eq_term(a.x, b.x)
        ta, tb = getattr(a, 'tag', 0), getattr(b, 'tag', 0)
        if isinstance(ta, int) and isinstance(tb, int):
            return r if ta == tb else False
        return z3.And(r, ta == tb)

    def nz(self, a):
        return V.nz_term(a.x)

    def tag_eq(self, a, b):
        if isinstance(a.tag, int) and isinstance(b.tag, int):
            return a.tag == b.tag
        return a.tag == b.tag

    def rank_of(self, t):
        return t.k if self.keyed else t

    def n(self, v):
        """Integer term of an int-like value."""
        if isinstance(v, SymInt):
            return v.e
        return v

    def And(self, *c):
        r = []
        for x in c:
            x = _b(x)
            if x is True:
                continue
            if x is False:
                return False
            r.append(x)
        if not r:
            return True
        return r[0] if len(r) == 1 else z3.And(*r)

    def Or(self, *c):
        r = []
        for x in c:
            x = _b(x)
            if x is False:
                continue
            if x is True:
                return True
            r.append(x)
        if not r:
            return False
        return r[0] if len(r) == 1 else z3.Or(*r)

    def Not(self, c):
        c = _b(c)
        if isinstance(c, bool):
            return not c
        return V.not_term(c)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def If(self, c, a, b):
        c = _b(c)
        if c is True:
            return a
        if c is False:
            return b
        return z3.If(c, a, b)

    def Sum(self, *v):
        return z3.Sum([z3.IntVal(0)] + list(v))

    def Count(self, conds):
        base = 0
        terms = []
        for c in conds:
            c = _b(c)
            if c is True:
                base += 1
            elif c is not False:
                terms.append(_one_if(c))
        if not terms:
            return base
        return z3.Sum([_const(base)] + terms)

    def eqi(self, a, b):
        return self.n(a) == self.n(b)

    def classify(self, v, lo, hi):
        if isinstance(v, SymInt):
            e = v.e
            return self.eng.concretize(
                z3.If(e < lo, lo, z3.If(e > hi, hi, e)))
        return max(lo, min(hi, v))

    def truth(self, c):
        c = _b(c)
        if isinstance(c, bool):
            return c
        return self.eng.branch(c)

    # -- faults

    def arm_fault(self, name='fault'):
        x = _iv(name)
        self.names[name] = x
        self.eng.assume(x >= 1)
        self.cmps = 0
        eng = self.eng

        def hook(a, b):
            self.cmps += 1
            if eng.branch(x == self.cmps):
                raise CmpError('comparison %d fails' % self.cmps)
        V.set_hook(hook)

    def arm_tags(self):
        eng = self.eng

        def hook(a, b):
            ta, tb = a.tag, b.tag
            if isinstance(ta, int) and isinstance(tb, int):
                if ta == tb:
                    return
            elif SymBool(ta == tb, ('tag', a.uid, b.uid)):
                return
            raise TypeError('values of different kinds are not comparable')
        V.set_hook(hook)

    def arm_relation(self, new, stored):
        eng = self.eng
        ids = {self.rank_of(t).uid for t in new}

        def hook(a, b):
            if a.uid == b.uid or not (a.uid in ids or b.uid in ids):
                return
            if a.uid > b.uid:
                a, b = b, a
            nm = 'cmp_%s_%s' % (a.name, b.name)
            x = _iv(nm)
            first = nm not in self.names
            self.names[nm] = x
            if first:
                eng.assume(z3.And(x >= 0, x <= 1))
            if not SymBool(x == 1, ('cmp', a.uid, b.uid)):
                v = a if a.uid in ids else b
                for t in stored:
                    self.assume(self.Not(self.eq(v, self.rank_of(t))))
                raise TypeError('not comparable')
        V.set_hook(hook)

    def arm_count(self):
        self.cmps = 0

        def hook(a, b):
            self.cmps += 1
        V.set_hook(hook)

    def disarm(self):
        V.set_hook(None)

    # -- assertions

    def check(self, cond, label, detail=''):
        cond = _b(cond)
        if cond is True:
            self.eng.concrete_obligations += 1
            return
        if cond is False:
            self.flush()
            self.eng.fail(label, detail() if callable(detail) else detail)
        # Proved together with later obligations of this path: at its end,
        # or before an assumption would weaken it.
        self.pending.append((cond, label, detail))

    def flush(self):
        p, self.pending = self.pending, []
        if not p:
            return
        if len(p) == 1:
            c = p[0][0]
        else:
            c = z3.And(*[x[0] for x in p])
        try:
            self.eng.prove(c, p[0][1], '', len(p))
        except Found as f:
            for c, label, detail in p:
                if not z3.is_true(self.eng.model.eval(
                        c, model_completion=True)):
                    raise Found(label, detail() if callable(detail)
                                else detail)
            raise f

    def fail(self, label, detail=''):
        self.flush()
        self.eng.fail(label, detail() if callable(detail) else detail)

    def assume(self, cond):
        cond = _b(cond)
        if cond is True:
            return
        self.flush()
        if cond is False:
            from .engine import PathAbort
            raise PathAbort()
        self.eng.assume(cond)

    def assignment(self, model):
        out = {}
        for name, term in self.names.items():
            v = model.eval(term, model_completion=True)
            out[name] = v.as_long()
        return out
