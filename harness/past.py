"""Containers with a past: fixed histories ending in a known content.

Each script drives a container of values with known ranks through a history
of public operations (index tree warm, sublists split, merged, rebuilt,
emptied, refilled, copied, ...).  The property's symbolic query then runs on
the result: nothing a container went through may show in its answers.
"""
import copy
import pickle

R = range
N = 40


def E(k=20):
    return list(R(0, 2 * k, 2))


def O(k=20):
    return list(R(1, 2 * k, 2))


W = ('warm',)
LIST = {
    'refill': [('upd', E()), W, ('ds', None, None), ('upd', O())],
    'refilladd': [('upd', E()), W, ('ds', None, None), ('adds', O())],
    'emptied': [('upd', E()), W, ('ds', None, None)],
    'emptied add': [('upd', E()), W, ('ds', None, None), ('adds', O()[4:9])],
    'cleared': [('upd', E()), W, ('clear',)],
    'clearupd': [('upd', E()), W, ('clear',), ('upd', O())],
    'clearadd': [('upd', E()), W, ('clear',), ('adds', O())],
    'clear fewer': [('upd', E()), W, ('clear',), ('upd', O()[3:12])],
    'grow': [('addw', E()[::-1])],
    'grow2': [('addw', E()), ('adds', O()[8:13])],
    'grow mid': [('upd', E()), W, ('adds', O()[7:12]), W, ('adds', [31])],
    'drain': [('upd', E()), W] + [('pop',), W] * 20 + [('upd', O())],
    'drain few': [('upd', E()), W] + [('pop',), W] * 16 + [('adds', O()[2:8])],
    'drain0': [('upd', E()), W] + [('di', 0), W] * 17 + [('adds', O()[6:9])],
    'drain mid': [('upd', E()), W] + [('pop', 5), W] * 12 + [
        ('adds', O()[7:16])],
    'remfill': [('upd', E()), W] + [('rem', x) for x in E()[::2]] + [W] + [
        ('rem', x) for x in E()[1::2]] + [('upd', O()[:11])],
    'rems': [('upd', E()), W, ('rem', 8), ('rem', 10), W, ('rem', 12),
             ('disc', 38), ('disc', 36), ('disc', 34), W, ('disc', 0)],
    'bulk': [('upd', E()), W, ('upd', O())],
    'bulk tail': [('upd', E(10)), W, ('upd', list(R(25, 40)))],
    'bulk head': [('upd', list(R(20, 40))), W, ('upd', list(R(0, 15)))],
    'small': [('upd', E() + O()[:16]), W, ('upd', O()[16:19])],
    'delbig': [('upd', list(R(40))), W, ('ds', 5, 35)],
    'delpiece': [('upd', list(R(40))), W, ('ds', 10, 13)],
    'deltail': [('upd', list(R(40))), W, ('ds', 22, None)],
    'delhead': [('upd', list(R(40))), W, ('ds', None, 17)],
    'deltail few': [('upd', list(R(40))), W, ('ds', 37, None)],
    'delstep': [('upd', list(R(40))), W, ('ds', None, None, 3)],
    'delneg': [('upd', list(R(40))), W, ('ds', None, None, -2)],
    'del add': [('upd', list(R(30))), W, ('ds', 3, 23), ('adds', [35, 5, 21])],
    'merge': [('upd', E()), W, ('rem', 0), ('rem', 2), ('rem', 4), W,
              ('rem', 38), ('rem', 36)],
    'split': [('upd', E()), W, ('adds', O()[:6]), W, ('adds', O()[13:])],
    'split merge': [('upd', E()), W, ('adds', O()[:6]), W] + [
        ('di', 1), W] * 5,
    'reset': [('upd', list(R(30))), W, ('reset', 6), W, ('di', 7), ('add', 33),
              ('reset', 4)],
    'reset big': [('upd', E()), W, ('reset', 500), W, ('adds', O()[:9])],
    'init': [('upd', E()), W, ('init', O())],
    'init empty': [('upd', E()), W, ('init', [])],
    'fails': [('upd', E()), W, ('fails',), ('add', 7), ('fails',)],
    'reads': [('upd', E()), W, ('reads',), ('add', 7), ('di', 3), ('reads',)],
    'alias': [('upd', E()), W, ('alias', 3), ('add', 9)],
    'copied': [('upd', E()), W, ('copy',), W, ('add', 9), ('di', 4)],
    'pickled': [('upd', E()), W, ('pickle',), ('add', 9), ('di', 4)],
    'deep': [('upd', E()), W, ('deepcopy',), ('add', 9), ('di', 4)],
}
ONLY_LIST = {
    'imul': [('upd', E(12)), W, ('imul', 2), W, ('ds', None, None, 2)],
    'imul0': [('upd', E(12)), W, ('imul', 0), ('upd', O())],
    'iadd': [('upd', E()), W, ('iadd', O())],
    'iadd few': [('upd', E()), W, ('iadd', O()[3:5])],
    'plus': [('upd', E()), W, ('plus', O()[3:9]), W, ('di', 4)],
    'times': [('upd', E()), W, ('times',), ('add', 5), ('di', 4)],
}
ONLY_SET = {
    'ior': [('upd', E()), W, ('ior', O())],
    'ior few': [('upd', E()), W, ('ior', O()[4:6])],
    'isub': [('upd', E()), W, ('isub', E()[3:17])],
    'isub few': [('upd', E()), W, ('isub', E()[3:5])],
    'isub all': [('upd', E()), W, ('isub', E()), ('adds', O()[:5])],
    'iand': [('upd', E()), W, ('iand', E()[3:9] + O()[:3])],
    'iand none': [('upd', E()), W, ('iand', O()), ('adds', O()[:12])],
    'ixor': [('upd', E()), W, ('ixor', E()[3:9] + O()[:3])],
    'diffupd': [('upd', E()), W, ('diffupd', E()[3:9] + O()[:3])],
    'symupd': [('upd', E()), W, ('symupd', E()[3:19] + O()[3:19])],
    'binary': [('upd', E()), W, ('binary', O()), ('add', 3), ('di', 2)],
}
DICT = {k: LIST[k] for k in (
    'cleared', 'clearupd', 'clearadd', 'grow', 'grow2', 'grow mid', 'drain',
    'drain few', 'drain0', 'drain mid', 'remfill', 'rems', 'bulk',
    'bulk tail', 'bulk head', 'small', 'merge', 'split', 'split merge',
    'reset', 'fails', 'reads', 'alias', 'copied', 'pickled', 'deep')}
DICT.update({
    'overwrite': [('upd', E()), W, ('upd', E()[3:9]), ('adds', E()[12:14])],
    'ior': [('upd', E()), W, ('ior', O()[4:6] + E()[:3])],
    'ior big': [('upd', E(6)), W, ('ior', O() + E()[:3])],
    'views': [('upd', E()), W, ('delview', 3), ('delview', 9), W,
              ('delview', 0)],
    'dels': [('upd', E()), W, ('dels', 3, 15), ('adds', O()[4:7])],
    'setdefault': [('upd', E(6)), W, ('setdefault', O()[:10] + E()[:9])],
    'popdefault': [('upd', E()), W, ('popdefault', 21), ('popdefault', 22),
                   ('popdefault', 24), W, ('popdefault', 23)],
    'merged': [('upd', E()), W, ('merged', O()[:9] + E()[:2]), ('add', 9)],
})

# Everything asked of the container once, then a few changes: no answer may
# outlive what it was true for.
B = list(R(3, 37, 2))
P = [('upd', B), ('pry',)]
PRY = {
    'add end': [('add', 39)],
    'add start': [('add', 1)],
    'add mid': [('add', 20)],
    'del start': [('di', 0)],
    'del end': [('pop',)],
    'del mid': [('di', 6)],
    'end start': [('add', 39), ('di', 0)],
    'start end': [('di', 0), ('add', 39)],
    'first last': [('add', 1), ('pop',)],
    'last first': [('pop',), ('add', 1)],
    'swap': [('add', 20), ('rem', 21)],
    'swap2': [('rem', 21), ('add', 20)],
    'swap first': [('rem', 3), ('add', 2)],
    'swap last': [('add', 36), ('rem', 35)],
    'swap far': [('disc', 7), ('add', 30), ('add', 32), ('rem', 13)],
    'again': [('rem', 21), ('add', 21), ('rem', 35), ('add', 35)],
    'clear': [('clear',), ('upd', [i + 1 for i in B])],
    'clear adds': [('clear',), ('adds', [i + 1 for i in B])],
    'bulk': [('upd', [0, 1, 38, 39, 20])],
    'bulk del': [('upd', [38, 39]), ('di', 0), ('di', 0)],
    'more': [('upd', [i + 1 for i in B])],
    'reset': [('reset', 6), ('add', 20), ('di', 2)],
    'copy': [('copy',), ('add', 39), ('di', 0)],
    'deep': [('deepcopy',), ('add', 1), ('pop',)],
    'pickle': [('pickle',), ('add', 20), ('rem', 21)],
    'alias': [('alias', 3)],
    'fails': [('fails',), ('add', 20), ('fails',), ('rem', 19)],
}
PRY_LIST = {
    'iadd': [('iadd', [0, 38])],
    'imul': [('imul', 2), ('ds', None, None, 2)],
    'slice': [('ds', 0, 2), ('iadd', [38, 39])],
    'slice mid': [('ds', 4, 7), ('adds', [10, 12, 14])],
    'init': [('init', [i + 1 for i in B])],
    'plus': [('plus', [38]), ('di', 0)],
    'times': [('times',), ('add', 39), ('di', 0)],
}
PRY_SET = {
    'ior': [('ior', [0, 38])],
    'isub': [('isub', [3, 35]), ('ior', [2, 36])],
    'iand': [('iand', B[3:12]), ('ior', O()[:2])],
    'ixor': [('ixor', [3, 4, 35, 36])],
    'symupd': [('symupd', B[2:] + [2, 38])],
    'diffupd': [('diffupd', B[1:4]), ('adds', [2, 4, 6])],
    'slice': [('ds', 0, 2), ('adds', [38, 39])],
    'binary': [('binary', [0, 38]), ('add', 38), ('di', 0)],
}
PRY_DICT = {
    'overwrite': [('upd', B[3:6]), ('adds', B[-1:]), ('adds', B[:1])],
    'ior': [('ior', [0, 3, 38])],
    'views': [('delview', 0), ('add', 39)],
    'dels': [('dels', 0, 2), ('adds', [38, 39])],
    'setdefault': [('setdefault', [3, 4, 36]), ('pop',), ('pop',)],
    'popdefault': [('popdefault', 35), ('add', 36)],
    'merged': [('merged', [3, 38]), ('di', 0)],
}
for _t, _u in ((LIST, PRY), (ONLY_LIST, PRY_LIST), (ONLY_SET, PRY_SET),
               (DICT, PRY), (DICT, PRY_DICT)):
    _t.update(('pry ' + k, P + v) for k, v in _u.items())
# One unknown value asked for, a few changes, and (by the property's query)
# the same value asked for again.
ASK = ('end start', 'first last', 'swap', 'swap2', 'clear', 'bulk del',
       'del start', 'add start', 'copy')
for _t in (LIST, DICT):
    _t.update(('ask ' + k, [P[0], ('ask',)] + PRY[k]) for k in ASK)


def names(cls):
    if cls == 'dict':
        return list(DICT)
    extra = ONLY_LIST if cls == 'list' else ONLY_SET
    return [k for k in LIST if cls == 'list' or k not in (
        'init', 'init empty')] + list(extra)


def script(cls, name):
    if cls == 'dict':
        return DICT[name]
    if name in LIST:
        return LIST[name]
    return (ONLY_LIST if cls == 'list' else ONLY_SET)[name]


class Past:
    """A container and the sorted token indices it must hold."""

    def __init__(self, ctx, cls, n):
        from .common import new_list, new_set, new_dict
        self.ctx, self.cls = ctx, cls
        self.c = ctx.const_chain(n)
        self.vals = {}
        self.nv = 0
        self.load = 4
        self.s = {'list': new_list, 'set': new_set, 'dict': new_dict}[cls](
            ctx, 4)
        self.m = []           # indices into self.c, increasing
        self.phase = 0

    def t(self, ids):
        return [self.c[2 * i + self.phase] for i in ids]

    def new(self, ids):
        """Scripts may meet what an earlier one left: no duplicates."""
        if self.cls != 'list':
            return ids
        return [i for i in ids if 2 * i + self.phase not in self.m]

    def at(self, i):
        return i if i < len(self.m) else -1

    def have(self, ids):
        ids = [2 * i + self.phase for i in ids]
        self.m = sorted(set(self.m) | set(ids))

    def lose(self, ids):
        ids = {2 * i + self.phase for i in ids}
        self.m = [i for i in self.m if i not in ids]

    def pairs(self, ids):
        r = []
        for t in self.t(ids):
            self.nv += 1
            v = self.vals[t.uid] = self.ctx.val('pv%d' % self.nv)
            r.append((t, v))
        return r

    # -- one step

    def warm(self):
        s = self.s
        seq = s.keys() if self.cls == 'dict' else s
        for i in range(len(s)):
            seq[i]

    def upd(self, ids):
        ids = self.new(ids)
        self.s.update(self.pairs(ids) if self.cls == 'dict' else self.t(ids))
        self.have(ids)

    def adds(self, ids):
        if self.cls == 'dict':
            for k, v in self.pairs(ids):
                self.s[k] = v
        else:
            ids = self.new(ids)
            for t in self.t(ids):
                self.s.add(t)
        self.have(ids)

    def add(self, i):
        self.adds([i])

    def addw(self, ids):
        for i in ids:
            self.adds([i])
            self.warm()

    def ds(self, *a):
        sl = slice(*a)
        del self.s[sl]
        del self.m[sl]

    def dels(self, a, b):
        for i in self.m[a:b]:
            del self.s[self.c[i]]
        del self.m[a:b]

    def di(self, i):
        if not self.m:
            return
        i = self.at(i)
        if self.cls == 'dict':
            self.s.popitem(i)
        else:
            del self.s[i]
        del self.m[i]

    def delview(self, i):
        i = self.at(i)
        del self.s.keys()[i]
        del self.m[i]

    def pop(self, *a):
        if not self.m:
            return
        a = [self.at(i) for i in a]
        if self.cls == 'dict':
            self.s.popitem(*a)
        else:
            self.s.pop(*a)
        self.m.pop(*a)

    def rem(self, i):
        if 2 * i + self.phase not in self.m:
            return
        if self.cls == 'dict':
            del self.s[self.t([i])[0]]
        else:
            self.s.remove(self.t([i])[0])
        self.lose([i])

    def disc(self, i):
        if 2 * i + self.phase not in self.m:
            return
        if self.cls == 'dict':
            self.s.pop(self.t([i])[0])
        else:
            self.s.discard(self.t([i])[0])
        self.lose([i])

    def clear(self):
        self.s.clear()
        self.m = []

    def imul(self, k):
        self.s *= k
        self.m = [i for i in self.m for _ in range(k)]

    def iadd(self, ids):
        ids = self.new(ids)
        self.s += self.t(ids)
        self.have(ids)

    def plus(self, ids):
        ids = self.new(ids)
        self.s = self.s + self.t(ids)
        self.reset(4)
        self.have(ids)

    def times(self):
        self.s = self.s * 1
        self.reset(4)

    def reset(self, load):
        self.s._reset(load)

    def init(self, ids):
        if self.ctx.keyed:
            self.s.__init__(self.t(ids), key=self.ctx.key)
        else:
            self.s.__init__(self.t(ids))
        self.s._reset(4)
        self.m = []
        self.have(ids)

    def ior(self, ids):
        if self.cls == 'dict':
            self.s |= dict(self.pairs(ids))
        else:
            self.s |= set(self.t(ids))
        self.have(ids)

    def isub(self, ids):
        self.s -= set(self.t(ids))
        self.lose(ids)

    def diffupd(self, ids):
        self.s.difference_update(self.t(ids))
        self.lose(ids)

    def iand(self, ids):
        self.s &= set(self.t(ids))
        ids = {2 * i + self.phase for i in ids}
        self.m = [i for i in self.m if i in ids]

    def ixor(self, ids, f='__ixor__'):
        getattr(self.s, f)(set(self.t(ids)))
        ids = {2 * i + self.phase for i in ids}
        self.m = sorted(set(self.m) ^ ids)

    def symupd(self, ids):
        self.ixor(ids, 'symmetric_difference_update')

    def binary(self, ids):
        s, o = self.s, set(self.t(ids))
        for r in (s | o, s & o, s - o, s ^ o, s.union(o)):
            r.add(self.t([39])[0])
            list(r)
            r.clear()

    def setdefault(self, ids):
        for t in self.t(ids):
            self.nv += 1
            v = self.ctx.val('pv%d' % self.nv)
            self.vals.setdefault(t.uid, v)
            self.s.setdefault(t, v)
        self.have(ids)

    def popdefault(self, i):
        self.s.pop(self.t([i])[0], None)
        self.vals.pop(self.t([i])[0].uid, None)
        self.lose([i])

    def merged(self, ids):
        self.s = self.s | dict(self.pairs(ids))
        self.s._reset(4)
        self.have(ids)

    def fails(self):
        s, ctx = self.s, self.ctx
        big = len(s) + 7
        absent = ctx.const_chain(1, 3, 'absent')[0]
        d = self.cls == 'dict'
        for f in ((lambda: s.popitem(big)) if d else (lambda: s.pop(big)),
                  (lambda: s.peekitem(big)) if d else (lambda: s[big]),
                  lambda: s.__delitem__(absent if d else big),
                  lambda: s.__delitem__(absent if d else -big),
                  (lambda: s.pop(absent)) if d else (
                      lambda: s.remove(absent)),
                  lambda: s.index(absent),
                  lambda: s.keys()[::0] if d else s[::0]):
            st, r = ctx.call(f)
            if st != 'exc':
                ctx.fail('past: no exception for an impossible request')
        if not d:
            s.discard(absent)

    def reads(self):
        s, ctx = self.s, self.ctx
        if len(s) < 2:
            return
        t = self.c[self.m[len(self.m) // 2]]
        it = iter(s)
        next(it)
        rt = reversed(s)
        next(rt)
        seq = s.keys() if self.cls == 'dict' else s
        r = seq[2:9]
        r.append(None)
        del r[:]
        seq[:].clear()
        seq[::-1].clear()
        list(s.irange(t))
        next(s.irange(None, t, reverse=True), None)
        list(s.islice(2, 9))
        s.index(t)
        s.bisect(t)
        s.bisect_left(t)
        t in s
        s == s.copy()
        repr(s)
        if self.cls != 'dict':
            s.count(t)

    def pry(self):
        """Ask everything."""
        s, ctx = self.s, self.ctx
        d = self.cls == 'dict'
        seq = s.keys() if d else s
        n = len(s)
        views = (seq, s.values(), s.items()) if d else (s,)
        stored = [self.c[i] for i in self.m]
        absent = self.t([4, 20, 38])
        ask = ctx.call
        some = [stored[i] for i in (0, 1, n // 2, -2, -1)]
        for v in views:
            for i in (0, 1, n // 2, n // 2 + 1, -2, -1):
                v[i]
            v[:], v[::-1], v[2:9]
            list(v), list(reversed(v)), len(v), bool(v)
        for t in absent + some:
            self.probe(t)
        for a, b in ((2, 9), (None, None)):
            list(s.islice(a, b)), list(s.islice(a, b, True))
        repr(s), s.copy(), copy.copy(s)
        if d:
            for i in (0, 1, n // 2, -2, -1):
                s.peekitem(i)
            s == s.copy(), s == dict(s), s != {}
            s | {}
            seq == set(stored), seq <= set(stored), seq.isdisjoint(absent)
            if not ctx.keyed:
                seq & set(some), seq | set(some)
                seq - set(some), seq ^ set(absent)
        else:
            s == s.copy(), s != [], s == list(s)
            if self.cls == 'list':
                ask(lambda: s < s.copy()), ask(lambda: s >= s.copy())
                s + [], s * 1
                s < [stored[0]] if not ctx.keyed else None
            else:
                o = set(stored[::2])
                s < o, s <= o, s > o, s >= o, s.isdisjoint(o)
                s.issubset(o), s.issuperset(o), s.isdisjoint(absent)
                s | o, s & o, s - o, s ^ o, o - s
        for i in (n - 1, -1, 0, 5):
            seq[i]
        s.peekitem() if d else None

    def probe(self, t):
        s, ctx = self.s, self.ctx
        d = self.cls == 'dict'
        t in s
        for nm in ('index', 'count', 'bisect_left', 'bisect', 'bisect_right'):
            if not (d and nm == 'count'):
                ctx.call(getattr(s, nm), t)
        list(s.irange(t)), list(s.irange(None, t, (True, False), True))
        if ctx.keyed:
            k = ctx.key(t)
            for nm in ('bisect_key_left', 'bisect_key_right', 'bisect_key'):
                getattr(s, nm)(k)
            list(s.irange_key(k))
        if d:
            seq = s.keys()
            s.get(t), ctx.call(s.__getitem__, t), s.get(t, 0)
            t in seq, seq.count(t), ctx.call(seq.index, t)
            w = self.vals.get(t.uid, 0)
            (t, w) in s.items(), s.items().count((t, w))

    def ask(self):
        v = self.ctx.tok('again')
        self.probe(v)
        self.ctx.next_tok = v

    def alias(self, k):
        """Copies taken earlier are changed; the original stays."""
        s = self.s
        for r in (s.copy(), copy.copy(s)):
            r._reset(4)
            for j in range(k):
                if self.cls == 'dict':
                    r.popitem(0) if len(r) else None
                    r[self.t([39 - j])[0]] = self.ctx.val('alias')
                else:
                    r.pop(min(j, len(r) - 1)) if len(r) else None
                    r.add(self.t([39 - j])[0])
            r.clear()

    def copy(self):
        self.s = self.s.copy()
        self.s._reset(4)

    def pickle(self):
        self.s = pickle.loads(pickle.dumps(self.s))
        self.s._reset(4)

    def deepcopy(self):
        self.s = copy.deepcopy(self.s)
        self.s._reset(4)


def past(ctx, name, cls):
    """(container, contents) after the history; `a+b` runs b after a."""
    parts = name.split('+')
    p = Past(ctx, cls, 2 * N)
    for i, part in enumerate(parts):
        p.phase = i
        for step in script(cls, part):
            getattr(p, step[0])(*step[1:])
    if cls == 'dict':
        ctx.dvals = {p.c[i].uid: p.vals[p.c[i].uid] for i in p.m}
    return p.s, [p.c[i] for i in p.m]
