"""Task descriptions: one harness instance (shape) of one property."""
import importlib


class Task:
    __slots__ = ('mod', 'fn', 'params', 'keyed', 'cost', 'layer2')

    def __init__(self, mod, fn, params, keyed=False, cost=1, layer2=False):
        self.mod, self.fn, self.params = mod, fn, params
        self.keyed, self.cost, self.layer2 = keyed, cost, layer2

    def resolve(self):
        return getattr(importlib.import_module(self.mod), self.fn)

    def ident(self):
        p = ','.join('%s=%r' % kv for kv in sorted(self.params.items()))
        return '%s.%s(%s)%s' % (self.mod.split('.')[-1], self.fn, p,
                                '[key]' if self.keyed else '')

    def spec(self):
        return {'mod': self.mod, 'fn': self.fn, 'params': self.params,
                'keyed': self.keyed}
