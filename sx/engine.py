"""Path-exploring symbolic execution engine on top of z3.

CPython runs the code under test; symbolic values (see values.py) ask the
engine for the truth of conditions.  The engine lets z3 decide which outcomes
are feasible under the current path condition and explores all of them by
re-executing the harness along recorded decision prefixes.
"""
import time
import z3

from .values import not_term


class PathAbort(BaseException):
    """The current path's assumptions are unsatisfiable; drop the path."""


class Inconclusive(BaseException):
    """The engine cannot decide something within its limits."""


class Found(BaseException):
    """An assertion can be violated; carries the label and the model."""

    def __init__(self, label, detail=''):
        BaseException.__init__(self, label)
        self.label = label
        self.detail = detail


class Cut(BaseException):
    """The time allotted to this harness instance is used up."""


class Diverged(BaseException):
    """A path exceeded its step or time limit (possible non-termination)."""


FORCED, OPEN, DONE, NOTE = 0, 1, 2, 3


class _Dec:
    __slots__ = ('kind', 'val', 'alt', 'expr', 'tag')

    def __init__(self, kind, val, alt=None, expr=None, tag=None):
        self.kind = kind
        self.val = val
        self.alt = alt
        self.expr = expr
        self.tag = tag


class Engine:
    def __init__(self, max_paths=200000, max_decisions=20000, max_values=400,
                 query_timeout_ms=60000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.trace = []
        self.pos = 0
        self.model = None
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.max_values = max_values
        # statistics
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.forced = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.concrete_obligations = 0
        self.memo = {}

    # -- solver -----------------------------------------------------------

    def _check(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive('solver answered unknown: %s'
                               % self.solver.reason_unknown())
        return r == z3.sat

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()

    # -- path condition ---------------------------------------------------

    def _replaying(self):
        return self.pos < len(self.trace)

    def branch(self, e, tag=None):
        """Truth of z3 condition `e` on this path (forking if both possible)."""
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            return d.val
        if len(self.trace) > self.max_decisions:
            raise Diverged('more than %d decisions' % self.max_decisions)
        self._ensure_model()
        v = z3.is_true(self.model.eval(e, model_completion=True))
        ne = not_term(e)
        s = self.solver
        s.push()
        s.add(ne if v else e)
        if not self._check():
            s.pop()
            self.forced += 1
            self.trace.append(_Dec(FORCED, v, tag=tag))
        else:
            alt = s.model()
            s.pop()
            s.push()
            s.add(e if v else ne)
            self.decisions += 1
            self.trace.append(_Dec(OPEN, v, alt, (e, ne), tag))
        self.pos += 1
        return v

    def assume(self, e):
        if self.pos < len(self.trace):
            self.pos += 1
            return
        self.trace.append(_Dec(NOTE, True))
        self.pos += 1
        self.solver.add(e)
        if self.model is not None and z3.is_true(
                self.model.eval(e, model_completion=True)):
            return
        self.model = None
        self._ensure_model()

    def prove(self, e, label, detail='', count=1):
        """Ask the solver to refute `not e` under the path condition."""
        if self.pos < len(self.trace):
            self.pos += 1
            return
        self.obligations += count
        s = self.solver
        s.push()
        s.add(not_term(e))
        sat = self._check()
        if sat:
            self.model = s.model()
            raise Found(label, detail)
        s.pop()
        self.trace.append(_Dec(NOTE, True))
        self.pos += 1

    def fail(self, label, detail=''):
        """An assertion that is false on this whole path."""
        self._ensure_model()
        raise Found(label, detail)

    def concretize(self, e, limit=None):
        """A concrete value of integer term `e`, forking over all of them."""
        limit = limit or self.max_values
        n = 0
        while True:
            if self.pos < len(self.trace):
                v = self.trace[self.pos].tag
            else:
                self._ensure_model()
                v = self.model.eval(e, model_completion=True).as_long()
            if self.branch(e == v, tag=v):
                return v
            n += 1
            if n > limit:
                raise Inconclusive('more than %d values for one integer' % limit)

    # -- exploration ------------------------------------------------------

    def _backtrack(self):
        trace = self.trace
        s = self.solver
        while trace:
            d = trace[-1]
            if d.kind == OPEN:
                s.pop()
                s.push()
                s.add(d.expr[1] if d.val else d.expr[0])
                d.val = not d.val
                d.kind = DONE
                self.model = d.alt
                d.alt = d.expr = None
                return True
            if d.kind == DONE:
                s.pop()
            trace.pop()
        return False

    def explore(self, run, on_path=None, deadline=None):
        """Call `run()` once per feasible path.

        `on_path(engine)` is called at the end of each completed path, with
        `engine.model` a model of its path condition.
        """
        while True:
            self.pos = 0
            self.memo = {}
            try:
                run()
                self.paths += 1
                self._ensure_model()
                if on_path is not None:
                    on_path(self)
            except PathAbort:
                self.aborted += 1
            if self.paths + self.aborted > self.max_paths:
                raise Inconclusive('more than %d paths' % self.max_paths)
            if not self._backtrack():
                return
            if deadline is not None and time.time() > deadline:
                raise Cut()
