"""Import sortedcontainers from the current source tree, instrumented.

The only source rewriting is `x.indices(...)` -> `__sx_indices__(x, ...)`
(so that slices of symbolic integers stay symbolic); the name `range` is bound
to a wrapper in the package's builtins.  Everything else is the file as is.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys

SRC = os.environ.get('SX_SRC', '/repo/src')
PKG = 'sortedcontainers'


class _Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'indices':
            return ast.copy_location(ast.Call(
                func=ast.copy_location(
                    ast.Name(id='__sx_indices__', ctx=ast.Load()), f),
                args=[f.value] + node.args, keywords=node.keywords), node)
        return node


class _Loader(importlib.abc.Loader):
    def __init__(self, path, overrides, is_pkg, rewrite):
        self.path = path
        self.overrides = overrides
        self.is_pkg = is_pkg
        self.rewrite = rewrite

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _CODE.get((self.path, self.rewrite))
        if code is None:
            with open(self.path, 'rb') as f:
                src = f.read()
            tree = ast.parse(src, self.path)
            if self.rewrite:
                tree = ast.fix_missing_locations(_Rewrite().visit(tree))
            code = compile(tree, self.path, 'exec')
            _CODE[self.path, self.rewrite] = code
        b = dict(vars(builtins))
        b.update(self.overrides)
        module.__dict__['__builtins__'] = b
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, src, overrides, rewrite):
        self.src = src
        self.overrides = overrides
        self.rewrite = rewrite

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        base = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(base):
            p, is_pkg = os.path.join(base, '__init__.py'), True
        else:
            p, is_pkg = base + '.py', False
        if not os.path.exists(p):
            return None
        loader = _Loader(p, self.overrides, is_pkg, self.rewrite)
        return importlib.util.spec_from_file_location(
            name, p, loader=loader,
            submodule_search_locations=[base] if is_pkg else None)


def load(overrides=None, rewrite=True, src=None):
    """Fresh import of the package with the given builtins overrides."""
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]
    finder = _Finder(src or SRC, overrides or {}, rewrite)
    sys.meta_path.insert(0, finder)
    try:
        return importlib.import_module(PKG)
    finally:
        sys.meta_path.remove(finder)


_CODE = {}          # path -> code object, compiled once per process


def load_symbolic(extra=None):
    from . import values
    ov = {'range': values.SymRange, '__sx_indices__': values.slice_indices}
    ov.update(extra or {})
    return load(ov)


_FINDER = {}


def fresh_symbolic(rope=False):
    """A newly executed instrumented package (no state leaks across paths)."""
    from . import values
    f = _FINDER.get(rope)
    if f is None:
        ov = {'range': values.SymRange,
              '__sx_indices__': values.slice_indices}
        if rope:
            from . import rope as R
            ov.update(R.BUILTINS)
        f = _FINDER[rope] = _Finder(SRC, ov, True)
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]
    sys.meta_path.insert(0, f)
    try:
        sc = importlib.import_module(PKG)
    finally:
        sys.meta_path.remove(f)
    if rope:
        for n, m in list(sys.modules.items()):
            if n.startswith(PKG + '.'):
                R_patch(m)
    return sc


def R_patch(m):
    from . import rope
    rope.patch(m)


def load_plain():
    """The unmodified package, as a user imports it."""
    sys.path.insert(0, SRC)
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]
    sys.dont_write_bytecode = True
    import sortedcontainers
    assert sortedcontainers.__file__.startswith(SRC)
    return sortedcontainers
