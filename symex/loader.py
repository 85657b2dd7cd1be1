"""Load the current sources of /repo under the prefix `S.`, rewritten for symbolic execution.

Nothing is cached: every run reads the working tree, so the encoding follows the code.
"""
import ast
import builtins
import os
import sys
import types
import numpy as np
from . import shim

REPO = os.environ.get('VERIF_REPO', '/repo')


class Rewriter(ast.NodeTransformer):
    OPS = {ast.Div: '__sx_div__', ast.Pow: '__sx_pow__', ast.Mult: '__sx_mul__', ast.Add: '__sx_add__',
           ast.Sub: '__sx_sub__', ast.Mod: '__sx_mod__'}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        f = self.OPS.get(type(node.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [node.left, node.right], []),
                                     node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'astype':
            return ast.copy_location(ast.Call(ast.Name('__sx_astype__', ast.Load()),
                                              [node.func.value] + node.args, node.keywords), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        f = {ast.Div: '__sx_div__', ast.Pow: '__sx_pow__'}.get(type(node.op))
        if f and isinstance(node.target, ast.Name):
            new = ast.Assign([ast.Name(node.target.id, ast.Store())],
                             ast.Call(ast.Name('__sx_i' + f[5:], ast.Load()),
                                      [ast.Name(node.target.id, ast.Load()), node.value], []))
            return ast.copy_location(new, node)
        return node


def _idiv(a, b):
    if isinstance(a, np.ndarray):
        if a.dtype != object and shim.has_sym(b):
            raise shim.Unsupported('in-place division')
        a /= b
        return a
    return shim.sx_div(a, b)


def _ipow(a, b):
    if isinstance(a, np.ndarray):
        a **= b
        return a
    return shim.sx_pow(a, b)


ROOTS = ('primpy', 'cobaya_wrapper', 'bin')


class Loader:
    """Symbolically loaded modules of the repository."""

    def __init__(self, repo=None, stubs=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}
        self.stubs = {'numpy': shim.snp, 'scipy': shim.make_scipy(), 'math': shim.make_math(),
                      'warnings': shim.WARN}
        try:
            import pyoscode
        except Exception:
            pyoscode = None
        self.stubs['pyoscode'] = shim.Namespace('pyoscode', pyoscode,
                                                {'solve': shim.pyoscode_solve_stub})
        self.stubs['packaging'] = shim.packaging_stub()
        self.stubs.update(stubs or {})
        b = dict(builtins.__dict__)
        b.update(__import__=self.imp, isinstance=shim.sx_isinstance, float=shim.SymFloat,
                 complex=shim.SymComplex,
                 int=shim.SymInt, max=shim.sx_max, min=shim.sx_min, pow=shim.sx_pow_builtin)
        self.builtins = b

    def find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            q = os.path.join(p, '__init__.py')
            return (q if os.path.exists(q) else None), p
        if os.path.exists(p + '.py'):
            return p + '.py', None
        return None, None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        src, pkg = self.find(name)
        if src is None and pkg is None:
            raise ModuleNotFoundError(name)
        parent = None
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        m = types.ModuleType('S.' + name)
        m.__dict__['__builtins__'] = self.builtins
        m.__sx_name__ = name
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [pkg]
        m.__dict__.update(__sx_div__=shim.sx_div, __sx_pow__=shim.sx_pow, __sx_mul__=shim.sx_mul,
                          __sx_add__=shim.sx_add, __sx_mod__=shim.sx_mod, __sx_sub__=shim.sx_sub, __sx_idiv__=_idiv,
                          __sx_ipow__=_ipow, __sx_astype__=shim.sx_astype)
        self.mods[name] = m
        if src:
            with open(src) as f:
                text = f.read()
            self.sources[name] = text
            m.__file__ = src
            tree = ast.parse(text, src)
            tree = ast.fix_missing_locations(Rewriter().visit(tree))
            try:
                exec(compile(tree, src, 'exec'), m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top in ROOTS and any(self.find(name)):
            m = self.load(name)
            for a in fromlist or ():
                if a != '*' and not hasattr(m, a) and any(self.find(name + '.' + a)):
                    self.load(name + '.' + a)
            return m if fromlist else self.load(top)
        if top in self.stubs:
            st = self.stubs[top]
            if '.' not in name or not fromlist:
                return st
            for part in name.split('.')[1:]:
                st = getattr(st, part)
            return st
        return builtins.__import__(name, globals, locals, fromlist, 0)


def real(name, repo=None):
    """The unmodified module from the working tree (for replays and for validating the encoding)."""
    import importlib
    r = repo or REPO
    if sys.path[0] != r:
        sys.path.insert(0, r)
    m = importlib.import_module(name)
    return m
