"""Cutting a call short: an exception raised at the Nth interruption point inside the library, or a nearly exhausted stack.

Interruption points are where the interpreter delivers a KeyboardInterrupt and where most allocations happen: on entry to a
function, after a call returns, and at each turn of a loop.  They are put there by the importer below, which compiles the
library's modules with a harmless extra call at those places (Python's own trace and monitoring hooks are not used: raising
from them corrupts the interpreter now and then, CPython 3.12.3).
"""
import ast
import builtins
import importlib.machinery
import sys

from .base import BATCH, PKG, SRC, SimHang

PREFIX = PKG + '/'


class Injected:
    def __init__(self):
        self.fired = None
        self.count = 0


class State:
    hit = None      # called with (name of the code, kind of point) while a cut is armed
    now = None      # the Injected of the latest cut


S = State()


def _pt():
    if S.hit is not None:
        S.hit(sys._getframe(1).f_code.co_name, 'entry')


def _rt(x):
    if S.hit is not None:
        S.hit(sys._getframe(1).f_code.co_name, 'return')
    return x


class Points(ast.NodeTransformer):
    depth = 0

    def point(self, node):
        return ast.copy_location(ast.Expr(ast.copy_location(ast.Call(ast.copy_location(ast.Name('__dst_pt__', ast.Load()), node), [], []), node)), node)

    def visit_FunctionDef(self, node):
        self.depth += 1
        body = [self.visit(x) for x in node.body]
        self.depth -= 1
        k = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
        node.body = body[:k] + [self.point(node.body[k] if k < len(node.body) else node)] + body[k:]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(x) for x in node.body]
        self.depth = d
        return node

    def loop(self, node):
        self.generic_visit(node)
        if self.depth:
            node.body = [self.point(node.body[0])] + node.body
        return node

    visit_For = visit_While = loop

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.depth:
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__dst_rt__', ast.Load()), node), [node], []), node)
        return node


def with_points(source, path):
    tree = ast.parse(source, path)
    return compile(ast.fix_missing_locations(Points().visit(tree)), path, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return with_points(self.get_data(path), path)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'jadn' and not name.startswith('jadn.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path or [SRC])
        if spec and spec.origin and spec.origin.startswith(PREFIX) and spec.origin.endswith('.py'):
            spec.loader = Loader(name, spec.origin)
        return spec


def install():
    builtins.__dst_pt__ = _pt
    builtins.__dst_rt__ = _rt
    sys.meta_path.insert(0, Finder)


def cut(fn, kind, n, *args, **kw):
    """Run fn with a cut of the given kind after n events (n counts interruption points, or stack frames left).
    -> (Injected, outcome) where the outcome is ('ok', value) or ('err', exception)."""
    S.now = inj = Injected()
    if kind == 'stack':
        depth, f = 0, sys._getframe()
        while f:
            depth, f = depth + 1, f.f_back
        old = sys.getrecursionlimit()
        try:
            try:
                sys.setrecursionlimit(depth + 3 + n)
            except RecursionError:
                pass
            try:
                r = ('ok', fn(*args, **kw))
            finally:
                sys.setrecursionlimit(old)
            return inj, r
        except RecursionError as e:
            inj.fired = 'stack'
            return inj, ('err', e)
        except BaseException as e:      # noqa
            return inj, ('err', e)
    assert '__dst_pt__' in builtins.__dict__, 'library was not loaded with interruption points'
    exc = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}.get(kind)

    def hit(name, what):
        inj.count += 1
        if exc and inj.count == n + 1:
            inj.fired = f'{kind}@{name}:{what}'
            S.hit = None
            raise exc('injected')
        if inj.count > 3000000:
            S.hit = None
            raise SimHang('no progress')
    S.hit = hit
    try:
        r = ('ok', fn(*args, **kw))
    except BaseException as e:      # noqa
        r = ('err', e)
    finally:
        S.hit = None
    return inj, r
