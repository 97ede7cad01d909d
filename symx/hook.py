"""Loading of the modules under test for symbolic execution.

Updates of a minimum or maximum written as a branch (`if v < m: m = v`, `v if v < m else m`) are compiled so that a
harness that merges min()/max() merges them too: one if-then-else value instead of two paths.  The statement keeps its
meaning; without merging (and in every replay) it is the plain branch.  Modules are always compiled from source, so
that no stale byte code is executed and none is written."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys

from . import core, patch

ORDER = (ast.Lt, ast.LtE, ast.Gt, ast.GtE)


def _plain(e):
    return all(isinstance(n, (ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.expr_context))
               for n in ast.walk(e))


def _key(e):
    return ast.dump(e).replace("ctx=Store()", "ctx=Load()")


def _order(test):
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ORDER) \
            and _plain(test.left) and _plain(test.comparators[0]):
        return {_key(test.left), _key(test.comparators[0])}
    return None


def _load(e):
    e = ast.parse(ast.unparse(e), mode="eval").body
    return e


class _Merge(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def _call(self, node, test, yes, no):
        lam = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                          body=_load(e)) for e in (yes, no)]
        c = ast.Call(func=ast.Name("__symx_select__", ast.Load()), args=[test] + lam, keywords=[])
        return c

    def _fix(self, new, old):
        for n in ast.walk(new):
            if hasattr(n, "lineno") or isinstance(n, (ast.expr, ast.stmt)):
                n.lineno, n.end_lineno = old.lineno, old.lineno
                n.col_offset, n.end_col_offset = 0, 0
        return new

    def visit_If(self, node):
        self.generic_visit(node)
        if self.depth and not node.orelse and len(node.body) == 1 and isinstance(node.body[0], ast.Assign) \
                and len(node.body[0].targets) == 1:
            a, keys = node.body[0], _order(node.test)
            if keys and _plain(a.targets[0]) and _plain(a.value) and len(keys) == 2 \
                    and {_key(a.targets[0]), _key(a.value)} == keys:
                v = self._call(node, node.test, a.value, a.targets[0])
                return self._fix(ast.Assign(targets=a.targets, value=v), node)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        keys = _order(node.test)
        if self.depth and keys and len(keys) == 2 and _plain(node.body) and _plain(node.orelse) \
                and {_key(node.body), _key(node.orelse)} == keys:
            return self._fix(self._call(node, node.test, node.body, node.orelse), node)
        return node


def select(cond, yes, no):
    if patch.E.merge and type(cond) is core.SymBool:
        return patch._pick(cond, yes(), no())
    return yes() if cond else no()


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        try:
            tree = _Merge().visit(tree)
            return compile(tree, path, "exec", dont_inherit=True)
        except (SyntaxError, ValueError, TypeError):
            return compile(self.get_data(path), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] not in patch.PREFIXES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith(".py") \
                or not os.path.realpath(spec.origin).startswith(self.root):
            return spec
        loader = _Loader(fullname, spec.origin)
        s = importlib.machinery.ModuleSpec(fullname, loader, origin=spec.origin,
                                           is_package=spec.submodule_search_locations is not None)
        s.submodule_search_locations = spec.submodule_search_locations
        s.has_location = True
        return s


def install(root):
    builtins.__symx_select__ = select
    sys.meta_path.insert(0, _Finder(root))
