"""Import hook: compiles the code under test (and the harnesses) from source on
every run, with operators that CPython would resolve natively redirected to
the symbolic run-time."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings
from . import shadow

warnings.simplefilter('ignore')

METHODS = shadow.STR_METHODS


class Tx(ast.NodeTransformer):
    def _call(self, node, fn, args):
        c = ast.Call(func=ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()),
                                        attr=fn, ctx=ast.Load()),
                     args=args, keywords=[])
        return ast.fix_missing_locations(ast.copy_location(c, node))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call(node, 'mod', [node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._call(node, 'mod', [ast.Name(id=node.target.id, ctx=ast.Load()), node.value])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = 'contains' if isinstance(node.ops[0], ast.In) else 'not_contains'
            return self._call(node, fn, [node.left, node.comparators[0]])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            c = self._call(node, 'callm', [f.value, ast.Constant(value=f.attr)] + node.args)
            c.keywords = node.keywords
            return ast.fix_missing_locations(c)
        if isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1 \
                and not node.keywords:
            return self._call(node, 'typeof', node.args)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None \
                    else ast.Constant(value='')
                parts.append(self._call(node, 'fval', [
                    val, ast.Constant(value=v.conversion), spec]))
        return self._call(node, 'fstr', parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        return self._call(node, 'SymDict', [node])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                             generators=node.generators)
        return self._call(node, 'SymDict', [g])

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, 'SymSet', [ast.List(elts=node.elts, ctx=ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self._call(node, 'SymSet', [g])

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name)
                                 and node.type.id == 'BaseException'):
            node.type = ast.copy_location(ast.Name(id='Exception', ctx=ast.Load()), node)
            ast.fix_missing_locations(node)
        return node


class DictFix(ast.NodeTransformer):
    """{k: v} displays become lists of pairs so that symbolic keys need no hash."""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'SymDict' and \
                isinstance(node.func.value, ast.Name) and node.func.value.id == '__sx__' \
                and node.args and isinstance(node.args[0], ast.Dict):
            d = node.args[0]
            if d.keys and all(k is not None for k in d.keys):
                node.args = [ast.fix_missing_locations(ast.copy_location(ast.List(
                    elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                          for k, v in zip(d.keys, d.values)], ctx=ast.Load()), d))]
            elif not d.keys:
                node.args = []
        return node


def transform(source, filename):
    tree = ast.parse(source, filename)
    # keep module docstrings and __future__ imports untouched
    tree = Tx().visit(tree)
    tree = DictFix().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


FUNCS = set()       # (file, function) executed symbolically


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, is_pkg):
        self.fullname, self.path, self.is_pkg = fullname, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = transform(src, self.path)
        module.__dict__['__builtins__'] = shadow.BUILTINS
        module.__dict__['__sx__'] = shadow
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots        # {top-level package: directory containing it}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *fullname.split('.'))
        for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(p):
                ld = Loader(fullname, p, pkg)
                spec = importlib.machinery.ModuleSpec(fullname, ld, origin=p, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None


def install(repo, verif):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder({'gerber': repo, 'harness': verif}))
