"""Import hook: the current ncdiff sources are read from /repo/src on every
run, their AST is instrumented (see ops.py) and executed."""
import ast
import warnings
import importlib.abc
import importlib.machinery
import os
import sys
import types

SRC = os.environ.get('NCDIFF_SRC', '/repo/src')

METHODS = {'join', 'format', 'format_map', 'get', 'pop', 'setdefault',
           'update', 'add', 'discard', 'remove', 'index', 'count', 'replace',
           'startswith', 'endswith', 'find', 'rfind', 'split', 'rsplit',
           'strip', 'lstrip', 'rstrip', 'partition', 'rpartition',
           'removeprefix', 'removesuffix', 'difference', 'intersection',
           'union', 'issubset', 'issuperset', 'difference_update',
           'intersection_update', 'symmetric_difference', '__contains__'}
RENAME = {'re': 'symex.symre'}
functions = set()      # names of instrumented functions, for the evidence


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def op(self, name, *args, node=None):
        n = ast.Call(
            func=ast.Attribute(value=ast.Name('__symops__', ast.Load()),
                               attr=name, ctx=ast.Load()),
            args=list(args), keywords=[])
        return ast.copy_location(n, node)

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name in RENAME:
                m = RENAME[a.name]
                pkg, _, leaf = m.rpartition('.')
                out.append(ast.copy_location(ast.ImportFrom(
                    module=pkg, names=[ast.alias(leaf, a.asname or a.name)],
                    level=0), n))
            else:
                out.append(ast.copy_location(ast.Import(names=[a]), n))
        return out

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module in RENAME:
            n.module = RENAME[n.module]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        a, b = n.left, n.comparators[0]
        o = n.ops[0]
        if isinstance(o, ast.In):
            return self.op('contains', a, b, node=n)
        if isinstance(o, ast.NotIn):
            return ast.copy_location(ast.UnaryOp(
                ast.Not(), self.op('contains', a, b, node=n)), n)
        if any(isinstance(x, ast.Constant) for x in (a, b)):
            return n
        for cls, name in ((ast.Eq, 'eq'), (ast.NotEq, 'ne'), (ast.LtE, 'le'),
                          (ast.Lt, 'lt')):
            if isinstance(o, cls):
                return self.op(name, a, b, node=n)
        if isinstance(o, ast.GtE):
            # keep evaluation order
            return self.op('ge_', a, b, node=n)
        if isinstance(o, ast.Gt):
            return self.op('gt_', a, b, node=n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        for cls, name in ((ast.Sub, 'sub'), (ast.BitAnd, 'band'),
                          (ast.BitOr, 'bor'), (ast.Mod, 'mod')):
            if isinstance(n.op, cls):
                return self.op(name, n.left, n.right, node=n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(
                n.slice, (ast.Slice, ast.Tuple)) and not (
                isinstance(n.slice, ast.Constant) and
                not isinstance(n.slice.value, str)):
            return self.op('getitem', n.value, n.slice, node=n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            if not isinstance(t.slice, (ast.Slice, ast.Tuple, ast.Constant)):
                # evaluation order: value, then object, then key
                v = ast.Name('__symtmp__', ast.Store())
                return [
                    ast.copy_location(ast.Assign([v], n.value), n),
                    ast.copy_location(ast.Expr(self.op(
                        'setitem', t.value, t.slice,
                        ast.Name('__symtmp__', ast.Load()), node=n)), n)]
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return self.op('fstr', n, node=n)

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and not (
                isinstance(f.value, ast.Call) and
                isinstance(f.value.func, ast.Name) and
                f.value.func.id == 'super'):
            return ast.copy_location(ast.Call(
                func=ast.Attribute(value=ast.Name('__symops__', ast.Load()),
                                   attr='mcall', ctx=ast.Load()),
                args=[f.value, ast.Constant(f.attr)] + n.args,
                keywords=n.keywords), n)
        if isinstance(f, ast.Name) and f.id == 'set' and not n.keywords:
            return self.op('mkset', *n.args, node=n)
        return n


def instrument(source, filename, modname):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(source, filename)
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            functions.add(modname + '.' + node.name)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


def load_source(modname, filename):
    from . import ops
    with open(filename, encoding='utf-8') as f:
        code = instrument(f.read(), filename, modname)
    m = types.ModuleType(modname)
    m.__file__ = filename
    m.__dict__['__symops__'] = ops
    exec(code, m.__dict__)
    sys.modules[modname] = m
    return m


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != 'ncdiff' and not name.startswith('ncdiff.'):
            return None
        if name.startswith('ncdiff.tests'):
            return None
        rel = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(rel):
            fn = os.path.join(rel, '__init__.py')
            if not os.path.isfile(fn):
                return None
            return importlib.machinery.ModuleSpec(
                name, self, origin=fn, is_package=True)
        fn = rel + '.py'
        if not os.path.isfile(fn):
            return None
        return importlib.machinery.ModuleSpec(name, self, origin=fn)

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        from . import ops
        fn = m.__spec__.origin
        m.__file__ = fn
        if m.__spec__.submodule_search_locations is not None:
            m.__path__ = [os.path.dirname(fn)]
        with open(fn, encoding='utf-8') as f:
            code = instrument(f.read(), fn, m.__name__)
        m.__dict__['__symops__'] = ops
        exec(code, m.__dict__)


_installed = False


def install():
    global _installed
    if _installed:
        return
    assert not any(k == 'ncdiff' or k.startswith('ncdiff.')
                   for k in sys.modules)
    sys.meta_path.insert(0, Finder())
    _installed = True
