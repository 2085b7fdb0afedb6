"""Import of the code under test with hooks on the operations which inspect texts.

The source read from the repository is parsed, and the few operations that the
interpreter performs on the raw buffer of a text are redirected to symstr.sx_*:
``in``, subscripts, ``.get``, ``.format``, ``.join``, ``%``, ``+``, f-strings and the
methods of a plain text which look for another one;
``re`` and ``glob`` are replaced, and ``int``, ``float``, ``hash``, ``getattr`` and
``hasattr`` (only when called) shadowed.  On ordinary values every hook does exactly
what the operation did.
"""
import ast
import importlib.machinery
import sys

from . import symstr

SHADOW = {'int': 'sx_int', 'float': 'sx_float', 'hash': 'sx_hash', 'repr': 'sx_repr', 'getattr': 'sx_getattr', 'hasattr': 'sx_hasattr'}
METHODS = {'get': 'sx_mget', 'format': 'sx_format', 'join': 'sx_join'}
# (methods of a plain text given a text with symbolic characters)
TEXTS = ('startswith', 'endswith', 'find', 'index', 'rfind', 'rindex', 'count', 'replace', 'split', 'rsplit', 'partition', 'rpartition',
         'strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix')


def name(n):
    return ast.Name(id='_' + n + '_', ctx=ast.Load())


class Hooks(ast.NodeTransformer):

    def call(self, node, hook, *args):
        new = ast.Call(func=name(hook), args=list(args), keywords=[])
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            new = self.call(node, 'sx_in', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                new = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=new), node)
            return new
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self.call(node, 'sx_get', node.value, node.slice)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self.call(node, 'sx_fstr', node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.conversion in (ord('r'), ord('a')):
            node.value = self.call(node.value, 'sx_deep', node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call(node, 'sx_mod', node.left, node.right)
        if isinstance(node.op, ast.Add):
            return self.call(node, 'sx_add', node.left, node.right)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            # (not on super())
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return node
            if isinstance(f.value, ast.Name) and f.value.id in ('collectors', 'config', 'reporting', 'observer', 'proxies', 'dump'):
                return node
            return ast.copy_location(ast.Call(func=name(METHODS[f.attr]), args=[f.value] + node.args, keywords=node.keywords), node)
        if isinstance(f, ast.Attribute) and f.attr in TEXTS and node.args and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            return ast.copy_location(ast.Call(func=name('sx_text'), args=[ast.copy_location(ast.Constant(f.attr), node), f.value] + node.args,
                                              keywords=node.keywords), node)
        if isinstance(f, ast.Name) and f.id in SHADOW:
            return ast.copy_location(ast.Call(func=name(SHADOW[f.id]), args=node.args, keywords=node.keywords), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Name) and node.value.id == 'str' and isinstance(node.ctx, ast.Load) and not node.attr.startswith('__'):
            # (an unbound method of texts)
            return self.call(node, 'sx_unbound', ast.copy_location(ast.Constant(node.attr), node))
        return node

    def visit_Import(self, node):
        out = [node]
        for a in node.names:
            if a.name in ('re', 'glob'):
                out.append(ast.copy_location(ast.Assign(
                    targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())], value=name('sx_' + a.name)), node))
        return out

    def visit_ImportFrom(self, node):
        out = [node]
        if node.module in ('re', 'glob') and not node.level:
            for a in node.names:
                out.append(ast.copy_location(ast.Assign(
                    targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                    value=ast.Attribute(value=name('sx_' + node.module), attr=a.name, ctx=ast.Load())), node))
        return out


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = ast.fix_missing_locations(Hooks().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        d = module.__dict__
        for n in list(SHADOW.values()) + list(METHODS.values()) + ['sx_in', 'sx_get', 'sx_fstr', 'sx_mod', 'sx_add', 'sx_deep', 'sx_text', 'sx_unbound']:
            d['_' + n + '_'] = getattr(symstr, n)
        d['_sx_re_'] = symstr.RE
        d['_sx_glob_'] = symstr.GLOB
        super().exec_module(module)


class Finder:

    def __init__(self, src):
        self.src = src

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'footprints' and not fullname.startswith('footprints.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path or [self.src], target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(fullname, spec.loader.path)
        return spec


def install(src):
    sys.meta_path.insert(0, Finder(src))
