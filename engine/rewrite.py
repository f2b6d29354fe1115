"""Source instrumentation: the code under test is compiled from its current source with calls,
membership tests, f-strings, % and bitwise operators routed through the engine, so that Python's
own semantics stay in charge of everything else.
"""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import sys

RAW_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "isinstance", "issubclass", "getattr",
             "setattr", "hasattr", "delattr", "dir", "id", "repr", "print", "property", "staticmethod",
             "classmethod", "iter", "next", "enumerate", "zip", "reversed", "callable", "cast", "TypeVar",
             "__import__", "slice"}

FUNCS = {}  # filename -> number of instrumented functions (reported as "functions encoded")


def _name(id):
    return ast.Name(id=id, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, fname):
        self.depth = 0
        self.fname = fname
        self.count = 0

    # only function bodies are instrumented
    def _function(self, node):
        self.count += 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list] if self.depth else node.decorator_list
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        return node

    def visit_FunctionDef(self, node):
        return self._function(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.count += 1
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = d
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        f = node.func
        if isinstance(f, ast.Name) and f.id in RAW_CALLS:
            return node
        new = ast.Call(func=_name("__sx_call__"), args=[f] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.depth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__"
            return ast.copy_location(ast.Call(func=_name(fn), args=[node.left, node.comparators[0]],
                                              keywords=[]), node)
        if self.depth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = node.comparators[0]
            if isinstance(r, ast.Constant) and r.value in (True, False) and r.value is not None:
                fn = "__sx_is__" if isinstance(node.ops[0], ast.Is) else "__sx_isnot__"
                return ast.copy_location(ast.Call(func=_name(fn), args=[node.left, r], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        sl = node.slice
        sl = getattr(sl, "value", sl) if type(sl).__name__ == "Index" else sl
        if not self.depth or not isinstance(node.ctx, ast.Load) or isinstance(sl, (ast.Constant, ast.Slice, ast.Tuple)) \
                or type(sl).__name__ == "ExtSlice":
            return node
        return ast.copy_location(ast.Call(func=_name("__sx_item__"), args=[node.value, sl], keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        fn = {ast.BitAnd: "__sx_and__", ast.BitOr: "__sx_or__", ast.BitXor: "__sx_xor__",
              ast.Mod: "__sx_mod__"}.get(type(node.op))
        if fn:
            return ast.copy_location(ast.Call(func=_name(fn), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_AugAssign(self, node):
        simple = self._simple(node.target)
        self.generic_visit(node)
        if not self.depth or not simple:
            return node
        fn = {ast.BitAnd: "__sx_iand__", ast.BitOr: "__sx_ior__", ast.BitXor: "__sx_ixor__",
              ast.Mod: "__sx_mod__", ast.Add: "__sx_iadd__"}.get(type(node.op))
        if not fn:
            return node
        load = _load(node.target)
        return ast.copy_location(
            ast.Assign(targets=[node.target],
                       value=ast.Call(func=_name(fn), args=[load, node.value], keywords=[])), node)

    def _simple(self, t):
        if isinstance(t, ast.Name):
            return True
        if isinstance(t, ast.Attribute):
            return self._simple(t.value)
        if isinstance(t, ast.Subscript):
            return self._simple(t.value) and (self._simple(t.slice) or isinstance(t.slice, ast.Constant))
        return False

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value="")
                args.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
            elif isinstance(v, ast.Constant):
                args.append(v)
            else:
                return node
        return ast.copy_location(ast.Call(func=_name("__sx_fstr__"), args=args, keywords=[]), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            node.type = _name("Exception")
        return node


def _load(t):
    import copy

    t = copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


def rewrite_source(source, filename):
    tree = ast.parse(source, filename)
    r = Rewriter(filename)
    # keep the module docstring / __future__ imports where they are: only bodies change
    tree = r.visit(tree)
    ast.fix_missing_locations(tree)
    FUNCS[filename] = FUNCS.get(filename, 0) + r.count
    return tree


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in self.prefixes:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        spec.loader = Loader(name, spec.origin)
        return spec


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        tree = rewrite_source(data, path)
        return builtins.compile(tree, path, "exec", dont_inherit=True)


def install(prefixes):
    from . import intrinsics

    intrinsics.install_builtins()
    sys.meta_path.insert(0, Finder(set(prefixes)))
