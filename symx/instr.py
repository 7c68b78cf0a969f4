"""Import hook: modules of the code under test are compiled from the current source in /repo with
calls, membership tests, subscripts, formatting and displays routed through symx.hooks."""
import ast
import copy
import sys
import os
import importlib.abc
import importlib.util
import importlib.machinery
from . import hooks

DIRECT = {"super", "locals", "globals", "dir", "vars", "eval", "exec", "__sx_call__"}


def _simple(n):
    """evaluating it twice is the same as once"""
    if isinstance(n, ast.Attribute):
        return _simple(n.value)
    return isinstance(n, (ast.Name, ast.Constant))


class T(ast.NodeTransformer):
    def __init__(self, modname=""):
        self.modname = modname
        self.stack = []

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _name(self, n):
        return ast.Name(n, ast.Load())

    def _call(self, n, args):
        return ast.Call(self._name(n), args, [])

    # annotations stay untouched
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        self.stack.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        node.body = [b for x in node.body for b in (x if isinstance(x, list) else [x])]
        qual = ".".join(self.stack)
        self.stack.pop()
        if self.modname:
            i = 1 if ast.get_docstring(node) is not None and len(node.body) > 1 else 0
            hit = ast.Expr(self._call("__sx_enter__", [ast.Constant(self.modname + ":" + qual)]))
            node.body.insert(i, ast.copy_location(hit, node.body[i]))
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in DIRECT:
            return node
        return ast.copy_location(ast.Call(self._name("__sx_call__"), [f] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            m = {ast.In: "__sx_in__", ast.NotIn: "__sx_not_in__", ast.Is: "__sx_is__", ast.IsNot: "__sx_is_not__"}
            h = m.get(type(node.ops[0]))
            if h:
                return ast.copy_location(self._call(h, [node.left, node.comparators[0]]), node)
        return node

    def _idx(self, sl):
        if isinstance(sl, ast.Slice):
            n = lambda x: x if x is not None else ast.Constant(None)
            return self._call("__sx_slice__", [n(sl.lower), n(sl.upper), n(sl.step)])
        if isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
            return None
        return sl

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            i = self._idx(node.slice)
            if i is not None:
                return ast.copy_location(self._call("__sx_getitem__", [node.value, i]), node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            v = self.visit(node.value)
            return ast.copy_location(ast.Expr(self._call("__sx_setitem__", [self.visit(t.value), self.visit(t.slice), v])), node)
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(self._call("__sx_fstr__", parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call("__sx_mod__", [node.left, node.right]), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys) and node.keys:
            return node
        prs = []
        for k, v in zip(node.keys, node.values):
            prs.append(ast.Tuple([self._name("__sx_star__") if k is None else k, v], ast.Load()))
        if not node.keys:
            return ast.copy_location(self._call("__sx_newdict__", []), node)
        return ast.copy_location(self._call("__sx_dict__", [ast.List(prs, ast.Load())]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            self._call("__sx_dict__", [ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("__sx_set__", [ast.ListComp(node.elt, node.generators)]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(self._call("__sx_set__", [ast.List(node.elts, ast.Load())]), node)

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Subscript) and _simple(t.value) and _simple(t.slice):
            old = ast.Subscript(copy.deepcopy(t.value), copy.deepcopy(t.slice), ast.Load())
            new = ast.Assign([ast.Subscript(t.value, t.slice, ast.Store())], self._call("__sx_iop__", [ast.Constant(type(node.op).__name__), old, node.value]))
            return self.visit(ast.fix_missing_locations(ast.copy_location(new, node)))
        self.generic_visit(node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = self._name("Exception")
        return node


ENTERED = set()
hooks.HOOKS["__sx_enter__"] = ENTERED.add
hooks.HOOKS["__sx_slice__"] = slice
hooks.HOOKS["__sx_newdict__"] = hooks.SxDict


def compile_source(src, path, modname=""):
    tree = ast.parse(src, path)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf-8") as f:
            return compile_source(f.read(), path, fullname if fullname.startswith("aas_test_engines") else "")

    def exec_module(self, module):
        hooks.INSTRUMENTED.add(module.__name__)
        module.__dict__.update(hooks.HOOKS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # {top-level package: directory containing it}

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(fullname, p), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=Loader(fullname, base + ".py"))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
