"""AST rewriting of the code under test (and of the harness) plus the import machinery that applies it.

The source is read from disk on every run; nothing is cached, so the executed program is
always the current one.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import hooks

NOHOOK = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}
MODELLED = {"re": "symex.lib_re", "datetime": "symex.lib_datetime", "textwrap": "_sx_textwrap",
            "functools": "symex.lib_functools", "time": "symex.lib_time", "io": "symex.lib_io",
            "itertools": "itertools"}
RECORD = []          # (module, qualname) of every function defined in recorded modules
SEEN = set()


def sx_enter(i):
    SEEN.add(i)


IOPS = {ast.Add: "iadd", ast.Sub: "isub", ast.Mult: "imul", ast.BitOr: "ior", ast.BitAnd: "iand", ast.BitXor: "ixor",
        ast.FloorDiv: "ifloordiv", ast.Div: "itruediv"}


def _sliced(x):
    return isinstance(x, ast.Slice) or isinstance(x, ast.Tuple) and any(isinstance(y, (ast.Slice, ast.Starred)) for y in x.elts)


class Rewriter(ast.NodeTransformer):
    def __init__(self, module, record):
        self.module, self.record, self.stack = module, record, []

    # -- things left alone
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arg(self, n):
        return n

    def _func(self, n):
        self.stack.append(n.name)
        q = ".".join(self.stack)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        self.stack.append("<locals>")
        n.body = [self.visit(s) for s in n.body]
        flat = []
        for s in n.body:
            flat.extend(s) if isinstance(s, list) else flat.append(s)
        n.body = flat
        self.stack.pop()
        self.stack.pop()
        if self.record:
            i = len(RECORD)
            RECORD.append((self.module, q))
            k = 0
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                    and isinstance(n.body[0].value.value, str):
                k = 1
            call = ast.Expr(ast.Call(ast.Name("_sx_enter", ast.Load()), [ast.Constant(i)], []))
            ast.copy_location(call, n.body[k] if k < len(n.body) else n)
            n.body.insert(k, ast.fix_missing_locations(call))
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r) if isinstance(r, list) else body.append(r)
        n.body = body
        self.stack.pop()
        return n

    # -- hooks
    def _h(self, name, args, src, keywords=()):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), list(args), list(keywords)), src)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in NOHOOK:
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        return self._h("_sx_call", [n.func] + n.args, n, n.keywords)

    def visit_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p)
            else:
                val = self.visit(p.value)
                spec = self.visit(p.format_spec) if p.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([val, ast.Constant(p.conversion), spec], ast.Load()))
        return ast.fix_missing_locations(self._h("_sx_fstr", parts, n))

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]
            name = {ast.In: "_sx_in", ast.NotIn: "_sx_not_in", ast.Is: "_sx_is",
                    ast.IsNot: "_sx_is_not"}.get(type(op))
            if name in ("_sx_is", "_sx_is_not"):
                # x is None / x is OPT stay cheap unless a proxy Boolean is involved
                return self._h(name, [n.left, n.comparators[0]], n)
            name = name or {ast.Eq: "_sx_eq", ast.NotEq: "_sx_ne", ast.LtE: "_sx_le", ast.GtE: "_sx_ge"}.get(type(op))
            if name and not isinstance(n.left, ast.Constant) and not isinstance(n.comparators[0], ast.Constant) \
                    or name in ("_sx_in", "_sx_not_in"):
                return self._h(name, [n.left, n.comparators[0]], n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self._h("_sx_mod", [n.left, n.right], n)
        name = {ast.Sub: "_sx_sub", ast.BitAnd: "_sx_and", ast.BitOr: "_sx_or", ast.BitXor: "_sx_xor"}.get(type(n.op))
        if name and not isinstance(n.left, ast.Constant) and not isinstance(n.right, ast.Constant):
            return self._h(name, [n.left, n.right], n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        pairs = []
        for k, x in zip(n.keys, n.values):
            if k is None:
                k, x = ast.Constant(None), ast.Call(ast.Name("_sx_star", ast.Load()), [x], [])
            pairs.append(ast.Tuple([k, x], ast.Load()))
        return ast.fix_missing_locations(self._h("_sx_dict", [ast.List(pairs, ast.Load())], n))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        if isinstance(n.key, ast.Constant):
            return n
        g = ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return ast.fix_missing_locations(self._h("_sx_dict", [ast.copy_location(g, n)], n))

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.elts):
            return n
        return ast.fix_missing_locations(self._h("_sx_set", [ast.List(n.elts, ast.Load())], n))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(n.elt, n.generators)
        return ast.fix_missing_locations(self._h("_sx_set", [ast.copy_location(g, n)], n))

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        op = IOPS.get(type(n.op))
        if op and isinstance(n.target, ast.Subscript) and not isinstance(n.target.slice, ast.Slice):
            # the right-hand side is evaluated after the item is read
            lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.value)
            if not any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(n.value)) \
                    and len(self.stack) and self.stack[-1] == "<locals>":
                return ast.fix_missing_locations(ast.copy_location(ast.Expr(self._h(
                    "_sx_augitem", [ast.Constant(op), n.target.value, n.target.slice, lam], n)), n))
        if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], self._h(
                "_sx_iset", [ast.Constant(op), ast.Name(n.target.id, ast.Load()), n.value], n)), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], self._h(
                "_sx_mod", [ast.Name(n.target.id, ast.Load()), n.value], n)), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not _sliced(n.slice):
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                return n
            if isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.operand, ast.Constant):
                return n
            return self._h("_sx_getitem", [n.value, n.slice], n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        item = lambda x: isinstance(x, ast.Subscript) and not _sliced(x.slice)
        if len(n.targets) == 1 and item(n.targets[0]):
            tg = n.targets[0]
            return ast.copy_location(ast.Expr(self._h(
                "_sx_assign", [n.value, tg.value, tg.slice], n)), n)
        if len(n.targets) > 1 and any(item(x) for x in n.targets):
            # a = b[k] = v: one statement for each target, from left to right
            tmp = "_sx_tmp%d" % n.lineno
            out = [ast.Assign([ast.Name(tmp, ast.Store())], n.value)]
            for tg in n.targets:
                val = ast.Name(tmp, ast.Load())
                out.append(ast.Expr(self._h("_sx_assign", [val, tg.value, tg.slice], n)) if item(tg) else ast.Assign([tg], val))
            return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in out]
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not _sliced(n.targets[0].slice):
            tg = n.targets[0]
            return ast.copy_location(ast.Expr(self._h("_sx_delitem", [tg.value, tg.slice], n)), n)
        return n

    # -- modelled library modules
    def visit_Import(self, n):
        out = []
        for al in n.names:
            if al.name in MODELLED:
                # ``import re`` / ``import datetime as dt``
                out.append(ast.copy_location(ast.Assign(
                    [ast.Name(al.asname or al.name, ast.Store())],
                    self._h("_sx_module", [ast.Constant(al.name)], n)), n))
            else:
                out.append(ast.copy_location(ast.Import([al]), n))
        return [ast.fix_missing_locations(x) for x in out]

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module in MODELLED:
            n.module = MODELLED[n.module]
        return n


def sx_module(name):
    import importlib
    return importlib.import_module(MODELLED[name])


def sx_setitem_stmt(o, i, val):
    hooks.sx_setitem(o, i, val)


ENV = {
    "_sx_call": hooks.sx_call, "_sx_fstr": hooks.sx_fstr, "_sx_in": hooks.sx_in,
    "_sx_not_in": hooks.sx_not_in, "_sx_is": hooks.sx_is, "_sx_is_not": hooks.sx_is_not,
    "_sx_sub": hooks.sx_sub, "_sx_and": hooks.sx_and, "_sx_or": hooks.sx_or, "_sx_xor": hooks.sx_xor,
    "_sx_dict": hooks.sx_dict, "_sx_star": hooks._Star, "_sx_set": hooks.sx_setdisplay,
    "_sx_eq": hooks.sx_eq, "_sx_ne": hooks.sx_ne, "_sx_le": hooks.sx_le, "_sx_ge": hooks.sx_ge,
    "_sx_mod": hooks.sx_mod, "_sx_getitem": hooks.sx_getitem, "_sx_setitem": hooks.sx_setitem,
    "_sx_assign": hooks.sx_assign, "_sx_delitem": hooks.sx_delitem, "_sx_augitem": hooks.sx_augitem, "_sx_iset": hooks.sx_iset,
    "_sx_module": sx_module, "_sx_enter": sx_enter,
}


def compile_source(src, filename, module, record):
    tree = ast.parse(src, filename)
    # names that look like class-private (_sx_call inside a class body) must not be mangled:
    tree = Rewriter(module, record).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, record):
        self.path, self.record = path, record

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        hooks.INSTRUMENTED.add(module.__name__)
        module.__dict__.update(ENV)
        exec(compile_source(src, self.path, module.__name__, self.record), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """roots: {top-level name: (directory holding it, record functions?)}"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path=None, target=None):
        if name == "_sx_textwrap":
            import textwrap
            return importlib.machinery.ModuleSpec(name, Loader(textwrap.__file__, False), origin=textwrap.__file__)
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base, record = self.roots[top]
        p = os.path.join(base, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            s = importlib.machinery.ModuleSpec(name, Loader(f, record), origin=f, is_package=True)
            s.submodule_search_locations = [p]
            s.has_location = True
            return s
        f = p + ".py"
        if os.path.exists(f):
            s = importlib.machinery.ModuleSpec(name, Loader(f, record), origin=f)
            s.has_location = True
            return s
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
