"""Loads the code under test from source, instrumented, into this process.

The AST rewriting changes no behaviour on ordinary values: it only redirects the
operations that CPython would otherwise hand to C code that rejects proxies.
"""

import ast
import builtins
import importlib
import os
import sys
import types

from . import rt
from .sym import isinstance_real

REPO = os.environ.get("VERIF_REPO", "/repo")

STDLIB_FROM_SOURCE = {"colorsys", "html", "textwrap", "bisect", "heapq"}
SHIMS = {
    "re": rt.ReShim(), "functools": rt.FunctoolsShim(), "math": rt.MathShim(), "io": rt.IoShim(),
    "codecs": rt.CodecsShim(), "unicodedata": rt.RealizeShim("unicodedata"),
}
RT_NAME = "__rt__"


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.cls = []

    def rt(self, fn, *args):
        return ast.Call(
            func=ast.Attribute(value=ast.Name(id=RT_NAME, ctx=ast.Load()), attr=fn, ctx=ast.Load()),
            args=list(args), keywords=[],
        )

    # -- structure
    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        qual = self.mod + ":" + ".".join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit_args(node.args)
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
        body.insert(at, ast.Expr(self.rt("enter", ast.Constant(qual))))
        node.body = body
        self.stack.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.stack and self.stack[-1] == "__bool__" and node.value is not None:
            node.value = self.rt("truth", node.value)
        return node

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        return a

    def visit_Lambda(self, node):
        node.args = self.visit_args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.cls.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in ("str", "int", "float"):
                bases.append(self.rt("real_builtin", ast.Constant(b.id)))
            else:
                bases.append(b)
        node.bases = bases
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        node.body = body
        self.stack.pop()
        self.cls.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, (ast.Subscript, ast.Attribute)):
            node.target = self.visit(node.target)
        return node

    def _mangled(self, attr):
        return bool(self.cls) and attr.startswith("__") and not attr.endswith("__")

    # -- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Load) and not self._mangled(f.attr):
            v = f.value
            if isinstance(v, ast.Name) and v.id == RT_NAME:
                return node
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                return node
            return ast.Call(
                func=ast.Attribute(value=ast.Name(id=RT_NAME, ctx=ast.Load()), attr="callm", ctx=ast.Load()),
                args=[v, ast.Constant(f.attr)] + node.args, keywords=node.keywords,
            )
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec], ctx=ast.Load()))
        return self.rt("fstr", ast.List(elts=parts, ctx=ast.Load()))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, r = node.ops[0], node.comparators[0]
            if isinstance(op, ast.In):
                return self.rt("contains", node.left, r)
            if isinstance(op, ast.Eq):
                return self.rt("deep_eq", node.left, r)
            if isinstance(op, ast.NotEq):
                return self.rt("deep_ne", node.left, r)
            if isinstance(op, ast.NotIn):
                return self.rt("not_contains", node.left, r)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
                c = self.rt("is_const", node.left, r)
                return c if isinstance(op, ast.Is) else ast.UnaryOp(op=ast.Not(), operand=c)
        return node

    PURE = (ast.Compare, ast.Name, ast.Attribute, ast.Constant, ast.UnaryOp, ast.Subscript, ast.BoolOp,
            ast.Tuple, ast.Not, ast.USub, ast.And, ast.Or, ast.cmpop, ast.expr_context, ast.BinOp, ast.operator)

    def visit_BoolOp(self, node):
        pure = len(self.stack) > len(self.cls) and all(
            isinstance(n, self.PURE) for v in node.values[1:] for n in ast.walk(v))
        self.generic_visit(node)
        if not pure:
            return node
        fn = "and_" if isinstance(node.op, ast.And) else "or_"

        def thunk(v):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=v)

        return self.rt(fn, node.values[0], *[thunk(v) for v in node.values[1:]])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self.rt("getitem", node.value, node.slice)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.rt("mod", node.left, node.right)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(
                node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            # evaluation order: value first, then object, then key
            return ast.Expr(self.rt("setitem_vok", node.value, t.value, t.slice))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(self.rt("delitem", t.value, t.slice)))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException") or (
            isinstance(node.type, ast.Tuple) and any(isinstance(x, ast.Name) and x.id == "BaseException" for x in node.type.elts))
        if broad:
            node.body.insert(0, ast.Expr(self.rt("reraise_engine")))
        return node


def setitem_vok(v, o, k):
    rt.setitem(o, k, v)


def real_builtin(n):
    return getattr(builtins, n)


rt.setitem_vok = setitem_vok
rt.real_builtin = real_builtin


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader:
    """An isolated set of instrumented modules."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.builtins = rt.shadow_builtins()
        self.builtins["__import__"] = self._import

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            base = pkg.split(".")
            base = base[: len(base) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        root = full.split(".")[0]
        if root == "slate":
            mod = self.load(full)
            if fromlist:
                for n in fromlist:
                    if n != "*" and not hasattr(mod, n) and self._find(full + "." + n):
                        self.load(full + "." + n)
                return mod
            return self.load(root)
        if root == "props":
            mod = self.load_props(full)
            return mod if fromlist else self.load_props(root)
        if full in SHIMS:
            return SHIMS[full]
        if root in STDLIB_FROM_SOURCE and level == 0 and full == root:
            return self.load_std(full)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _find(self, full):
        p = os.path.join(self.repo, *full.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None

    def load(self, full):
        if full in self.modules:
            return self.modules[full]
        parent, _, leaf = full.rpartition(".")
        if parent:
            self.load(parent)
            if full in self.modules:
                return self.modules[full]
        found = self._find(full)
        if not found:
            raise ModuleNotFoundError(f"No module named {full!r}", name=full)
        path, is_pkg = found
        m = self._exec(full, path, is_pkg, register=full)
        if parent:
            setattr(self.modules[parent], leaf, m)
        return m

    def load_std(self, name):
        key = "std:" + name
        if key in self.modules:
            return self.modules[key]
        real = importlib.import_module(name)
        m = self._exec(name, real.__file__, False, register=key, sysmod=False)
        return m

    def _exec(self, name, path, is_pkg, register, sysmod=True):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__[RT_NAME] = rt
        self.modules[register] = m
        if sysmod:
            sys.modules[name] = m
        with open(path, encoding="utf-8") as f:
            src = f.read()
        code = instrument(src, path, name)
        exec(code, m.__dict__)
        if name == "slate.color":
            # The derived fields of a Color are computed when first looked at: they are
            # pure functions of `rgb`, and most paths never read them.
            for n, kind in self.LAZY.items():
                f = m.__dict__.get(n)
                if callable(f):
                    m.__dict__[n] = rt.lazily(f, kind)
        return m

    LAZY = {"calculate_luminance": float, "calculate_brightness": float, "rgb_to_hls": tuple}

    def load_props(self, full):
        """Harnesses and oracles are instrumented too, so they may be plain python."""
        if full in self.modules:
            return self.modules[full]
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        if full == "props":
            m = types.ModuleType("props")
            m.__path__ = [os.path.join(here, "props")]
            self.modules["props"] = m
            return m
        path = os.path.join(here, *full.split(".")) + ".py"
        m = self._exec(full, path, False, register=full)
        setattr(self.load_props("props"), full.split(".")[1], m)
        return m


class Snapshot:
    """Restores module-level mutable state between paths."""

    def __init__(self, modules):
        self.saved = []
        seen = set()
        own = {m.__name__ for m in modules}

        def walk(x, depth=0):
            if id(x) in seen or depth > 12:
                return
            t = type(x)
            if t in (dict,):
                seen.add(id(x))
                self.saved.append((x, dict(x)))
                for v in list(x.values()):
                    walk(v, depth + 1)
            elif t is list:
                seen.add(id(x))
                self.saved.append((x, list(x)))
                for v in x:
                    walk(v, depth + 1)
            elif t is set:
                seen.add(id(x))
                self.saved.append((x, set(x)))
            elif t is tuple:
                seen.add(id(x))
                for v in x:
                    walk(v, depth + 1)
            elif t is types.FunctionType:
                if x.__module__ in own:
                    seen.add(id(x))
                    for v in (x.__defaults__ or ()):
                        walk(v, depth + 1)
                    for c in (x.__closure__ or ()):
                        try:
                            walk(c.cell_contents, depth + 1)
                        except ValueError:
                            pass
            elif isinstance_real(x, type):
                if x.__module__ in own:
                    seen.add(id(x))
                    for v in list(vars(x).values()):
                        if isinstance_real(v, (classmethod, staticmethod)):
                            v = v.__func__
                        if isinstance_real(v, property):
                            v = v.fget
                        walk(v, depth + 1)
            elif isinstance_real(x, (rt.LruShim, rt.SymStringIO)) or getattr(t, "__module__", None) in own:
                seen.add(id(x))
                d = getattr(x, "__dict__", None)
                if d is not None:
                    walk(d, depth + 1)

        for m in modules:
            for k, v in list(vars(m).items()):
                if k.startswith("__") and k.endswith("__"):
                    continue
                walk(v)
            self.saved.append((m.__dict__, dict(m.__dict__)))

    def restore(self):
        for x, s in self.saved:
            if type(x) is list:
                if len(x) != len(s) or any(a is not b for a, b in zip(x, s)):
                    x[:] = s
            elif type(x) is dict:
                if len(x) != len(s) or any(x.get(k, rt) is not v for k, v in s.items()):
                    x.clear()
                    x.update(s)
            elif x != s:
                x.clear()
                x.update(s)
