"""Import the real finoptions sources of /repo for symbolic execution (no copy, no model: the files are compiled
as they are, with the library stand-ins of shims.py in place of numpy & co. and fork-free conditionals on request)."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types
from . import shims, sym
from . import terms as tm

SRC = os.path.join(os.environ.get("FINOPT_REPO", "/repo"), "src")
EXECUTED = set()


class SpecAbort(BaseException):
    pass


def spec(c, fa, fb):
    """(condition, merged?, value): evaluate both alternatives of a symbolic conditional and merge them."""
    if not isinstance(c, sym.SB) or sym.ENGINE is None or not sym.ENGINE.merge:
        return (c, False, None)
    k = sym.ENGINE.quick(c.c)
    if k is not None:
        return (k, False, None)
    sym.ENGINE.spec += 1
    try:
        a, b = fa(), fb()
    except (SpecAbort, Exception):
        return (c, False, None)
    finally:
        sym.ENGINE.spec -= 1
    if sym.isnumlike(a) and sym.isnumlike(b):
        return (c, True, sym.R(tm.ite(c.c, sym.lift(a), sym.lift(b))))
    return (c, False, None)


class Xform(ast.NodeTransformer):
    """x if c else y;  if c: t = a [else: t = b];  if c: return a (else:) return b   ->  mergeable forms.
    Without the merge switch the transformed code behaves exactly like the original."""

    def __init__(self):
        self.n = 0
        self.depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self.block(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(x) for x in node.body]
        self.depth = d
        return node

    def lam(self, e):
        return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)

    def ok(self, e):
        return not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(e))

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if not self.depth or not self.ok(node):
            return node
        self.n += 1
        nm = f"__m{self.n}"
        call = ast.Call(ast.Name("__symfin_merge__", ast.Load()), [node.test, self.lam(node.body), self.lam(node.orelse)], [])
        sub = lambda i: ast.Subscript(ast.Name(nm, ast.Load()), ast.Constant(i), ast.Load())  # noqa: E731
        return ast.IfExp(ast.Subscript(ast.NamedExpr(ast.Name(nm, ast.Store()), call), ast.Constant(1), ast.Load()),
                         sub(2), ast.IfExp(sub(0), node.body, node.orelse))

    def visit_ListComp(self, node):  # walrus targets leak: leave comprehensions alone
        return node

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Lambda(self, node):
        return node

    def block(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            nxt = body[i + 1] if i + 1 < len(body) else None
            if isinstance(s, ast.If) and len(s.body) == 1 and self.ok(s):
                b = s.body[0]
                e = s.orelse[0] if len(s.orelse) == 1 else None
                if (isinstance(b, ast.Return) and b.value is not None):
                    other = e if isinstance(e, ast.Return) and e.value is not None else (
                        nxt if not s.orelse and isinstance(nxt, ast.Return) and nxt.value is not None else None)
                    if other is not None:
                        out += self.mk(s.test, b.value, other.value, lambda v: ast.Return(v),
                                       [ast.Return(b.value)], [ast.Return(other.value)])
                        i += 1 if other is e else 2
                        continue
                if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(
                        b.targets[0], (ast.Name, ast.Subscript, ast.Attribute)):
                    tgt = b.targets[0]
                    if e is None and not s.orelse:
                        load = ast.parse(ast.unparse(tgt), mode="eval").body
                        out += self.mk(s.test, b.value, load, lambda v, t=tgt: ast.Assign([t], v), [b], [ast.Pass()])
                        i += 1
                        continue
                    if isinstance(e, ast.Assign) and len(e.targets) == 1 and ast.dump(e.targets[0]) == ast.dump(tgt):
                        out += self.mk(s.test, b.value, e.value, lambda v, t=tgt: ast.Assign([t], v), [b], [e])
                        i += 1
                        continue
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.ClassDef, ast.FunctionDef)):
                    setattr(s, f, self.block(getattr(s, f)))
            if hasattr(s, "handlers"):
                for h in s.handlers:
                    h.body = self.block(h.body)
            out.append(self.visit_stmt(s))
            i += 1
        return out

    def visit_stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.visit(s)
        for name, val in ast.iter_fields(s):
            if name in ("body", "orelse", "finalbody", "handlers"):
                continue
            if isinstance(val, ast.AST):
                setattr(s, name, self.visit(val))
            elif isinstance(val, list):
                setattr(s, name, [self.visit(x) if isinstance(x, ast.AST) else x for x in val])
        return s

    def mk(self, test, a, b, assign, sa, sb):
        import copy

        self.n += 1
        nm = f"__m{self.n}"
        cp = copy.deepcopy
        sub = lambda i: ast.Subscript(ast.Name(nm, ast.Load()), ast.Constant(i), ast.Load())  # noqa: E731
        call = ast.Call(ast.Name("__symfin_merge__", ast.Load()), [cp(test), self.lam(cp(a)), self.lam(cp(b))], [])
        return [
            ast.Assign([ast.Name(nm, ast.Store())], call),
            ast.If(sub(1), [assign(sub(2))], [ast.If(sub(0), cp(sa), cp(sb))]),
        ]


class Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec_):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Xform().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        b = dict(builtins.__dict__)
        b.update(shims.BUILTINS)
        b["__import__"] = _import
        b["__symfin_merge__"] = spec
        module.__dict__["__builtins__"] = b
        # `max`, `float` ... may be looked up through the builtins module as well
        exec(code, module.__dict__)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in shims.MODULES:
        if fromlist:
            return shims.MODULES[name]
        return shims.MODULES[name.split(".")[0]]
    if level == 0 and name.split(".")[0] in ("numpy", "scipy", "matplotlib", "numdifftools", "pandas", "statsmodels"):
        raise tm.Unsupported("import " + name)
    return builtins.__import__(name, globals, locals, fromlist, level)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "finoptions" and not fullname.startswith("finoptions."):
            return None
        rel = fullname.split(".")
        p = os.path.join(SRC, *rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, True),
                                                          submodule_search_locations=[p])
        f = p + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, False))
        return None


def load():
    if "finoptions" in sys.modules:
        return sys.modules["finoptions"]
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    return importlib.import_module("finoptions")


def start_recording():
    """Record which functions of the real sources are executed (evidence)."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symfin")
    except ValueError:
        return

    def on_start(code, off):
        if code.co_filename.startswith(SRC):
            EXECUTED.add((os.path.relpath(code.co_filename, SRC), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
