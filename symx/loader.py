"""Import highway_env from the current /repo sources with numpy, math and the builtins replaced by the shims.

The source text is the repository's; the only rewriting is of side-effect free boolean expressions (chained
comparisons, and/or/not), which become logical terms instead of one fork per operand.
"""
import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys

from . import core, shim
from .core import And, Or, Not, is_sym, Sym, SymBool, compare

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "highway_env"

PURE_CALLS = {"abs", "min", "max", "len", "isinstance", "float", "np", "math", "sum", "round"}
PURE_METHODS = {"dot", "norm", "sum", "min", "max", "any", "all", "copy", "get"}


def pure(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute):
                r = f
                while isinstance(r, ast.Attribute):
                    r = r.value
                if isinstance(r, ast.Name) and r.id in ("np", "numpy", "math"):
                    continue
                if f.attr in PURE_METHODS:
                    continue
            return False
        if isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            return False
    return True


class Rewriter(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1 and pure(n):
            parts, left = [], n.left
            for op, right in zip(n.ops, n.comparators):
                parts.append(ast.Compare(left=left, ops=[op], comparators=[right]))
                left = right
            return self._boolop("__sx_and__", parts, n)
        return n

    def visit_BoolOp(self, n):
        p = all(pure(v) for v in n.values[1:])
        self.generic_visit(n)
        if not p:
            return n
        return self._boolop("__sx_and__" if isinstance(n.op, ast.And) else "__sx_or__", n.values, n)

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("float64", "float32", "double") and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(func=ast.Name("__sx_np_float__", ast.Load()), args=[f] + n.args, keywords=[]), n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(ast.Call(func=ast.Name("__sx_not__", ast.Load()), args=[n.operand], keywords=[]), n)
        return n

    def _boolop(self, name, parts, n):
        lam = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=p)
               for p in parts[1:]]
        c = ast.Call(func=ast.Name(name, ast.Load()), args=[parts[0]] + lam, keywords=[])
        return ast.copy_location(c, n)

    def visit_ClassDef(self, n):
        # lambdas in a class body cannot see class variables: leave the class-level expressions alone
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


def _sx(is_and):
    comb = And if is_and else Or

    def go(first, *rest):
        acc = first
        for f in rest:
            if not is_sym(acc):
                # concrete so far: python semantics
                if bool(acc) != is_and:
                    return acc
                acc = f()
                continue
            if isinstance(acc, core.Sym):
                # a number: its truth decides which operand is the value
                if bool(acc) != is_and:
                    return acc
                acc = f()
                continue
            try:
                nxt = f()
            except Exception:
                if bool(acc) != is_and:
                    return acc
                raise
            if isinstance(nxt, (core.SymBool, bool, shim.np.bool_)):
                acc = comb(acc, nxt)
            else:
                if bool(acc) != is_and:
                    return acc
                acc = nxt
        return acc
    return go


def sx_not(x):
    return Not(x) if is_sym(x) else not x


def s_any(it):
    acc = False
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return acc
        except Exception:
            if is_sym(acc) and bool(acc):
                return True
            raise
        if is_sym(x):
            acc = Or(acc, x)
            if acc is True:
                return True
        elif x:
            return True


def s_all(it):
    acc = True
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return acc
        except Exception:
            if is_sym(acc) and not bool(acc):
                return False
            raise
        if is_sym(x):
            acc = And(acc, x)
            if acc is False:
                return False
        elif not x:
            return False


BUILTINS = None
SOURCES = {}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f, sub = os.path.join(base, "__init__.py"), [base]
        elif os.path.exists(base + ".py"):
            f, sub = base + ".py", None
        else:
            return None
        return importlib.util.spec_from_file_location(fullname, f, loader=self, submodule_search_locations=sub)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f) as fh:
            src = fh.read()
        SOURCES[os.path.relpath(f, REPO)] = hashlib.sha256(src.encode()).hexdigest()[:16]
        tree = ast.fix_missing_locations(Rewriter().visit(ast.parse(src, f)))
        code = compile(tree, f, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


EXECUTED = {}


def _start_monitoring():
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return

    root = os.path.join(REPO, PKG)

    def on_start(code, off):
        if code.co_filename.startswith(root) and code.co_name not in ("<module>", "<lambda>", "<listcomp>"):
            EXECUTED[(os.path.relpath(code.co_filename, REPO), code.co_qualname)] = 1
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def install():
    """Make `import highway_env` return the instrumented package."""
    global BUILTINS
    if BUILTINS is not None:
        return
    os.environ.setdefault("SDL_VIDEODRIVER", "dummy")
    os.environ.setdefault("OFFSCREEN_RENDERING", "1")
    BUILTINS = shim.make_builtins()
    BUILTINS.update(any=s_any, all=s_all, __sx_and__=_sx(True), __sx_or__=_sx(False), __sx_not__=sx_not,
                    __sx_np_float__=lambda t, x: x if is_sym(x) else shim.OVERRIDES["array"](x) if shim.has_sym(x) else t(x))
    sys.meta_path.insert(0, Finder())
    _start_monitoring()
    import warnings
    warnings.simplefilter("ignore")


def install_concrete():
    """The unmodified package, straight from /repo."""
    os.environ.setdefault("SDL_VIDEODRIVER", "dummy")
    os.environ.setdefault("OFFSCREEN_RENDERING", "1")
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
