"""refactor.py OUT T1,T2,... [file filter]: a copy of /repo at OUT with behaviour-preserving rewritings applied everywhere they fit.
refactor.py --check T [ids]: the same in a scratch directory, then the stable tests and the quick checks, which have to stay quiet."""
import ast, copy, glob, json, os, shutil, subprocess, sys, tempfile

PURE = {"abs", "len", "min", "max", "float", "int", "isinstance", "sum", "bool"}


def pure(n):
    return not any(isinstance(x, (ast.Call, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr, ast.Yield)) for x in ast.walk(n))


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def parse(src):
    return ast.parse(src).body


class Base(ast.NodeTransformer):
    n = 0

    def __init__(self):
        self.stack = []

    def fresh(self, p="tmp"):
        Base.n += 1
        return "_%s_%d" % (p, Base.n)

    def visit_FunctionDef(self, n):
        self.stack.append(n)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def infn(self):
        return bool(self.stack)


class ifexp(Base):
    def visit_Assign(self, n):
        if self.infn() and isinstance(n.value, ast.IfExp):
            v = n.value
            a, b = copy.deepcopy(n), copy.deepcopy(n)
            a.value, b.value = v.body, v.orelse
            return ast.If(v.test, [a], [b])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        return n


class invert(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class ret(Base):
    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and not (self.stack and "property" in ast.dump(ast.Module(self.stack[-1].decorator_list, []))):
            t = self.fresh("result")
            return [ast.Assign([name(t, ast.Store())], n.value), ast.Return(name(t))]
        return n


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return ast.Name(self.m.get(n.id, n.id), n.ctx)


def loop(self, c, body):
    """statements of a comprehension c, with body (list of statements) in the innermost place"""
    names = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    m = {x: self.fresh(x) for x in names}
    out = body
    for g in reversed(c.generators):
        for i in reversed(g.ifs):
            out = [ast.If(i, out, [])]
        out = [ast.For(g.target, g.iter, out, [], None)]
    r = Rename(m)
    return [r.visit(copy.deepcopy(s)) for s in out]


class comp(Base):
    def make(self, v, t):
        if isinstance(v, ast.ListComp):
            return [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load()))] + loop(self, v, [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))])
        if isinstance(v, ast.DictComp):
            return [ast.Assign([name(t, ast.Store())], ast.Dict([], []))] + loop(self, v, [ast.Assign([ast.Subscript(name(t), v.key, ast.Store())], v.value)])
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all", "sum") and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp):
            g = v.args[0]
            if v.func.id == "sum":
                return [ast.Assign([name(t, ast.Store())], ast.Constant(0))] + loop(self, g, [ast.AugAssign(name(t, ast.Store()), ast.Add(), g.elt)])
            if len(g.generators) > 1:
                return None
            a = v.func.id == "any"
            test = g.elt if a else ast.UnaryOp(ast.Not(), g.elt)
            return [ast.Assign([name(t, ast.Store())], ast.Constant(not a))] + loop(self, g, [ast.If(test, [ast.Assign([name(t, ast.Store())], ast.Constant(a)), ast.Break()], [])])
        return None

    def visit_Assign(self, n):
        if self.infn():
            t = self.fresh("items")
            r = self.make(n.value, t)
            if r:
                return r + [ast.Assign(n.targets, name(t))]
        return n

    def visit_Return(self, n):
        if self.infn() and n.value is not None:
            t = self.fresh("items")
            r = self.make(n.value, t)
            if r:
                return r + [ast.Return(name(t))]
        return n


class extract(Base):
    """call-free arithmetic subexpressions of simple statements get a name"""
    def find(self, e, out):
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp)):
            return e
        if isinstance(e, ast.BinOp) and pure(e) and not isinstance(e.op, ast.Mod):
            t = self.fresh("part")
            out.append(ast.Assign([name(t, ast.Store())], e))
            return name(t)
        for f, v in ast.iter_fields(e):
            if isinstance(v, ast.expr):
                setattr(e, f, self.find(v, out))
            elif isinstance(v, list):
                setattr(e, f, [self.find(x, out) if isinstance(x, ast.expr) else x for x in v])
            if isinstance(v, list):
                for k in v:
                    if isinstance(k, ast.keyword):
                        k.value = self.find(k.value, out)
        return e

    def do(self, n, f="value"):
        out = []
        v = getattr(n, f)
        if not self.infn() or v is None:
            return n
        calls = [c for c in ast.walk(v) if isinstance(c, ast.Call)]
        if len(calls) > 1 and any(k in ast.dump(v) for k in ("np_random", "rand")):
            return n
        if isinstance(v, ast.BinOp) and pure(v):
            v.left, v.right = self.find(v.left, out), self.find(v.right, out)
        else:
            setattr(n, f, self.find(v, out))
        return out + [n]

    def visit_Assign(self, n):
        return self.do(n)

    def visit_Return(self, n):
        return self.do(n)

    def visit_AugAssign(self, n):
        return self.do(n)

    def visit_Expr(self, n):
        return n if isinstance(n.value, (ast.Constant, ast.Yield)) else self.do(n)


class helper(Base):
    """every method/function delegates to a helper"""
    def __init__(self, mod=None):
        super().__init__()
        self.cls = []

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n.body = self.rewrite(n.body)
        self.cls.pop()
        return n

    def visit_Module(self, n):
        n.body = self.rewrite([self.visit(x) if isinstance(x, ast.ClassDef) else x for x in n.body])
        return n

    def rewrite(self, body):
        out = []
        for f in body:
            dec = [ast.unparse(d) for d in getattr(f, "decorator_list", [])]
            if not isinstance(f, ast.FunctionDef) or f.name.startswith("__") or any(d not in ("classmethod", "staticmethod", "property") for d in dec) \
                    or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                out.append(f)
                continue
            g = copy.deepcopy(f)
            new = "_%s_%s_helper" % (("_".join(self.cls)).lower(), f.name)
            f2 = f
            g.name = new
            g.decorator_list = [d for d in g.decorator_list if ast.unparse(d) != "property"]
            g.args.defaults, g.args.kw_defaults = [], [None] * len(g.args.kw_defaults)
            a = f.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            isstatic = "staticmethod" in dec
            bound = bool(self.cls) and not isstatic
            if self.cls:
                tgt = ast.Attribute(name(pos[0]) if bound else name(self.cls[-1]), new, ast.Load())
            else:
                tgt = name(new)
            args = [name(x) for x in (pos[1:] if bound else pos)]
            if a.vararg:
                args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
            kws = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
            if a.kwarg:
                kws.append(ast.keyword(None, name(a.kwarg.arg)))
            doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
            f2.body = doc + [ast.Return(ast.Call(tgt, args, kws))]
            out += [g, f2]
        return out


class demorgan(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class nestif(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class swapcmp(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class chain(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1 and pure(n):
            parts, left = [], n.left
            for op, r in zip(n.ops, n.comparators):
                parts.append(ast.Compare(left, [op], [r]))
                left = r
            return ast.BoolOp(ast.And(), parts)
        return n


class norm(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) in ("np.linalg.norm", "norm") and len(n.args) == 1 and not n.keywords:
            return ast.parse("np.sqrt(np.sum(np.square(%s)))" % ast.unparse(n.args[0]), mode="eval").body
        return n


class sq(Base):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and pure(n.left):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


class clip(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == "np.clip" and len(n.args) == 3:
            return ast.parse("np.minimum(np.maximum(%s, %s), %s)" % tuple(ast.unparse(a) for a in n.args), mode="eval").body
        return n


class enum(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple):
            i, x = n.target.elts
            inc = ast.parse("%s += 1" % ast.unparse(i)).body
            return [ast.parse("%s = -1" % ast.unparse(i)).body[0], ast.For(x, n.iter.args[0], inc + n.body, n.orelse, None)]
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and isinstance(n.target, ast.Tuple) and pure(n.iter.func.value):
            k, v = n.target.elts
            s = ast.Assign([v], ast.Subscript(n.iter.func.value, ast.parse(ast.unparse(k), mode="eval").body, ast.Load()))
            return ast.For(k, n.iter.func.value, [s] + n.body, n.orelse, None)
        if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) \
                and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(ast.Module(n.body, []))) and not n.orelse:
            t, c = self.fresh("stop"), self.fresh("count")
            return parse("%s = %s\n%s = 0" % (t, ast.unparse(n.iter.args[0]), c)) + [ast.While(ast.parse("%s < %s" % (c, t), mode="eval").body,
                   parse("%s = %s" % (n.target.id, c)) + n.body + parse("%s += 1" % c), [])]
        return n


class dot(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "dot" and len(n.args) == 1 and not n.keywords and ast.unparse(n.func) != "np.dot":
            return ast.Call(ast.parse("np.dot", mode="eval").body, [n.func.value, n.args[0]], [])
        return n


class minmax(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) in ("min", "max") and len(n.args) == 2 and not n.keywords and pure(n.args[0]) and pure(n.args[1]):
            a, b = n.args
            return ast.IfExp(ast.Compare(a, [ast.LtE() if n.func.id == "min" else ast.GtE()], [b]), copy.deepcopy(a), copy.deepcopy(b))
        return n


class early(Base):
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.For)):
            n.body = self.block(n.body)
        return n

    def visit_FunctionDef(self, n):
        return self.generic_visit(n)


class comm(Base):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and (pure(n.left) or pure(n.right)):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class unpack(Base):
    def visit_Assign(self, n):
        if self.infn() and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) and not any(isinstance(e, ast.Starred) for e in n.targets[0].elts):
            t = self.fresh("values")
            return [ast.Assign([name(t, ast.Store())], n.value)] + [ast.Assign([e], ast.Subscript(name(t), ast.Constant(i), ast.Load())) for i, e in enumerate(n.targets[0].elts)]
        return n


class notin(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.IsNot)):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In() if isinstance(n.ops[0], ast.NotIn) else ast.Is()], n.comparators))
        return n


class lam(Base):
    def do(self, n):
        if not self.infn():
            return n
        out = []
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                for k in x.keywords:
                    if isinstance(k.value, ast.Lambda):
                        t = self.fresh("key")
                        out.append(ast.FunctionDef(t, k.value.args, [ast.Return(k.value.body)], [], type_params=[]))
                        k.value = name(t)
        return out + [n]
    visit_Assign = visit_Return = visit_Expr = do


class alias(Base):
    """config = self.config at the top of methods reading it more than once"""
    def visit_FunctionDef(self, n):
        if n.args.args and n.args.args[0].arg == "self" and n.name not in ("configure", "__init__") and not n.decorator_list:
            for attr in ("config", "vehicle", "road", "env", "observer_vehicle"):
                uses = [x for s in n.body for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr == attr]
                names = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name)} | {a.arg for a in n.args.args}
                stored = any(isinstance(x.ctx, ast.Store) for x in uses)
                sub = [s for s in n.body if any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("reset", "_reset", "configure", "super") or isinstance(x, ast.Lambda) for x in ast.walk(s))]
                if len(uses) > 1 and not stored and attr not in names and not sub and not n.name.startswith(("_make", "_create", "set_", "create", "reset", "step")):
                    class R(ast.NodeTransformer):
                        def visit_Attribute(self, x):
                            self.generic_visit(x)
                            if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr == attr:
                                return name("_" + attr)
                            return x
                    first = uses[0]
                    body = [R().visit(s) for s in n.body]
                    # only where the attribute is read unconditionally at the start
                    d = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
                    if d < len(body) and any(isinstance(x, ast.Name) and x.id == "_" + attr for x in ast.walk(body[d] if not isinstance(body[d], (ast.If, ast.For, ast.While, ast.With, ast.Try)) else getattr(body[d], "test", getattr(body[d], "iter", ast.Pass())))):
                        n.body = body[:d] + parse("_%s = self.%s" % (attr, attr)) + body[d:]
                    else:
                        class B(ast.NodeTransformer):
                            def visit_Name(self, x):
                                return ast.parse("self." + attr, mode="eval").body if x.id == "_" + attr else x
                        n.body = [B().visit(s) for s in body]
        return n


class noise(Base):
    def visit_FunctionDef(self, n):
        d = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[d:d] = parse("_ = None")
        return n


ALL = {c.__name__: c for c in Base.__subclasses__()}


def apply(root, ts, flt=""):
    for p in sorted(glob.glob(root + "/highway_env/**/*.py", recursive=True)):
        if flt and flt not in p:
            continue
        t = ast.parse(open(p).read())
        for k in ts:
            t = ALL[k]().visit(t)
            ast.fix_missing_locations(t)
            t = ast.parse(ast.unparse(t))
        open(p, "w").write(ast.unparse(t) + "\n")


def copy_repo(d):
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))


def tests(r):
    env = dict(os.environ, PYTHONPATH=r, SDL_VIDEODRIVER="dummy", SDL_AUDIODRIVER="dummy", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=tests/envs/test_time.py", "tests"], cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return t.stdout.strip().splitlines()[-12:]


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        ids = (sys.argv[3].split() if len(sys.argv) > 3 else [os.path.basename(p)[:-3].upper() for p in sorted(glob.glob("/verif/props/[a-z][0-9][0-9].py"))])
        d = tempfile.mkdtemp(prefix="rf")
        r = d + "/r"
        copy_repo(r)
        apply(r, sys.argv[2].split(","))
        print(sys.argv[2], "tests:", tests(r)[-1], flush=True)
        for i in ids:
            p = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", "--property", i], cwd="/verif", env=dict(os.environ, SYMX_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            bad = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "UNDECIDED")) or l.startswith("   !")]
            if p.returncode or bad:
                print(sys.argv[2], i, "rc", p.returncode, "\n".join(bad[:4])[:900], flush=True)
        print("done", sys.argv[2], flush=True)
        shutil.rmtree(d)
    else:
        copy_repo(sys.argv[1])
        apply(sys.argv[1], sys.argv[2].split(","), sys.argv[3] if len(sys.argv) > 3 else "")
