"""campaign.py N SEED [file filter]: random small mutants of /repo; which survive the checks that execute the mutated function.

Every mutant must pass the stable tests before the checks are run; survivors are listed for inspection (equivalent mutants, code outside every property, or gaps)."""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile, time

N, SEED = int(sys.argv[1]), int(sys.argv[2])
FILTER = sys.argv[3] if len(sys.argv) > 3 else ""
rnd = random.Random(SEED)
where, cost = {}, {}
for p in glob.glob("/verif/evidence/*.json"):
    e = json.load(open(p))
    pid = e["property"]
    cost[pid] = e.get("wall_s") or e["coverage"].get("wall_s") or 30
    for f in e["coverage"]["functions_encoded"]:
        where.setdefault(f, []).append(pid)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def functions(path):
    tree = ast.parse(open(path).read())
    out = []
    def walk(node, pre):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef,)):
                out.append((pre + c.name, c))
                walk(c, pre + c.name + ".<locals>.")
            elif isinstance(c, ast.ClassDef):
                walk(c, pre + c.name + ".")
    walk(tree, "")
    return out

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}


def mutants(fn):
    """(node, replacement source)"""
    import copy
    out = []
    doc = ast.get_docstring(fn)
    for st in fn.body:
        for n in ast.walk(st):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                pass
            def rep(f):
                c = copy.deepcopy(n)
                r = f(c)
                out.append((n, ast.unparse(r if r is not None else c)))
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                t = type(n.ops[0])
                inv = {"<=": ast.LtE, "<": ast.Lt, ">=": ast.GtE, ">": ast.Gt, "!=": ast.NotEq, "==": ast.Eq, "is not": ast.IsNot, "is": ast.Is, "not in": ast.NotIn, "in": ast.In}
                if t not in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                    rep(lambda c: setattr(c, "ops", [inv[CMP[t]]()]))
                else:
                    # negate direction (boundary changes are outside the claims)
                    neg = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[t]
                    rep(lambda c: setattr(c, "ops", [neg()]))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                rep(lambda c: setattr(c, "op", BIN[type(n.op)]()))
                rep(lambda c: c.left)
            elif isinstance(n, ast.BoolOp):
                rep(lambda c: setattr(c, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
                rep(lambda c: c.values[0])
                rep(lambda c: c.values[-1])
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                rep(lambda c: c.operand)
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                rep(lambda c: ast.Constant(c.value + 1))
                if n.value:
                    rep(lambda c: ast.Constant(0))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                rep(lambda c: ast.Constant(not c.value))
            elif isinstance(n, ast.IfExp):
                rep(lambda c: c.body); rep(lambda c: c.orelse)
            elif isinstance(n, ast.If):
                out.append((n.test, "not (%s)" % ast.unparse(n.test)))
                out.append((n.test, "True")); out.append((n.test, "False"))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append((n, "pass"))
            elif isinstance(n, ast.Call) and len(n.args) == 2:
                rep(lambda c: setattr(c, "args", c.args[::-1]))
            elif isinstance(n, ast.Call) and n.keywords:
                rep(lambda c: setattr(c, "keywords", c.keywords[1:]))
                rep(lambda c: setattr(c, "keywords", c.keywords[:-1]))
            elif isinstance(n, ast.Return) and n.value is not None:
                out.append((n, "return None"))
            elif isinstance(n, ast.Continue):
                out.append((n, "break"))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                swap = {"min": "max", "max": "min", "cos": "sin", "sin": "cos", "LENGTH": "WIDTH", "WIDTH": "LENGTH", "lane_index": "target_lane_index", "target_lane_index": "lane_index", "speed": "target_speed",
                        "target_speed": "speed", "minimum": "maximum", "maximum": "minimum", "position": "velocity", "amin": "amax", "amax": "amin", "any": "all", "all": "any"}
                if n.attr in swap:
                    rep(lambda c: setattr(c, "attr", swap[n.attr]))
    return out


def apply(src, node, new):
    lines = src.splitlines(True)
    # ast columns are utf8 offsets
    a, b = node.lineno - 1, node.end_lineno - 1
    head = lines[a].encode()[:node.col_offset].decode()
    tail = lines[b].encode()[node.end_col_offset:].decode()
    if isinstance(node, ast.expr):
        new = "(" + new + ")"
    return "".join(lines[:a]) + head + new + tail + "".join(lines[b + 1:])


pool = []
for path in sorted(glob.glob("/repo/highway_env/**/*.py", recursive=True)):
    rel = os.path.relpath(path, "/repo")
    if FILTER and FILTER not in rel:
        continue
    for q, fn in functions(path):
        for node, new in mutants(fn):
            pool.append((rel, q, node, new))
print("%d possible mutants" % len(pool), flush=True)
# one function at a time, so that long functions do not dominate
by = {}
for x in pool:
    by.setdefault((x[0], x[1]), []).append(x)
keys = sorted(by)
rnd.shuffle(keys)
tried = 0
limit = time.time() + float(os.environ.get("CAMPAIGN_S", "3000"))
i = 0
while tried < N and time.time() < limit:
    key = keys[i % len(keys)]
    i += 1
    rel, q, node, new = rnd.choice(by[key])
    d = tempfile.mkdtemp(prefix="camp")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        src = open("/repo/" + rel).read()
        out = apply(src, node, new)
        try:
            ast.parse(out)
        except SyntaxError:
            continue
        open(d + "/r/" + rel, "w").write(out)
        old = "\n".join(src.splitlines()[node.lineno - 1:node.end_lineno])
        tag = "%s:%s:%d  [%s] -> %s" % (rel, q, node.lineno, old.strip()[:90], new[:60])
        ids = sorted(where.get(rel + ":" + q, []), key=lambda p: cost[p])
        if not ids:
            print("UNCOVERED %s" % tag, flush=True)
            tried += 1
            continue
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", SDL_VIDEODRIVER="dummy", SDL_AUDIODRIVER="dummy", PYTHONPATH=d + "/r")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests/envs/test_time.py", "tests"], cwd=d + "/r", env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            continue
        if t.returncode != 0:
            continue
        tried += 1
        hit, undecided = None, []
        for pid in ids:
            try:
                r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", "--property", pid], cwd="/verif", env=dict(os.environ, SYMX_REPO=d + "/r"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                hit = pid
                break
            if rc != 0 or b"UNDECIDED" in r.stdout:
                undecided.append((pid, rc))
        print("%s %s %s%s" % ("caught" if hit else "SURVIVED", tag, hit or ids, " undecided %s" % undecided if undecided else ""), flush=True)
    finally:
        shutil.rmtree(d)
