"""Exploration of a harness, decision of its obligations, replay on the real code."""
import collections
import hashlib
import importlib
import json
import math
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from . import core, solve, shim, loader
from .core import PathEnd, Unsupported, Budget, TooDeep, Hang, SymBool, Sym, z3, is_sym
from .ctx import SymCtx

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------------------------------------------ concrete side
class ConcreteCtx(object):
    symbolic = False

    def __init__(self, asg, opts):
        self.asg, self.opts = asg, opts
        self.failed = []
        self.nchecks = 0
        self.observed = []
        self.assume_failed = None

    def real(self, name, lo, hi):
        if lo == hi:
            return lo
        return min(max(float(self.asg[name]), lo), hi) if name in self.asg else float(lo)

    angle = real

    def angle(self, name, lo=-math.pi, hi=math.pi):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self.asg[name]) if name in self.asg else lo

    def choose(self, name, options):
        options = list(options)
        return options[self.asg.get(name, 0)]

    def bool(self, name):
        return self.choose(name, [False, True])

    def assume(self, cond):
        if not bool(cond):
            raise PathEnd()

    def check(self, name, cond):
        self.nchecks += 1
        if not bool(cond):
            self.failed.append((name, "false"))

    def eq(self, name, a, b, tol=None, margin=None):
        self.nchecks += 1
        t = self.opts.get("tol", 1e-6) if tol is None else tol
        a, b = float(a), float(b)
        if not abs(a - b) <= t * max(1., abs(a), abs(b)):
            self.failed.append((name, "%r != %r" % (a, b)))

    def le(self, name, a, b, tol=None, margin=None):
        self.nchecks += 1
        t = self.opts.get("tol", 1e-6) if tol is None else tol
        a, b = float(a), float(b)
        if not a <= b + t * max(1., abs(a), abs(b)):
            self.failed.append((name, "%r > %r" % (a, b)))

    def fail(self, name):
        self.check(name, False)

    def observe(self, name, value):
        self.observed.append((name, value))

    def inj(self, a, b):
        pass

    def note(self, s):
        pass


def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for i in v for x in flat(i)]
    if isinstance(v, shim.np.ndarray):
        return [x for i in v.flat for x in flat(i)]
    if hasattr(v, "tolist") and not is_sym(v):
        return flat(v.tolist())
    return [v]


def jsonable(v):
    out = []
    for x in flat(v):
        if isinstance(x, bool) or x is None or isinstance(x, (str, int)):
            out.append(x)
        elif isinstance(x, float):
            out.append(x)
        else:
            try:
                out.append(float(x))
            except (TypeError, ValueError):
                out.append(str(x))
    return out


REPLAY_CPU_S, PATH_CPU_S = 25, 150     # user CPU time after which a replay, a path without decisions, counts as endless


def alarm(seconds):
    """Raise Hang when the code of the repository is still running after that much user CPU time."""
    def ring(sig, frame):
        f = frame
        while f is not None and not f.f_code.co_filename.startswith(loader.REPO + os.sep):
            f = f.f_back
        if f is None:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0.2)
        else:
            raise Hang("%s:%s" % (os.path.relpath(f.f_code.co_filename, loader.REPO), f.f_code.co_name))
    signal.signal(signal.SIGVTALRM, ring)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def run_concrete(fn, params, asg, opts):
    """Run a harness on the unmodified code (in this process, which must not be instrumented)."""
    ctx = ConcreteCtx(asg, opts)
    exc = None
    alarm(REPLAY_CPU_S)
    try:
        with shim.np.errstate(all="ignore"):
            fn(ctx, **params)
    except PathEnd:
        return {"status": "assume"}
    except Hang as e:
        return {"status": "hang", "where": str(e), "failed": [("returns", "the real code is still running after %d s of CPU time (%s)" % (REPLAY_CPU_S, e))]}
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(loader.REPO)]
        exc = {"type": type(e).__name__, "msg": str(e)[:300], "inrepo": bool(inrepo),
               "where": "%s:%s" % (os.path.relpath(inrepo[-1].filename, loader.REPO), inrepo[-1].name) if inrepo else ""}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return {"status": "exc" if exc else "ok", "exc": exc, "failed": ctx.failed, "nchecks": ctx.nchecks,
            "observed": [(n, jsonable(v)) for n, v in ctx.observed]}


class Worker(object):
    """A process running harnesses on the unmodified code of /repo."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen([sys.executable, "-m", "symx.concrete"], cwd=ROOT, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, module, case, asg, tier="quick"):
        for attempt in range(2):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps({"module": module, "case": case, "asg": asg, "tier": tier}) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            self.p = None
        return {"status": "worker-died"}

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


# ------------------------------------------------------------------------------------------------ symbolic side
class Case(object):
    """One harness with concrete parameters."""

    def __init__(self, name, fn, params=None, **opts):
        self.name, self.fn, self.params, self.opts = name, fn, params or {}, opts


def new_stats():
    return collections.defaultdict(float)


def close(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-5 * max(1., abs(a), abs(b))


def eval_obs(ctx, val, v):
    out = []
    for x in flat(v):
        if isinstance(x, Sym):
            out.append(ctx.num_eval(x, val))
        elif isinstance(x, SymBool):
            out.append(ctx.holds(x.t, val))
        else:
            out.extend(jsonable(x))
    return out


class Explorer(object):
    def __init__(self, module, case, tier, deadline, seed=1, worker=None):
        self.module, self.case, self.tier, self.deadline = module, case, tier, deadline
        self.opts = dict(case.opts)
        self.stats = new_stats()
        self.worker = worker or Worker()
        self.rnd = random.Random(seed)
        self.result = {"case": case.name, "violations": [], "errors": [], "excluded": [], "engines": {}, "samples": [],
                       "mismatch": [], "known": []}
        self.validated = 0
        self.valid_left = self.opts.get("validate", 6)

    # -- one path
    def run_path(self, prefix):
        ctx = SymCtx(prefix, self.opts, self.stats)
        ctx.deadline, ctx.alarm = self.deadline, PATH_CPU_S
        core.CUR = ctx
        exc = None
        alarm(PATH_CPU_S)
        try:
            self.case.fn(ctx, **self.case.params)
        except PathEnd:
            return ctx, "dead"
        except Exception as e:  # noqa
            exc = e
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            core.CUR, ctx.alarm = ctx, None
        ctx.exc = exc
        return ctx, "exc" if exc is not None else "ok"

    def explore(self):
        t0 = time.time()
        work = [[]]
        npath = 0
        res = self.result
        try:
            while work:
                if time.time() > self.deadline:
                    raise Budget("time budget exhausted with %d paths pending" % len(work))
                prefix = work.pop()
                try:
                    ctx, st = self.run_path(prefix)
                except (TooDeep, Hang) as e:
                    # an endless path? its models decide, on the real code
                    if self.candidate(core.CUR, [("returns", True)], "does not return") == "violation":
                        break
                    raise Budget(str(e))
                except Unsupported as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    fr = [f for f in tb if loader.REPO in f.filename or "/props/" in f.filename]
                    res["errors"].append("unsupported: %s at %s" % (e, fr[-1] if fr else ""))
                    self.stats["paths_unsupported"] += 1
                    if len(res["errors"]) > 5:
                        break
                    # the decisions of that path are lost only below this point
                    c = core.CUR
                    work.extend(c.pending)
                    continue
                work.extend(ctx.pending)
                npath += 1
                if npath > self.opts.get("max_paths", 4000):
                    raise Budget("path budget")
                if st == "dead":
                    self.stats["paths_dead"] += 1
                    continue
                self.finish_path(ctx, st)
                if len(res["violations"]) >= 1:
                    break
        except Budget as e:
            res["errors"].append("budget: %s" % e)
        finally:
            core.CUR = None
        self.stats["paths"] += npath
        res["validated"] = self.validated
        res["stats"] = dict(self.stats)
        res["wall_s"] = time.time() - t0
        return res

    # -- obligations of a path
    def finish_path(self, ctx, st):
        core.CUR = ctx
        goal_ms = ctx.opts["goal_ms"]
        if st == "exc":
            e = ctx.exc
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if loader.REPO in f.filename]
            where = "%s:%s" % (os.path.relpath(fr[-1].filename, loader.REPO), fr[-1].name) if fr else str(tb[-1])
            what = "exception %s: %s in %s" % (type(e).__name__, str(e)[:200], where)
            r = self.candidate(ctx, [("exception", True)], what, exc=e)
            if r == "infeasible":
                self.stats["paths_infeasible"] += 1
            return
        self.stats["paths_complete"] += 1
        bad_const = [(n, t) for n, t in ctx.checks if t is True]
        symb = [(n, t) for n, t in ctx.checks if isinstance(t, SymBool)]
        self.stats["obligations"] += len(ctx.checks)
        self.stats["trivial"] += sum(1 for n, t in ctx.checks if t is False)
        if ctx.identities and not bad_const:
            r, _ = solve.smt_check([core.z3.Or(*[core.z3.Or(x - y > core.zfrac(core.to_frac(e)), y - x > core.zfrac(core.to_frac(e))) for x, y, e in ctx.identities])], 2000)
            self.stats["queries"] += 1
            self.result["engines"]["normal-form:" + r] = self.result["engines"].get("normal-form:" + r, 0) + 1
            if r == "unsat":
                self.stats["discharged"] += len(ctx.identities)
                self.stats["trivial"] -= len(ctx.identities)
        if bad_const:
            r = self.candidate(ctx, bad_const, bad_const[0][0])
            if r != "infeasible":
                return
            self.stats["paths_infeasible"] += 1
            return
        if self.opts.get("joint", True) and len(symb) > 1:
            groups = [symb]
        else:
            groups = [[g] for g in symb]
        while groups:
            g = groups.pop(0)
            tree = core.Or(*[t for _, t in g])
            if tree is False:
                continue
            zs = ctx.assertions([tree.t])
            ms = goal_ms if len(g) == 1 else (goal_ms[0], 0, 0)
            if len(g) > 1:
                self.stats["queries"] += 1
                t0 = time.time()
                r, m = solve.smt_check(zs, ms[0])
                eng = "z3-smt"
                self.stats["solver_s"] += time.time() - t0
            else:
                r, m, eng = solve.decide(zs, ms, self.stats)
            self.result["engines"][eng + ":" + r] = self.result["engines"].get(eng + ":" + r, 0) + 1
            if r == "unsat":
                self.stats["discharged"] += len(g)
                continue
            if len(g) > 1:
                groups = [[x] for x in g] + groups
                continue
            if r == "unknown":
                m = self.hunt(ctx, g)
                if m is None:
                    self.result["errors"].append("unknown: %s" % g[0][0])
                    continue
            rr = self.candidate(ctx, g, g[0][0], model=m)
            if rr == "violation":
                return
            if rr == "infeasible":
                self.stats["discharged"] += 1
        if self.valid_left > 0:
            self.validate(ctx)

    def hunt(self, ctx, g):
        """The query is too hard: look for a counterexample with some inputs pinned."""
        asg = {n: (a if k == "choice" else 0.5 * (a.iv[0] + a.iv[1])) for n, k, a in ctx.inputs}
        r, m = solve.smt_check(ctx.assertions([]), 1500)
        if r == "sat":
            asg = ctx.assignment(m, "trig")
        w = ctx.witness(asg, [g[0][1]], self.rnd, tries=600, slack=1e-5)
        if w is not None:
            pins = [a.z == (int(w[n]) if k == "int" else core.zfrac(core.to_frac(w[n]))) for n, k, a in ctx.inputs if k != "choice"]
            r, m = solve.smt_check(pins, 1000)
            if r == "sat":
                return m
        for k in range(4):
            zs = ctx.assertions([g[0][1].t])
            pins = []
            ins = [a for _, kind, a in ctx.inputs if kind in ("real", "angle")]
            self.rnd.shuffle(ins)
            for a in ins[:max(1, len(ins) * (k + 2) // 6)]:
                lo, hi = a.iv
                v = round(self.rnd.uniform(lo, hi), 2)
                pins.append(a.z == core.zfrac(core.to_frac(v)))
            r, m = solve.smt_check(zs + pins, 1500)
            if r == "sat":
                return m
        return None

    def models(self, ctx, extra, first=None):
        """Candidate models of the path condition with extra, the robust ones first."""
        goal_ms = ctx.opts["goal_ms"]
        for eps in (core.Fraction(1, 1000), core.Fraction(1, 10 ** 6)):
            zs = ctx.assertions([t.t for t in extra], eps=eps, lo_eps_extra=eps)
            r, m = solve.smt_check(zs, goal_ms[0])
            self.stats["queries"] += 1
            if r == "unknown":
                r, m = solve.nlsat_check(zs, min(goal_ms[1], 4000))
            if r == "sat":
                yield m
                break
        if first is not None:
            yield first
        else:
            r, m, _ = solve.decide(ctx.assertions([t.t for t in extra]), goal_ms, self.stats)
            if r == "unsat":
                yield "unsat"
                return
            if r == "sat":
                yield m
                first = m
        # consistent trigonometry: pin angles to rational points of the circle and solve again
        base = first
        if base is None:
            return
        for k in range(8):
            pins = ctx.pins(base, None if k == 0 else self.rnd)
            if not pins and k >= 3:
                break
            if not pins:
                # diversify
                ins = [a for _, kind, a in ctx.inputs if kind in ("real", "angle")]
                for a in ins:
                    if self.rnd.random() < 0.4:
                        lo, hi = a.iv
                        pins.append(a.z == core.zfrac(core.to_frac(round(self.rnd.uniform(lo, hi), 2))))
            zs = ctx.assertions([t.t for t in extra]) + pins
            r, m = solve.smt_check(zs, 3000)
            if r == "unknown":
                r, m = solve.nlsat_check(zs, 3000)
            if r == "sat":
                yield m

    def candidate(self, ctx, checks, what, model=None, exc=None):
        """A possible violation: replay its models on the real code."""
        names = [n for n, _ in checks]
        extra = [t for _, t in checks if isinstance(t, SymBool)]
        tried = []
        last = None
        for m in self.models(ctx, extra, model):
            if m == "unsat":
                if not tried:
                    return "infeasible"
                break
            for how in ("trig", "plain", "near"):
                asg = ctx.assignment(m, "plain" if how == "plain" else "trig")
                if how == "near":
                    asg = ctx.witness(asg, extra, self.rnd, slack=1e-5)
                if asg is None or asg in tried:
                    continue
                tried.append(asg)
                rep = self.worker.run(self.module, self.case.name, asg, self.tier)
                self.stats["replays"] += 1
                last = rep
                v = self.verdict(rep, names, exc)
                if v:
                    self.result["violations"].append({"what": v, "checks": names, "assignment": asg, "case": self.case.name,
                                                      "module": self.module, "tier": self.tier, "replay": rep})
                    return "violation"
        if not tried:
            if exc is not None and (isinstance(exc, ZeroDivisionError) or getattr(ctx, "nan", False)):
                self.result["excluded"].append(what)
                return "excluded"
            self.result["errors"].append("undecided: %s (no model)" % what)
            return "unknown"
        if exc is not None and (isinstance(exc, ZeroDivisionError) or isinstance(exc, ValueError) and ("square root of a neg" in str(exc) or "out of its domain" in str(exc))) and last and last["status"] in ("ok", "assume"):
            # boundary of the domain (0/0, arcsin beyond 1 by a margin the reals do not have): numpy carries on
            self.result["excluded"].append(what)
            self.stats["paths_excluded"] += 1
            return "excluded"
        self.result["errors"].append("counterexample of %s does not reproduce: %s -> %s; %s" % (
            what, json.dumps(tried[0])[:800], json.dumps(last)[:500],
            "".join(traceback.format_exception(exc)[-3:]) if exc is not None else ""))
        return "unreproduced"

    def verdict(self, rep, names, exc):
        if rep["status"] == "exc":
            if rep["exc"]["inrepo"] or exc is not None:
                return "the real code raises %s: %s (%s)" % (rep["exc"]["type"], rep["exc"]["msg"], rep["exc"]["where"])
            return None
        if rep["status"] in ("ok", "hang") and rep["failed"]:
            return "; ".join("%s [%s]" % (n, d) for n, d in rep["failed"][:4])
        return None

    def validate(self, ctx):
        """Encoding check and reachability witness: a model of the path replayed on the real code gives the same outputs."""
        self.valid_left -= 1
        m = None
        at = set()
        for _, v in ctx.observed:
            for x in flat(v):
                if isinstance(x, Sym):
                    at |= x.atoms()
                elif isinstance(x, SymBool):
                    core.tree_atoms(x.t, at)
        for eps in (core.Fraction(1, 200), core.Fraction(1, 10 ** 5)):
            zs = ctx.assertions([], eps=eps, atoms=at)
            r, m = solve.smt_check(zs, 2000)
            if r == "unknown":
                r, m = solve.nlsat_check(zs, 2000)
            if r == "sat":
                break
            m = None
        if m is None:
            return
        pins = ctx.pins(m, None)
        if pins:
            zs = ctx.assertions([], eps=core.Fraction(1, 10 ** 6), atoms=at) + pins
            r, m2 = solve.smt_check(zs, 2000)
            if r == "unknown":
                r, m2 = solve.nlsat_check(zs, 2000)
            if r == "sat":
                m = m2
        asg = ctx.assignment(m, "trig")
        w = ctx.witness(asg, [], self.rnd)
        if w is None:
            self.stats["unwitnessed"] += 1
        else:
            asg = w
        rep = self.worker.run(self.module, self.case.name, asg, self.tier)
        self.stats["replays"] += 1
        if rep["status"] != "ok":
            return
        if rep["failed"]:
            # the real code violates the property on a model of the path: a genuine counterexample
            self.result["violations"].append({"what": "; ".join("%s [%s]" % (n, d) for n, d in rep["failed"][:4]),
                                              "checks": [n for n, _ in rep["failed"]], "assignment": asg,
                                              "case": self.case.name, "module": self.module, "tier": self.tier, "replay": rep})
            return
        if w is None:
            return
        val = ctx.numeric(asg)
        mism = []
        sym_obs = [(n, eval_obs(ctx, val, v)) for n, v in ctx.observed]
        for (n, a), (n2, b) in zip(sym_obs, rep["observed"]):
            if n != n2 or len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b)):
                mism.append((n, a, b))
        if len(sym_obs) != len(rep["observed"]):
            mism.append(("count", len(sym_obs), len(rep["observed"])))
        if mism:
            self.result["mismatch"].append({"asg": asg, "mismatch": mism[:4]})
        else:
            self.validated += 1
            if len(self.result["samples"]) < 2:
                self.result["samples"].append({"case": self.case.name, "inputs": asg,
                                               "observed": [(n, v[:6]) for n, v in rep["observed"][:6]]})
