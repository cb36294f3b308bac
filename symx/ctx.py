"""Symbolic exploration context: atoms and their definitions, forking, obligations, models."""
import math
import random
import signal
import time
from fractions import Fraction

from . import core
from .core import (Sym, SymBool, Atom, PathEnd, Unsupported, Budget, TooDeep, And, Or, Not, compare, to_z, tree_atoms, zfrac,
                   to_frac, z3, INF, ite, simp, is_sym)
from . import solve

DEFAULTS = dict(fork_ite=False, trig_signs=True, feas_ms=400, feas2_ms=0, goal_ms=(3000, 12000, 20000),
                tol=1e-6, margin=1e-4, max_paths=4000, max_depth=400)


class SymCtx(object):
    symbolic = True

    def __init__(self, prefix, opts, stats):
        self.opts = dict(DEFAULTS)
        self.opts.update(opts)
        self.stats = stats
        self.atoms = {}
        self.n = 0
        self.prefix = list(prefix)
        self.trace = []          # decisions taken so far
        self.pending = []        # new prefixes to explore
        self.pc = []             # path condition trees
        self.inputs = []         # (name, kind, payload)
        self.names = set()
        self.checks = []
        self.identities = []  # equalities of terms with the same normal form, as solver terms         # (name, tree of the violation)
        self.observed = []
        self.cache = {}
        self.trig_bases = {}     # monomial -> list of (k0, c, s)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.opts["feas_ms"])
        self.solver_atoms = set()
        self.model = None
        self.model_atoms = set()
        self.div0 = False
        self.lemmas = []
        self.notes = []
        self.deadline = self.alarm = None

    # ------------------------------------------------------------------------------------------------ atoms
    def new_atom(self, kind, iv=(-INF, INF), z=None, data=None, isint=False, name=None):
        self.n += 1
        nm = name or "%s!%d" % (kind, self.n)
        if z is None:
            z = z3.Int(nm) if isint else z3.Real(nm)
        a = Atom(self.n, z, iv, kind, data, isint, nm)
        self.atoms[self.n] = a
        return a

    def define(self, atom, zexprs, deps):
        atom.defs.extend(zexprs)
        atom.deps |= set(deps) - {atom.id}

    def key(self, s):
        return tuple(sorted(s.p.items()))

    def name_term(self, s):
        """Give a (large) polynomial a name."""
        if len(s.p) <= 1:
            return s
        k = ("name", self.key(s))
        r = self.cache.get(k)
        if r is None:
            a = self.new_atom("def", s.iv, data=s)
            self.define(a, [a.z == s.z], s.atoms())
            r = self.cache[k] = Sym.atom(a)
        return r

    def inverse(self, d):
        if len(d.p) == 1:
            (m, k), = d.p.items()
            r = Sym.const(1)
            r = core.sym_scale(r, 1 / k)
            for a, e in m:
                inv = self.inverse_atom(a)
                for _ in range(e):
                    r = core.sym_mul(r, inv)
            return r
        lead = min(d.p)
        k0 = d.p[lead]
        dn = core.sym_scale(d, 1 / k0)
        k = ("inv", self.key(dn))
        r = self.cache.get(k)
        if r is None:
            lo, hi = dn.iv
            iv = (-INF, INF)
            if lo > 0 or hi < 0:
                iv = tuple(sorted((1 / lo if lo else INF, 1 / hi if hi else INF)))
                iv = core.iv_out(iv)
            a = self.new_atom("inv", iv, data=dn)
            self.define(a, [a.z * dn.z == 1], dn.atoms())
            r = self.cache[k] = Sym.atom(a)
        return core.sym_scale(r, 1 / k0)

    def inverse_atom(self, aid):
        b = self.atoms[aid]
        if b.kind == "inv1":
            return Sym.atom(self.atoms[b.data])
        k = ("inv1", aid)
        r = self.cache.get(k)
        if r is None:
            lo, hi = b.iv
            iv = (-INF, INF)
            if lo > 0 or hi < 0:
                iv = core.iv_out(tuple(sorted((1 / lo if lo not in (INF, -INF) else 0.,
                                               1 / hi if hi not in (INF, -INF) else 0.))))
            elif lo >= 0:
                iv = (0., INF)
            elif hi <= 0:
                iv = (-INF, 0.)
            a = self.new_atom("inv1", iv, data=aid)
            self.define(a, [a.z * b.z == 1], [aid])
            r = self.cache[k] = Sym.atom(a)
        return r

    def sqrt_atom(self, e):
        k = ("sqrt", self.key(e))
        r = self.cache.get(k)
        if r is None:
            lo, hi = e.iv
            if lo < 0 and bool(compare(e, 0, "<")):
                self.nan = True
                raise ValueError("square root of a negative value")
            iv = core.iv_out((math.sqrt(max(lo, 0.)), math.sqrt(hi) if hi != INF else INF))
            a = self.new_atom("sqrt", iv, data=e)
            self.define(a, [a.z >= 0, a.z * a.z == e.z], e.atoms())
            if hi != INF:
                self.define(a, [a.z <= zfrac(to_frac(iv[1]))], [])
            if iv[0] > 0:
                self.define(a, [a.z >= zfrac(to_frac(iv[0]))], [])
            r = self.cache[k] = Sym.atom(a)
        return r

    def ite_atom(self, c, a, b):
        za, zb, zc = a.z, b.z, to_z(c.t)
        k = ("ite", zc.get_id(), self.key(a), self.key(b))
        r = self.cache.get(k)
        if r is None:
            ia, ib = a.iv, b.iv
            t = self.new_atom("ite", (min(ia[0], ib[0]), max(ia[1], ib[1])), data=(c, a, b))
            deps = a.atoms() | b.atoms()
            tree_atoms(c.t, deps)
            self.define(t, [z3.If(zc, t.z == za, t.z == zb)], deps)
            r = self.cache[k] = Sym.atom(t)
            self.cache[("keep", t.id)] = zc
            # tighten: max(x, k) >= k, min(x, k) <= k, |x| >= 0
            self._tighten_ite(t, c, a, b)
        return r

    def _tighten_ite(self, t, c, a, b):
        if c.t[0] != "cmp":
            return
        op, d = c.t[1], c.t[2]
        ab = core.sym_add(a, core.sym_scale(b, Fraction(-1)))
        for sgn in (1, -1):
            for k in (Fraction(1), Fraction(1, 2), Fraction(2)):
                if core.sym_scale(ab, Fraction(sgn) * k).p == d.p:
                    mx = (op in (">", ">=")) == (sgn == 1)
                    ia, ib = a.iv, b.iv
                    if mx:
                        t.iv = (max(ia[0], ib[0]), max(ia[1], ib[1]))
                    else:
                        t.iv = (min(ia[0], ib[0]), min(ia[1], ib[1]))
                    if core.sym_add(a, b).p == {} and mx:
                        t.iv = (max(0., t.iv[0]), t.iv[1])
                    return

    # ------------------------------------------------------------------------------------------------ trigonometry
    def new_base(self, mono, k0, kind="free"):
        """cos/sin pair of k0*mono."""
        ci = self.new_atom("cos", (-1., 1.), data=None)
        si = self.new_atom("sin", (-1., 1.), data=ci.id)
        ci.data = (mono, k0)
        circle = ci.z * ci.z + si.z * si.z == 1
        self.define(ci, [circle, ci.z <= 1, ci.z >= -1, si.z <= 1, si.z >= -1], [si.id])
        self.define(si, [], [ci.id])
        self.trig_bases.setdefault(mono, []).append((k0, Sym.atom(ci), Sym.atom(si)))
        if kind == "free" and self.opts["trig_signs"]:
            t = Sym({mono: k0})
            lo, hi = t.iv
            ax = []
            zt, pi = t.z, zfrac(to_frac(math.pi))
            if lo >= -math.pi - 1e-9 and hi <= math.pi + 1e-9:
                ax += [z3.Implies(zt >= 0, si.z >= 0), z3.Implies(zt <= 0, si.z <= 0),
                       z3.Implies(si.z > 0, zt > 0), z3.Implies(si.z < 0, zt < 0),
                       z3.Implies(z3.And(zt <= pi / 2, zt >= -pi / 2), ci.z >= 0),
                       z3.Implies(z3.Or(zt >= pi / 2, zt <= -pi / 2), ci.z <= 0),
                       z3.Implies(zt >= 0, si.z <= zt), z3.Implies(zt <= 0, si.z >= zt),
                       (ci.z == 1) == (zt == 0)]
                if lo >= -math.pi / 2 - 1e-9 and hi <= math.pi / 2 + 1e-9:
                    lim = max(abs(lo), abs(hi))
                    cm = max(0., math.cos(min(lim, math.pi / 2)))
                    ci.iv = (core.iv_out((cm, 1.))[0] if cm > 1e-9 else 0., 1.)
                    ax += [ci.z >= zfrac(to_frac(ci.iv[0]))]
                    sm = min(1., math.sin(min(lim, math.pi / 2)) + 1e-12)
                    si.iv = (-sm if lo < 0 else 0., sm if hi > 0 else 0.)
                    ax += [si.z >= zfrac(to_frac(si.iv[0])), si.z <= zfrac(to_frac(si.iv[1]))]
            self.define(ci, ax, t.atoms())
        return Sym.atom(ci), Sym.atom(si)

    def multiple(self, c, s, n):
        """cos/sin of n times an angle."""
        if n < 0:
            c, s = self.multiple(c, s, -n)
            return c, -Sym.of(s)
        rc, rs = Sym.const(1), Sym.const(0)
        for _ in range(n):
            rc, rs = (core.sym_add(core.sym_mul(rc, c), -core.sym_mul(rs, s)),
                      core.sym_add(core.sym_mul(rs, c), core.sym_mul(rc, s)))
        return rc, rs

    def base_trig(self, mono, k):
        if len(mono) == 1 and mono[0][1] == 1:
            at = self.atoms[mono[0][0]]
            if at.trig is not None and k.denominator == 1 and abs(k) <= 6:
                c, s = at.trig() if callable(at.trig) else at.trig
                return self.multiple(Sym.of(c), Sym.of(s), int(k))
            if at.kind == "ite" and at.trig is None and k.denominator == 1 and abs(k) <= 6:
                cond, a, b = at.data
                ca, sa = self.trig(a)
                cb, sb = self.trig(b)
                c, s = Sym.of(ite(cond, ca, cb)), Sym.of(ite(cond, sa, sb))
                at.trig = (c, s)
                return self.multiple(c, s, int(k))
        for k0, c, s in self.trig_bases.get(mono, []):
            r = k / k0
            if r.denominator == 1 and abs(r) <= 8:
                return self.multiple(c, s, int(r))
        old = list(self.trig_bases.get(mono, []))
        c, s = self.new_base(mono, k)
        for k0, c0, s0 in old:  # k0 = n * k: link the coarse base to the new finer one
            r = k0 / k
            if r.denominator == 1 and abs(r) <= 4:
                cm, sm = self.multiple(c, s, int(r))
                a = self.atoms[min(c.atoms())]
                self.define(a, [c0.z == cm.z, s0.z == sm.z], c0.atoms() | s0.atoms())
        return c, s

    def trig(self, x):
        """(cos, sin) of a term."""
        if not is_sym(x):
            return core.snap_trig(x)
        k = ("trig", self.key(x))
        r = self.cache.get(k)
        if r is not None:
            return r
        c0, s0 = core.snap_trig(x.p.get((), Fraction(0)))
        c, s = Sym.const(c0), Sym.const(s0)
        for m, kf in sorted(x.p.items()):
            if not m:
                continue
            cb, sb = self.base_trig(m, kf)
            c, s = (core.sym_add(core.sym_mul(c, cb), -core.sym_mul(s, sb)),
                    core.sym_add(core.sym_mul(s, cb), core.sym_mul(c, sb)))
        r = self.cache[k] = (simp(c), simp(s))
        return r

    def angle_atom(self, kind, key, iv, c, s, extra=lambda z: [], deps=()):
        k = (kind,) + key
        r = self.cache.get(k)
        if r is None:
            a = self.new_atom("angle", iv, data=kind)
            a.trig = (Sym.of(c), Sym.of(s))
            d = set(deps) | a.trig[0].atoms() | a.trig[1].atoms()
            self.define(a, [a.z >= zfrac(to_frac(iv[0])), a.z <= zfrac(to_frac(iv[1]))] + extra(a.z), d)
            r = self.cache[k] = Sym.atom(a)
        return r

    def arctan2(self, y, x):
        y, x = Sym.of(y), Sym.of(x)
        if y.is_const() and x.is_const():
            return math.atan2(float(y), float(x))
        r2 = core.sym_add(core.sym_mul(x, x), core.sym_mul(y, y))
        if not r2.iv[0] > 0 and bool(compare(r2, 0, "==")):
            return 0.0
        r = Sym.of(core.sym_sqrt(r2, 0.))
        c, s = core.sym_div(x, r), core.sym_div(y, r)
        pi = zfrac(to_frac(math.pi))

        def ax(z):
            return [(z > 0) == z3.Or(y.z > 0, z3.And(y.z == 0, x.z < 0)), (z < 0) == (y.z < 0),
                    z3.Implies(x.z > 0, z3.And(z < pi / 2, z > -pi / 2)),
                    z3.Implies(x.z < 0, z3.Or(z > pi / 2, z < -pi / 2)),
                    (z == 0) == z3.And(y.z == 0, x.z > 0)]
        lo, hi = -math.pi, math.pi
        if x.iv[0] > 0:
            lo, hi = -math.pi / 2, math.pi / 2
        if y.iv[0] >= 0:
            lo = 0.
        if y.iv[1] < 0:
            hi = 0.
        return self.angle_atom("arctan2", (self.key(y), self.key(x)), (lo, hi), c, s, ax, x.atoms() | y.atoms())

    def arctan(self, x):
        x = Sym.of(x)
        if x.is_const():
            return math.atan(float(x))
        c = core.sym_div(Sym.const(1), Sym.of(core.sym_sqrt(core.sym_add(Sym.const(1), core.sym_mul(x, x)), 1.)))
        s = core.sym_mul(x, c)
        lo, hi = x.iv
        iv = core.iv_out((math.atan(lo), math.atan(hi)))

        def ax(z):
            return [z3.Implies(x.z >= 0, z3.And(z >= 0, z <= x.z)), z3.Implies(x.z <= 0, z3.And(z <= 0, z >= x.z)),
                    (z == 0) == (x.z == 0)]
        return self.angle_atom("arctan", (self.key(x),), iv, c, s, ax, x.atoms())

    def arcsin(self, x):
        x = Sym.of(x)
        if x.is_const():
            return math.asin(float(x))
        lo, hi = x.iv
        if lo < -1 or hi > 1:
            if bool(Or(compare(x, 1, ">"), compare(x, -1, "<"))):
                raise ValueError("arcsin out of its domain")
        lo, hi = max(lo, -1.), min(hi, 1.)
        c = Sym.of(core.sym_sqrt(core.sym_add(Sym.const(1), -core.sym_mul(x, x)), 0.))
        iv = core.iv_out((math.asin(lo), math.asin(hi)))
        h = zfrac(to_frac(math.pi) / 2)

        def ax(z):
            return [z3.Implies(x.z >= 0, z3.And(z >= x.z, z <= h * x.z)),
                    z3.Implies(x.z <= 0, z3.And(z <= x.z, z >= h * x.z)), (z == 0) == (x.z == 0)]
        return self.angle_atom("arcsin", (self.key(x),), iv, c, x, ax, x.atoms())

    def arccos(self, x):
        a = self.arcsin(x)
        return simp(Sym.of(to_frac(math.pi) / 2) - a)

    def rounding(self, x, mode):
        """The rounding of x as an integer-valued atom."""
        k = ("rnd", self.key(x), mode)
        r = self.cache.get(k)
        if r is None:
            lo, hi = x.iv
            a = self.new_atom("rnd", (lo - 1, hi + 1), data=(x, mode), isint=True)
            n, h, v = z3.ToReal(a.z), z3.RealVal("1/2"), x.z
            if mode == "floor":
                d = [n <= v, v < n + 1]
            elif mode == "ceil":
                d = [n - 1 < v, v <= n]
            elif mode == "trunc":
                d = [z3.If(v >= 0, z3.And(n <= v, v < n + 1), z3.And(n - 1 < v, v <= n))]
            else:
                d = [n - h <= v, v <= n + h, z3.Implies(z3.Or(v == n + h, v == n - h), a.z % 2 == 0)]
            self.define(a, d, x.atoms())
            r = self.cache[k] = Sym.atom(a)
        return r

    def mod(self, x, m):
        """x % m for a positive constant m."""
        if m < 0:
            raise Unsupported("negative modulus")
        k = ("mod", self.key(x), m)
        r = self.cache.get(k)
        if r is not None:
            return r
        lo, hi = x.iv
        if lo == -INF or hi == INF or (hi - lo) / float(m) > 40:
            # the remainder as a bounded atom
            n = self.rounding(core.sym_scale(x, 1 / m), "floor")
            full = core.sym_add(x, core.sym_scale(n, -m))
            a = self.new_atom("def", (0., float(m)), data=full)
            self.define(a, [a.z == full.z, a.z >= 0, a.z < zfrac(m)], full.atoms())
            r = self.cache[k] = Sym.atom(a)
            return r
        # the quotient is a concrete integer on every path
        n = self.fork_int(core.sym_scale(x, 1 / m), "floor")
        r = core.sym_add(x, Sym.of(-n * m))
        self.cache[k] = r
        return r

    def inj(self, a, b):
        """True fact: equal cosines and sines and |a-b| < 2pi imply a == b (instantiated on demand)."""
        a, b = Sym.of(a), Sym.of(b)
        if a.is_const() and b.is_const():
            return
        (ca, sa), (cb, sb) = self.trig(a), self.trig(b)
        ca, sa, cb, sb = map(Sym.of, (ca, sa, cb, sb))
        pi2 = zfrac(to_frac(2 * math.pi) * Fraction(999999999, 1000000000))
        d = core.sym_add(a, -b)
        e1, e2 = core.sym_add(ca, -cb), core.sym_add(sa, -sb)
        z = z3.Implies(z3.And(e1.z == 0, e2.z == 0, d.z < pi2, d.z > -pi2), d.z == 0)
        self._lemma(z, d.atoms() | e1.atoms() | e2.atoms())

    def _lemma(self, z, atoms):
        self.pc.append(("z", z, set(atoms)))
        self._solver_add(self.pc[-1])

    # ------------------------------------------------------------------------------------------------ inputs
    def _declare(self, name, kind, lo, hi, isint=False):
        if name in self.names:
            raise Unsupported("duplicate input " + name)
        self.names.add(name)
        a = self.new_atom("var", (float(lo), float(hi)), isint=isint, name="in." + name)
        self.define(a, [a.z >= (int(lo) if isint else zfrac(to_frac(lo))),
                        a.z <= (int(hi) if isint else zfrac(to_frac(hi)))], [])
        self.inputs.append((name, kind, a))
        return Sym.atom(a)

    def real(self, name, lo, hi):
        if lo == hi:
            return lo
        return self._declare(name, "real", lo, hi)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self._declare(name, "int", lo, hi, isint=True)

    def angle(self, name, lo=-math.pi, hi=math.pi):
        if lo == hi:
            return lo
        return self._declare(name, "angle", lo, hi)

    def choose(self, name, options):
        """A discrete input: one path per option."""
        options = list(options)
        if name in self.names:
            raise Unsupported("duplicate input " + name)
        self.names.add(name)
        d = self._next_decision()
        if d is None:
            for i in range(len(options) - 1, 0, -1):
                self.pending.append(self.trace + [("c", i)])
            d = ("c", 0)
        self.trace.append(d)
        self.inputs.append((name, "choice", d[1]))
        return options[d[1]]

    def bool(self, name):
        return self.choose(name, [False, True])

    # ------------------------------------------------------------------------------------------------ forking
    def _next_decision(self):
        i = len(self.trace)
        if i < len(self.prefix):
            return self.prefix[i]
        if i > self.opts["max_depth"]:
            raise TooDeep("path too deep")
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        if self.alarm:
            signal.setitimer(signal.ITIMER_VIRTUAL, self.alarm)
        return None

    def closure(self, atoms):
        todo, seen = list(atoms), set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            todo.extend(self.atoms[a].deps - seen)
        return seen

    def _solver_add(self, tree):
        at = set()
        tree_atoms(tree, at)
        for a in sorted(self.closure(at) - self.solver_atoms):
            self.solver_atoms.add(a)
            for d in self.atoms[a].defs:
                self.solver.add(d)
        self.solver.add(to_z(tree))

    def _feasible(self, tree):
        """'sat' / 'unsat' / 'unknown' of the path condition with tree."""
        at = set()
        tree_atoms(tree, at)
        cl = self.closure(at)
        z = to_z(tree)
        if self.model is not None and cl <= self.model_atoms:
            try:
                if z3.is_true(self.model.eval(z, model_completion=True)):
                    self.stats["model_hits"] += 1
                    return "sat"
            except z3.Z3Exception:
                pass
        for a in sorted(cl - self.solver_atoms):
            self.solver_atoms.add(a)
            for d in self.atoms[a].defs:
                self.solver.add(d)
        t0 = time.time()
        self.solver.push()
        self.solver.add(z)
        r = self.solver.check()
        if r == z3.sat:
            self.model = self.solver.model()
            self.model_atoms = set(self.solver_atoms)
        self.solver.pop()
        self.stats["feas_queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        if r == z3.unknown and self.opts["feas2_ms"]:
            t0 = time.time()
            r = solve.nlsat_check(self.assertions([tree]), self.opts["feas2_ms"])[0]
            self.stats["solver_s"] += time.time() - t0
            self.stats["feas_queries"] += 1
            r = str(r)
        if str(r) == "unknown":
            self.stats["feas_unknown"] += 1
        return str(r)

    def _assume_tree(self, tree):
        self.pc.append(tree)
        self._solver_add(tree)
        if self.model is not None:
            at = set()
            tree_atoms(tree, at)
            ok = False
            if self.closure(at) <= self.model_atoms:
                try:
                    ok = z3.is_true(self.model.eval(to_z(tree), model_completion=True))
                except z3.Z3Exception:
                    ok = False
            if not ok:
                self.model = None

    def fork(self, b):
        d = self._next_decision()
        t = b.t
        if d is not None:
            self.trace.append(d)
            self._assume_tree(t if d[1] else core.neg_tree(t))
            return d[1]
        nt = core.neg_tree(t)
        m = self.model
        st = self._feasible(t)
        mt = self.model
        self.model, ma = m, self.model_atoms
        sf = self._feasible(nt) if st != "unsat" else "sat"
        if st != "unsat" and sf != "unsat":
            self.pending.append(self.trace + [("b", False)])
            self.stats["forks"] += 1
            self.model = mt
            val = True
        else:
            val = st != "unsat"
        self.trace.append(("b", val))
        self._assume_tree(t if val else nt)
        return val

    def fork_int(self, s, mode):
        lo, hi = s.iv
        if lo != -INF and hi != INF:
            a, b = core.int_of(lo - 1e-9, mode), core.int_of(hi + 1e-9, mode)
        else:
            a, b = None, None
        if a is not None and a == b:
            return a
        while True:
            d = self._next_decision()
            if d is not None:
                self.trace.append(d)
                cell = core.int_cell(s, d[1], mode)
                if d[2]:
                    self._assume(cell)
                    return d[1]
                self._assume(Not(cell))
                continue
            v = self._model_value(s)
            n = core.int_of(v, mode)
            cell = core.int_cell(s, n, mode)
            out = Not(cell)
            if cell is False:
                n = core.int_of(float(v), mode)
                cell = core.int_cell(s, n, mode)
                out = Not(cell)
            if out is not False and self._feasible(core._tb(out)) != "unsat" if not isinstance(out, bool) else out:
                self.pending.append(self.trace + [("i", n, False)])
                self.stats["forks"] += 1
            self.trace.append(("i", n, True))
            self._assume(cell)
            return n

    def _assume(self, b):
        if isinstance(b, SymBool):
            self._assume_tree(b.t)
        elif not b:
            raise PathEnd()

    def _model_value(self, s):
        """A value of s on some feasible state of this path."""
        cl = self.closure(s.atoms())
        if self.model is None or not cl <= self.model_atoms:
            for a in sorted(cl - self.solver_atoms):
                self.solver_atoms.add(a)
                for d in self.atoms[a].defs:
                    self.solver.add(d)
            t0 = time.time()
            r = self.solver.check()
            self.stats["feas_queries"] += 1
            self.stats["solver_s"] += time.time() - t0
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                r, m = solve.nlsat_check(self.assertions([]), 5000)
                if str(r) == "unsat":
                    raise PathEnd()
                if str(r) != "sat":
                    raise Unsupported("no model to concretise an integer")
                self.model, self.model_atoms = m, set(self.solver_atoms)
            else:
                self.model = self.solver.model()
                self.model_atoms = set(self.solver_atoms)
        return solve.num(self.model.eval(s.z, model_completion=True))

    def assume(self, cond):
        if isinstance(cond, core.Sym):
            cond = cond != 0
        if not isinstance(cond, SymBool):
            if not cond:
                raise PathEnd()
            return
        i = len(self.trace)
        if i < len(self.prefix):
            self._assume_tree(cond.t)
            return
        if self._feasible(cond.t) == "unsat":
            raise PathEnd()
        self._assume_tree(cond.t)

    # ------------------------------------------------------------------------------------------------ obligations
    def check(self, name, cond):
        """cond must hold."""
        if isinstance(cond, core.Sym):
            cond = cond != 0
        self.checks.append((name, Not(cond) if isinstance(cond, SymBool) else (not bool(cond))))

    def eq(self, name, a, b, tol=None, margin=None):
        m = self.opts["margin"] if margin is None else margin
        if not is_sym(a) and not is_sym(b):
            self.check(name, abs(float(a) - float(b)) <= m)
            return
        d = Sym.of(a) - Sym.of(b)
        if d.is_const():
            ok = abs(d.const_value()) <= m
            self.check(name, ok)
            if ok:
                self.identities.append((Sym.of(a).z, Sym.of(b).z, m))
            return
        self.check(name, And(d <= m, d >= -m))

    def le(self, name, a, b, tol=None, margin=None):
        m = self.opts["margin"] if margin is None else margin
        self.check(name, (Sym.of(a) - Sym.of(b)) <= m if is_sym(a) or is_sym(b) else a - b <= m)

    def fail(self, name):
        self.check(name, False)

    def observe(self, name, value):
        self.observed.append((name, value))

    def note(self, s):
        self.notes.append(s)

    # ------------------------------------------------------------------------------------------------ queries
    def assertions(self, extra=(), eps=None, lo_eps_extra=None, atoms=()):
        at = set(atoms)
        trees = list(self.pc) + list(extra)
        for t in trees:
            tree_atoms(t, at)
        zs = []
        for a in sorted(self.closure(at)):
            zs.extend(self.atoms[a].defs)
        for t in self.pc:
            zs.append(to_z(t, eps))
        for t in extra:
            zs.append(to_z(t, lo_eps_extra))
        return zs

    def numeric(self, asg):
        """Float values of all atoms for given inputs (no solver: the definitions of the atoms are evaluated in order)."""
        val = {}

        def ev(s):
            t = 0.0
            for m, k in s.p.items():
                r = float(k)
                for a, e in m:
                    r *= val[a] ** e
                t += r
            return t
        for i in sorted(self.atoms):
            a = self.atoms[i]
            try:
                if a.kind == "var":
                    v = float(asg[a.name[3:]])
                elif a.kind == "def":
                    v = ev(a.data)
                elif a.kind == "inv":
                    d = ev(a.data)
                    v = 1 / d if d else INF
                elif a.kind == "inv1":
                    d = val[a.data]
                    v = 1 / d if d else INF
                elif a.kind == "sqrt":
                    v = math.sqrt(max(ev(a.data), 0.0))
                elif a.kind == "rnd":
                    v = float(core.int_of(ev(a.data[0]), a.data[1]))
                elif a.kind == "ite":
                    c, x, y = a.data
                    v = ev(x) if self.holds(c.t, val) else ev(y)
                elif a.kind == "cos":
                    mono, k0 = a.data
                    v = math.cos(ev(Sym({mono: k0})))
                elif a.kind == "sin":
                    mono, k0 = self.atoms[a.data].data
                    v = math.sin(ev(Sym({mono: k0})))
                elif a.kind == "angle":
                    c, sn = a.trig
                    v = math.atan2(ev(sn), ev(c))
                else:
                    return None
            except (KeyError, OverflowError, ValueError):
                return None
            val[i] = v
        return val

    def num_eval(self, s, val):
        t = 0.0
        for m, k in s.p.items():
            r = float(k)
            for a, e in m:
                r *= val[a] ** e
            t += r
        return t

    def holds(self, t, val, slack=0.0):
        """Truth of a condition under float values; slack > 0 asks for a margin on strict and non-strict inequalities."""
        if t is True or t is False:
            return t
        if t[0] == "cmp":
            v = self.num_eval(t[2], val)
            op = t[1]
            if v != v:
                return False
            if op in ("<", "<="):
                return v < -slack if slack or op == "<" else v <= 0
            if op in (">", ">="):
                return v > slack if slack or op == ">" else v >= 0
            if op == "==":
                return abs(v) <= 1e-9
            return abs(v) > max(slack, 1e-9)
        if t[0] == "and":
            return all(self.holds(x, val, slack) for x in t[1])
        if t[0] == "or":
            return any(self.holds(x, val, slack) for x in t[1])
        return True

    def witness(self, asg, extra, rnd, tries=150, slack=1e-7):
        """Inputs near asg that really follow this path (and satisfy extra) under float semantics, or None."""
        trees = list(self.pc) + [t.t for t in extra]
        ins = [(n, k, a) for n, k, a in self.inputs if k != "choice"]
        cur_ = dict(asg)
        for i in range(tries):
            val = self.numeric(cur_)
            if val is None:
                return None
            if all(self.holds(t, val, slack) for t in trees):
                return cur_
            cur_ = dict(asg)
            scale = (0.02, 0.1, 0.5)[i % 3]
            for n, k, a in ins:
                lo, hi = a.iv
                if rnd.random() < 0.5:
                    continue
                if k == "int":
                    if rnd.random() < 0.3:
                        cur_[n] = rnd.randint(int(lo), int(hi))
                elif rnd.random() < 0.15:
                    cur_[n] = rnd.uniform(lo, hi)
                else:
                    cur_[n] = min(max(cur_[n] + rnd.gauss(0, scale * min(hi - lo, 10.)), lo), hi)
        return None

    def assignment(self, model, how="trig"):
        """Concrete input values of a model."""
        out = {}
        used = {}
        for mono, bases in self.trig_bases.items():
            if len(mono) == 1 and mono[0][1] == 1:
                used[mono[0][0]] = bases
        for name, kind, a in self.inputs:
            if kind == "choice":
                out[name] = a
                continue
            v = solve.num(model.eval(a.z, model_completion=True))
            if kind == "int":
                out[name] = int(v)
                continue
            lo, hi = a.iv
            f = min(max(float(v), lo), hi)
            if how == "trig" and a.id in used:
                k0, c, s = used[a.id][-1]
                cv = float(solve.num(model.eval(c.z, model_completion=True)))
                sv = float(solve.num(model.eval(s.z, model_completion=True)))
                if abs(math.cos(float(k0) * f) - cv) + abs(math.sin(float(k0) * f) - sv) > 1e-7:
                    base = math.atan2(sv, cv) / float(k0)
                    period = abs(2 * math.pi / float(k0))
                    cands = [base + j * period for j in range(-8, 9)]
                    cands = [x for x in cands if lo - 1e-9 <= x <= hi + 1e-9]
                    if cands:
                        f = min(cands, key=lambda x: abs(x - f))
                        f = min(max(f, lo), hi)
            out[name] = f
        return out

    def pins(self, model, rnd):
        """Constraints making the trigonometric terms consistent with the angles they stand for."""
        zs = []
        for mono, bases in self.trig_bases.items():
            if not (len(mono) == 1 and mono[0][1] == 1):
                continue
            a = self.atoms[mono[0][0]]
            k0, c, s = bases[-1]
            if a.kind != "var":
                continue
            asg = self.assignment(model)
            val = asg[a.name[3:]]
            if rnd is not None:
                lo, hi = a.iv
                val = min(max(val + rnd.gauss(0, 0.2) * min(1.0, (hi - lo) / 4), lo), hi)
            th = float(k0) * val
            # rational point of the circle next to th
            if abs(math.cos(th) + 1) < 1e-12:
                zs += [c.z == -1, s.z == 0, a.z == zfrac(to_frac(val))]
                continue
            t = Fraction(math.tan(th / 2)).limit_denominator(10 ** 7)
            cc, ss = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            th2 = 2 * math.atan(float(t))
            th2 += round((th - th2) / (2 * math.pi)) * 2 * math.pi
            val2 = Fraction(repr(th2 / float(k0)))
            zs += [c.z == zfrac(cc), s.z == zfrac(ss), a.z == zfrac(val2)]
        return zs
