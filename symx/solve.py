"""Solver portfolio."""
import math
import os
import subprocess
import sys
import time
from fractions import Fraction

from .core import z3


def num(v):
    """Fraction of a z3 numeral (algebraic numbers are approximated)."""
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    s = z3.simplify(v)
    if z3.is_rational_value(s) or z3.is_int_value(s) or z3.is_algebraic_value(s):
        return num(s)
    raise ValueError("not a numeral: %s" % v)


def smt_check(zs, ms, seed=0):
    # a fresh context: the verdict does not depend on the queries made before
    c = z3.Context()
    s = z3.Solver(ctx=c)
    s.set("timeout", int(ms))
    if seed:
        s.set("random_seed", seed)
        s.set("smt.arith.random_initial_value", True)
    s.add([z.translate(c) for z in zs])
    r = s.check()
    return str(r), (s.model().translate(z3.main_ctx()) if r == z3.sat else None)


_NL = None


def nlsat_check(zs, ms):
    global _NL
    if _NL is None:
        _NL = z3.Tactic("qfnra-nlsat")
    g = z3.Goal()
    g.add(zs)
    s = z3.TryFor(_NL, int(ms)).solver()
    s.set("timeout", int(ms))
    s.add(zs)
    try:
        r = s.check()
    except z3.Z3Exception:
        return "unknown", None
    return str(r), (s.model() if r == z3.sat else None)


def cvc5_check(zs, ms, cov=True):
    """cvc5 on the SMT-LIB text; only its 'unsat' is used (models come from z3)."""
    s = z3.Solver()
    s.add(zs)
    body = s.to_smt2()
    body = "(set-logic ALL)\n" + "\n".join(l for l in body.splitlines() if not l.startswith("(set-info"))
    cmd = ["cvc5", "--lang=smt2", "--tlimit=%d" % int(ms)]
    if cov:
        cmd.append("--nl-cov")
    try:
        p = subprocess.run(cmd, input=body.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=ms / 1000. + 5)
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    out = p.stdout.decode().strip().splitlines()
    if out and out[0] in ("sat", "unsat"):
        return out[0]
    return "unknown"


def decide(zs, budget_ms, stats, want_model=True):
    """sat/unsat/unknown with the portfolio; returns (verdict, model, engine)."""
    m1, m2, m3 = budget_ms
    t0 = time.time()
    try:
        stats["queries"] += 1
        for seed in (0, 7, 23) if m2 else (0,):
            r, m = smt_check(zs, m1 if not seed else m1 // 2, seed)
            if r != "unknown":
                return r, m, "z3-smt"
        r, m = nlsat_check(zs, m2)
        if r != "unknown":
            return r, m, "z3-nlsat"
        if m3:
            r = cvc5_check(zs, m3)
            if r == "unsat":
                return r, None, "cvc5-cov"
            if r == "sat":
                r, m = nlsat_check(zs, 2 * m3)
                return r, m, "z3-nlsat"
        return "unknown", None, "-"
    finally:
        stats["solver_s"] += time.time() - t0
