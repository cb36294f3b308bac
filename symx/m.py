"""Mathematics for harnesses: the same code runs on symbolic terms and on floats."""
import math

import numpy as np

try:
    from . import core, shim
    from .core import And, Or, Not, Implies, Iff, is_sym, ite, sym_max, sym_min, Sym, SymBool
except ImportError:  # pragma: no cover
    raise


def cos(x):
    return shim.s_cos(x)


def sin(x):
    return shim.s_sin(x)


def sqrt(x):
    return shim.s_sqrt(x)


def absv(x):
    return shim.s_abs(x)


def mx(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = sym_max(r, x)
    return r


def mn(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = sym_min(r, x)
    return r


def clip(x, lo, hi):
    return mn(mx(x, lo), hi)


def arr(xs):
    """An array as the code under test would have it (nested lists: several axes)."""
    flat = [xs]
    while flat and isinstance(flat[0], (list, tuple, np.ndarray)) and len(flat[0]):
        flat = [y for x in flat for y in x]
    if any(is_sym(x) for x in flat):
        return shim.OVERRIDES["array"](list(xs))
    xs = np.array(xs, dtype=float)
    return shim.wrap(xs) if core.CUR is not None else xs


def asin(x):
    return shim.OVERRIDES["arcsin"](x)


def atan(x):
    return shim.OVERRIDES["arctan"](x)


pi = math.pi
iff = Iff
