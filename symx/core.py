"""Symbolic values, path conditions and exploration context."""
import math
import sys
import time
from fractions import Fraction

import numpy as _np

# z3 lives in the tooling venv: appended at the very end so that the numpy of the repository wins.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

z3.set_param("model.completion", True)


# --------------------------------------------------------------------------------------------------------------
# steering exceptions: BaseException so that `except Exception` in the code under test never swallows them
class PathEnd(BaseException):
    """The current path is over (infeasible assumption)."""


class Unsupported(BaseException):
    """The engine cannot represent an operation: the check gives no answer."""


class Budget(BaseException):
    """The time or path budget is over."""


class TooDeep(Budget):
    """A path of suspicious length: it may never end."""


class Hang(BaseException):
    """The code has been running for very long without a decision."""


CUR = None  # current symbolic context


def cur():
    if CUR is None:
        raise Unsupported("symbolic value used outside of a context")
    return CUR


# --------------------------------------------------------------------------------------------------------------
_FRAC_CACHE = {}


def to_frac(x):
    """Exact rational standing for a python number; floats are read as the short decimal/fraction they denote."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    x = float(x)
    r = _FRAC_CACHE.get(x)
    if r is None:
        f = Fraction(x).limit_denominator(2000)
        if f == 0 and x != 0 or abs(float(f) - x) > 3e-16 * max(abs(x), 1e-300):
            f = Fraction(repr(x))
        r = _FRAC_CACHE[x] = f
    return r


def zfrac(f):
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


INF = float("inf")


class Atom(object):
    __slots__ = ("id", "z", "iv", "kind", "data", "defs", "deps", "isint", "trig", "name")

    def __init__(self, id_, z, iv, kind, data=None, isint=False, name=None):
        self.id, self.z, self.iv, self.kind, self.data = id_, z, iv, kind, data
        self.defs, self.deps = [], set()
        self.isint = isint
        self.trig = None
        self.name = name


def iv_add(a, b):
    return a[0] + b[0], a[1] + b[1]


def iv_mul(a, b):
    c = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                c.append(0.0)
            else:
                c.append(x * y)
    return min(c), max(c)


def iv_pow(a, n):
    r = a
    for _ in range(n - 1):
        r = iv_mul(r, a)
    if n % 2 == 0:
        lo, hi = a
        m = max(abs(lo), abs(hi)) ** n if max(abs(lo), abs(hi)) != INF else INF
        if lo <= 0 <= hi:
            return 0.0, m
        mi = min(abs(lo), abs(hi)) ** n
        return mi, m
    return r


def iv_out(a):
    lo, hi = a
    e = 1e-12
    return (lo - e * abs(lo) if lo not in (-INF, INF) and lo != 0 else lo,
            hi + e * abs(hi) if hi not in (-INF, INF) and hi != 0 else hi)


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_))


def snap_trig(c0):
    """cos and sin of a numeric constant as rationals (exact on the multiples of pi/2)."""
    v = float(c0)
    k = v / (math.pi / 2)
    n = round(k)
    if abs(v - n * (math.pi / 2)) < 1e-11:
        n %= 4
        return [(1, 0), (0, 1), (-1, 0), (0, -1)][n]
    return math.cos(v), math.sin(v)


# --------------------------------------------------------------------------------------------------------------
class Sym(object):
    """A real-valued term in polynomial normal form over atoms."""
    __slots__ = ("p", "_z", "_iv")
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p
        self._z = None
        self._iv = None

    # -- construction
    @staticmethod
    def const(x):
        f = to_frac(x)
        return Sym({(): f} if f else {})

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.as_num()
        if isinstance(x, Fraction):
            return Sym({(): x} if x else {})
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            return Sym.of(x.item())
        if is_num(x):
            return Sym.const(x)
        raise TypeError("not a number: %r" % (x,))

    @staticmethod
    def atom(a):
        return Sym({((a.id, 1),): Fraction(1)})

    # -- inspection
    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const_value(self):
        return self.p.get((), Fraction(0))

    def atoms(self):
        r = set()
        for m in self.p:
            for a, _ in m:
                r.add(a)
        return r

    @property
    def z(self):
        if self._z is None:
            terms = []
            at = cur().atoms
            for m, k in sorted(self.p.items()):
                fs = []
                for a, e in m:
                    za = at[a].z
                    if at[a].isint:
                        za = z3.ToReal(za)
                    fs.extend([za] * e)
                if k != 1 or not fs:
                    fs.insert(0, zfrac(k))
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t)
            if not terms:
                self._z = z3.RealVal(0)
            else:
                self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return self._z

    @property
    def iv(self):
        if self._iv is None:
            at = cur().atoms
            lo = hi = 0.0
            for m, k in self.p.items():
                r = (float(k), float(k))
                for a, e in m:
                    r = iv_mul(r, iv_pow(at[a].iv, e) if e > 1 else at[a].iv)
                lo, hi = lo + r[0], hi + r[1]
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
            self._iv = iv_out((lo, hi)) if len(self.p) > 1 else (lo, hi)
        return self._iv

    def is_int(self):
        at = cur().atoms
        return all(k.denominator == 1 and all(at[a].isint for a, _ in m) for m, k in self.p.items())

    # -- arithmetic
    def _bin(self, other, f):
        if isinstance(other, _np.ndarray) and other.ndim > 0:
            from . import shim
            return shim.elementwise(lambda o: f(self, Sym.of(o)), other)
        if hasattr(other, "iloc") or other is None or isinstance(other, (str, list, tuple, dict)):
            return NotImplemented
        if isinstance(other, float) or isinstance(other, _np.floating):
            if other != other:
                return float("nan")
            if other in (INF, -INF):
                raise Unsupported("arithmetic with infinity")
        try:
            o = Sym.of(other)
        except TypeError:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, sym_add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: sym_add(a, sym_scale(b, Fraction(-1))))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: sym_add(b, sym_scale(a, Fraction(-1))))

    def __mul__(self, o):
        return self._bin(o, sym_mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, sym_div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: sym_div(b, a))

    def __neg__(self):
        return sym_scale(self, Fraction(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return sym_abs(self)

    def __pow__(self, n):
        if isinstance(n, _np.ndarray):
            return NotImplemented
        return sym_pow(self, n)

    def __rpow__(self, b):
        n = concretize_int(self, "index")
        return b ** n

    def __mod__(self, m):
        return self._bin(m, sym_mod)

    def __rmod__(self, m):
        return self._bin(m, lambda a, b: sym_mod(b, a))

    def __floordiv__(self, m):
        return self._bin(m, lambda a, b: simp(Sym.of(concretize_int(sym_div(a, b), "floor"))))

    def __rfloordiv__(self, m):
        return self._bin(m, lambda a, b: simp(Sym.of(concretize_int(sym_div(b, a), "floor"))))

    # -- comparisons
    def _cmp(self, other, op):
        if isinstance(other, _np.ndarray) and other.ndim > 0:
            from . import shim
            return shim.elementwise(lambda o: compare(self, o, op), other)
        if other is None or isinstance(other, (str, list, tuple, dict)) or hasattr(other, "iloc"):
            return NotImplemented
        return compare(self, other, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        if self.is_const():
            return hash(float(self.const_value()))
        return id(self)

    def __bool__(self):
        return bool(compare(self, 0, "!="))

    # -- conversions
    def __int__(self):
        return concretize_int(self, "trunc")

    def __index__(self):
        return concretize_int(self, "index")

    def __trunc__(self):
        return concretize_int(self, "trunc")

    def __floor__(self):
        return concretize_int(self, "floor")

    def __ceil__(self):
        return concretize_int(self, "ceil")

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("round with digits")
        return concretize_int(self, "round")

    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        raise Unsupported("float() of a symbolic value outside of the instrumented modules")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        try:
            return "Sym(%s)" % self.z
        except BaseException:
            return "Sym(?)"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # methods looked up by numpy on object arrays
    def cos(self):
        return cur().trig(self)[0]

    def sin(self):
        return cur().trig(self)[1]

    def tan(self):
        c, s = cur().trig(self)
        return s / c

    def sqrt(self):
        return sym_sqrt(self)

    def conjugate(self):
        return self

    def __getitem__(self, idx):
        # a scalar stands for an array without axes: only new axes can be taken
        if not (idx is Ellipsis or idx is None or isinstance(idx, tuple) and all(i is Ellipsis or i is None for i in idx)):
            raise TypeError("'Sym' object is not subscriptable")
        n = 1 if idx is None else 0 if idx is Ellipsis else sum(1 for i in idx if i is None)
        if not n:
            return self
        from . import shim
        return shim.OVERRIDES["array"]([self]).reshape((1,) * n)

    def item(self):
        return self

    def squeeze(self, *a, **k):
        return self

    def astype(self, t, *a, **k):
        return self

    def copy(self):
        return self

    def any(self):
        return self.__bool__()

    def all(self):
        return self.__bool__()

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import shim
        return shim.apply_ufunc(ufunc, method, inputs, kwargs)


def simp(s):
    """Return a python number when the term is constant."""
    if isinstance(s, Sym) and s.is_const():
        f = s.const_value()
        return _np.float64(float(f))
    return s


def sym_add(a, b):
    if len(a.p) < len(b.p):
        a, b = b, a
    p = dict(a.p)
    for m, k in b.p.items():
        v = p.get(m, 0) + k
        if v:
            p[m] = v
        else:
            p.pop(m, None)
    return Sym(p)


def sym_scale(a, k):
    if not k:
        return Sym({})
    return Sym({m: v * k for m, v in a.p.items()})


MAX_TERMS = 160


def mono_mul(m1, m2):
    """Product of monomials -> Sym (after rewriting) or monomial tuple."""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    at = cur().atoms
    extra = None
    for a in list(d):
        if a not in d:
            continue
        k = at[a].kind
        if k == "inv1":
            b = at[a].data
            if b in d:
                n = min(d[a], d[b])
                d[a] -= n
                d[b] -= n
                if not d[a]:
                    del d[a]
                if not d[b]:
                    del d[b]
        elif k == "sin" and d[a] >= 2:
            n = d[a] // 2
            c = at[a].data
            d[a] -= 2 * n
            if not d[a]:
                del d[a]
            r = Sym({(): Fraction(1), ((c, 2),): Fraction(-1)})
            for _ in range(n):
                extra = r if extra is None else sym_mul(extra, r)
        elif k == "sqrt" and d[a] >= 2 and len(at[a].data.p) <= 12:
            n = d[a] // 2
            d[a] -= 2 * n
            if not d[a]:
                del d[a]
            for _ in range(n):
                extra = at[a].data if extra is None else sym_mul(extra, at[a].data)
    return tuple(sorted(d.items())), extra


def sym_mul(a, b):
    if a.is_const():
        return sym_scale(b, a.const_value())
    if b.is_const():
        return sym_scale(a, b.const_value())
    ctx = cur()
    if len(a.p) * len(b.p) > MAX_TERMS:
        a, b = ctx.name_term(a), ctx.name_term(b)
    out = {}
    pend = []
    for m1, k1 in a.p.items():
        for m2, k2 in b.p.items():
            m, extra = mono_mul(m1, m2)
            k = k1 * k2
            if extra is None:
                v = out.get(m, 0) + k
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
            else:
                pend.append((m, k, extra))
    r = Sym(out)
    for m, k, extra in pend:
        r = sym_add(r, sym_mul(Sym({m: k}), extra))
    return r


def sym_pow(a, n):
    if isinstance(n, Sym):
        if not n.is_const():
            n = concretize_int(n, "index")
        else:
            n = n.const_value()
    f = to_frac(n)
    if f.denominator == 2:
        r = sym_sqrt(a)
        return sym_pow(Sym.of(r), f.numerator) if f.numerator != 1 else r
    if f.denominator != 1:
        raise Unsupported("power with exponent %s" % f)
    n = int(f)
    if n < 0:
        return sym_div(Sym.const(1), Sym.of(sym_pow(a, -n)))
    r = Sym.const(1)
    for _ in range(n):
        r = sym_mul(r, a)
    return r


def sym_div(a, b):
    if b.is_const():
        k = b.const_value()
        if not k:
            return div_by_zero(a)
        return sym_scale(a, 1 / k)
    lo, hi = b.iv
    if not (lo > 0 or hi < 0):
        if bool(compare(b, 0, "==")):
            return div_by_zero(a)
    return sym_mul(a, cur().inverse(b))


def div_by_zero(a):
    ctx = cur()
    ctx.div0 = True
    raise ZeroDivisionError("division by zero (symbolic)")


def sym_abs(a):
    if a.is_const():
        return simp(Sym.const(abs(a.const_value())))
    lo, hi = a.iv
    if lo >= 0:
        return a
    if hi <= 0:
        return -a
    return ite(compare(a, 0, ">="), a, -a)


def poly_sqrt(p):
    """Try to write the polynomial as a square; return the root or None."""
    if not p or len(p) > 21:
        return None

    def deg(m):
        return (sum(e for _, e in m), m)

    rem = dict(p)
    lead = max(rem, key=deg)
    k = rem[lead]
    if k < 0 or any(e % 2 for _, e in lead):
        return None
    n, d = k.numerator, k.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn != n or rd * rd != d:
        return None
    root = {tuple((a, e // 2) for a, e in lead): Fraction(rn, rd)}
    lm, lk = next(iter(root.items()))
    ld = dict(lm)
    rem.pop(lead)
    for _ in range(12):
        if not rem:
            return Sym(root)
        m = max(rem, key=deg)
        q = dict(m)
        for a, e in ld.items():
            if q.get(a, 0) < e:
                return None
            q[a] -= e
            if not q[a]:
                del q[a]
        qm = tuple(sorted(q.items()))
        qk = rem[m] / (2 * lk)
        # rem -= 2*root*q + q^2
        new = Sym({qm: qk})
        t = sym_add(sym_scale(raw_mul(Sym(root), new), Fraction(2)), raw_mul(new, new))
        r2 = sym_add(Sym(rem), sym_scale(t, Fraction(-1)))
        rem = r2.p
        if qm in root:
            return None
        root[qm] = qk
    return None


def raw_mul(a, b):
    out = {}
    for m1, k1 in a.p.items():
        for m2, k2 in b.p.items():
            d = dict(m1)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(d.items()))
            v = out.get(m, 0) + k1 * k2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return Sym(out)


def sym_sqrt(a, lo=None):
    """Square root; lo is a known lower bound of the argument (for sums of squares)."""
    if not isinstance(a, Sym):
        return _np.sqrt(a)
    if lo is not None and a.iv[0] < lo:
        a = Sym(a.p)
        a._iv = (lo, max(lo, Sym(a.p).iv[1]))
    if a.is_const():
        f = a.const_value()
        if f < 0:
            raise Unsupported("square root of a negative constant")
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return _np.float64(n / d)
        return _np.float64(math.sqrt(f))
    r = poly_sqrt(a.p)
    if r is not None:
        return sym_abs(r)
    return cur().sqrt_atom(a)


def sym_mod(a, b):
    if not b.is_const():
        raise Unsupported("modulo by a symbolic value")
    m = b.const_value()
    if not m:
        raise ZeroDivisionError("modulo by zero")
    if a.is_const():
        return simp(Sym.of(a.const_value() % m))
    return cur().mod(a, m)


# --------------------------------------------------------------------------------------------------------------
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}


def compare(a, b, op):
    if isinstance(b, (float, _np.floating)):
        if b != b:
            return op == "!="
        if b == INF:
            return op in ("<", "<=", "!=")
        if b == -INF:
            return op in (">", ">=", "!=")
    try:
        a, b = Sym.of(a), Sym.of(b)
    except TypeError:
        if op == "==":
            return False
        if op == "!=":
            return True
        raise
    d = sym_add(a, sym_scale(b, Fraction(-1)))
    return poly_cmp(d, op)


def poly_cmp(d, op):
    """Truth value of d op 0."""
    if d.is_const():
        v = d.const_value()
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
    lo, hi = d.iv
    if op == "<" and hi < 0 or op == "<=" and hi <= 0 or op == ">" and lo > 0 or op == ">=" and lo >= 0:
        return True
    if op == "<" and lo >= 0 or op == "<=" and lo > 0 or op == ">" and hi <= 0 or op == ">=" and hi < 0:
        return False
    if lo > 0 or hi < 0:
        if op == "==":
            return False
        if op == "!=":
            return True
    # k*sqrt(e) + c op 0  -> comparison of squares, which does not mention the root
    at = cur().atoms
    ms = [m for m in d.p if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and at[ms[0][0][0]].kind == "sqrt":
        k, c = d.p[ms[0]], d.p.get((), Fraction(0))
        e = at[ms[0][0][0]].data
        t = -c / k  # r op' t
        o = op if k > 0 else {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
        if t >= 0:
            return poly_cmp(sym_add(e, Sym.const(-t * t)), o)
        return {"<": False, "<=": False, ">": True, ">=": True, "==": False, "!=": True}[o]
    # a product / power of a single atom: x^2 op 0
    return SymBool(("cmp", op, d))


class SymBool(object):
    """A boolean term; asking for its truth value forks the execution."""
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().fork(self)

    def as_num(self):
        return Sym.of(ite(self, 1, 0))

    def _log(self, o, f):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            from . import shim
            return shim.elementwise(lambda x: f(self, x), o)
        return f(self, o)

    def __and__(self, o):
        return self._log(o, lambda a, b: And(a, b))

    __rand__ = __and__

    def __or__(self, o):
        return self._log(o, lambda a, b: Or(a, b))

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __xor__(self, o):
        return Or(And(self, Not(o)), And(Not(self), o))

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return And(self, o)
        return self.as_num() * o

    def __rmul__(self, o):
        return self.as_num() * o

    def __add__(self, o):
        return self.as_num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_num() - o

    def __rsub__(self, o):
        return o - self.as_num()

    def __truediv__(self, o):
        return self.as_num() / o

    def __neg__(self):
        return -self.as_num()

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else Not(self)
        if isinstance(o, SymBool):
            return Or(And(self, o), And(Not(self), Not(o)))
        if is_num(o) or isinstance(o, Sym):
            return self.as_num() == o
        return False

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def __lt__(self, o):
        return self.as_num() < o

    def __le__(self, o):
        return self.as_num() <= o

    def __gt__(self, o):
        return self.as_num() > o

    def __ge__(self, o):
        return self.as_num() >= o

    def __hash__(self):
        return id(self)

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __float__(self):
        return 1. if self else 0.

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def logical_not(self):
        return Not(self)

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    def __repr__(self):
        return "SymBool(%s)" % (to_z(self.t),)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import shim
        return shim.apply_ufunc(ufunc, method, inputs, kwargs)


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _tb(x):
    """normalise to tree or python bool"""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, Sym):
        return _tb(compare(x, 0, "!="))
    return bool(x)


def And(*xs):
    out = []
    for x in xs:
        t = _tb(x)
        if t is False:
            return False
        if t is True:
            continue
        out.extend(t[1] if t[0] == "and" else [t])
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else ("and", out))


def Or(*xs):
    out = []
    for x in xs:
        t = _tb(x)
        if t is True:
            return True
        if t is False:
            continue
        out.extend(t[1] if t[0] == "or" else [t])
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else ("or", out))


def neg_tree(t):
    if t[0] == "cmp":
        return ("cmp", NEG[t[1]], t[2])
    if t[0] == "and":
        return ("or", [neg_tree(x) for x in t[1]])
    if t[0] == "or":
        return ("and", [neg_tree(x) for x in t[1]])
    if t[0] == "z":
        return ("z", z3.Not(t[1]), t[2])
    raise AssertionError(t)


def Not(x):
    t = _tb(x)
    if isinstance(t, bool):
        return not t
    return SymBool(neg_tree(t))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def to_z(t, eps=None):
    if t is True or t is False:
        return z3.BoolVal(t)
    if t[0] == "cmp":
        op, p = t[1], t[2].z
        e = zfrac(eps) if eps is not None else None
        if op == "<":
            return p < 0 if e is None else p < -e
        if op == "<=":
            return p <= 0 if e is None else p <= -e
        if op == ">":
            return p > 0 if e is None else p > e
        if op == ">=":
            return p >= 0 if e is None else p >= e
        if op == "==":
            return p == 0
        return p != 0 if e is None else z3.Or(p > e, p < -e)
    if t[0] == "and":
        return z3.And([to_z(x, eps) for x in t[1]])
    if t[0] == "or":
        return z3.Or([to_z(x, eps) for x in t[1]])
    return t[1]


def tree_atoms(t, out):
    if t is True or t is False:
        return
    if t[0] == "cmp":
        out |= t[2].atoms()
    elif t[0] in ("and", "or"):
        for x in t[1]:
            tree_atoms(x, out)
    else:
        out |= t[2]


def ite(c, a, b):
    """c ? a : b without forking (unless the context asks for it)."""
    if isinstance(c, Sym):
        c = compare(c, 0, "!=")
    if not isinstance(c, SymBool):
        return a if c else b
    if cur().opts.get("fork_ite"):
        return a if bool(c) else b
    a_, b_ = Sym.of(a), Sym.of(b)
    if a_.p == b_.p:
        return a
    return cur().ite_atom(c, a_, b_)


def rounded(s):
    """(x, mode) if s is the rounding of a term x, kept symbolic."""
    if isinstance(s, Sym) and len(s.p) == 1:
        (m, k), = s.p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            a = cur().atoms[m[0][0]]
            if a.kind == "rnd":
                return a.data
    return None


def lazy_int(s, mode):
    """Rounding to an integer (as a real): forks over the values if they are few, else stays symbolic."""
    if not isinstance(s, Sym):
        s = Sym.of(s)
    lo, hi = s.iv
    if s.is_const() or (lo != -INF and hi != INF and int_of(hi, mode) - int_of(lo, mode) <= 12):
        return concretize_int(s, mode)
    if s.is_int():
        return s
    return cur().rounding(s, mode)


def _commute(a, b, f):
    """max/min of a rounded term and an integer constant: the rounding of the max/min (rounding is monotone)."""
    for x, y in ((a, b), (b, a)):
        r = rounded(x)
        if r is not None and not is_sym(y) and float(y).is_integer():
            return lazy_int(f(r[0], y), r[1])
    return None


def sym_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    r = _commute(a, b, sym_max)
    if r is not None:
        return r
    c = compare(a, b, ">=")
    return ite(c, a, b)


def sym_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    r = _commute(a, b, sym_min)
    if r is not None:
        return r
    c = compare(a, b, "<=")
    return ite(c, a, b)


def concretize_int(s, mode):
    """Fork over the integer value of int(s), floor(s), ...: returns a python int on every path."""
    if not isinstance(s, Sym):
        s = Sym.of(s)
    if s.is_const():
        v = s.const_value()
        if mode == "trunc":
            return int(v)
        if mode == "floor":
            return v.numerator // v.denominator
        if mode == "ceil":
            return -((-v.numerator) // v.denominator)
        if mode == "round":
            return round(v)
        if v.denominator != 1:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(v)
    r = rounded(s)
    if r is not None:
        return cur().fork_int(*r)
    if s.is_int():
        mode = "index"
    return cur().fork_int(s, mode)


def int_cell(s, n, mode):
    if mode == "index":
        return compare(s, n, "==")
    if mode == "floor":
        return And(s >= n, s < n + 1)
    if mode == "ceil":
        return And(s > n - 1, s <= n)
    if mode == "trunc":
        if n > 0:
            return And(s >= n, s < n + 1)
        if n < 0:
            return And(s > n - 1, s <= n)
        return And(s > -1, s < 1)
    if mode == "round":  # half to even
        h = Fraction(1, 2)
        if n % 2 == 0:
            return And(s >= Sym.of(n - h), s <= Sym.of(n + h))
        return And(s > Sym.of(n - h), s < Sym.of(n + h))
    raise AssertionError(mode)


def int_of(v, mode):
    if mode == "trunc":
        return int(v)
    if mode == "floor":
        return math.floor(v)
    if mode == "ceil":
        return math.ceil(v)
    if mode == "round":
        return round(v)
    return int(v)


PI_F = to_frac(math.pi)
