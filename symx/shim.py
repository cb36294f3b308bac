"""numpy / math / builtins as seen by the instrumented modules: identical on concrete data, symbolic otherwise."""
import builtins
import math as _math
import types

import numpy as np

from . import core
from .core import (Sym, SymBool, Unsupported, And, Or, Not, compare, ite, is_sym, simp, sym_max, sym_min, cur)


# --------------------------------------------------------------------------------------------------------------
class SymArray(np.ndarray):
    """ndarray (object dtype for floating data) able to hold symbolic values."""

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        f = OVERRIDES.get(func.__name__)
        if f is not None and getattr(np, func.__name__, None) is func:
            return f(*args, **kwargs)
        if getattr(np.linalg, func.__name__, None) is func:
            return getattr(LINALG, func.__name__)(*args, **kwargs)
        args, kwargs = plain(args), plain(kwargs)
        return wrap(func(*args, **kwargs))

    def astype(self, dtype, *a, **k):
        if _is_float_dtype(dtype):
            if self.dtype == object:
                return self.copy()
            return wrap(np.asarray(self).astype(float, *a, **k))
        if _is_int_dtype(dtype) and self.dtype == object:
            out = np.empty(self.shape, dtype=object)
            for i in np.ndindex(self.shape):
                out[i] = s_int(np.ndarray.__getitem__(self, i))
            return np.array(out.tolist(), dtype=int).reshape(self.shape).view(SymArray) if out.size else \
                out.astype(int).view(SymArray)
        if dtype in (bool, np.bool_) and self.dtype == object:
            out = np.empty(self.shape, dtype=bool)
            for i in np.ndindex(self.shape):
                out[i] = bool(np.ndarray.__getitem__(self, i))
            return out.view(SymArray)
        return np.ndarray.astype(self, dtype, *a, **k)

    def _index(self, idx):
        def one(i):
            if isinstance(i, Sym):
                return core.concretize_int(i, "index")
            if isinstance(i, SymBool):
                return bool(i)
            if isinstance(i, np.ndarray) and i.dtype == object:
                fl = list(i.flat)
                if fl and all(isinstance(x, (bool, np.bool_, SymBool)) for x in fl):
                    return np.array([bool(x) for x in fl], dtype=bool).reshape(i.shape)
                return np.array([operator_index(x) for x in fl], dtype=int).reshape(i.shape)
            if isinstance(i, list):
                return [one(x) for x in i]
            return i
        if isinstance(idx, tuple):
            return tuple(one(i) for i in idx)
        return one(idx)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, self._index(idx))
        if type(r) is float:
            return np.float64(r)
        return r

    def __setitem__(self, idx, v):
        if isinstance(v, SymArray):
            v = np.asarray(v)
        np.ndarray.__setitem__(self, self._index(idx), v)

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.item(self) if self.dtype != object else self.flat[0])
        return np.ndarray.__bool__(self)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def __float__(self):
        return s_float(self.flat[0])

    def fill(self, v):
        for i in np.ndindex(self.shape):
            np.ndarray.__setitem__(self, i, v)

    # reductions
    def dot(self, o, out=None):
        return OVERRIDES["dot"](self, o)

    def sum(self, axis=None, *a, **k):
        return OVERRIDES["sum"](self, axis=axis)

    def mean(self, axis=None, *a, **k):
        return OVERRIDES["mean"](self, axis=axis)

    def min(self, axis=None, *a, **k):
        return OVERRIDES["amin"](self, axis=axis)

    def max(self, axis=None, *a, **k):
        return OVERRIDES["amax"](self, axis=axis)

    def argmin(self, axis=None, *a, **k):
        return OVERRIDES["argmin"](self, axis=axis)

    def argmax(self, axis=None, *a, **k):
        return OVERRIDES["argmax"](self, axis=axis)

    def all(self, axis=None, *a, **k):
        return OVERRIDES["all"](self, axis=axis)

    def any(self, axis=None, *a, **k):
        return OVERRIDES["any"](self, axis=axis)

    def clip(self, lo=None, hi=None, *a, **k):
        return OVERRIDES["clip"](self, lo, hi)

    def round(self, *a, **k):
        return elementwise(s_rint, self)

    def tostring(self, *a):
        if self.dtype == object:
            return tuple(key_of(x) for x in self.flat)
        return np.ndarray.tobytes(self)

    tobytes = tostring

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")


def key_of(x):
    if isinstance(x, Sym):
        return ("s",) + tuple(sorted(x.p.items()))
    return float(x) + 0.


def operator_index(x):
    if isinstance(x, (Sym, SymBool)):
        return x.__index__()
    if isinstance(x, float) and not x.is_integer():
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return int(x)


def _is_float_dtype(d):
    return d in (float, SFloat, "float", "float64", "f8", np.float64, np.float32, np.float_, "float32", object)


def _is_int_dtype(d):
    return d in (int, SInt, "int", "int64", np.int64, np.int32, np.int_, "int32")


def wrap(r):
    """Result of a numpy call -> what instrumented code sees."""
    if isinstance(r, np.ndarray):
        if r.ndim == 0 and r.dtype == object:
            return r.item()
        if isinstance(r, SymArray):
            return r
        if isinstance(r, np.matrix):
            return r
        if r.dtype.kind == "f":
            o = r.astype(object)
            if o.ndim == 0:
                return r
            return o.view(SymArray)
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def plain(x):
    """SymArrays without symbolic content -> float arrays; with symbolic content -> object ndarrays."""
    if isinstance(x, SymArray):
        if x.dtype == object and not has_sym(x):
            try:
                return np.array(x.tolist(), dtype=float).reshape(x.shape)
            except (TypeError, ValueError):
                return x.view(np.ndarray)
        return x.view(np.ndarray)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(plain(i) for i in x)
    if type(x) is list:
        return [plain(i) for i in x]
    if type(x) is dict:
        return {k: plain(v) for k, v in x.items()}
    if x is SFloat:
        return float
    if x is SInt:
        return int
    return x


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(has_sym(i) for i in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    if isinstance(x, dict):
        return any(has_sym(i) for i in x.values())
    if hasattr(x, "iloc"):
        return has_sym(np.asarray(x.values))
    return False


def symarr(x):
    """Anything array-like -> object ndarray (plain)."""
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).astype(object) if x.dtype != object else x.view(np.ndarray)
    if is_sym(x) or core.is_num(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if hasattr(x, "iloc"):
        return np.asarray(x.values, dtype=object)
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__"):
        xs = [symarr(i) for i in x]
        if not xs:
            return np.empty((0,), dtype=object)
        shp = xs[0].shape
        if any(i.shape != shp for i in xs):
            raise ValueError("inhomogeneous array")
        a = np.empty((len(xs),) + shp, dtype=object)
        for n, i in enumerate(xs):
            a[n] = i[()] if i.ndim == 0 else i
        return a
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def elementwise(f, *arrs):
    arrs = [symarr(a) for a in arrs]
    bc = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = bc.shape if bc is not None else arrs[0].shape
    if len(arrs) > 1:
        arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        xs = [a[i] for a in arrs]
        if any(is_sym(x) for x in xs):
            # numpy scalars would hand the operation back to numpy
            xs = [x.item() if isinstance(x, np.generic) else x for x in xs]
        out[i] = f(*xs)
    if shape == ():
        return out[()]
    return fin(out)


def fin(out):
    """object ndarray result -> SymArray (bool dtype when all concrete booleans)."""
    fl = list(out.flat)
    if fl and all(type(x) in (bool, np.bool_) for x in fl):
        return np.array(fl, dtype=bool).reshape(out.shape).view(SymArray)
    return out.view(SymArray)


# --------------------------------------------------------------------------------------------------------------
# scalar functions
def num(x):
    if isinstance(x, SymBool):
        return x.as_num()
    return x


def s_cos(x):
    return x.cos() if isinstance(x, Sym) else np.cos(x)


def s_sin(x):
    return x.sin() if isinstance(x, Sym) else np.sin(x)


def s_tan(x):
    return x.tan() if isinstance(x, Sym) else np.tan(x)


def s_sqrt(x):
    return core.sym_sqrt(x) if isinstance(x, Sym) else np.sqrt(x)


def s_abs(x):
    x = num(x)
    return core.sym_abs(x) if isinstance(x, Sym) else np.abs(x)


def s_sign(x):
    x = num(x)
    if not isinstance(x, Sym):
        return np.sign(x)
    if x > 0:
        return 1
    if x < 0:
        return -1
    return 0


def fl(n):
    return n if is_sym(n) else np.float64(n)


def s_floor(x):
    return fl(core.lazy_int(x, "floor")) if is_sym(x) else np.floor(x)


def s_ceil(x):
    return fl(core.lazy_int(x, "ceil")) if is_sym(x) else np.ceil(x)


def s_rint(x, decimals=0):
    if not is_sym(x):
        return np.round(x, decimals)
    if decimals:
        return s_rint(x * 10 ** decimals) / 10 ** decimals
    return fl(core.lazy_int(num(x), "round"))


def s_trunc(x):
    return fl(core.lazy_int(x, "trunc")) if is_sym(x) else np.trunc(x)


def s_clip1(x, lo, hi):
    x, lo, hi = num(x), num(lo), num(hi)
    if not (is_sym(x) or is_sym(lo) or is_sym(hi)):
        return np.clip(x, lo, hi)
    r = x
    if lo is not None:
        r = sym_max(r, lo)
    if hi is not None:
        r = sym_min(r, hi)
    return r


def s_power(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.power(float(a), b)
    return num(a) ** b if is_sym(a) else a ** num(b)


def s_div(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.true_divide(a, b)
    return num(a) / num(b)


def s_mod(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.mod(a, b)
    return num(a) % num(b)


def s_isfinite(x):
    return True if is_sym(x) else bool(np.isfinite(x))


def s_isnan(x):
    return False if is_sym(x) else bool(np.isnan(x))


def s_hypot(a, b):
    return s_sqrt(a * a + b * b) if is_sym(a) or is_sym(b) else np.hypot(a, b)


def f2(fsym, fnum):
    return lambda a, b: fsym(num(a), num(b)) if is_sym(a) or is_sym(b) else fnum(a, b)


def f1(fsym, fnum):
    return lambda a: fsym(num(a)) if is_sym(a) else fnum(a)


def unsupported(name):
    def f(*a):
        if any(is_sym(x) for x in a):
            raise Unsupported(name)
        return getattr(np, name)(*a)
    return f


def s_logical_not(a):
    return Not(a) if is_sym(a) else not a


SCALAR = {
    "add": lambda a, b: num(a) + num(b), "subtract": lambda a, b: num(a) - num(b),
    "multiply": lambda a, b: num(a) * num(b), "divide": s_div, "true_divide": s_div,
    "floor_divide": lambda a, b: num(a) // num(b), "remainder": s_mod, "mod": s_mod, "power": s_power,
    "float_power": s_power, "negative": lambda a: -num(a), "positive": lambda a: a, "absolute": s_abs, "fabs": s_abs,
    "cos": s_cos, "sin": s_sin, "tan": s_tan, "sqrt": s_sqrt, "square": lambda a: num(a) * num(a), "sign": s_sign,
    "arctan2": f2(lambda a, b: cur().arctan2(a, b), np.arctan2), "arctan": f1(lambda a: cur().arctan(a), np.arctan),
    "arcsin": f1(lambda a: cur().arcsin(a), np.arcsin), "arccos": f1(lambda a: cur().arccos(a), np.arccos),
    "maximum": sym_max, "minimum": sym_min, "fmax": sym_max, "fmin": sym_min,
    "floor": s_floor, "ceil": s_ceil, "rint": s_rint, "trunc": s_trunc, "hypot": s_hypot,
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: And(a, b), "logical_or": lambda a, b: Or(a, b), "logical_not": s_logical_not,
    "logical_xor": lambda a, b: Or(And(a, Not(b)), And(Not(a), b)), "bitwise_xor": lambda a, b: a ^ b,
    "fmod": lambda a, b: num(a) - num(b) * s_trunc(s_div(a, b)),
    "bitwise_and": lambda a, b: a & b, "bitwise_or": lambda a, b: a | b, "invert": lambda a: Not(a) if is_sym(a) or isinstance(a, (bool, np.bool_)) else ~a,
    "isfinite": s_isfinite, "isnan": s_isnan, "deg2rad": lambda a: a * (np.pi / 180), "radians": lambda a: a * (np.pi / 180),
    "rad2deg": lambda a: a * (180 / np.pi), "degrees": lambda a: a * (180 / np.pi),
    "conjugate": lambda a: a, "reciprocal": lambda a: s_div(1., a),
    "exp": unsupported("exp"), "log": unsupported("log"), "isinf": lambda a: False if is_sym(a) else bool(np.isinf(a)),
    "copysign": lambda a, b: (s_abs(a) if (b >= 0) else -s_abs(a)) if is_sym(a) or is_sym(b) else np.copysign(a, b),
    "heaviside": lambda a, b: ite(compare(a, 0, ">"), 1, ite(compare(a, 0, "=="), b, 0)) if is_sym(a) else np.heaviside(a, b),
}
REDUCE_INIT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def apply_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    ins = [plain(i) if isinstance(i, SymArray) else i for i in inputs]
    if not any(has_sym(i) for i in ins) and name in SCALAR and name not in ("invert", "bitwise_and", "bitwise_or"):
        kw = {k: v for k, v in kwargs.items() if k not in ("casting", "order", "subok", "dtype")}
        if "dtype" in kwargs and kwargs["dtype"] not in (object, None):
            kw["dtype"] = kwargs["dtype"]
        r = wrap(getattr(ufunc, method)(*ins, **kw))
    elif name == "matmul":
        r = OVERRIDES["matmul"](*ins)
    elif any(hasattr(i, "iloc") for i in ins):
        return NotImplemented
    elif name not in SCALAR:
        raise Unsupported("ufunc " + name)
    elif method == "__call__":
        r = elementwise(SCALAR[name], *ins)
    elif method == "reduce":
        r = reduce_axis(SCALAR[name], ins[0], kwargs.get("axis", 0), REDUCE_INIT.get(name), kwargs.get("keepdims", False))
    elif method == "accumulate" and symarr(ins[0]).ndim == 1:
        xs = list(symarr(ins[0]).flat)
        for i in builtins.range(1, len(xs)):
            xs[i] = SCALAR[name](xs[i - 1], xs[i])
        r = OVERRIDES["array"](xs)
    elif method == "outer":
        a, b = symarr(ins[0]), symarr(ins[1])
        r = elementwise(SCALAR[name], a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise Unsupported("ufunc method " + method)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, np.ndarray):
            if o.dtype != object and has_sym(r):
                raise Unsupported("in-place update of a float array with a symbolic value")
            o.view(np.ndarray)[...] = r if not isinstance(r, SymArray) else plain(r)
            return o
        return r
    return r


def reduce_axis(f, a, axis, init=None, keepdims=False):
    a = symarr(a)
    if axis is None:
        xs = list(a.flat)
        r = fold(f, xs, init)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.flat[0] = r
            return o.view(SymArray)
        return r
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        elif len(axis) == a.ndim:
            return reduce_axis(f, a, None, init, keepdims)
        else:
            raise Unsupported("multi-axis reduction")
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, 0)
    out = np.empty(b.shape[1:], dtype=object)
    for i in np.ndindex(b.shape[1:]):
        out[i] = fold(f, [b[(k,) + i] for k in range(b.shape[0])], init)
    if out.shape == ():
        return out[()]
    r = fin(out)
    return np.expand_dims(r, axis) if keepdims else r


def fold(f, xs, init):
    if not xs:
        if init is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return init
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    if type(r) is float:
        r = np.float64(r)
    return r


# --------------------------------------------------------------------------------------------------------------
# numpy functions
OVERRIDES = {}


def override(*names):
    def deco(f):
        for n in names or (f.__name__.lstrip("_"),):
            OVERRIDES[n] = f
        return f
    return deco


def _mk_ufunc(name):
    uf = getattr(np, name)

    def f(*args, **kwargs):
        if name in ("maximum", "minimum") and any(hasattr(a, "iloc") for a in args):
            s = [a for a in args if hasattr(a, "iloc")][0]
            return type(s)(elementwise(SCALAR[name], *[a.values if hasattr(a, "iloc") else a for a in args]).view(np.ndarray), index=s.index)
        if any(hasattr(a, "iloc") for a in args):
            s = [a for a in args if hasattr(a, "iloc")][0]
            if has_sym(s):
                r = elementwise(SCALAR[name], *[a.values if hasattr(a, "iloc") else a for a in args])
                return type(s)(r.view(np.ndarray), index=s.index)
            return uf(*args, **kwargs)
        return apply_ufunc(uf, "__call__", args, dict(kwargs))
    f.__name__ = name

    def method(mname):
        def g(*args, **kwargs):
            if len(args) > 1 and mname != "outer":
                kwargs["axis"], args = args[1], args[:1]
            return apply_ufunc(uf, mname, [symarr(a) if isinstance(a, (list, tuple)) and has_sym(a) else a for a in args], kwargs)
        return g
    f.reduce, f.accumulate, f.outer = method("reduce"), method("accumulate"), method("outer")
    return f


for _n in list(SCALAR):
    if hasattr(np, _n):
        OVERRIDES[_n] = _mk_ufunc(_n)
OVERRIDES["abs"] = OVERRIDES["absolute"]


@override("array", "asarray", "asanyarray", "ascontiguousarray")
def _array(x, dtype=None, *a, **k):
    if isinstance(x, np.matrix):
        x = np.asarray(x)
    if is_sym(x):
        return x if dtype is None or not _is_int_dtype(dtype) else s_int(x)
    sym = has_sym(x)
    if not sym:
        k.pop("copy", None)
        px = plain(x)
        d = plain(dtype)
        r = np.array(px, d) if d is not object else np.array(px, object)
        if r.ndim == 0 and r.dtype.kind == "f":
            return r
        return wrap(r)
    o = symarr(x).copy()
    r = o.view(SymArray)
    if dtype is not None and _is_int_dtype(dtype):
        return r.astype(int)
    return r


@override("zeros", "ones", "empty")
def _dummy(*a):
    raise NotImplementedError


def _filled(v):
    def f(shape, dtype=None, *a, **k):
        if isinstance(shape, Sym):
            shape = shape.__index__()
        if isinstance(shape, (tuple, list)):
            shape = tuple(int(i) for i in shape)
        if dtype is not None and not _is_float_dtype(dtype):
            return np.full(shape, v, dtype=plain(dtype)).view(SymArray)
        out = np.empty(shape, dtype=object)
        out[...] = float(v)
        return out.view(SymArray)
    return f


OVERRIDES["zeros"] = _filled(0)
OVERRIDES["ones"] = _filled(1)
OVERRIDES["empty"] = _filled(0)


@override("full")
def _full(shape, v, dtype=None):
    out = np.empty(shape, dtype=object)
    out[...] = v
    return out.view(SymArray)


@override("zeros_like")
def _zeros_like(a, dtype=None, **k):
    return OVERRIDES["zeros"](np.shape(a), dtype or (a.dtype if isinstance(a, np.ndarray) and a.dtype != object else None))


@override("ones_like")
def _ones_like(a, dtype=None, **k):
    return OVERRIDES["ones"](np.shape(a), dtype or (a.dtype if isinstance(a, np.ndarray) and a.dtype != object else None))


@override("eye", "identity")
def _eye(*a, **k):
    return wrap(np.eye(*a, **k))


@override("matrix", "asmatrix", "mat")
def _matrix(x, *a, **k):
    return symarr(x).view(SymMatrix) if has_sym(x) else np.matrix(plain(x))


class SymMatrix(SymArray):
    """Only what point_in_ellipse-like code needs: dot/broadcasting of a 2-d operator."""

    def dot(self, o, out=None):
        o = symarr(o)
        if o.ndim == 1:  # matrix.dot(vector) is a row matrix
            r = OVERRIDES["dot"](self.view(SymArray), o)
            return r.reshape(1, -1)
        return OVERRIDES["dot"](self.view(SymArray), o)


@override("dot", "matmul")
def _dot(a, b, out=None):
    if is_sym(a) or is_sym(b) or core.is_num(a) or core.is_num(b):
        return OVERRIDES["multiply"](a, b)
    if not has_sym(a) and not has_sym(b):
        return wrap(np.dot(plain(a), plain(b)))
    x, y = symarr(a), symarr(b)
    if x.ndim == 0 or y.ndim == 0:
        return OVERRIDES["multiply"](x, y)
    if x.shape[-1] != (y.shape[-2] if y.ndim > 1 else y.shape[0]):
        raise ValueError("shapes %s and %s not aligned" % (x.shape, y.shape))
    ys = np.moveaxis(y, -2, 0) if y.ndim > 1 else y
    shape = x.shape[:-1] + ys.shape[1:]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(x.shape[:-1]):
        for j in np.ndindex(ys.shape[1:]):
            t = None
            for k in range(x.shape[-1]):
                p = num(x[i + (k,)]) * num(ys[(k,) + j])
                t = p if t is None else t + p
            out[i + j] = simp(t) if isinstance(t, Sym) else t
    if shape == ():
        return out[()]
    return fin(out)


@override("matmul")
def _matmul(a, b, *r, **k):
    x, y = symarr(a), symarr(b)
    if x.ndim > 2 or y.ndim > 2:
        if x.ndim == 3 and y.ndim <= 2:
            return OVERRIDES["array"]([_matmul(i, y) for i in x])
        if y.ndim == 3 and x.ndim <= 2:
            return OVERRIDES["array"]([_matmul(x, i) for i in y])
        if x.ndim == 3 and y.ndim == 3:
            return OVERRIDES["array"]([_matmul(i, j) for i, j in zip(x, y)])
        raise Unsupported("matmul of high dimension")
    return _dot(a, b)


@override("inner", "vdot")
def _inner(a, b):
    return _dot(a, b)


@override("tensordot")
def _tensordot(a, b, axes=2):
    return wrap(np.tensordot(plain(_arr(a)), plain(_arr(b)), axes=axes))


def _arr(x):
    return x if isinstance(x, np.ndarray) else OVERRIDES["array"](x)


@override("sum")
def _sum(a, axis=None, *r, **k):
    if not has_sym(a):
        return wrap(np.sum(plain(a), axis=axis, *r, **k))
    return reduce_axis(SCALAR["add"], a, axis, 0, k.get("keepdims", False))


@override("prod")
def _prod(a, axis=None, *r, **k):
    return reduce_axis(SCALAR["multiply"], a, axis, 1)


@override("mean", "average")
def _mean(a, axis=None, *r, **k):
    x = symarr(a)
    n = x.size if axis is None else x.shape[axis]
    s = OVERRIDES["sum"](a, axis=axis)
    return s / n


@override("amin", "min")
def _amin(a, axis=None, *r, **k):
    if not has_sym(a):
        return wrap(np.amin(plain(a), axis=axis))
    return reduce_axis(sym_min, a, axis)


@override("amax", "max")
def _amax(a, axis=None, *r, **k):
    if not has_sym(a):
        return wrap(np.amax(plain(a), axis=axis))
    return reduce_axis(sym_max, a, axis)


@override("argmin")
def _argmin(a, axis=None, *r, **k):
    if not has_sym(a):
        return np.argmin(plain(a), axis=axis)
    xs = list(symarr(a).flat)
    if axis not in (None, 0, -1):
        raise Unsupported("argmin axis")
    best = 0
    for i in range(1, len(xs)):
        if xs[i] < xs[best]:
            best = i
    return best


@override("argmax")
def _argmax(a, axis=None, *r, **k):
    if not has_sym(a):
        return np.argmax(plain(a), axis=axis)
    xs = list(symarr(a).flat)
    best = 0
    for i in range(1, len(xs)):
        if xs[i] > xs[best]:
            best = i
    return best


@override("argsort")
def _argsort(a, *r, **k):
    if not has_sym(a):
        return np.argsort(plain(a), *r, **k)
    xs = list(symarr(a).flat)
    return np.array(builtins.sorted(range(len(xs)), key=lambda i: Ordered(xs[i])), dtype=int).view(SymArray)


class Ordered(object):
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return bool(self.x < o.x)


@override("sort")
def _sort(a, *r, **k):
    if not has_sym(a):
        return wrap(np.sort(plain(a), *r, **k))
    return OVERRIDES["array"](builtins.sorted(symarr(a).flat, key=Ordered))


@override("all")
def _all(a, axis=None, *r, **k):
    if not has_sym(a):
        return wrap(np.all(plain(a), axis=axis))
    return reduce_axis(lambda x, y: And(x, y), a, axis, True)


@override("any")
def _any(a, axis=None, *r, **k):
    if not has_sym(a):
        return wrap(np.any(plain(a), axis=axis))
    return reduce_axis(lambda x, y: Or(x, y), a, axis, False)


@override("clip")
def _clip(a, a_min=None, a_max=None, *r, **k):
    if hasattr(a, "iloc"):
        if has_sym(a) or has_sym(a_min) or has_sym(a_max):
            v = elementwise(lambda x: s_clip1(x, a_min, a_max), a.values).view(np.ndarray)
            return type(a)(v, index=a.index)
        return np.clip(a, a_min, a_max)
    if not (has_sym(a) or has_sym(a_min) or has_sym(a_max)):
        return wrap(np.clip(plain(a), plain(a_min), plain(a_max)))
    if a_min is None:
        return elementwise(lambda x, h: s_clip1(x, None, h), a, a_max)
    if a_max is None:
        return elementwise(lambda x, l: s_clip1(x, l, None), a, a_min)
    return elementwise(s_clip1, a, a_min, a_max)


@override("where")
def _where(c, *r):
    if not r:
        return np.where(plain(_arr(c).astype(bool)))
    if not (has_sym(c) or has_sym(r)):
        return wrap(np.where(plain(c), plain(r[0]), plain(r[1])))
    return elementwise(lambda x, a, b: ite(x, a, b), c, r[0], r[1])


@override("nonzero", "flatnonzero")
def _nonzero(c):
    return np.nonzero(plain(_arr(c).astype(bool)))


@override("select")
def _select(conds, choices, default=0):
    r = default
    for c, v in builtins.reversed(list(zip(conds, choices))):
        r = _where(c, v, r)
    return r


@override("round", "around", "round_")
def _round(a, decimals=0, *r, **k):
    if not has_sym(a):
        return wrap(np.round(plain(a), decimals))
    return elementwise(lambda x: s_rint(x, decimals), a)


@override("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.isclose(plain(a), plain(b), rtol=rtol, atol=atol))
    return elementwise(lambda x, y: compare(s_abs(x - y), atol + rtol * s_abs(y), "<="), a, b)


@override("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return OVERRIDES["all"](_isclose(a, b, rtol, atol))


@override("array_equal")
def _array_equal(a, b, **k):
    x, y = symarr(a), symarr(b)
    if x.shape != y.shape:
        return False
    return OVERRIDES["all"](elementwise(lambda p, q: p == q, x, y)) if x.size else True


@override("real")
def _real(x):
    return np.real(plain(x)) if not has_sym(x) else x


@override("isscalar")
def _isscalar(x):
    return is_sym(x) or np.isscalar(x)


@override("cross")
def _cross(a, b, *r, **k):
    if not has_sym(a) and not has_sym(b):
        return wrap(np.cross(plain(a), plain(b), *r, **k))
    x, y = list(symarr(a).flat), list(symarr(b).flat)
    if len(x) == 2 and len(y) == 2:
        return x[0] * y[1] - x[1] * y[0]
    if len(x) == 3 and len(y) == 3:
        return OVERRIDES["array"]([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])
    raise Unsupported("cross")


@override("append")
def _append(a, b, axis=None):
    return wrap(np.append(symarr(a), symarr(b), axis=axis))


@override("interp")
def _interp(x, xp, fp, left=None, right=None, period=None):
    if not has_sym(x) and not has_sym(xp) and not has_sym(fp):
        return wrap(np.interp(plain(x), plain(xp), plain(fp), left, right, period))
    if left is not None or right is not None or period is not None:
        raise Unsupported("interp options")

    def one(v):
        xs, fs = list(symarr(xp).flat), list(symarr(fp).flat)
        if v <= xs[0]:
            return fs[0]
        for i in range(1, len(xs)):
            if v <= xs[i]:
                return fs[i - 1] + (v - xs[i - 1]) * (fs[i] - fs[i - 1]) / (xs[i] - xs[i - 1])
        return fs[-1]
    return elementwise(one, x)


@override("linspace", "arange")
def _arange_dummy(*a, **k):
    raise NotImplementedError


OVERRIDES["linspace"] = lambda *a, **k: wrap(np.linspace(*plain(a), **plain(k))) if not has_sym(a) else _linspace(*a, **k)


def _linspace(a, b, num=50, endpoint=True, **k):
    n = num
    d = n - 1 if endpoint else n
    return OVERRIDES["array"]([a + (b - a) * i / d for i in range(n)])


def _arange(*a, **k):
    if not has_sym(a):
        return wrap(np.arange(*plain(a), **plain(k)))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
    n = builtins.max(core.concretize_int((hi - lo) / st, "ceil"), 0)
    return OVERRIDES["array"]([lo + i * st for i in range(n)])


OVERRIDES["arange"] = _arange


@override("fromfunction")
def _fromfunction(f, shape, dtype=float, **k):
    idx = np.indices(shape, dtype=int)
    return f(*[i.view(SymArray) for i in idx], **k)


@override("fromiter")
def _fromiter(it, dtype=float, count=-1, **k):
    return OVERRIDES["array"](list(it), dtype)


@override("einsum")
def _einsum(spec, *ops, **k):
    if not has_sym(ops):
        return wrap(np.einsum(spec, *plain(ops), **k))
    spec = spec.replace(" ", "")
    lhs, arrow, out = spec.partition("->")
    subs = lhs.split(",")
    if "." in spec or k:
        raise Unsupported("einsum " + spec)
    if not arrow:
        out = "".join(sorted(c for c in set(lhs) if c.isalpha() and lhs.count(c) == 1))
    ops = [symarr(o) for o in ops]
    dim = {c: n for sub, o in zip(subs, ops) for c, n in zip(sub, o.shape)}
    inner = [c for c in dim if c not in out]
    r = np.empty([dim[c] for c in out], dtype=object)
    for i in np.ndindex(*r.shape):
        t = 0
        for j in np.ndindex(*[dim[c] for c in inner]):
            at = dict(list(zip(out, i)) + list(zip(inner, j)))
            e = 1
            for sub, o in zip(subs, ops):
                e = e * o[tuple(at[c] for c in sub)]
            t = t + e
        r[i] = t
    return fin(r) if r.ndim else r[()]


@override("vectorize")
def _vectorize(f, *a, **k):
    def g(*args):
        return elementwise(f, *args)
    return g


@override("repeat")
def _repeat(a, repeats, axis=None):
    r = repeats
    if isinstance(r, np.ndarray) and r.dtype == object:
        r = plain(_arr(r).astype(int))
    return wrap(np.repeat(symarr(a) if has_sym(a) else plain(a), r, axis=axis))


@override("ravel_multi_index")
def _ravel_multi_index(idx, dims, *a, **k):
    if any(has_sym(i) for i in idx) and not a and not k:
        r = 0
        for i, d in zip(idx, dims):
            for x in (symarr(i).flat if isinstance(i, np.ndarray) else [i]):
                if is_sym(x) and not bool(And(x >= 0, x <= d - 1)):
                    raise ValueError("invalid entry in coordinates array")
            r = r * d + i
        return r

    def c(i):
        if isinstance(i, np.ndarray):
            return plain(i.astype(int)) if i.dtype == object else np.asarray(i)
        return i.__index__() if is_sym(i) else int(i)
    r = np.ravel_multi_index(tuple(c(i) for i in idx), dims, *a, **k)
    return r.view(SymArray) if isinstance(r, np.ndarray) else r


@override("count_nonzero")
def _count_nonzero(a, *r, **k):
    if not has_sym(a):
        return np.count_nonzero(plain(a), *r, **k)
    n = 0
    for x in symarr(a).flat:
        n = n + (ite(x, 1, 0) if is_sym(x) else int(bool(x)))
    return n


@override("linalg_norm")
def _norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return wrap(np.linalg.norm(plain(x), ord=ord, axis=axis, keepdims=keepdims))
    x = symarr(x)
    if axis is not None and x.ndim > 1:
        b = np.moveaxis(x, axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(b.shape[:-1]):
            out[i] = _norm(b[i], ord)
        return fin(out)
    xs = list(x.flat)
    if ord in (None, 2):
        t = 0
        for e in xs:
            t = t + num(e) * num(e)
        return core.sym_sqrt(t, 0.) if isinstance(t, Sym) else np.sqrt(t)
    if ord == 1:
        t = 0
        for e in xs:
            t = t + s_abs(e)
        return t
    if ord == np.inf:
        return fold(sym_max, [s_abs(e) for e in xs], None)
    raise Unsupported("norm order %s" % (ord,))


class Linalg(object):
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def norm(*a, **k):
        return _norm(*a, **k)

    @staticmethod
    def det(a):
        if not has_sym(a):
            return np.linalg.det(np.asarray(plain(a), dtype=float))
        a = symarr(a)
        if a.shape == (1, 1):
            return a[0, 0]
        return builtins.sum(((-1) ** j * a[0, j] * Linalg.det(np.delete(a[1:], j, axis=1)) for j in range(a.shape[1])), 0)

    @staticmethod
    def inv(a):
        if not has_sym(a):
            return wrap(np.linalg.inv(np.asarray(plain(a), dtype=float)))
        a = symarr(a)
        n = a.shape[0]
        d = Linalg.det(a)
        if d == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = np.delete(np.delete(a, j, axis=0), i, axis=1)
                out[i, j] = (-1) ** (i + j) * (Linalg.det(m) if n > 1 else 1) / d
        return out.view(SymArray)

    @staticmethod
    def solve(a, b):
        if not has_sym((a, b)):
            return wrap(np.linalg.solve(plain(a), plain(b)))
        return OVERRIDES["dot"](Linalg.inv(a), b)

    @staticmethod
    def eig(a):
        if has_sym(a):
            raise Unsupported("eigenvalues of a symbolic matrix")
        return wrap(np.linalg.eig(plain(a)))

    def __getattr__(self, name):
        f = getattr(np.linalg, name)

        def g(*a, **k):
            if has_sym(a):
                raise Unsupported("linalg." + name)
            return wrap(f(*plain(a), **plain(k)))
        return g


LINALG = Linalg()


class RandomStub(object):
    """np.random: module level draws are symbolic inputs of the current context."""
    RandomState = np.random.RandomState
    _hook = None

    def __getattr__(self, name):
        if RandomStub._hook is not None:
            return getattr(RandomStub._hook, name)
        return getattr(np.random, name)


RANDOM = RandomStub()


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = LINALG
        self.random = RANDOM
        self.float = SFloat
        self.int = SInt
        self.bool = bool
        self.object = object
        self.pi = np.pi
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = OVERRIDES.get(name)
        if f is None:
            f = getattr(np, name)
            if callable(f) and not isinstance(f, type):
                f = generic(f, name)
        setattr(self, name, f)
        return f


def generic(f, name):
    def g(*a, **k):
        if not has_sym(a) and not has_sym(k):
            return wrap(f(*plain(a), **plain(k)))
        if isinstance(f, np.ufunc):
            raise Unsupported("ufunc " + name)
        a = tuple(symarr(i) if isinstance(i, (list,)) and has_sym(i) and not any(isinstance(j, np.ndarray) for j in i) else plain(i)
                  for i in a)
        return wrap(f(*a, **plain(k)))
    g.__name__ = name
    return g


# --------------------------------------------------------------------------------------------------------------
# math
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(_math, name)
        if not callable(real):
            return real
        alias = {"fabs": "absolute", "pow": "power", "atan2": "arctan2", "atan": "arctan", "asin": "arcsin",
                 "acos": "arccos", "hypot": "hypot"}.get(name, name)

        def g(*a):
            if name == "dist" and has_sym(a):
                return _norm(symarr(list(a[0])) - symarr(list(a[1])))
            if any(is_sym(x) for x in a):
                if name in ("floor", "ceil", "trunc"):
                    return core.concretize_int(num(a[0]), name)
                if name == "isclose":
                    return OVERRIDES["isclose"](a[0], a[1], 1e-9, 0.)
                if alias in SCALAR:
                    return SCALAR[alias](*a)
                raise Unsupported("math." + name)
            return real(*a)
        g.__name__ = name
        setattr(self, name, g)
        return g


# --------------------------------------------------------------------------------------------------------------
# builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        return s_float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    fromhex = float.fromhex


def s_float(x=0.0):
    if isinstance(x, Sym):
        return simp(x)
    if isinstance(x, SymBool):
        return simp(x.as_num())
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return s_float(x.flat[0])
    return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        return s_int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    pass


def s_int(x=0, *a):
    if isinstance(x, Sym):
        return core.lazy_int(x, "trunc")
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return s_int(x.flat[0])
    return int(x, *a)


def s_abs_builtin(x):
    return abs(x)


def _multi(args, kw):
    key = kw.get("key")
    it = list(args[0]) if len(args) == 1 else list(args)
    return it, key


def s_max(*args, **kw):
    it, key = _multi(args, kw)
    if key is not None or not any(isinstance(x, (Sym, SymBool)) for x in it) or "default" in kw and not it:
        return builtins.max(it, **kw) if key is None else _sel(it, key, True, kw)
    r = it[0]
    for x in it[1:]:
        r = sym_max(num(r), num(x))
    return r


def s_min(*args, **kw):
    it, key = _multi(args, kw)
    if key is not None or not any(isinstance(x, (Sym, SymBool)) for x in it) or "default" in kw and not it:
        return builtins.min(it, **kw) if key is None else _sel(it, key, False, kw)
    r = it[0]
    for x in it[1:]:
        r = sym_min(num(r), num(x))
    return r


def _sel(it, key, mx, kw):
    if not it:
        return (builtins.max if mx else builtins.min)(it, **kw)
    ks = [key(x) for x in it]
    if all(isinstance(x, Sym) or core.is_num(x) for x in it) and any(is_sym(k) for k in ks):
        # numeric selection: keep it a term
        r, rk = it[0], ks[0]
        for x, k in zip(it[1:], ks[1:]):
            c = (k > rk) if mx else (k < rk)
            r, rk = ite(c, x, r), ite(c, k, rk)
        return r
    b = 0
    for i in range(1, len(it)):
        if (ks[i] > ks[b]) if mx else (ks[i] < ks[b]):
            b = i
    return it[b]


def s_round(x, *a):
    if is_sym(x):
        if a and a[0]:
            return s_rint(x, a[0])
        return core.concretize_int(num(x), "round")
    return round(x, *a)


def s_range(*a):
    return range(*[x.__index__() if is_sym(x) else x for x in a])


def s_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        if any(k in (float, SFloat, np.floating, np.float64) or getattr(k, "__name__", "") in ("Number", "Real") for k in ts):
            return True
    return isinstance(x, t)


def s_divmod(a, b):
    if is_sym(a) or is_sym(b):
        q = a // b
        return q, a - q * b
    return divmod(a, b)


def s_pow(a, b, *m):
    return a ** b if (is_sym(a) or is_sym(b)) else pow(a, b, *m)


def s_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def s_print(*a, **k):
    pass


NUMPY = None
MATH = MathShim()


def make_builtins():
    global NUMPY
    if NUMPY is None:
        NUMPY = NumpyShim()
    d = dict(builtins.__dict__)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == "numpy":
                return NUMPY
            if name == "numpy.linalg" and fromlist:
                return LINALG
            if name == "numpy.random" and fromlist:
                return RANDOM
            if name.startswith("numpy"):
                real_import(name, globals, locals, fromlist, level)
                return NUMPY if not fromlist else real_import(name, globals, locals, fromlist, level)
            if name == "math":
                return MATH
        return real_import(name, globals, locals, fromlist, level)

    d.update(__import__=imp, float=SFloat, int=SInt, max=s_max, min=s_min, round=s_round, range=s_range,
             isinstance=s_isinstance, divmod=s_divmod, pow=s_pow, sum=s_sum, print=s_print)
    return d
