"""Self-test of the symbolic numpy/math/builtins: each expression is executed symbolically (as if it were code of highway_env) and its
predicted value compared with the real run on the solver's witnesses of every path.  Prints the expressions that are not supported or mispredicted."""
import os, sys, json, shutil, tempfile, time, multiprocessing as mp

EXPR = r'''
np.hypot(a, b)
np.sqrt(a**2 + b**2)
(a*a + b*b)**0.5
math.hypot(a, b)
math.sqrt(a*a + b*b)
math.dist((a, b), (c, 0.))
np.sqrt(np.sum(np.square(np.array([a, b]))))
np.sqrt(np.sum(v**2))
np.sqrt(v.dot(v))
np.sqrt(v @ v)
np.linalg.norm([a, b])
np.linalg.norm(v, 2)
np.linalg.norm(v, ord=2)
np.linalg.norm(v - w)
np.linalg.norm(np.stack([v, w]), axis=1)
np.linalg.norm(np.vstack([v, w]), axis=-1)
np.sum(v)
sum(v)
v.sum()
np.mean(v)
np.average(v)
v.mean()
np.any(v > 0)
np.all(v > 0)
np.all(np.array([a, b]) > np.array([b, c]))
(v > 0).all()
np.argmin(v)
np.argmax([a, b, c])
int(np.argmin([abs(a), abs(b)]))
np.where(v > 0, v, -v)
np.where(v > 0)[0]
np.minimum(a, b)
np.maximum(v, w)
np.fmin(a, b)
np.fmax(a, b)
np.isclose(a, b)
np.allclose(v, w)
np.sign(a)
np.copysign(1.0, a)
math.copysign(2.0, a)
np.mod(a, 3.0)
np.remainder(a, 3.0)
math.fmod(a, 3.0)
a % 3.0
a // 3.0
divmod(a, 3.0)
np.floor(a)
math.floor(a)
math.ceil(a)
np.ceil(a)
np.trunc(a)
math.trunc(a)
int(a)
round(a)
np.round(a)
np.around(a)
np.rint(a)
round(a, 2)
np.cross(v, w)
np.outer(v, w)
np.inner(v, w)
np.vdot(v, w)
np.dot(v, w)
v @ w
np.matmul(np.array([[a, b], [b, c]]), v)
np.array([[a, b], [b, c]]) @ v
np.einsum('i,i', v, w)
np.einsum('ij,j->i', np.array([[a, b], [b, c]]), v)
np.cumsum(v)
np.diff(v)
np.ediff1d(v)
np.zeros_like(v)
np.ones_like(v)
np.full(2, a)
np.full_like(v, a)
np.eye(2) * a
np.identity(2) * a
np.diag(v)
np.diag([a, b])
np.transpose(np.array([[a, b], [b, c]]))
np.array([[a, b], [b, c]]).T
np.stack((v, w))
np.vstack((v, w))
np.hstack((v, w))
np.column_stack((v, w))
np.concatenate((v, w))
np.concatenate([v, w], axis=0)
np.append(v, c)
np.append(v, [c])
np.r_[v, c]
np.c_[v, w]
np.block([[np.array([[a]]), np.array([[b]])]])
np.ravel(np.array([[a, b], [b, c]]))
np.array([[a, b], [b, c]]).flatten()
np.reshape(v, (2, 1))
v.reshape(2, 1)
v.reshape((1, -1))
np.squeeze(np.array([[a, b]]))
np.expand_dims(v, 0)
v[np.newaxis, :]
v[None]
v[::-1]
np.flip(v)
np.flipud(v)
np.roll(v, 1)
np.tile(v, 2)
np.tile(v, (2, 1))
np.repeat(v, 2)
np.copy(v)
v.copy()
np.asarray(v)
np.asarray([a, b])
np.array((a, b), dtype=float)
np.array([a, b], dtype=np.float64)
np.array([a, b], float)
np.atleast_1d(a)
np.atleast_2d(v)
np.linspace(0, 1, 3) * a
np.linspace(a, b, 3)
np.linspace(a, b, num=3)
np.arange(3) * a
np.meshgrid([a, b], [c, a])[0]
np.searchsorted([0., 1., 2.], a)
np.digitize(a, [0., 1., 2.])
np.argsort([a, b, c])
np.sort([a, b, c])
sorted([a, b, c])
sorted([a, b, c], reverse=True)
sorted([(a, 'x'), (b, 'y')], key=lambda t: t[0])[0][1]
sorted([(a, 'x'), (b, 'y')], key=lambda t: -t[0])[0][1]
sorted([(a, 'x'), (b, 'y')], key=operator.itemgetter(0))[0][1]
min([(a, 'x'), (b, 'y')], key=lambda t: t[0])[1]
min([(a, 'x'), (b, 'y')])[1]
max([(a, 'x'), (b, 'y')], key=lambda t: t[0])[1]
min(a, b)
max(a, b, c)
min([a, b, c])
max(v)
min(x for x in (a, b, c))
min((x for x in (a, b, c) if x > 100), default=7)
min([], default=a)
np.min(v)
np.max([a, b, c])
np.amax(v)
v.min()
v.max()
np.ptp(v)
v.argmin()
np.median([a, b, c])
np.std([a, b])
np.var([a, b])
np.count_nonzero(v > 0)
np.sum(v > 0)
sum(x > 0 for x in (a, b, c))
sum(1 for x in (a, b, c) if x > 0)
len([x for x in (a, b, c) if x > 0])
any(x > 0 for x in (a, b, c))
all(x > 0 for x in (a, b, c))
np.nonzero(v > 0)[0]
np.flatnonzero(v > 0)
np.argwhere(v > 0)
np.interp(a, [0, 1, 2], [0, 10, 0])
np.logical_and(a > 0, b > 0)
np.logical_or(a > 0, b > 0)
np.logical_not(a > 0)
np.logical_xor(a > 0, b > 0)
(a > 0) ^ (b > 0)
(a > 0) & (b > 0)
(a > 0) | (b > 0)
(a > 0) != (b > 0)
(a > 0) == (b > 0)
(a > 0) * b
(a > 0) + (b > 0)
bool(a > 0)
int(a > 0)
float(a > 0)
np.isnan(a)
np.isfinite(a)
np.isinf(a)
math.isnan(a)
math.isfinite(a)
math.isclose(a, b)
np.isfinite(v).all()
np.isnan(v).any()
np.array_equal(v, w)
math.fabs(a)
abs(a)
np.abs(v)
np.absolute(a)
np.fabs(a)
a.__abs__()
np.clip(a, -1, 1)
np.clip(a, a_min=-1, a_max=1)
np.clip(v, -1, 1)
np.clip(v, w, 100)
np.clip(a, None, 1)
np.clip(a, -1, None)
np.clip(a, -np.inf, 1)
v.clip(-1, 1)
max(-1, min(1, a))
min(max(a, -1), 1)
np.core.umath.clip(a, -1, 1) if hasattr(np.core.umath, 'clip') else np.clip(a, -1, 1)
sorted((-1, a, 1))[1]
np.median([-1, a, 1])
np.heaviside(a, 0.5)
np.piecewise(a, [a < 0, a >= 0], [-1, 1])
np.select([a < 0, a < 1], [1, 2], 3)
np.choose(1, [a, b])
np.take(v, [1, 0])
np.put
np.power(a, 2)
np.float_power(a, 2)
np.square(a)
math.pow(a, 2)
pow(a, 2)
a**2
a**3
a**-1 if a > 1 else a
a**4
np.multiply(a, b)
np.add(a, b)
np.subtract(a, b)
np.negative(a)
-a
+a
np.divide(a, 2)
np.true_divide(a, 2)
a / 2
1 / a if a > 1 else 0
np.reciprocal(a) if a > 1 else 0
np.cos(a)
math.cos(a)
np.sin(a) * np.cos(a)
math.sin(a)
np.tan(a/10)
math.tan(a/10)
np.arctan(a)
math.atan(a)
np.arctan2(a, 2.0)
math.atan2(a, 2.0)
np.arcsin(a/10)
math.asin(a/10)
np.arccos(a/10)
math.acos(a/10)
np.deg2rad(a)
np.radians(a)
math.radians(a)
np.rad2deg(a)
math.degrees(a)
np.degrees(a)
np.exp(0*a)
np.pi * a
math.pi * a
np.sinc(0.)
math.tau * a
np.e * a
2*math.pi*a
np.unwrap([0., 0.1])
np.array([np.cos(a), np.sin(a)])
np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]) @ v
np.linalg.det(np.array([[a, b], [b, c]]))
np.trace(np.array([[a, b], [b, c]]))
np.linalg.inv(np.array([[1., a], [0., 1.]]))
np.linalg.solve(np.array([[1., a], [0., 1.]]), v)
np.kron(v, w)
np.triu(np.array([[a, b], [b, c]]))
np.prod(v)
math.prod([a, b])
np.nansum(v)
np.nanmax(v)
np.apply_along_axis(lambda r: r.sum(), 1, np.array([[a, b], [b, c]]))
np.vectorize(lambda x: x*2)(v)
np.fromiter((x for x in (a, b)), dtype=float)
np.array(list(map(lambda x: x + 1, [a, b])))
list(map(float, [a, b]))
tuple(v)
v.tolist()
list(v)
[float(x) for x in v]
[*v, c]
(lambda x, y: x + y)(*v)
dict(zip('xy', v))['x']
{'x': a, 'y': b}['y']
{**{'x': a}, 'y': b}['x']
[x for x, y in zip((a, b), (b, c)) if x < y]
[i for i, x in enumerate((a, b, c)) if x > 0]
list(filter(lambda x: x > 0, [a, b, c]))
next((x for x in (a, b, c) if x > 0), None)
next(iter([a, b]))
functools.reduce(lambda x, y: x + y, [a, b, c])
functools.reduce(min, [a, b, c])
functools.reduce(operator.mul, [a, b, c])
list(itertools.chain([a], [b, c]))
list(itertools.accumulate([a, b, c]))
list(itertools.takewhile(lambda x: x > 0, [a, b, c]))
list(itertools.islice([a, b, c], 2))
list(itertools.product([a, b], [c]))
list(itertools.combinations([a, b, c], 2))
list(reversed([a, b]))
operator.lt(a, b)
operator.sub(a, b)
bisect.bisect([0., 1., 2.], a)
bisect.bisect_left([0., 1., 2.], a)
heapq.nsmallest(1, [a, b, c])[0]
heapq.nsmallest(2, [(a, 1), (b, 2), (c, 3)])[0][1]
collections.deque([a, b], maxlen=1)[0]
statistics.mean([a, b])
(a < b) and (b < c)
(a < b) or c
not a < b
a < b < c
a if a > b else b
None if a > 0 else a
(a or b)
(a > 0 and b)
isinstance(a, float)
isinstance(v, np.ndarray)
isinstance(a, (int, float))
np.isscalar(a)
np.ndim(v)
np.shape(v)
np.size(v)
len(v)
v.shape[0]
v.size
v.ndim
np.float64(a)
np.float32(a)
float(a)
float(v[0])
v[0].item() if hasattr(v[0], 'item') else v[0]
v.astype(float)
v.astype(int)
np.int64(a)
np.bool_(a > 0)
str(1)
v[v > 0]
v[[1, 0]]
v[np.array([True, False])]
v[-1]
v[1:]
v[...]
(v * w).sum()
np.array([v, w]).sum(axis=0)
np.array([v, w]).mean(axis=0)
np.array([v, w]).max(axis=1)
np.array([v, w]).min(axis=0)
np.array([v, w])[:, 0]
np.array([v, w])[:, [0]]
np.max(np.abs(v - w))
np.abs(v - w).max()
np.abs(v) <= 1
np.greater(a, b)
np.less_equal(a, b)
np.equal(a, b)
np.not_equal(a, b)
np.all([a > 0, b > 0])
np.any([a > 0, b > 0])
np.logical_and.reduce([a > 0, b > 0, c > 0])
np.maximum.reduce([a, b, c])
np.add.reduce([a, b, c])
np.bitwise_and(a > 0, b > 0)
np.delete(v, 0)
np.insert(v, 0, c)
np.pad(v, 1)
np.split(np.array([a, b, c, a]), 2)[0]
np.swapaxes(np.array([[a, b], [b, c]]), 0, 1)
np.moveaxis(np.array([[a, b], [b, c]]), 0, 1)
np.squeeze(a)
np.array(a)
np.asscalar
np.vstack([v, w]).T
np.array([[a], [b]]) * np.array([c, a])
np.broadcast_to(v, (2, 2))
np.angle(1j)
np.rot90(np.array([[a, b], [b, c]]))
np.linalg.norm(v) * np.cos(np.arctan2(v[1], v[0]))
np.convolve(v, w)
np.polyval([1, 2], a)
np.cbrt(8.)
np.tensordot(np.array([a, b]), np.array([b, c]), axes=1)
np.tensordot(np.array([a, b]), np.array([b, c]), axes=0)
np.dstack([v, w])
np.nan_to_num(a)
np.isin(1, [1, 2])
np.in1d([1], [1, 2])
np.unique([1, 1, 2])
np.array_equal(v, v)
np.lib.scimath.sqrt(4.)
np.zeros(2) + a
np.zeros((2, 2)) + v
np.empty(0)
np.ones((2,)) * v
np.fill_diagonal
np.ndindex(2)
list(np.ndindex(2))
[x for x in np.ndenumerate(v)][0][1]
[x for x in np.nditer(np.array([1., 2.]))][0] * a
np.fromfunction(lambda i, j: i + j, (2, 2)) + a
[[x * y for x in (a, b)] for y in (b, c)]
{x: y for x, y in (('p', a), ('q', b))}['q']
sum([a, b], c)
sum((x * y for x, y in zip(v, w)), 0.0)
f"{1}"
(a, b) < (c, a)
[a, b] == [a, b]
a == b
a in (b, c)
a not in [b, c]
(lambda: (yield a))().__next__()
match1(a, b)
walrus(a, b)
whileloop(a, b)
forelse(a, b, c)
tryexc(a)
nested(a, b)
star(a, b, c)
closure(a, b)
partial(a, b)
named(a, b)
dc(a, b)
cached(a, b)
augarr(a, b)
inplace(a, b)
'''
PRE = '''
import numpy as np
import math, operator, functools, itertools, bisect, heapq, collections, statistics
from collections import namedtuple
from dataclasses import dataclass

def match1(a, b):
    match (a > 0, 1):
        case (True, 1):
            return a
        case _:
            return b

def walrus(a, b):
    if (d := a - b) > 0:
        return d
    return -d

def whileloop(a, b):
    n = 0
    while a > 0 and n < 3:
        a -= 4
        n += 1
    return n

def forelse(a, b, c):
    for x in (a, b, c):
        if x > 0:
            break
    else:
        return -1
    return x

def tryexc(a):
    try:
        return [1, 2, 3][int(abs(a))]
    except IndexError:
        return -1
    finally:
        pass

def nested(a, b):
    def inner(x):
        nonlocal a
        a = a + x
        return a
    return inner(b) + inner(1)

def star(*args, **kw):
    first, *rest = args
    return first - sum(rest)

def closure(a, b):
    fs = [lambda x, k=k: x * k for k in range(3)]
    return sum(f(a) for f in fs)

def partial(a, b):
    return functools.partial(operator.add, a)(b)

P = namedtuple("P", "x y")

def named(a, b):
    p = P(x=a, y=b)
    return p.x - p._replace(y=1.).y

@dataclass
class D:
    x: float
    y: float = 0.

def dc(a, b):
    d = D(a, y=b)
    return d.x - d.y

@functools.lru_cache(maxsize=None)
def k(n):
    return n + 1

def cached(a, b):
    return k(2) * a

def augarr(a, b):
    v = np.array([a, b])
    w = v
    v += 1
    v *= 2
    return w

def inplace(a, b):
    v = np.zeros(3)
    v[0] = a
    v[1:] = b
    v[2] += a
    v[np.array([0, 2])] -= 1
    np.add(v, 1, out=v)
    return v
'''
lines = [l for l in EXPR.strip().splitlines() if l.strip()]


def h(ctx, i=0):
    import highway_env.zz as z
    a, b, c = ctx.real("a", -5, 5), ctx.real("b", -5, 5), ctx.real("c", -5, 5)
    r = getattr(z, "f%d" % i)(a, b, c)
    ctx.observe("r", r if not isinstance(r, (set, type)) and not callable(r) else 0)
    ctx.check("t", True)


def cases(tier):
    from symx.engine import Case
    return [Case("c%d" % i, h, {"i": i}, max_paths=60, validate=6) for i in range(len(lines))]


def one(i):
    sys.path.insert(0, "/verif")
    from symx import loader
    loader.install()
    from symx import engine
    case = [c for c in cases("quick") if c.name == "c%d" % i][0]
    ex = engine.Explorer("selftest", case, "quick", time.time() + 30, 1)
    try:
        r = ex.explore()
        s = r["stats"]
        msg = []
        if r["errors"]:
            msg.append("ERR " + str(r["errors"][0])[:160])
        if r["excluded"]:
            msg.append("EXC " + str(r["excluded"][0])[:160])
        if r["mismatch"]:
            msg.append("MISMATCH " + str(r["mismatch"][0])[:200])
        if r["violations"]:
            msg.append("VIOL " + str(r["violations"][0])[:200])
        if not msg and not ex.validated:
            msg.append("none validated " + str(dict(s))[:200])
        return i, "; ".join(msg)
    except BaseException as e:
        return i, "CRASH %r" % e
    finally:
        ex.worker.stop()


if __name__ == "__main__":
    d = tempfile.mkdtemp(prefix="st")
    os.makedirs(d + "/highway_env")
    open(d + "/highway_env/__init__.py", "w").write("")
    with open(d + "/highway_env/zz.py", "w") as f:
        f.write(PRE)
        for i, l in enumerate(lines):
            f.write("\ndef f%d(a, b, c):\n    v, w = np.array([a, b]), np.array([b, c])\n    return %s\n" % (i, l))
    os.environ["SYMX_REPO"] = d
    os.environ["PYTHONPATH"] = "/verif/tools"
    sel = [i for i, l in enumerate(lines) if len(sys.argv) < 2 or sys.argv[1] in l]
    with mp.get_context("spawn").Pool(6, maxtasksperchild=20) as pool:
        for i, msg in pool.imap(one, sel):
            if msg:
                print("%-50s %s" % (lines[i], msg))
    shutil.rmtree(d)
