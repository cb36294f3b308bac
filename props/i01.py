"""Interval arithmetic: every result encloses the operation on members, and is the range where the formula is exact."""
import itertools

from symx.engine import Case
from symx import m

BOUNDS = ("scalar intervals with any bounds in [-50,50] and any members; inner products of 2 (thorough: 3) intervals, interval matrices of 2x2 times interval vectors, "
          "fixed matrices of 2x2 and 3x3 with any entries in [-5,5]; gains in [0.01,10]; boxes of vectors in the plane and any direction; Metzler tests on 2x2 and 3x3 matrices")


def interval(ctx, name, lo=-50, hi=50):
    a, b = ctx.real(name + "0", lo, hi), ctx.real(name + "1", lo, hi)
    ctx.assume(a <= b)
    return [a, b]


def member(ctx, name, i):
    """Any member: the lower end plus a share of the width (so that it is one by construction)."""
    return i[0] + ctx.real(name, 0, 1) * (i[1] - i[0])


def signs(ctx, name, i):
    """Which side of zero the interval lies on."""
    s = ctx.choose(name, ["+", "-", "0"])
    ctx.assume(i[0] >= 0 if s == "+" else i[1] <= 0 if s == "-" else m.And(i[0] < 0, i[1] > 0))
    return s


def scalar_product(ctx):
    from highway_env.interval import intervals_product
    a, b = interval(ctx, "a"), interval(ctx, "b")
    sa, sb = signs(ctx, "sign a", a), signs(ctx, "sign b", b)
    lo, hi = intervals_product(m.arr(a), m.arr(b)) if ctx.choose("arrays", [True, False]) else intervals_product(a, b)
    x, y = ctx.real("x", -50, 50), ctx.real("y", -50, 50)
    ctx.assume(m.And(a[0] <= x, x <= a[1], b[0] <= y, y <= b[1]))
    ctx.check("lower", lo <= x * y)
    ctx.check("upper", hi >= x * y)
    if (sa, sb) != ("0", "0"):
        corners = [p * q for p in a for q in b]
        ctx.eq("exact lower", lo, m.mn(*corners))
        ctx.eq("exact upper", hi, m.mx(*corners))


def vector_product(ctx, n):
    """The inner product of n intervals by n intervals: the sum of the scalar ones."""
    from highway_env.interval import intervals_product
    a, b = [interval(ctx, "a%d" % k) for k in range(n)], [interval(ctx, "b%d" % k) for k in range(n)]
    lo, hi = intervals_product(m.arr([[i[s] for i in a] for s in (0, 1)]), m.arr([[i[s] for i in b] for s in (0, 1)]))
    parts = [intervals_product(m.arr(p), m.arr(q)) for p, q in zip(a, b)]
    ctx.eq("lower", lo, sum(p[0] for p in parts))
    ctx.eq("upper", hi, sum(p[1] for p in parts))


def matrix_product(ctx, n, transposed):
    """A x for an interval matrix by an interval vector: each row is an inner product."""
    from highway_env.interval import intervals_product
    A = [[interval(ctx, "a%d%d" % (i, j)) for j in range(n)] for i in range(n)]
    x = [interval(ctx, "x%d" % j) for j in range(n)]
    mat = m.arr([[[A[i][j][s] for j in range(n)] for i in range(n)] for s in (0, 1)])
    vec = m.arr([[x[j][s] for j in range(n)] for s in (0, 1)])
    got = intervals_product(mat, vec)
    ctx.check("shape", got.shape == (2, n))
    for i in range(n):
        parts = [intervals_product(m.arr(A[i][j]), m.arr(x[j])) for j in range(n)]
        for s in (0, 1):
            ctx.eq("row", got[s][i], sum(p[s] for p in parts))


def scaling(ctx, n, column):
    from highway_env.interval import intervals_scaling
    A = [[ctx.real("a%d%d" % (i, j), -5, 5) for j in range(n)] for i in range(n)]
    x = [interval(ctx, "x%d" % j) for j in range(n)]
    vec = m.arr([[x[j][s] for j in range(n)] for s in (0, 1)])
    if column:
        got = intervals_scaling(m.arr(A), vec[:, :, None])
        ctx.check("shape", got.shape == (2, n, 1))
        got = got[:, :, 0]
    else:
        got = intervals_scaling(m.arr(A), vec)
    for i in range(n):
        ctx.eq("lower", got[0][i], sum(m.mn(A[i][j] * x[j][0], A[i][j] * x[j][1]) for j in range(n)))
        ctx.eq("upper", got[1][i], sum(m.mx(A[i][j] * x[j][0], A[i][j] * x[j][1]) for j in range(n)))


def scalar_scaling(ctx):
    from highway_env.interval import intervals_scaling
    k, a = ctx.real("k", -50, 50), interval(ctx, "a")
    lo, hi = intervals_scaling(k, m.arr(a))
    ctx.eq("lower", lo, m.mn(k * a[0], k * a[1]))
    ctx.eq("upper", hi, m.mx(k * a[0], k * a[1]))


def difference(ctx, n):
    from highway_env.interval import intervals_diff, interval_negative_part
    a, b = [interval(ctx, "a%d" % k) for k in range(n)], [interval(ctx, "b%d" % k) for k in range(n)]
    pack = lambda i: m.arr(i[0]) if n == 1 else m.arr([[i[k][s] for k in range(n)] for s in (0, 1)])
    d, neg = intervals_diff(pack(a), pack(b)), interval_negative_part(pack(a))
    for k in range(n):
        g = [d[s] if n == 1 else d[s][k] for s in (0, 1)]
        ctx.eq("lower difference", g[0], a[k][0] - b[k][1])
        ctx.eq("upper difference", g[1], a[k][1] - b[k][0])
        g = [neg[s] if n == 1 else neg[s][k] for s in (0, 1)]
        ctx.eq("lower negative part", g[0], m.mn(a[k][0], 0))
        ctx.eq("upper negative part", g[1], m.mn(a[k][1], 0))


def integrator(ctx):
    """dx = -k x at the two ends of x: the slowest and fastest over the gains."""
    from highway_env.interval import integrator_interval
    x, k = interval(ctx, "x"), interval(ctx, "k", 0.01, 10)
    lo, hi = integrator_interval(m.arr(x) if ctx.choose("array", [True, False]) else x, m.arr(k))
    g = ctx.real("g", 0.01, 10)
    ctx.assume(m.And(k[0] <= g, g <= k[1]))
    ctx.check("lower end moves no lower", lo <= -g * x[0])
    ctx.check("upper end moves no higher", hi >= -g * x[1])
    ctx.eq("exact lower", lo, m.mn(-k[0] * x[0], -k[1] * x[0]))
    ctx.eq("exact upper", hi, m.mx(-k[0] * x[1], -k[1] * x[1]))


def section(ctx):
    from highway_env.interval import vector_interval_section
    x, y = interval(ctx, "x"), interval(ctx, "y")
    d = [ctx.real("dx", -2, 2), ctx.real("dy", -2, 2)]
    lo, hi = vector_interval_section(m.arr([[x[0], y[0]], [x[1], y[1]]]), d if ctx.choose("list", [True, False]) else m.arr(d))
    ctx.eq("lower", lo, m.mn(d[0] * x[0], d[0] * x[1]) + m.mn(d[1] * y[0], d[1] * y[1]))
    ctx.eq("upper", hi, m.mx(d[0] * x[0], d[0] * x[1]) + m.mx(d[1] * y[0], d[1] * y[1]))


def metzler(ctx, n):
    from highway_env.interval import is_metzler
    A = [[ctx.real("a%d%d" % (i, j), -5, 5) for j in range(n)] for i in range(n)]
    off = [A[i][j] for i in range(n) for j in range(n) if i != j]
    for e in off:
        ctx.assume(m.absv(e + 1e-9) > 1e-10)
    ctx.check("off-diagonal entries", m.iff(is_metzler(m.arr(A)), m.And(*[e >= -1e-9 for e in off])))
    eps = ctx.real("eps", 1e-3, 1)
    for e in off:
        ctx.assume(m.absv(e + eps) > 1e-6)
    ctx.check("tolerance", m.iff(is_metzler(m.arr(A), eps), m.And(*[e >= -eps for e in off])))


def cases(tier):
    big = tier == "thorough"
    cs = [Case("product", scalar_product), Case("scaling", scalar_scaling), Case("integrator", integrator), Case("section", section)]
    cs += [Case("product-%d" % n, vector_product, dict(n=n)) for n in (2,) + ((3,) if big else ())]
    cs += [Case("matrix-product-%d" % n, matrix_product, dict(n=n, transposed=False), cost=3) for n in (2,)]
    cs += [Case("scaling-%d-%s" % (n, "column" if c else "flat"), scaling, dict(n=n, column=c), cost=n) for n in (2, 3) for c in (True, False)]
    cs += [Case("difference-%d" % n, difference, dict(n=n)) for n in (1, 2)]
    cs += [Case("metzler-%d" % n, metzler, dict(n=n)) for n in (2, 3)]
    return cs
