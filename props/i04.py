"""Families of matrices over a box of parameters are written as a centre and the deviations of the corners of the box."""
import itertools

import numpy as np

from symx.engine import Case
from symx import m

BOUNDS = ("affine families of 2x2 matrices with any coefficients in [-5,5] of one to three parameters (thorough: four), any box with bounds in [-5,5] and any member of the family; the families of the linear traffic "
          "vehicles over any parameter box, with and without a vehicle ahead; any speeds in [0,40] and gap up to 80; regressions whose estimate is given")


def box_of(ctx, n):
    lo, hi = [ctx.real("lo%d" % k, -5, 5) for k in range(n)], [ctx.real("hi%d" % k, -5, 5) for k in range(n)]
    for a, b in zip(lo, hi):
        ctx.assume(a <= b - 1e-3)
    return lo, hi


def verify(ctx, a0, das, base, phi, lo, hi):
    """base + sum of parameter x phi, for parameters in the box, against a0 + deviations."""
    n, r = len(phi), len(base)
    mid = [(a + b) / 2. for a, b in zip(lo, hi)]
    at = lambda p: [[base[i][j] + sum(p[k] * phi[k][i][j] for k in range(n)) for j in range(r)] for i in range(r)]
    centre = at(mid)
    for i in range(r):
        for j in range(r):
            ctx.eq("centre", a0[i][j], centre[i][j])
    # the corners in whatever order: pair every deviation with a corner it may be
    corners = [[(lo, hi)[s][k] for k, s in enumerate(v)] for v in itertools.product([0, 1], repeat=n)]
    devs = [[[c[i][j] - centre[i][j] for j in range(r)] for i in range(r)] for c in map(at, corners)]
    same = lambda d, e: m.And(*[m.absv(d[i][j] - e[i][j]) <= 1e-6 for i in range(r) for j in range(r)])
    ctx.check("no more than the corners", len(das) <= len(devs))
    for e in devs:
        ctx.check("every corner", m.Or(*[same(d, e) for d in das]))
    for d in das:
        ctx.check("corners only", m.Or(*[same(d, e) for e in devs]))
    # every member is the centre plus a convex combination of the deviations: no entry is beyond all of them
    p = [ctx.real("p%d" % k, -5, 5) for k in range(n)]
    for k in range(n):
        ctx.assume(m.And(lo[k] <= p[k], p[k] <= hi[k]))
    x = at(p)
    for i in range(r):
        for j in range(r):
            ctx.check("members", m.And(x[i][j] <= a0[i][j] + m.mx(*[d[i][j] for d in das]) + 1e-6, x[i][j] >= a0[i][j] + m.mn(*[d[i][j] for d in das]) - 1e-6))


def generic(ctx, n, kind):
    from highway_env.interval import polytope
    lo, hi = box_of(ctx, n)
    # sparse coefficients: each parameter acts on two entries
    base = [[ctx.real("b%d%d" % (i, j), -5, 5) for j in range(2)] for i in range(2)]
    phi = [[[0., 0.], [0., 0.]] for _ in range(n)]
    for k in range(n):
        phi[k][k % 2][(k // 2) % 2] = [1., -2., 0.5, -1.][k]
        phi[k][1][1] += [-1., 0.5, 1., 2.][k]
    A, F = m.arr(base), [np.array(f) for f in phi]
    calls = []

    def family(p):
        calls.append(1)
        return A + sum(F[k] * p[k] for k in range(n))

    a0, das = polytope(family, m.arr([lo, hi]))
    verify(ctx, a0, das, base, phi, lo, hi)


def vehicle(ctx, axis, front):
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    from highway_env.vehicle.kinematics import Vehicle
    from . import common
    n = 3 if axis == "longitudinal" else 2
    lo, hi = box_of(ctx, n)
    rd = common.road(common.straight_net(1))
    v = IntervalVehicle(rd, [0., 0.], 0., 20., theta_a_i=m.arr([lo, hi]) if n == 3 else None, theta_b_i=m.arr([lo, hi]) if n == 2 else None)
    rd.vehicles.append(v)
    if front:
        rd.vehicles.append(Vehicle(rd, [30., 0.], 0., 20.))
    a0, das = v.longitudinal_matrix_polytope() if n == 3 else v.lateral_matrix_polytope()
    A, phi = v.longitudinal_structure() if n == 3 else v.lateral_structure()
    fl = lambda x: [[float(y) for y in r] for r in x]
    verify(ctx, a0, das, fl(A), [fl(f) for f in phi], lo, hi)


def structures(ctx, front):
    """The dynamics behind the families: the features of the vehicle's commands."""
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.kinematics import Vehicle
    from . import common
    rd = common.road(common.straight_net(2))
    speed, gap, other = ctx.real("speed", 0, 40), ctx.real("gap", 5.5, 80), ctx.real("other's speed", 0, 40)
    v = common.vehicle(LinearVehicle, rd, [0., 0.], 0., 20., ("0", "1", 0))
    v.speed = speed
    v.target_lane_index = ("0", "1", ctx.choose("target", [0, 1]))
    v.TIME_WANTED = ctx.choose("time wanted", [2.5, 1.25])
    rd.vehicles.append(v)
    near = slower = False
    if front:
        w = common.vehicle(Vehicle, rd, [gap, 0.], ctx.choose("heading", [0., 1.]), 20., ("0", "1", 0))
        w.speed = other
        rd.vehicles.append(w)
        safe = v.DISTANCE_WANTED + v.TIME_WANTED * speed
        ctx.assume(m.And(m.absv(gap - safe) > 1e-3, m.absv(speed - other) > 1e-3))
        near, slower = gap < safe, other < speed
    dot = lambda M, x: [sum(float(M[i][j]) * x[j] for j in range(len(x))) for i in range(len(x))]
    x = [ctx.real("x%d" % k, -50, 50) for k in range(4)]
    A, phi = v.longitudinal_structure()
    d = dot(A, x)
    for k, want in enumerate((x[2], x[3], 0., 0.)):
        ctx.eq("positions integrate the speeds", d[k], want)
    rows = [dot(f, x) for f in phi]
    ctx.eq("own speed feature", rows[0][2], -x[2])
    ctx.eq("other's speed feature", rows[0][3], -x[3])
    # the features are negative parts: they act only on a slower vehicle ahead, and within the wanted distance
    ctx.eq("front speed feature", rows[1][2], m.ite(slower, x[3] - x[2], 0.) if front else 0.)
    ctx.eq("front distance feature", rows[2][2], m.ite(near, x[1] - x[0] - v.TIME_WANTED * x[2], 0.) if front else 0.)
    for k in (0, 1, 2):
        ctx.eq("position rows", rows[k][0], 0.)
        ctx.eq("position rows", rows[k][1], 0.)
        if k:
            ctx.eq("rows of the other", rows[k][3], 0.)
    y = [x[0], x[1]]
    A, phi = v.lateral_structure()
    d = dot(A, y)
    ctx.eq("lateral integrates the heading", d[0], y[1])
    ctx.eq("heading is commanded", d[1], 0.)
    rows = [dot(f, y) for f in phi]
    ctx.eq("heading feature", rows[0][1], -y[1])
    ctx.eq("lateral feature", rows[1][1], -y[0])
    for k in (0, 1):
        ctx.eq("lateral rows", rows[k][0], 0.)


def estimated(ctx, axis):
    """From a regression: the estimated parameters as centre and the deviations of the estimate as deviations."""
    import highway_env.vehicle.uncertainty.estimation as estimation
    from . import common
    n = 3 if axis == "longitudinal" else 2
    rd = common.road(common.straight_net(1))
    v = estimation.RegressionVehicle(rd, [0., 0.], 0., 20.)
    rd.vehicles.append(v)
    lo, hi = [-4., -3., -2.][:n], [4., 3., 2.][:n]
    theta = [ctx.real("theta%d" % k, -5, 5) for k in range(n)]
    dev = [[ctx.real("dev%d%d" % (q, k), -5, 5) for k in range(n)] for q in range(2)]
    box = np.array([lo, hi])
    setattr(v, "theta_a_i" if n == 3 else "theta_b_i", box)
    data = ctx.choose("data", ["none", "never", "other", "some"])
    if data == "never":
        ctx.check("no observations yet", not v.data)
    else:
        v.data = {axis: {} if data == "none" else {"features": [[1.] * n], "outputs": [0.]}}
        if data == "other":
            v.data = {"lateral" if n == 3 else "longitudinal": v.data[axis]}
            data = "none"
    data = "none" if data == "never" else data
    seen = []

    def region(d, parameter_box=None):
        seen.append((d, parameter_box))
        return m.arr(theta), m.arr(dev), np.eye(n), 1.

    keep = estimation.confidence_polytope
    estimation.confidence_polytope = region
    try:
        a0, das = v.longitudinal_matrix_polytope() if n == 3 else v.lateral_matrix_polytope()
    finally:
        estimation.confidence_polytope = keep
    A, phi = v.longitudinal_structure() if n == 3 else v.lateral_structure()
    if data == "none":
        b0, dbs = v.parameter_box_to_polytope(box, v.longitudinal_structure if n == 3 else v.lateral_structure)
        ctx.check("without data: the prior", not seen and len(das) == len(dbs) and bool(np.allclose(np.array(a0, dtype=float), np.array(b0, dtype=float))))
        return
    ctx.check("of its own data, within its own box", len(seen) == 1 and seen[0][0] is v.data[axis] and seen[0][1] is box)
    for i in range(len(a0)):
        for j in range(len(a0)):
            ctx.eq("centre", a0[i][j], float(A[i][j]) + sum(theta[k] * float(phi[k][i][j]) for k in range(n)))
            for q in range(2):
                ctx.eq("deviation", das[q][i][j], sum(dev[q][k] * float(phi[k][i][j]) for k in range(n)))
    ctx.check("as many deviations", len(das) == 2)


def cases(tier):
    big = tier == "thorough"
    cs = [Case("affine-%d" % n, generic, dict(n=n, kind=""), cost=n) for n in (1, 2, 3) + ((4,) if big else ())]
    for front in (False, True):
        cs.append(Case("traffic-longitudinal-%s" % ("front" if front else "free"), vehicle, dict(axis="longitudinal", front=front), cost=4))
        cs.append(Case("structures-%s" % ("front" if front else "free"), structures, dict(front=front)))
    cs.append(Case("traffic-lateral", vehicle, dict(axis="lateral", front=False), cost=2))
    cs += [Case("estimated-" + a, estimated, dict(axis=a)) for a in ("longitudinal", "lateral")]
    return cs
