"""Boxes of positions between world and lane frames."""
from symx.engine import Case
from symx import m

BOUNDS = ("straight lanes of any start in [-200,200]^2, direction and length in [1,1000]; any box within 60 m of the lane's start with sides up to 20 m and any point of it; "
          "sine lane (amplitude 3) and circular lanes (radius 30, both directions, boxes given by travelled angle): corners only; boxes with a degenerate side or two")


def straight(ctx, direction):
    from highway_env.road.lane import StraightLane
    x, y, L = ctx.real("x", -200, 200), ctx.real("y", -200, 200), ctx.real("L", 1, 1000)
    if direction is None:
        th = ctx.angle("th")
        u = m.cos(th), m.sin(th)
    else:
        u = direction
    return StraightLane(m.arr([x, y]), m.arr([x + L * u[0], y + L * u[1]])), x, y, u


def box(ctx, a, b, flat, name="w"):
    wa = 0. if "a" in flat else ctx.real(name + "a", 0, 20)
    wb = 0. if "b" in flat else ctx.real(name + "b", 0, 20)
    return [a, a + wa], [b, b + wb]


def to_local(ctx, direction, flat):
    from highway_env.interval import interval_absolute_to_local
    lane, x, y, u = straight(ctx, direction)
    X, Y = box(ctx, x + ctx.real("rx", -60, 60), y + ctx.real("ry", -60, 60), flat)
    lon, lat = interval_absolute_to_local(m.arr([[X[0], Y[0]], [X[1], Y[1]]]), lane)
    # the range of a linear form over a box
    form = lambda c, d, f: f(c * (X[0] - x), c * (X[1] - x)) + f(d * (Y[0] - y), d * (Y[1] - y))
    ctx.eq("least longitudinal", lon[0], form(u[0], u[1], m.mn))
    ctx.eq("greatest longitudinal", lon[1], form(u[0], u[1], m.mx))
    ctx.eq("least lateral", lat[0], form(-u[1], u[0], m.mn))
    ctx.eq("greatest lateral", lat[1], form(-u[1], u[0], m.mx))


def to_world(ctx, direction, flat):
    from highway_env.interval import interval_local_to_absolute
    lane, x, y, u = straight(ctx, direction)
    S, R = box(ctx, ctx.real("s", -60, 60), ctx.real("r", -60, 60), flat)
    if ctx.choose("arrays", [True, False]):
        S, R = m.arr(S), m.arr(R)
    pos = interval_local_to_absolute(S, R, lane)
    form = lambda c, d, f: f(c * S[0], c * S[1]) + f(d * R[0], d * R[1])
    ctx.check("shape", pos.shape == (2, 2))
    ctx.eq("least x", pos[0][0], x + form(u[0], -u[1], m.mn))
    ctx.eq("greatest x", pos[1][0], x + form(u[0], -u[1], m.mx))
    ctx.eq("least y", pos[0][1], y + form(u[1], u[0], m.mn))
    ctx.eq("greatest y", pos[1][1], y + form(u[1], u[0], m.mx))


def round_trip(ctx, direction):
    """There and back encloses the box one started from."""
    from highway_env.interval import interval_absolute_to_local, interval_local_to_absolute
    lane, x, y, u = straight(ctx, direction)
    if direction is None:
        for k, name in enumerate(("side x", "side y")):
            ctx.assume(u[k] >= 0 if ctx.choose(name, [True, False]) else u[k] <= 0)
    X, Y = box(ctx, x + ctx.real("rx", -60, 60), y + ctx.real("ry", -60, 60), "")
    lon, lat = interval_absolute_to_local(m.arr([[X[0], Y[0]], [X[1], Y[1]]]), lane)
    pos = interval_local_to_absolute(lon, lat, lane)
    for k, i in enumerate((X, Y)):
        ctx.check("encloses", m.And(pos[0][k] <= i[0] + 1e-6, pos[1][k] >= i[1] - 1e-6))


def curved(ctx, shape):
    """On curved lanes the box is the one of its four corners."""
    from highway_env.interval import interval_absolute_to_local, interval_local_to_absolute
    from highway_env.road.lane import SineLane, CircularLane
    if shape == "sine":
        lane = SineLane([0., 2.], [100., 2.], 3., 0.1, 0.2)
        S, R = box(ctx, ctx.real("s", -20, 120), ctx.real("r", -10, 10), "")
    else:
        lane = CircularLane([10., 20.], 30., -1., 1., clockwise=shape == "cw")
        t = ctx.angle("t", -1, 1)
        S, R = [30. * t, 30. * t + ctx.choose("ds", [0., 3., 12.])], box(ctx, 0., ctx.real("r", -10, 10), "a")[1]
    got = interval_local_to_absolute(S, R, lane)
    corners = [lane.position(s, r) for s in S for r in R]
    for k in (0, 1):
        ctx.eq("least", got[0][k], m.mn(*[c[k] for c in corners]))
        ctx.eq("greatest", got[1][k], m.mx(*[c[k] for c in corners]))
    if shape == "sine":
        X, Y = box(ctx, ctx.real("x", -20, 120), ctx.real("y", -10, 10), "", "q")
        lon, lat = interval_absolute_to_local(m.arr([[X[0], Y[0]], [X[1], Y[1]]]), lane)
        corners = [lane.local_coordinates(m.arr([a, b])) for a in X for b in Y]
        for name, i, k in (("longitudinal", lon, 0), ("lateral", lat, 1)):
            ctx.eq("least " + name, i[0], m.mn(*[c[k] for c in corners]))
            ctx.eq("greatest " + name, i[1], m.mx(*[c[k] for c in corners]))


def cases(tier):
    cs = []
    dirs = dict(any=None, east=(1., 0.), south=(0., 1.), west=(-1., 0.), slanted=(0.6, -0.8))
    for name in sorted(dirs) if tier == "thorough" else ("any", "slanted", "west"):
        for flat in ("", "a", "ab"):
            o = dict(direction=dirs[name], flat=flat)
            cs.append(Case("local-%s-%s" % (name, flat or "box"), to_local, o, cost=2))
            cs.append(Case("world-%s-%s" % (name, flat or "box"), to_world, o, cost=2))
        cs.append(Case("round-trip-" + name, round_trip, dict(direction=dirs[name]), cost=4))
    cs += [Case("curved-" + s, curved, dict(shape=s), cost=3) for s in ("sine", "cw", "ccw")]
    return cs
