"""Positions along a route: the route is travelled lane after lane, and constant-speed predictions follow it from the vehicle."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("routes of 1 to 4 lanes of any length in [1,100] with right and left turns between them, and a straight-arc-straight "
          "route, from its start or from the arc (and before it); any longitudinal coordinate in [-50,500] and lateral in [-5,5]; predictions at three instants in [0,5] s for a "
          "vehicle anywhere on its lane at any speed in [0,30], heading for its lane, a parallel one or the next, its route starting at its lane, at the next one, or absent")

DIRS = [(1., 0.), (0., 1.), (1., 0.), (0., -1.)]


def chain(ctx, n):
    """n lanes of arbitrary length, each starting where the previous one ends."""
    from highway_env.road.road import RoadNetwork
    from highway_env.road.lane import StraightLane
    net = RoadNetwork()
    p = m.arr([3., -2.])
    Ls = []
    for i in range(n):
        L = ctx.real("L%d" % i, 1, 100)
        d = DIRS[i]
        q = m.arr([p[0] + L * d[0], p[1] + L * d[1]])
        net.add_lane("n%d" % i, "n%d" % (i + 1), StraightLane(p, q))
        Ls.append(L)
        p = q
    return net, Ls


def where(ctx, Ls, s, r):
    """Specification: position and direction at coordinate s of the chained lanes."""
    x, y = 3., -2.
    n = len(Ls)
    out = None
    rest = s
    # nested choice written from the last lane backwards
    starts, rests, passed = [], [], []
    for i in range(n):
        starts.append((x, y))
        rests.append(rest)
        x, y = x + Ls[i] * DIRS[i][0], y + Ls[i] * DIRS[i][1]
        rest = rest - Ls[i]
    k = n - 1
    px, py, dx, dy = None, None, None, None
    for i in range(n - 1, -1, -1):
        d = DIRS[i]
        qx, qy = starts[i][0] + rests[i] * d[0] - r * d[1], starts[i][1] + rests[i] * d[1] + r * d[0]
        if px is None:
            px, py, dx, dy = qx, qy, d[0], d[1]
        else:
            on = rests[i] <= Ls[i]
            px, py, dx, dy = m.ite(on, qx, px), m.ite(on, qy, py), m.ite(on, d[0], dx), m.ite(on, d[1], dy)
    return px, py, dx, dy


def along(ctx, n):
    net, Ls = chain(ctx, n)
    s, r = ctx.real("s", -50, 500), ctx.real("r", -5, 5)
    route = [("n%d" % i, "n%d" % (i + 1), None if i % 2 else 0) for i in range(n)]
    before = list(route)
    pos, h = net.position_heading_along_route(route, s, r)
    x, y, dx, dy = where(ctx, Ls, s, r)
    ctx.eq("x", pos[0], x)
    ctx.eq("y", pos[1], y)
    ctx.eq("cos", m.cos(h), dx)
    ctx.eq("sin", m.sin(h), dy)
    ctx.check("route unchanged", route == before)
    ctx.observe("p", pos)


def arc(ctx):
    """A straight lane, a quarter turn of radius 9, a straight lane."""
    from highway_env.road.road import RoadNetwork
    from highway_env.road.lane import StraightLane, CircularLane
    net = RoadNetwork()
    net.add_lane("a", "b", StraightLane([-30., 0.], [0., 0.]))
    net.add_lane("b", "c", CircularLane([0., 9.], 9., -math.pi / 2, 0.))
    net.add_lane("c", "d", StraightLane([9., 9.], [9., 40.]))
    u = ctx.angle("u", -3.1, 3.1)
    ctx.assume(m.absv(u - math.pi / 2) > 1e-6)
    s = 30 + 9. * u
    first = ctx.choose("first", ["a", "b"])      # or starting on the turn, possibly before its beginning
    route = [("a", "b", 0), ("b", "c", 0), ("c", "d", 0)]
    pos, h = net.position_heading_along_route(route if first == "a" else route[1:], s if first == "a" else s - 30, 0.)
    q = 9. * math.pi / 2
    if first == "a" and s <= 30:
        want = (s - 30, 0., 1., 0.)
    elif s <= 30 + q:
        a = (s - 30) / 9.
        want = (9 * m.sin(a), 9 - 9 * m.cos(a), m.cos(a), m.sin(a))
    else:
        want = (9., 9 + s - 30 - q, 0., 1.)
    for k, g, w in zip("xycs", (pos[0], pos[1], m.cos(h), m.sin(h)), want):
        ctx.eq(k, g, w)


def predict(ctx, n, start):
    """start: index of the first step of the route relative to the vehicle's lane (0, 1), or None without route."""
    from highway_env.road.lane import StraightLane
    from highway_env.vehicle.controller import ControlledVehicle
    net, Ls = chain(ctx, n)
    rd = common.road(net)
    s0, r0 = ctx.real("s0", -4, 100), ctx.real("r0", -3, 3)
    ctx.assume(s0 <= Ls[0] + 4)
    v0 = ctx.real("v0", 0, 30)
    d = DIRS[0]
    v = common.vehicle(ControlledVehicle, rd, [3. + s0, -2. + r0], 0., v0, ("n0", "n1", 0), target_speed=10.)
    full = [("n%d" % i, "n%d" % (i + 1), 0 if i == 0 else None) for i in range(n)]
    v.route = None if start is None else full[start:]
    # the lane it heads for may be another one
    targets = [("n0", "n1", 0), ("n0", "n1", 1)] + ([("n1", "n2", 0)] if n > 1 else [])
    net.graph["n0"]["n1"].append(StraightLane([3., 2.], [53., 2.]))
    v.target_lane_index = ctx.choose("target", targets)
    ts = [0., ctx.real("t1", 0, 5), ctx.real("t2", 0, 5)]
    ps, hs = v.predict_trajectory_constant_speed(m.arr(ts))
    ctx.check("one state per instant", len(ps) == 3 and len(hs) == 3)
    for k, t in enumerate(ts):
        x, y, dx, dy = where(ctx, Ls if start is not None else Ls[:1], s0 + v0 * t, 0.)
        ctx.eq("x%d" % k, ps[k][0], x)
        ctx.eq("y%d" % k, ps[k][1], y)
        ctx.eq("cos%d" % k, m.cos(hs[k]), dx)
        ctx.eq("sin%d" % k, m.sin(hs[k]), dy)
    ctx.check("the vehicle is left in place", v.route is None or v.route == full[start:])


def cases(tier):
    cs = [Case("along-%d" % n, along, dict(n=n), cost=n) for n in (1, 2, 3, 4)] + [Case("arc", arc)]
    for n, st in ((1, None), (2, None), (1, 0), (2, 0), (3, 0), (2, 1), (3, 1)):
        cs.append(Case("predict-%d-%s" % (n, st), predict, dict(n=n, start=st), cost=n))
    return cs
