"""Speed set-points: an agent's vehicle only targets speeds of its regular grid, stepping from the one closest to its speed."""
import operator

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("grids of 1 to 6 set-points (thorough: 10) between any minimum in [-10,30] and any maximum 1 to 30 m/s above it, any current speed in [-60,80], any initial target; "
          "every meta-action, up to three in a row with the speed changing arbitrarily in between")


def kind(ctx, n, given=None):
    from highway_env.vehicle.controller import MDPVehicle
    lo = ctx.real("lo", -10, 30) if given is None else given[0]
    w = ctx.real("width", 1, 30) if given is None else given[1] - given[0]

    class Grid(MDPVehicle):
        SPEED_COUNT = n
        SPEED_MIN = lo
        SPEED_MAX = lo + w
    return Grid, lo, w


def grid(lo, w, n):
    return [lo + k * w / (n - 1) for k in range(n)] if n > 1 else [lo]


def closest(ctx, name, g, v, k):
    for j, u in enumerate(g):
        ctx.le("%s: not farther than set-point %d" % (name, j), m.absv(v - g[k]), m.absv(v - u))


def index(ctx, n, given=None):
    G, lo, w = kind(ctx, n, given)
    g = grid(lo, w, n)
    o = common.vehicle(G, None, [0., 0.], 0., 20., target_speed=20.)
    k = ctx.choose("k", list(range(n)))
    ctx.eq("set-point", o.index_to_speed(k), g[k])
    ctx.check("index of a set-point", o.speed_to_index(g[k]) == k)
    v = ctx.real("v", -60, 80)
    i = operator.index(o.speed_to_index(v))
    ctx.check("valid", 0 <= i < n)
    closest(ctx, "index", g, v, i)
    d = operator.index(G.speed_to_index_default(v))
    closest(ctx, "default index", g, v, d)
    o.speed_index = 0
    ctx.check("index of an agent's vehicle", G.get_speed_index(o) == 0)
    from highway_env.vehicle.kinematics import Vehicle
    e = operator.index(G.get_speed_index(common.vehicle(Vehicle, None, [0., 0.], 0., v)))
    closest(ctx, "any vehicle", g, v, e)
    ctx.observe("index", i)


def init(ctx, n):
    G, lo, w = kind(ctx, n)
    g = grid(lo, w, n)
    s, t = ctx.real("speed", -60, 80), ctx.real("target", 0.1, 80)
    given = ctx.choose("given", [True, False])
    if not given:
        ctx.assume(m.absv(s) > 1e-3)
    o = G(None, [0., 0.], 0., s, target_speed=t if given else None)
    i = operator.index(o.speed_index)
    ctx.check("valid", 0 <= i < n)
    ctx.eq("target speed on the grid", o.target_speed, g[i])
    closest(ctx, "closest", g, t if given else s, i)


def act(ctx, n, repeat, given=None):
    G, lo, w = kind(ctx, n, given)
    g = grid(lo, w, n)
    net = common.straight_net(2, 200.)
    o = common.vehicle(G, common.road(net), [50., 0.], 0., 20., ("0", "1", 0), target_speed=20.)
    o.steering_control = lambda index: 0.
    k = ctx.choose("k", list(range(n)))
    o.speed_index, o.target_speed = k, g[k]
    for r in range(repeat):
        v = ctx.real("v%d" % r, -60, 80)
        o.speed = v
        a = ctx.choose("action%d" % r, ["FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT", "IDLE", None])
        o.act(a)
        i = operator.index(o.speed_index)
        ctx.check("valid", 0 <= i < n)
        ctx.eq("target on the grid", o.target_speed, g[i])
        ctx.eq("acceleration", o.action["acceleration"], (g[i] - v) / 0.6)
        if a in ("FASTER", "SLOWER"):
            d = 1 if a == "FASTER" else -1
            # one of the closest set-points to the current speed, one step further, within the grid
            ok = [j for j in range(n) if min(max(j + d, 0), n - 1) == i]
            ctx.check("one step from the closest set-point",
                      m.Or(*[m.And(*[m.absv(v - g[j]) <= m.absv(v - u) + 1e-6 for u in g]) for j in ok]) if ok else False)
            ctx.check("lane kept", operator.index(o.target_lane_index[2]) == (0 if r == 0 else lane))
        else:
            ctx.check("set-point kept", i == k)
        k, lane = i, operator.index(o.target_lane_index[2])
        if a in ("LANE_LEFT", "LANE_RIGHT"):
            ctx.check("lane", lane == (1 if a == "LANE_RIGHT" else 0))
    ctx.observe("index", k)


def cases(tier):
    cs = []
    for n in (1, 2, 3, 4, 6) + ((10,) if tier == "thorough" else ()):
        cs += [Case("index-%d" % n, index, dict(n=n)), Case("init-%d" % n, init, dict(n=n)), Case("act-%d" % n, act, dict(n=n, repeat=1), cost=2)]
    cs += [Case("act-default", act, dict(n=3, repeat=2, given=(20., 30.)), cost=3), Case("act-roundabout", act, dict(n=3, repeat=2, given=(0., 16.)), cost=3)]
    if tier == "thorough":
        cs.append(Case("act-3-long", act, dict(n=3, repeat=3, given=(20., 30.)), cost=9, max_paths=30000))
    return cs
