"""Time-to-collision: the grid marks exactly when another vehicle would be met on its lane, and the observation is its window."""
import math

from symx.engine import Case
from symx import m
from . import common
from .o01 import equal

BOUNDS = ("one or two other vehicles at any distance in [-100,200] (the boundaries between cells excluded by 1e-6), any speeds in [-10,40] and headings (same, opposite and equal speeds included), on the observer's road, the next one or an "
          "unconnected one of as many or other lanes; a next road that turns; chains of roads up to five ahead, routes of up to five roads; speed grids of 1 to 3 set-points with any bounds; 2 to 4 time cells of 0.5 or 1 s; every lane and speed index of the observer")


def kind(n, lo, hi):
    from highway_env.vehicle.controller import MDPVehicle

    class Agent(MDPVehicle):
        SPEED_COUNT, SPEED_MIN, SPEED_MAX = n, lo, hi
    return Agent


def network(lanes, nxt):
    net = common.straight_net(lanes, 100.)
    common.add_straight(net, "1", "2", nxt, 100., 200.)
    common.add_straight(net, "8", "9", lanes, 0., 100., y0=200.)
    return net


ROADS = {"same": ("0", "1"), "next": ("1", "2"), "apart": ("8", "9")}


def scene(ctx, lanes, nxt, others, speeds, q, cells, free=("d",), anylane=False, speeds_of=(6., 27., 15.004), headings=(0.,)):
    """free: which of distance, speed, heading of the others and of the speed grid are arbitrary."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import IDMVehicle
    lo = ctx.real("lo", 0, 20) if "grid" in free else 15.
    w = ctx.real("width", 1, 20) if "grid" in free else 10.
    net = network(lanes, nxt or lanes)
    rd = common.road(net)
    A = kind(speeds, lo, lo + w)
    lane = ctx.choose("lane", list(range(lanes))) if anylane else lanes - 1
    ego = common.vehicle(A, rd, [20., 4. * lane], 0., 15., ("0", "1", lane))
    ego.speed = ctx.real("v", 0, 40)
    ego.speed_index = ctx.choose("index", list(range(speeds)))
    ego.target_speed = ego.index_to_speed(ego.speed_index)
    vs = []
    for k in range(others):
        where = ctx.choose("road%d" % k, ["same", "next", "apart"] if nxt else ["same"])
        a, b = ROADS[where]
        j = ctx.choose("lane%d" % k, list(range(len(net.graph[a][b]))))
        d = ctx.real("d%d" % k, -100, 200) if "d" in free else ctx.choose("d%d" % k, [-30., 3., 40.])
        if "v" in free:
            lo, hi = ctx.choose("slower%d" % k, [(-10, 14), (16, 40)])
            v = ctx.real("v%d" % k, lo, hi)
        else:
            v = ctx.choose("v%d" % k, [-10., 6.] if "h" in free else speeds_of)
        h = ctx.angle("h%d" % k, -3, 3) if "h" in free else ctx.choose("h%d" % k, list(headings))
        o = common.vehicle(Vehicle, rd, [20. + d, 4. * j], h, v, (a, b, j))
        vs.append((o, where, j, d, v * m.cos(h)))
    rd.vehicles = [ego] + [v[0] for v in vs]
    env = common.env_of("TwoWayEnv", dict(policy_frequency=1. / q if q != 1 else 1), rd, [ego])
    return env, ego, vs, lane, [lo + w * k / (speeds - 1) for k in range(speeds)] if speeds > 1 else [15.]


def cell(ctx, lanes, nxt, vs, speed, l, t, q):
    """Value of the grid for one speed, lane and time."""
    out = 0.
    for o, where, j, d, vp in vs:
        if where == "apart":
            continue
        if not (j == l or (where == "next" and nxt != lanes)):
            continue
        dv = speed - vp
        dv = m.ite(m.absv(dv) > 0.01, dv, m.ite(dv > 0, 0.01, -0.01))
        for shift, cost in ((0., 1.), (-5., 0.5), (5., 0.5)):
            ttc = (d + shift) / dv
            hit = m.And(ttc >= 0, ttc > (t - 1) * q, ttc < (t + 1) * q, m.Not(speed == vp))
            out = m.mx(out, m.ite(hit, cost, 0.))
    return out


def separate(ctx, vs, speeds, q, cells):
    """The exact boundary between two cells belongs to either of them: left out."""
    for o, where, j, d, vp in vs:
        if where == "apart":
            continue
        for s in speeds:
            dv = s - vp
            if m.is_sym(dv):
                ctx.assume(m.absv(dv) > 0.0101)
            dv = m.ite(m.absv(dv) > 0.01, dv, m.ite(dv > 0, 0.01, -0.01))
            for shift in (0., -5., 5.):
                ctx.assume(m.absv(d + shift) > 1e-3)
                ttc = (d + shift) / dv
                for t in range(1, cells + 1):
                    ctx.assume(m.absv(ttc - t * q) > 1e-3)


def grid(ctx, lanes, nxt, others, speeds, q, cells, free=("d",), **kw):
    from highway_env.envs.common.finite_mdp import compute_ttc_grid
    env, ego, vs, lane, sp = scene(ctx, lanes, nxt, others, speeds, q, cells, free, **kw)
    separate(ctx, vs, sp, q, cells)
    got = compute_ttc_grid(env, time_quantization=q, horizon=cells * q, vehicle=ego)
    ctx.check("shape", got.shape == (speeds, lanes, cells))
    for k in range(speeds):
        for l in range(lanes):
            for t in range(cells):
                ctx.eq("cell %d %d %d" % (k, l, t), got[k, l, t], cell(ctx, lanes, nxt, vs, sp[k], l, t, q))


def window(ctx, lanes, speeds, q, cells, changing=False, **kw):
    """The observation shows three lanes around the observer's (changing lanes or not) and three speeds around its own; no lane is an obstacle."""
    from highway_env.envs.common.observation import TimeToCollisionObservation
    env, ego, vs, lane, sp = scene(ctx, lanes, None, 1, speeds, q, cells, anylane=True, **kw)
    if changing:
        ego.target_lane_index = ("0", "1", lane - 1 if lane else 1)
    separate(ctx, vs, sp, q, cells)
    obs = TimeToCollisionObservation(env, horizon=cells * q)
    got = obs.observe()
    ctx.check("shape", got.shape == (3, 3, cells))
    for a in range(3):
        k = min(max(ego.speed_index + a - 1, 0), speeds - 1)
        for b in range(3):
            l = lane + b - 1
            for t in range(cells):
                w = cell(ctx, lanes, lanes, vs, sp[k], l, t, q) if 0 <= l < lanes else 1.
                ctx.eq("cell %d %d %d" % (a, b, t), got[a, b, t], w)


def observer(ctx, which):
    """Another observer than the first agent sees its own road."""
    from highway_env.envs.common.observation import TimeToCollisionObservation
    net = common.straight_net(2, 100.)
    common.add_straight(net, "8", "9", 4 if which == "wider" else 1, 0., 100., y0=200.)
    rd = common.road(net)
    A = kind(3, 20., 30.)
    first = common.vehicle(A, rd, [20., 0.], 0., 25., ("0", "1", 0))
    lane = ctx.choose("lane", [0, 1, 2, 3]) if which == "wider" else 0
    ego = common.vehicle(A, rd, [20., 200. + 4 * lane], 0., 25., ("8", "9", lane))
    from highway_env.vehicle.kinematics import Vehicle
    d = ctx.real("d", 10, 60)
    o = common.vehicle(Vehicle, rd, [20. + d, 200. + 4. * lane], 0., 10., ("8", "9", lane))
    vs = [(o, "same", lane, d, 10.)]
    for v in (first, ego):
        v.speed_index, v.target_speed = 1, 25.
    rd.vehicles = [first, ego, o]
    env = common.env_of("TwoWayEnv", {}, rd, [first, ego])
    obs = TimeToCollisionObservation(env, horizon=3)
    obs.observer_vehicle = ego
    separate(ctx, vs, [20., 25., 30.], 1, 3)
    got = obs.observe()
    ctx.check("shape", got.shape == (3, 3, 3))
    n = 4 if which == "wider" else 1
    for a in range(3):
        for b in range(3):
            l = lane + b - 1
            for t in range(3):
                w = cell(ctx, n, n, vs, [20., 25., 30.][a], l, t, 1) if 0 <= l < n else 1.
                ctx.eq("cell %d %d %d" % (a, b, t), got[a, b, t], w)


def routed(ctx, agents):
    """At a junction the road the observer leads to is the one of its own route, whatever the other agents do."""
    from highway_env.envs.common.observation import TimeToCollisionObservation, MultiAgentObservation
    from highway_env.vehicle.kinematics import Vehicle
    net = common.straight_net(1, 100.)
    for to in ("2", "5"):
        common.add_straight(net, "1", to, 1, 100., 200.)
    common.add_straight(net, "8", "9", 1, 0., 100., y0=200.)
    rd = common.road(net)
    A = kind(1, 25., 35.)
    egos = []
    for k in range(agents):
        v = common.vehicle(A, rd, [20., 0.], 0., 25., ("0", "1", 0))
        v.speed_index, v.target_speed = 0, 25.
        asked = ctx.choose("route%d" % k, [None, "2", "5"])
        v.route = asked and [("0", "1", 0), ("1", asked, None)]
        egos.append((v, asked))
    where = ctx.choose("other", [("1", "2"), ("1", "5"), ("8", "9")])
    d = ctx.real("d", 10, 60)
    o = common.vehicle(Vehicle, rd, [20. + d, 0.], 0., 10., where + (0,))
    rd.vehicles = [v for v, _ in egos] + [o]
    for v, _ in egos[1:]:
        v.position = v.position + m.arr([0., 200.])
        rd.vehicles.remove(v)
    env = common.env_of("TwoWayEnv", dict(observation={"type": "MultiAgentObservation", "observation_config": {"type": "TimeToCollision", "horizon": 3}}), rd, [v for v, _ in egos])
    obs = MultiAgentObservation(env, {"type": "TimeToCollision", "horizon": 3}) if agents > 1 else TimeToCollisionObservation(env, horizon=3)
    separate(ctx, [(o, "same", 0, d, 10.)], [25.], 1, 3)
    got = obs.observe()
    if agents == 1:
        got = (got,)
    for k, (v, asked) in enumerate(egos):
        on = where == ("1", asked) if asked else where[0] == "1"
        for t in range(3):
            w = cell(ctx, 1, 1, [(o, "same", 0, d, 10.)] if on else [], 25., 0, t, 1)
            for a in range(3):
                ctx.eq("agent %d cell %d %d" % (k, a, t), got[k][a, 1, t], w)


def far(ctx, routed):
    """Roads up to three ahead and those leading into one of them count, along the route if there is one."""
    from highway_env.envs.common.finite_mdp import compute_ttc_grid
    from highway_env.vehicle.kinematics import Vehicle
    net = common.straight_net(1, 100.)
    for k in range(1, 6):
        common.add_straight(net, str(k), str(k + 1), 1, 100. * k, 100. * k + 100.)
    common.add_straight(net, "3", "x", 1, 300., 400.)
    for k in (0, 2, 3, 4):
        common.add_straight(net, "z", str(k), 1, 100. * k - 100., 100. * k)
    rd = common.road(net)
    A = kind(1, 25., 35.)
    ego = common.vehicle(A, rd, [20., 0.], 0., 25., ("0", "1", 0))
    ego.speed_index, ego.target_speed = 0, 25.
    start, length = (ctx.choose("start", [0, 1]), ctx.choose("length", [1, 2, 4, 5])) if routed else (0, 0)
    chain = [(str(k), str(k + 1), 0) for k in range(6)]
    ego.route = chain[start:start + length] or None
    where = ctx.choose("road", chain + [("3", "x", 0)] + [("z", k, 0) for k in "0234"])
    d = ctx.real("d", 10, 60)
    o = common.vehicle(Vehicle, rd, [20. + d, 0.], 0., 10., where)
    rd.vehicles = [ego, o]
    env = common.env_of("TwoWayEnv", {}, rd, [ego])
    separate(ctx, [(o, "same", 0, d, 10.)], [25.], 1, 3)
    got = compute_ttc_grid(env, time_quantization=1, horizon=3, vehicle=ego)
    if where[1] == "x":
        on = ("3", "4", 0) not in (ego.route or [])
    else:
        on = int(where[where[0] == "z"]) <= 3
    for t in range(3):
        ctx.eq("cell %d" % t, got[0, 0, t], cell(ctx, 1, 1, [(o, "same", 0, d, 10.)] if on else [], 25., 0, t, 1))


def turned(ctx):
    """The road ahead turns: the distance is the one along the observer's lane, the speed the one along its direction."""
    from highway_env.envs.common.finite_mdp import compute_ttc_grid
    from highway_env.road.lane import StraightLane
    from highway_env.vehicle.kinematics import Vehicle
    net = common.straight_net(1, 100.)
    net.add_lane("1", "2", StraightLane([100., 0.], [100., 100.]))
    rd = common.road(net)
    x, y = ctx.real("x", 20, 90), ctx.real("y", -5, 60)
    ego = common.vehicle(kind(1, 25., 35.), rd, [x, 0.], 0., 25., ("0", "1", 0))
    ego.speed_index, ego.target_speed = 0, 25.
    o = common.vehicle(Vehicle, rd, [100., y], math.acos(0.6), ctx.choose("v", [10., -5., 40.]), ("1", "2", 0))
    vs = [(o, "same", 0, 100. - x, 0.6 * o.speed)]
    rd.vehicles = [ego, o]
    env = common.env_of("TwoWayEnv", {}, rd, [ego])
    separate(ctx, vs, [25.], 1, 4)
    got = compute_ttc_grid(env, time_quantization=1, horizon=4, vehicle=ego)
    for t in range(4):
        ctx.eq("cell %d" % t, got[0, 0, t], cell(ctx, 1, 1, vs, 25., 0, t, 1))


def noroad(ctx):
    from highway_env.envs.common.observation import TimeToCollisionObservation
    env = common.env_of("TwoWayEnv", dict(policy_frequency=2))
    got = TimeToCollisionObservation(env, horizon=5).observe()
    ctx.check("shape", got.shape == (3, 3, 10) and not got.any())


def cases(tier):
    cs = [Case("distance", grid, dict(lanes=2, nxt=2, others=1, speeds=1, q=1, cells=3)),
          Case("other-road", grid, dict(lanes=2, nxt=3, others=1, speeds=1, q=1, cells=2)),
          Case("two-speeds", grid, dict(lanes=1, nxt=None, others=1, speeds=2, q=1, cells=2)),
          Case("oncoming", grid, dict(lanes=1, nxt=1, others=1, speeds=1, q=1, cells=3, speeds_of=(15., -15., 27.), headings=(0., math.pi, 2.))),
          Case("half-second", grid, dict(lanes=3, nxt=2, others=1, speeds=1, q=0.5, cells=3)),
          Case("speed", grid, dict(lanes=1, nxt=None, others=1, speeds=1, q=1, cells=3, free=("v",))),
          Case("heading", grid, dict(lanes=1, nxt=None, others=1, speeds=1, q=1, cells=2, free=("h",))),
          Case("speed-grid", grid, dict(lanes=1, nxt=None, others=1, speeds=2, q=1, cells=2, free=("grid",))),
          Case("two-vehicles", grid, dict(lanes=1, nxt=None, others=2, speeds=1, q=1, cells=2, speeds_of=(6., 27.)), cost=3)]
    for n in (1, 2, 3):
        cs.append(Case("window-%d-lanes" % n, window, dict(lanes=n, speeds=1, q=1, cells=2)))
    cs += [Case("window-3-speeds", window, dict(lanes=2, speeds=3, q=1, cells=2, speeds_of=(6.,)), cost=3), Case("window-changing", window, dict(lanes=2, speeds=1, q=1, cells=2, changing=True)), Case("no-scene", noroad), Case("turned", turned), Case("far", far, dict(routed=False)), Case("far-routed", far, dict(routed=True)), Case("routed", routed, dict(agents=1)), Case("routed-agents", routed, dict(agents=2)),
           Case("observer-wider", observer, dict(which="wider")), Case("observer-narrower", observer, dict(which="narrower"))]
    if tier == "thorough":
        cs += [Case("three-speeds", grid, dict(lanes=1, nxt=2, others=1, speeds=3, q=1, cells=3), cost=9),
               Case("window-3-lanes-3-speeds", window, dict(lanes=3, speeds=3, q=0.5, cells=3), cost=9),
               Case("distance-speed", grid, dict(lanes=1, nxt=None, others=1, speeds=1, q=1, cells=2, free=("d", "v")), cost=9),
               Case("distance-heading", grid, dict(lanes=1, nxt=None, others=1, speeds=1, q=1, cells=2, free=("d", "h")), cost=9),
               Case("two-vehicles-2", grid, dict(lanes=2, nxt=None, others=2, speeds=2, q=1, cells=2), cost=9)]
    return cs
