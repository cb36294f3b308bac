"""Vehicles with uncertain parameters: the reported intervals enclose every vehicle they stand for."""
import itertools
import math

import numpy as np

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("straight lanes in four directions; any position box within 50 m, speed interval in [0.5,40], heading intervals from a list covering every quadrant boundary; parameters at the corners of their box (the motion is linear in "
          "them), any member of the intervals, a leader of known state at any distance in [-20,100] and speed in [0,40] or none; one step of 1/15 s, perturbations up to the stated noise; "
          "agents of any position within 15 m; boundary observer for all four ratios")

DT = 1 / 15.
EAST, WEST, NORTH, SLANT = (1., 0.), (-1., 0.), (0., -1.), (0.6, 0.8)


def setting(ctx, direction, leader=False, lanes=1):
    from highway_env.road.lane import StraightLane
    from highway_env.road.road import RoadNetwork
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    net = RoadNetwork()
    n = (-direction[1], direction[0])
    for i in range(lanes):
        a = [-500. * direction[0] + 4. * i * n[0], -500. * direction[1] + 4. * i * n[1]]
        net.add_lane("0", "1", StraightLane(a, [a[0] + 1000. * direction[0], a[1] + 1000. * direction[1]]))
    rd = common.road(net)
    heading = math.atan2(direction[1], direction[0])
    v = common.vehicle(IntervalVehicle, rd, [0., 0.], heading, 20., ("0", "1", 0), timer=0.5, target_speed=25.)
    v.previous_target_lane_index = v.target_lane_index
    rd.vehicles = [v]
    w = None
    if leader:
        w = common.vehicle(Vehicle, rd, [0., 0.], heading, 20., ("0", "1", 0))
        w.timer = 0.5
        rd.vehicles.append(w)
    return rd, v, w, heading


def interval(ctx, name, lo, hi):
    a, x, b = ctx.real(name + "0", lo, hi), ctx.real(name, lo, hi), ctx.real(name + "1", lo, hi)
    ctx.assume(m.And(a <= x, x <= b))
    return a, x, b


def reach(f, lo, hi):
    """The range of cosine or sine over an interval of angles."""
    ks = [k * math.pi / 2 for k in range(-10, 11) if lo <= k * math.pi / 2 <= hi]
    vals = [f(lo), f(hi)] + [round(f(k)) for k in ks]
    return min(vals), max(vals)


def observer(ctx, direction, psi, leader, corner):
    rd, v, w, heading = setting(ctx, direction, leader)
    x0, x, x1 = interval(ctx, "x", -50, 50)
    y0, y, y1 = interval(ctx, "y", -50, 50)
    s0, s, s1 = interval(ctx, "v", 0.5, 40)
    h = ctx.real("h", *psi) if psi[0] < psi[1] else psi[0]
    o = v.interval
    o.position, o.speed, o.heading = m.arr([[x0, y0], [x1, y1]]), m.arr([s0, s1]), m.arr(list(psi))
    th_a = [float(v.theta_a_i[c][k]) for k, c in enumerate(corner[:3])]
    th_b = [float(v.theta_b_i[c][k]) for k, c in enumerate(corner[3:])]
    phi = [25. - s, 0., 0.]
    if leader:
        gap, other = ctx.real("gap", -20, 100), ctx.real("other", 0, 40)
        w.position = m.arr([gap * direction[0], gap * direction[1]])
        w.speed = other
        v.road.neighbour_vehicles = lambda vehicle, lane_index=None: (w, None)
        d = (w.position[0] - x) * direction[0] + (w.position[1] - y) * direction[1]
        phi = [25. - s, m.mn(other - s, 0), m.mn(d - (v.DISTANCE_WANTED + v.TIME_WANTED * s), 0)]
    a = m.clip(sum(p * q for p, q in zip(th_a, phi)), -v.ACC_MAX, v.ACC_MAX)
    lat = -direction[1] * x + direction[0] * y
    turn = th_b[0] * common.wrap(heading - h) - th_b[1] * lat / s
    c = ctx.real("cos", -1, 1)
    sn = ctx.real("sin", -1, 1)
    (c0, c1), (n0, n1) = reach(math.cos, *psi), reach(math.sin, *psi)
    ctx.assume(m.And(c0 <= c, c <= c1, n0 <= sn, sn <= n1))
    noise = [ctx.real("noise %d" % k, -1, 1) for k in range(3)]
    v.observer_step(DT)
    o = v.interval
    inside = lambda name, i, q: ctx.check(name, m.And(i[0] <= q + 1e-6, q - 1e-6 <= i[1]))
    inside("speed", o.speed, s + DT * a)
    inside("heading", o.heading, h + DT * (turn + noise[0]))
    inside("x", o.position[:, 0], x + DT * (s * c + noise[1]))
    inside("y", o.position[:, 1], y + DT * (s * sn + noise[2]))


def known(ctx):
    """Before anything happens the state is known; the model itself moves like any linear vehicle."""
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    rd, v, w, heading = setting(ctx, EAST)
    x, y, s = ctx.real("x", -50, 50), ctx.real("y", -1.5, 1.5), ctx.real("v", 5, 30)
    h = ctx.real("h", -0.1, 0.1)
    base = common.vehicle(LinearVehicle, rd, [x, y], h, 20., ("0", "1", 0), timer=0.5, target_speed=25.)
    base.speed = s
    rd.network.get_closest_lane_index = lambda p, heading=None: ("0", "1", 0)
    v = IntervalVehicle.create_from(base)
    for k, i in enumerate((x, y)):
        for e in (0, 1):
            ctx.eq("position", v.interval.position[e][k], i)
    for e in (0, 1):
        ctx.eq("speed", v.interval.speed[e], s)
        ctx.eq("heading", v.interval.heading[e], h)
    ctx.check("prior parameters", v.theta_a_i is not None and np.array_equal(v.theta_a_i, LinearVehicle.ACCELERATION_RANGE) and np.array_equal(v.theta_b_i, LinearVehicle.STEERING_RANGE))
    acc, steer = ctx.real("acceleration", -3, 3), ctx.choose("steer", [0., 0.05])
    for u in (v, base):
        u.action = {"acceleration": acc, "steering": steer}
    v.crashed = base.crashed = ctx.choose("crashed", [False, True])
    if v.crashed and ctx.choose("uncertain", [False, True]):
        # what was not known before the accident is known now
        v.interval.position = m.arr([[x - 1., y - 1.], [x + 2., y + 1.]])
        v.interval.speed = m.arr([s - 1., s + 2.])
    lo = [v.interval.position[0][0], v.interval.speed[0]]
    v.step(DT, mode=ctx.choose("mode", ["partial", "predictor"]))
    base.step(DT)
    ctx.eq("model x", v.position[0], base.position[0])
    ctx.eq("model y", v.position[1], base.position[1])
    ctx.eq("model speed", v.speed, base.speed)
    ctx.eq("model heading", v.heading, base.heading)
    ctx.check("one more trajectory point", len(v.trajectory) == 1 and len(v.interval_trajectory) == 1)
    ctx.eq("trajectory holds the state before", v.trajectory[0].position[0], x)
    ctx.eq("interval trajectory holds the interval before", v.interval_trajectory[0].position[0][0], lo[0])
    ctx.eq("interval trajectory holds the interval before", v.interval_trajectory[0].speed[0], lo[1])
    if v.crashed:
        for e in (0, 1):
            ctx.eq("a crashed vehicle is where it was", v.interval.position[e][0], x)
            ctx.eq("a crashed vehicle is as fast as it was", v.interval.speed[e], s)


def decides(ctx, kind, origin):
    """Decisions and records are those of the linear vehicle, with or without earlier observations."""
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.controller import ControlledVehicle
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.uncertainty import estimation, prediction
    cls = prediction.IntervalVehicle if kind == "interval" else estimation.RegressionVehicle
    rd = common.road(common.straight_net(2, 1000.))
    rd.network.get_closest_lane_index = lambda p, heading=None: ("0", "1", 0)
    x, y, s, t = ctx.real("x", 0, 100), ctx.real("y", -1.5, 1.5), ctx.real("v", 1, 40), ctx.real("t", 0, 40)

    def make(c):
        if origin == "new" or c is LinearVehicle:
            v = common.vehicle(c, rd, [x, y], 0., s, ("0", "1", 0), timer=0.5)
            v.target_speed = t
        else:
            w = common.vehicle(ControlledVehicle, rd, [x, y], 0., s, ("0", "1", 0), target_speed=20.)
            w.target_speed = t
            v = c.create_from(w)
            v.timer = 0.5
        v.enable_lane_change = False
        return v
    v, u = make(cls), make(LinearVehicle)
    gap = ctx.real("gap", 1, 100)
    w = common.vehicle(Vehicle, rd, [x + gap, 0.], 0., ctx.real("w", 0, 40), ("0", "1", 0))
    for k in range(2):
        for c in (v, u):
            rd.vehicles = [c, w]
            c.act()
    for k in ("acceleration", "steering"):
        ctx.eq(k, v.action[k], u.action[k])
    for k in ("longitudinal", "lateral"):
        ctx.check("two samples", [len(v.data[k][q]) for q in ("features", "outputs")] == [2, 2])
        for e in (0, 1):
            ctx.eq("sample", v.data[k]["outputs"][e], u.data[k]["outputs"][e])
            for a, b in zip(v.data[k]["features"][e], u.data[k]["features"][e]):
                ctx.eq("feature", a, b)


def boundary(ctx, alpha, psi):
    """The boundary observer is the full observer run on the two boundary parts."""
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    rd, v, w, heading = setting(ctx, EAST)
    rd.network.get_closest_lane_index = lambda p, heading=None: ("0", "1", 0)
    v.crashed = False
    x0, x, x1 = interval(ctx, "x", -50, 50)
    y0, y, y1 = interval(ctx, "y", -3, 3)
    s0, s, s1 = interval(ctx, "v", 5, 40)
    lo, hi = [x0, y0, s0, psi[0]], [x1, y1, s1, psi[1]]

    def load(u, a, b):
        u.interval.position, u.interval.speed, u.interval.heading = m.arr([a[:2], b[:2]]), m.arr([a[2], b[2]]), m.arr([a[3], b[3]])

    load(v, lo, hi)
    parts = []
    for a, b in ((lo, [(1 - alpha) * p + alpha * q for p, q in zip(lo, hi)]), ([alpha * p + (1 - alpha) * q for p, q in zip(lo, hi)], hi)):
        u = IntervalVehicle.create_from(v)
        load(u, a, b)
        rd.vehicles = [u]
        u.observer_step(DT)
        parts.append(u.interval)
    rd.vehicles = [v]
    if alpha == 0:
        v.partial_observer_step(DT)
    else:
        v.partial_observer_step(DT, alpha)
    o, (p, q) = v.interval, parts
    for k in (0, 1):
        ctx.eq("lower position", o.position[0][k], p.position[0][k])
        ctx.eq("upper position", o.position[1][k], q.position[1][k])
    ctx.eq("lower speed", o.speed[0], p.speed[0])
    ctx.eq("upper speed", o.speed[1], q.speed[1])
    ctx.eq("lower heading", o.heading[0], m.mn(p.heading[0], q.heading[0]))
    ctx.eq("upper heading", o.heading[1], m.mx(p.heading[1], q.heading[1]))
    ctx.check("the road is left alone", rd.vehicles == [v] and v.road is rd)


def collision(ctx, kind, flags):
    """An agent collides with the uncertainty set: with the vehicle of the set closest to it."""
    from highway_env import utils
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.kinematics import Vehicle
    rd, v, w, heading = setting(ctx, EAST)
    rd.network.get_closest_lane_index = lambda p, heading=None: ("0", "1", 0)
    x0, x, x1 = interval(ctx, "x", -5, 5)
    y0, y, y1 = interval(ctx, "y", -5, 5)
    v.position = m.arr([x, y])
    v.heading = 0.
    v.interval.position = m.arr([[x0, y0], [x1, y1]])
    px, py = ctx.real("px", -15, 15), ctx.real("py", -15, 15)
    u = common.vehicle(dict(agent=MDPVehicle, other=Vehicle)[kind], rd, [px, py], 0., 20., ("0", "1", 0))
    v.speed, u.speed = ctx.real("speed", 0, 40), ctx.real("agent's speed", 0, 40)
    was = v.speed, u.speed
    v.crashed = "crashed" in flags
    v.COLLISIONS_ENABLED = "disabled" not in flags
    self = "self" in flags
    (half, side) = (5. / 2 + 4.5 / 2, 2. / 2 + 1.8 / 2) if kind == "agent" else (4.5, 1.8)
    if kind == "agent":
        # aligned footprints: some position of the set touches the agent
        dx, dy = m.mx(x0 - px, px - x1, 0), m.mx(y0 - py, py - y1, 0)
    else:
        dx, dy = m.absv(px - x), m.absv(py - y)
        ctx.assume(m.absv(dx * dx + dy * dy - 25.) > 1e-3)
    for e in (dx - half, dy - side):
        ctx.assume(m.absv(e) > 1e-3)
    hit = m.And(dx < half, dy < side)
    if kind == "other":
        hit = m.And(hit, dx * dx + dy * dy < 25.)
    v.check_collision(v if self else u)
    if flags:
        ctx.check("nothing happens", v.crashed == ("crashed" in flags) and not u.crashed)
        ctx.eq("speed kept", v.speed, was[0])
        return
    crashed = v.crashed
    ctx.check("both or none", bool(v.crashed) == bool(u.crashed))
    ctx.check("worst case", m.iff(crashed, hit))
    ctx.eq("speed", v.speed, m.mn(*was) if crashed else was[0])
    ctx.eq("agent's speed", u.speed, m.mn(*was) if crashed else was[1])


def followed(ctx, lanes, lane):
    rd, v, w, heading = setting(ctx, EAST, lanes=lanes)
    v.position = m.arr([ctx.real("x", -600, 600), ctx.real("y", -10, 10)])
    v.target_lane_index = ("0", "1", lane)
    forbidden = ctx.choose("forbidden", [False, True])
    right = ("0", "1", lane + 1) if lane + 1 < lanes else None
    if right and forbidden:
        rd.network.get_lane(right).forbidden = True
    reachable = None
    if right:
        l = rd.network.get_lane(right)
        lon, lat = l.local_coordinates(v.position)
        for e in (lon - 1000., lon - 1005., lon + 5., m.absv(lat) - 2. * l.width_at(0)):
            ctx.assume(m.absv(e) > 1e-3)
        reachable = l.is_reachable_from(v.position)
    ctx.check("model", v.get_followed_lanes() == [v.target_lane_index] == v.get_followed_lanes("model"))
    got = v.get_followed_lanes("all")
    ctx.check("all", sorted(got) == sorted([("0", "1", i) for i in (lane - 1, lane, lane + 1) if 0 <= i < lanes]))
    got = v.get_followed_lanes("right")
    ctx.check("right", got == [v.target_lane_index] + ([right] if right and bool(reachable) else []))
    got = v.get_followed_lanes("right", squeeze=False)
    ctx.check("right, always two", got == [v.target_lane_index, right if right and bool(reachable) else v.target_lane_index])


def predictor(ctx, direction, leader, corner):
    """From a known state: the linear model in the coordinates of the lane, for all parameters and perturbations."""
    rd, v, w, heading = setting(ctx, direction, leader)
    lon, lat = ctx.real("lon", -50, 50), ctx.real("lat", -3, 3)
    s, h = ctx.real("v", 0.5, 40), ctx.real("h", -0.5, 0.5)
    turn = 2 * math.pi * ctx.choose("turns", [0, 1, -1])
    u, n = direction, (-direction[1], direction[0])
    pos = [lon * u[0] + lat * n[0], lon * u[1] + lat * n[1]]
    o = v.interval
    v.position, v.speed, v.heading = m.arr(pos), s, heading + h + turn
    o.position, o.speed, o.heading = m.arr([pos, pos]), m.arr([s, s]), m.arr([heading + h + turn, heading + h + turn])
    phi = [25. - s, 0., 0.]
    if leader:
        gap, other = ctx.real("gap", 6, 100), ctx.real("other", 0, 40)
        w.position = m.arr([(lon + gap) * u[0], (lon + gap) * u[1]])
        w.speed = other
        rd.network.get_closest_lane_index = lambda p, heading=None: ("0", "1", 0)
        d = gap
        safe = v.DISTANCE_WANTED + v.TIME_WANTED * s
        ctx.assume(m.And(m.absv(s - other) > 1e-3, m.absv(d - safe) > 1e-3))
        phi = [25. - s, m.mn(other - s, 0), m.mn(d - safe, 0)]
    th_a = [float(v.theta_a_i[c][k]) for k, c in enumerate(corner[:3])]
    th_b = [float(v.theta_b_i[c][k]) for k, c in enumerate(corner[3:])]
    a = sum(p * q for p, q in zip(th_a, phi))
    v.predictor_step(DT)
    o = v.interval
    lon2 = lon + DT * (s + ctx.real("noise 0", -1, 1))
    lat2 = lat + DT * (h + ctx.real("noise 1", -0.5, 0.5))
    inside = lambda name, i, q: ctx.check(name, m.And(i[0] <= q + 1e-6, q - 1e-6 <= i[1]))
    inside("speed", o.speed, s + DT * a)
    goal = heading + h + DT * (-th_b[0] * h - th_b[1] * lat)
    ctx.check("heading", m.Or(*[m.And(o.heading[0] <= goal + k * 2 * math.pi + 1e-6, goal + k * 2 * math.pi - 1e-6 <= o.heading[1]) for k in (0, 1, -1)]))
    for k in (0, 1):
        inside("xy"[k], o.position[:, k], lon2 * u[k] + lat2 * n[k])


def recentred(ctx, direction):
    """When the model changes its target to a parallel lane, nothing has moved yet."""
    rd, v, w, heading = setting(ctx, direction, lanes=2)
    lon, lat = ctx.real("lon", -50, 50), ctx.real("lat", -3, 3)
    s, h = ctx.real("v", 5, 40), ctx.real("h", -0.5, 0.5)
    u, n = direction, (-direction[1], direction[0])
    pos = [lon * u[0] + lat * n[0], lon * u[1] + lat * n[1]]
    o = v.interval
    v.position, v.speed, v.heading = m.arr(pos), s, heading + h
    o.position, o.speed, o.heading = m.arr([pos, pos]), m.arr([s, s]), m.arr([heading + h, heading + h])
    v.predictor_step(DT)
    old = [[o.position[e][k] for k in (0, 1)] for e in (0, 1)], [o.heading[e] for e in (0, 1)], [o.speed[e] for e in (0, 1)]
    v.target_lane_index = ("0", "1", 1)
    v.predictor_step(0.)
    for k in (0, 1):
        ctx.eq("centre", o.position[0][k] + o.position[1][k], old[0][0][k] + old[0][1][k])
    ctx.eq("heading", o.heading[0] + o.heading[1], old[1][0] + old[1][1])
    ctx.eq("speed", o.speed[0] + o.speed[1], old[2][0] + old[2][1])
    ctx.check("remembered", v.previous_target_lane_index == ("0", "1", 1))


def cases(tier):
    big = tier == "thorough"
    cs = []
    corners = list(itertools.product([0, 1], repeat=5))
    some = [(0, 0, 0, 0, 0), (1, 1, 1, 1, 1), (0, 1, 0, 0, 1), (1, 0, 1, 1, 0)]
    psis = [(EAST, (-0.2, 0.3)), (EAST, (0.1, 0.4)), (WEST, (3., 3.4)), (WEST, (-3.3, -3.)), (NORTH, (-1.8, -1.4)), (SLANT, (1.4, 1.8)), (NORTH, (4.5, 4.9)), (EAST, (6.1, 6.5)), (SLANT, (-5., -4.5)), (EAST, (0.5, 0.5)), (WEST, (-0.4, 2.)), (EAST, (-1., 6.)), (NORTH, (9.3, 9.5))]
    for k, (d, p) in enumerate(psis):
        for leader in (False, True):
            for c in corners if big and k < 2 else some if k < 2 else some[:2]:
                if leader and k > 2 and not big:
                    continue
                cs.append(Case("observer-%d-%s-%s" % (k, "leader" if leader else "free", "".join(map(str, c))), observer, dict(direction=d, psi=p, leader=leader, corner=c), cost=3))
    cs.append(Case("known", known, {}))
    cs += [Case("decides-%s-%s" % (k, o), decides, dict(kind=k, origin=o)) for k in ("interval", "regression") for o in ("new", "controlled")]
    for a in (0, 0.25, 0.5, 1.):
        cs.append(Case("boundary-%s" % a, boundary, dict(alpha=a, psi=(-0.2, 0.1)), cost=2))
    for kind in ("agent", "other"):
        for flags in ((), ("crashed",), ("disabled",), ("self",)):
            cs.append(Case("collision-%s-%s" % (kind, "".join(flags) or "free"), collision, dict(kind=kind, flags=flags), cost=2))
    for lanes, lane in ((1, 0), (2, 0), (3, 1), (3, 2)):
        cs.append(Case("followed-%d-%d" % (lanes, lane), followed, dict(lanes=lanes, lane=lane)))
    for k, d in enumerate((EAST, WEST, NORTH, SLANT)):
        for leader in (False, True):
            for c in (corners if big else some) if k == 0 else some[:2]:
                cs.append(Case("predictor-%d-%s-%s" % (k, "leader" if leader else "free", "".join(map(str, c))), predictor, dict(direction=d, leader=leader, corner=c), cost=2))
        cs.append(Case("recentred-%d" % k, recentred, dict(direction=d)))
    return cs
