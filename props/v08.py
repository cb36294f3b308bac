"""Car following: traffic vehicles follow the intelligent driver model, within their acceleration limits."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("ego at any speed in [-10,40] with any target speed in [-40,40] (or none), a leader at any distance in [0.02,300] (or "
          "overlapping in [-0.009,0.009] or behind), at any speed in [-10,40] and heading, or a stationary object; lanes of any heading; a vehicle on a crossing lane reasoned about by another; in act(): two other "
          "vehicles anywhere on a three-lane road (thorough: three)")

SQ = 2 * math.sqrt(15.)


def cls():
    from highway_env.vehicle.behavior import IDMVehicle
    return IDMVehicle


def not_zero(x):
    return m.ite(m.absv(x) > 0.01, x, m.ite(x > 0, 0.01, -0.01))


def free(v, t, amax=3.):
    u = m.mx(v, 0) / not_zero(t)
    return amax * (1 - u * u * u * u)


def gap(v, dv, d0=10., tau=1.5, sq=SQ):
    return d0 + tau * v + v * dv / sq


def pair(ctx, ha=None, hb=None, d=None, front="vehicle"):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle
    net = common.straight_net(1, 1000.)
    rd = common.road(net)
    v, t = ctx.real("v", -10, 40), ctx.real("t", -40, 40)
    ha = ctx.angle("ha") if ha is None else ha
    hb = ctx.angle("hb") if hb is None else hb
    a = common.vehicle(cls(), rd, [100., 0.], ha, v, ("0", "1", 0), timer=0.5)
    a.target_speed = t
    d = ctx.real("d", 0.02, 300) if d is None else d
    w = ctx.real("w", -10, 40)
    if front == "vehicle":
        b = common.vehicle(Vehicle, rd, [100. + d, 1.], hb, w, ("0", "1", 0))
    else:
        b = Obstacle(rd, m.arr([100. + d, 1.]))
        w = 0.
    # what a crash changes is the command, not the model
    a.crashed, b.crashed = [(False, False), (True, False), (False, True)][ctx.choose("crashed", range(3))]
    return a, b, v, t, ha, w, hb, d


def no_leader(ctx):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle
    a, b, v, t, ha, w, hb, d = pair(ctx)
    got = a.acceleration(ego_vehicle=a)
    ctx.eq("free road", got, free(v, t))
    if t > 0.02:
        ctx.check("accelerates below the target speed", m.Implies(v < t, got > 0))
        ctx.check("brakes above it", m.Implies(v > t, got < 0))
    ctx.eq("stopped when the target is zero", m.ite(m.And(t == 0, v > 0.02), got, -1.) < 0, True)
    ctx.eq("the follower does not matter", a.acceleration(a, None, b), got)
    ctx.eq("nobody", a.acceleration(None, a), 0)
    ctx.eq("an object does not move", a.acceleration(Obstacle(None, [0., 0.]), a), 0)
    # a vehicle without target speed: as if it wanted to stop
    ctx.eq("no target", a.acceleration(b), free(w, 0.), margin=1.)


def leader(ctx, front, aligned):
    """The interaction term."""
    z = 0. if aligned else None
    a, b, v, t, ha, w, hb, d = pair(ctx, ha=z, hb=z, front=front)
    got = a.acceleration(ego_vehicle=a, front_vehicle=b)
    if aligned:
        dv = v - w
    else:
        cd = m.cos(ha) * m.cos(hb) + m.sin(ha) * m.sin(hb) if front == "vehicle" else 0.
        dv = v - w * cd
    g = gap(v, dv)
    ctx.eq("model", got, free(v, t) - 3. * g * g / (d * d))
    if aligned:
        ctx.le("a leader never speeds up its follower", got, free(v, t))
    ctx.eq("gap", a.desired_gap(a, b), g)
    ctx.eq("gap from the speeds", a.desired_gap(a, b, projected=False), gap(v, v - w))


def third(ctx):
    """A vehicle's reasoning about another one: along the lane of that vehicle, with its speeds, and with the parameters of the one who reasons."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.lane import StraightLane
    net = common.straight_net(1, 1000.)
    net.add_lane("8", "9", StraightLane([500., -400.], [500., 600.], 4.))
    rd = common.road(net)
    me = common.vehicle(cls(), rd, [ctx.real("xm", 0, 900), 0.], 0., ctx.real("vm", 0, 40), ("0", "1", 0), timer=0.5)
    me.target_speed = 20.
    v, t, w = ctx.real("v", -10, 40), ctx.real("t", 1, 40), ctx.real("w", -10, 40)
    ego = common.vehicle(cls(), rd, [500., 0.], 0., v, ("8", "9", 0), timer=0.5)
    ego.heading = ctx.choose("heading", [math.pi / 2, 0.])
    ego.target_speed = t
    d = ctx.real("d", 0.02, 300)
    front = common.vehicle(Vehicle, rd, [500. + ctx.real("e", -3, 3), d], ego.heading, w, ("8", "9", 0))
    amax, d0, tau, sq = 3., 10., 1.5, SQ
    own = ctx.choose("own parameters", ["none", "spacing", "comfort"])
    if own == "spacing":
        me.DISTANCE_WANTED, me.TIME_WANTED = d0, tau = ctx.real("d0", 1, 20), ctx.real("tau", 0, 3)
        ego.DISTANCE_WANTED, ego.TIME_WANTED = 3., 0.25
    elif own == "comfort":
        me.COMFORT_ACC_MAX, me.COMFORT_ACC_MIN = amax, _ = 1.5, -4.
        ego.COMFORT_ACC_MAX, ego.COMFORT_ACC_MIN = 2., -6.
        sq = 2 * math.sqrt(6.)
    g = gap(v, v - w, d0, tau, sq)
    ctx.eq("model", me.acceleration(ego, front), free(v, t, amax) - amax * g * g / (d * d), margin=1e-3)
    ctx.eq("gap", me.desired_gap(ego, front), g)
    ctx.eq("free road", me.acceleration(ego), free(v, t, amax))


def signs(ctx, which):
    """Behind (negative distance) and overlapping leaders."""
    d = ctx.real("d", -0.009, 0.009) if which == "overlap" else ctx.real("d", -300, -0.02)
    a, b, v, t, ha, w, hb, d = pair(ctx, ha=0., hb=0., d=d)
    got = a.acceleration(a, b)
    g = gap(v, v - w)
    q = 0.01 if which == "overlap" else d
    ctx.eq("model", got, free(v, t) - 3. * g * g / (q * q), margin=1e-2)


def monotone(ctx):
    """Closer or slower leaders never make a vehicle accelerate more."""
    from highway_env.vehicle.kinematics import Vehicle
    a, b, v, t, ha, w, hb, d = pair(ctx, ha=0., hb=0.)
    ctx.assume(m.And(v >= 0, w >= 0, v >= w))
    e, u = ctx.real("closer", 0, 100), ctx.real("slower", 0, 10)
    near = ctx.choose("what", ["closer", "slower"]) == "closer"
    if near:
        ctx.assume(d - e >= 0.02)
        c = common.vehicle(Vehicle, a.road, [100. + d - e, 1.], 0., w, ("0", "1", 0))
    else:
        ctx.assume(w - u >= 0)
        c = common.vehicle(Vehicle, a.road, [100. + d, 1.], 0., w - u, ("0", "1", 0))
    ctx.le("monotone", a.acceleration(a, c), a.acceleration(a, b))


def behave(ctx, n):
    """The executed command: the model applied to the actual leader, limited; and steering within its limits."""
    from highway_env.vehicle.kinematics import Vehicle
    net = common.straight_net(2, 1000.)
    rd = common.road(net)
    v, t = ctx.real("v", 0, 40), ctx.real("t", 1, 40)
    a = common.vehicle(cls(), rd, [100., 0.], 0., v, ("0", "1", 0), timer=0.5)
    a.target_speed = t
    # whatever lane it heads for, before and after the decision about lanes
    a.target_lane_index, goal = ("0", "1", ctx.choose("target", [0, 1])), ("0", "1", ctx.choose("goal", [0, 1]))
    a.enable_lane_change = goal != a.target_lane_index
    a.change_lane_policy = lambda: setattr(a, "target_lane_index", goal)
    others = []
    for i in range(n):
        x = ctx.real("x%d" % i, 20, 200)
        y = ctx.choose("y%d" % i, [0., 4.])
        w = ctx.real("w%d" % i, 0, 40)
        others.append((x, y, w))
        ctx.assume(m.absv(x - 100) > 0.5)
        rd.vehicles.append(common.vehicle(Vehicle, rd, [x, y], 0., w, ("0", "1", 0)))
    for i in range(n):
        for j in range(i):
            ctx.assume(m.absv(others[i][0] - others[j][0]) > 0.5)
    rd.vehicles.insert(ctx.choose("rank", [0, n]), a)
    steer = ctx.real("steer", -1.04, 1.04)
    asked = []
    a.steering_control = lambda index: (asked.append(index), steer)[1]
    a.act()
    ctx.check("steers to its target lane", asked == [goal] and a.target_lane_index == goal)
    # leader: the nearest one ahead on the own lane
    want = free(v, t)
    lead = None
    for x, y, w in others:
        if y == 0. and x > 100 and (lead is None or x < lead[0]):
            lead = (x, w)
    if lead is not None:
        g = gap(v, v - lead[1])
        q = g / (lead[0] - 100)
        want = want - 3. * q * q
    ctx.eq("acceleration", a.action["acceleration"], m.clip(want, -6, 6))
    ctx.eq("steering", a.action["steering"], steer)
    ctx.eq("speed", a.speed, v)


def limits(ctx):
    """Whatever the model asks, the command stays within the limits; crashed vehicles decide nothing."""
    net = common.straight_net(1, 1000.)
    rd = common.road(net)
    raw, steer = ctx.real("raw", -1000, 1000), ctx.real("steer", -1.047, 1.047)
    a = common.vehicle(cls(), rd, [100., 0.], 0., 10., ("0", "1", 0), timer=0.5)
    rd.vehicles.append(a)
    a.acceleration = lambda ego_vehicle=None, front_vehicle=None, rear_vehicle=None: raw
    a.steering_control = lambda index: steer
    a.crashed = ctx.choose("crashed", [False, True])
    limit = a.ACC_MAX = ctx.choose("limit", [6., 4.])      # its own
    before = dict(a.action)
    a.act(ctx.choose("action", [None, "FASTER"]))
    if a.crashed:
        ctx.check("no decision after a crash", a.action == before)
    else:
        ctx.eq("acceleration limited", a.action["acceleration"], m.clip(raw, -limit, limit))
        ctx.eq("steering", a.action["steering"], steer)


def cases(tier):
    cs = [Case("no-leader", no_leader)]
    for f in ("vehicle", "object"):
        cs += [Case("leader-%s" % f, leader, dict(front=f, aligned=False)), Case("leader-aligned-%s" % f, leader, dict(front=f, aligned=True))]
    cs += [Case("overlap", signs, dict(which="overlap")), Case("behind", signs, dict(which="behind")), Case("monotone", monotone, cost=3), Case("third-party", third),
           Case("act-1", behave, dict(n=1), cost=2), Case("act-2", behave, dict(n=2), cost=4), Case("limits", limits)]
    if tier == "thorough":
        cs.append(Case("act-3", behave, dict(n=3), cost=9, max_paths=20000))
    return cs
