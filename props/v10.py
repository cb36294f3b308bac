"""Linear traffic: accelerations and steering are the stated features weighted by the vehicle's parameters."""
import math

from symx.engine import Case
from symx import m
from . import common
from .v05 import FreeLane

BOUNDS = ("any parameters (3 for acceleration in [-5,5], 2 for steering in [-30,30]); ego speed in [-10,40], target in [-40,40], leader or follower "
          "of any speed and heading at any distance in [-300,300] (or an object, or absent); lane coordinates in [-1000,1000]x[-50,50], any headings, speeds in "
          "[0.02,40] or [-40,-0.02]; randomised parameters for every draw")


def base():
    from highway_env.vehicle.behavior import LinearVehicle
    return LinearVehicle


def features(v, t, front, front_d):
    """front: speed or None"""
    vt, dv, dp = t - v, 0., 0.
    if front is not None:
        dv = m.mn(front - v, 0)
        dp = m.mn(front_d - (10. + 2.5 * m.mx(v, 0)), 0)
    return [vt, dv, dp]


def acceleration(ctx, front, rear):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle
    ps = [ctx.real("p%d" % i, -5, 5) for i in range(3)]
    rd = common.road(common.straight_net(1, 1000.))
    v, t, w, d = ctx.real("v", -10, 40), ctx.real("t", -40, 40), ctx.real("w", -10, 40), ctx.real("d", -300, 300)
    a = common.vehicle(base(), rd, [100., 0.], 0., v, ("0", "1", 0), timer=0.5)
    a.ACCELERATION_PARAMETERS = ps
    a.target_speed = t
    kind = ctx.choose("kind", ["ahead", "askew", "obstacle"]) if front else ""
    f = None
    if kind == "obstacle":
        f, w = Obstacle(rd, m.arr([100. + d, 0.])), 0.
    elif front:
        # however it is headed: its speed counts
        f = common.vehicle(Vehicle, rd, [100. + d, 0.], ctx.angle("h") if kind == "askew" else 0., w, ("0", "1", 0))
    r = common.vehicle(Vehicle, rd, [50., 0.], 0., ctx.real("u", 0, 40), ("0", "1", 0)) if rear else None
    want = features(v, t, w if front else None, d)
    got = a.acceleration_features(a, f, r)
    for k in range(3):
        ctx.eq("feature %d" % k, got[k], want[k])
    ctx.eq("weighted sum", a.acceleration(a, f, r), ps[0] * want[0] + ps[1] * want[1] + ps[2] * want[2])
    ctx.eq("nobody", a.acceleration(None, f, r), 0)


def others(ctx):
    """Judging vehicles without target speed, and obstacles."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle
    rd = common.road(common.straight_net(1, 1000.))
    v, w = ctx.real("v", -10, 40), ctx.real("w", -10, 40)
    a = common.vehicle(base(), rd, [100., 0.], 0., v, ("0", "1", 0), timer=0.5)
    p = a.ACCELERATION_PARAMETERS
    o = Obstacle(rd, [90., 0.])
    ctx.eq("an obstacle does not move", a.acceleration(o, a), 0)
    b = common.vehicle(Vehicle, rd, [80., 0.], 0., w, ("0", "1", 0))
    f = features(w, 0., v, 20.)
    ctx.eq("a vehicle without target speed wants to stop", a.acceleration(b, a), p[0] * f[0] + p[1] * f[1] + p[2] * f[2])


def third(ctx):
    """Another vehicle's acceleration: along the lane of that vehicle, with the parameters of the one who reasons."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.lane import StraightLane
    net = common.straight_net(1, 1000.)
    net.add_lane("8", "9", StraightLane([500., -400.], [500., 600.], 4.))
    rd = common.road(net)
    me = common.vehicle(base(), rd, [ctx.real("xm", 0, 900), 0.], 0., ctx.real("vm", 0, 40), ("0", "1", 0), timer=0.5)
    v, t, w = ctx.real("v", -10, 40), ctx.real("t", -40, 40), ctx.real("w", -10, 40)
    ego = common.vehicle(base(), rd, [500., 0.], math.pi / 2, v, ("8", "9", 0), timer=0.5)
    ego.target_speed = t
    d = ctx.real("d", -300, 300)
    front = common.vehicle(Vehicle, rd, [500. + ctx.real("e", -3, 3), d], math.pi / 2, w, ("8", "9", 0))
    me.ACCELERATION_PARAMETERS = ps = [ctx.real("p%d" % i, -5, 5) for i in range(3)]
    want = features(v, t, w, d)
    for k, x in enumerate(me.acceleration_features(ego, front)):
        ctx.eq("feature %d" % k, x, want[k])
    ctx.eq("weighted sum", me.acceleration(ego, front), ps[0] * want[0] + ps[1] * want[1] + ps[2] * want[2])


def steering(ctx, sign):
    from highway_env.road.road import RoadNetwork
    lo, hi = (0.02, 40.) if sign > 0 else (-40., -0.02)
    s, r = ctx.real("s", -1000, 1000), ctx.real("r", -50, 50)
    hl, h, v = ctx.angle("hl"), ctx.angle("h", -7, 7), ctx.real("v", lo, hi)
    lane = FreeLane(s, r, hl)
    net = RoadNetwork()
    net.add_lane("a", "b", lane)
    net.add_lane("a", "c", FreeLane(3., 1., 0.5))
    q = [ctx.real("q%d" % i, -30, 30) for i in range(2)]
    a = common.vehicle(base(), common.road(net), [0., 0.], h, v, ("a", ctx.choose("on", ["b", "c"]), 0), timer=0.5)
    a.STEERING_PARAMETERS = q
    f = [common.wrap(hl - h) * 5. / v, -r * 5. / v / v]
    got = a.steering_features(("a", "b", 0))
    ctx.eq("heading feature", got[0], f[0])
    ctx.eq("lateral feature", got[1], f[1])
    ctx.eq("a pursuit time ahead", lane.asked[-1], s + 0.1 * v)
    ctx.eq("weighted sum", a.steering_control(("a", "b", 0)), q[0] * f[0] + q[1] * f[1])


def equilibrium(ctx):
    """At the target speed with a leader that is faster and far enough, nothing is asked."""
    from highway_env.vehicle.kinematics import Vehicle
    rd = common.road(common.straight_net(1, 1000.))
    v, w, d = ctx.real("v", 0, 40), ctx.real("w", 0, 40), ctx.real("d", 0, 300)
    a = common.vehicle(base(), rd, [100., 0.], 0., v, ("0", "1", 0), timer=0.5)
    a.target_speed = v
    f = common.vehicle(Vehicle, rd, [100. + d, 0.], 0., w, ("0", "1", 0))
    ctx.assume(m.And(w >= v, d >= 10 + 2.5 * v))
    ctx.eq("at rest", a.acceleration(a, f), 0)
    a.target_speed = ctx.real("t", 0, 40)
    ctx.check("towards the target", m.Implies(a.target_speed > v, a.acceleration(a, f) >= 0))


def randomise(ctx, which):
    from highway_env.vehicle import behavior
    C = getattr(behavior, which)
    rd = common.road(common.straight_net(1, 1000.), np_random=common.Rand(ctx))
    a = common.vehicle(C, rd, [100., 0.], 0., 10., ("0", "1", 0), timer=0.5)
    before = [list(C.ACCELERATION_PARAMETERS), list(C.STEERING_PARAMETERS)]
    a.randomize_behavior()
    for nm, lo, hi, got in (("acceleration", C.ACCELERATION_RANGE[0], C.ACCELERATION_RANGE[1], a.ACCELERATION_PARAMETERS),
                            ("steering", C.STEERING_RANGE[0], C.STEERING_RANGE[1], a.STEERING_PARAMETERS)):
        for k in range(len(lo)):
            ctx.check("%s parameter %d in its range" % (nm, k), m.And(got[k] >= lo[k] - 1e-9, got[k] <= hi[k] + 1e-9))
    ctx.check("other vehicles keep theirs", [list(C.ACCELERATION_PARAMETERS), list(C.STEERING_PARAMETERS)] == before)


def record(ctx, own):
    """Data collection: one sample per decision, outputs consistent with the parameters; the command is the model's, limited."""
    from highway_env.vehicle.kinematics import Vehicle
    rd = common.road(common.straight_net(2, 1000.))
    v, t, w, d = ctx.real("v", 1, 40), ctx.real("t", -40, 40), ctx.real("w", 0, 40), ctx.real("d", 1, 200)
    y = ctx.real("y", -1.5, 1.5)
    given = ctx.choose("data", ["none", "empty", "shared"])
    data = {"none": None, "empty": {}, "shared": {"longitudinal": {"features": [], "outputs": []}}}[given]
    a = common.vehicle(base(), rd, [100., y], 0., v, ("0", "1", 0), timer=0.5, data=data)
    a.target_speed = t
    a.target_lane_index = ("0", "1", ctx.choose("target", [0, 1]))
    a.enable_lane_change = False
    a.collecting_data = collect = ctx.choose("collect", [True, False])
    p, q = [0.3, 0.3, 2.0], [5., 25. / 3]
    if own:
        p, q = [ctx.real("p%d" % i, -5, 5) for i in range(3)], [ctx.real("q%d" % i, -30, 30) for i in range(2)]
        a.ACCELERATION_PARAMETERS, a.STEERING_PARAMETERS = p, q
    b = common.vehicle(Vehicle, rd, [100. + d, 0.], 0., w, ("0", "1", 0))
    rd.vehicles.extend([a, b])
    a.act()
    f = features(v, t, w, d)
    out = sum(x * y_ for x, y_ in zip(p, f))
    g = [0., -(y - 4. * a.target_lane_index[2]) * 5. / v / v]
    steer = q[0] * g[0] + q[1] * g[1]
    ctx.eq("command", a.action["acceleration"], m.clip(out, -6, 6))
    ctx.eq("steering command", a.action["steering"], m.clip(steer, -math.pi / 3, math.pi / 3))
    ctx.check("into the data set it was given", data is None or a.data is data)
    if not collect:
        ctx.check("nothing recorded", a.data == ({"longitudinal": {"features": [], "outputs": []}} if given == "shared" else {}))
        return
    lon, lat = a.data["longitudinal"], a.data["lateral"]
    ctx.check("one sample each", [len(lon[k]) for k in ("features", "outputs")] == [1, 1] and [len(lat[k]) for k in ("features", "outputs")] == [1, 1])
    for k in range(3):
        ctx.eq("recorded %d" % k, lon["features"][0][k], f[k])
    ctx.eq("recorded output", lon["outputs"][0], out)
    for k in range(2):
        ctx.eq("recorded lateral %d" % k, lat["features"][0][k], g[k])
    ctx.eq("recorded lateral output", lat["outputs"][0], steer)


def cases(tier):
    cs = [Case("acceleration-%d%d" % (f, r), acceleration, dict(front=f, rear=r)) for f in (0, 1) for r in (0, 1)]
    cs += [Case("others", others), Case("third-party", third), Case("steering-fwd", steering, dict(sign=1)), Case("steering-rev", steering, dict(sign=-1)),
           Case("equilibrium", equilibrium), Case("record", record, dict(own=False)), Case("record-own", record, dict(own=True), cost=2)]
    cs += [Case("randomise-" + w, randomise, dict(which=w)) for w in ("LinearVehicle", "AggressiveVehicle", "DefensiveVehicle")]
    return cs
