"""Rewards, ends and costs of the merge, roundabout and two-way tasks; the lane-keeping task."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("merge: the ego on any lane of the merging section, whatever it aims at, one or two other vehicles on the merging lane or beside it, every position, speed in [-40,60] and positive target speed; roundabout: 1 to 4 set-points, every speed; "
          "two-way: both lanes, every target lane; one to five set-points; lane keeping: every pose of the vehicle around both lanes and every noise draw")


def ego(ctx, env, index, count):
    from highway_env.vehicle.controller import MDPVehicle
    cls = type("Grid", (MDPVehicle,), dict(SPEED_COUNT=count))
    v = common.mdp_vehicle(env.road, [0., 0.], 0., 25., index, cls=cls)
    v.speed_index = ctx.int("index", 0, count - 1)
    v.crashed = ctx.choose("crashed", [False, True])
    env.controlled_vehicles = [v]
    env.road.vehicles = [v]
    return v


def merge(ctx, others, count):
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.kinematics import Vehicle
    env = common.env_of("MergeEnv")
    env._make_road()
    lane = ctx.choose("lane", [0, 1, 2])
    v = ego(ctx, env, ("b", "c", lane), count)
    v.target_lane_index = ("b", "c", ctx.choose("target lane", [0, 1]))
    v.target_speed = ctx.real("target", 1, 60)
    v.position = m.arr([ctx.real("x", 0, 460), 4. * lane])
    v.speed = ctx.real("v", -40, 60)
    action = ctx.choose("action", [0, 1, 2, 3, 4])
    penalty = (-0.5) * (v.target_speed - v.speed) / v.target_speed if lane == 2 else 0.
    for k in range(others):
        kind = ctx.choose("kind%d" % k, ["merging", "before", "main", "plain"])
        index = {"merging": ("b", "c", 2), "plain": ("b", "c", 2), "before": ("k", "b", 0), "main": ("b", "c", 1)}[kind]
        w = common.vehicle(Vehicle if kind == "plain" else IDMVehicle, env.road, [200., 8.], 0., 20., index)
        w.speed = ctx.real("v%d" % k, -40, 60)
        if kind != "plain":
            w.target_speed = ctx.real("target%d" % k, 1, 60)
        if kind == "merging":
            penalty = penalty + (-0.5) * (w.target_speed - w.speed) / w.target_speed
        env.road.vehicles.append(w)
    raw = (-1. if v.crashed else 0.) + 0.1 * lane + 0.2 * v.speed_index / (count - 1) + penalty + (-0.05 if action in (0, 2) else 0.)
    ctx.eq("merge reward", env._reward(action), (raw + 1.5) / 1.8)
    ctx.assume(m.absv(v.position[0] - 370) > 1e-3)
    ctx.check("merge end", m.iff(env._is_terminal(), m.Or(v.crashed, v.position[0] > 370)))


def merge_scene(ctx):
    """The scene of a reset: a closed merging lane, an obstacle at its end, the ego and four vehicles at their places."""
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle
    env = common.env_of("MergeEnv")
    env.action_type = type("A", (), {"vehicle_class": MDPVehicle})()
    env._reset()
    e = env.vehicle
    ctx.check("ego first", env.road.vehicles[0] is e and type(e) is MDPVehicle and len(env.road.vehicles) == 5)
    ctx.check("others", all(type(w) is IDMVehicle for w in env.road.vehicles[1:]))
    net = env.road.network
    for index in (("j", "k", 0), ("k", "b", 0), ("b", "c", 2)):
        ctx.check("nobody enters the merging lanes from beside", net.get_lane(index).forbidden)
    ctx.check("one obstacle", len(env.road.objects) == 1)
    # every section starts where the previous one ends
    for a, b in ((("a", "b", 0), ("b", "c", 0)), (("a", "b", 1), ("b", "c", 1)), (("b", "c", 0), ("c", "d", 0)), (("b", "c", 1), ("c", "d", 1)), (("j", "k", 0), ("k", "b", 0)), (("k", "b", 0), ("b", "c", 2))):
        la, lb = net.get_lane(a), net.get_lane(b)
        r = ctx.real("r%s%s%d" % (a[0], b[0], a[2]), -2, 2)
        p, q = la.position(la.length, r), lb.position(0., r)
        ctx.eq("joint x", p[0], q[0])
        ctx.eq("joint y", p[1], q[1])


def roundabout(ctx, count, meta):
    from highway_env.vehicle.kinematics import Vehicle
    env = common.env_of("RoundaboutEnv")
    env.road = common.road(common.straight_net(1))
    v = ego(ctx, env, ("0", "1", 0), 3)
    if not meta:
        crashed = v.crashed
        v = common.vehicle(Vehicle, env.road, [0., 0.], 0., 8., ("0", "1", 0))
        v.crashed = crashed
        env.controlled_vehicles = [v]
    v.speed = ctx.real("v", -10, 40)
    action = ctx.choose("action", [0, 1, 2, 3, 4])
    if meta:
        i = v.speed_index
    else:
        for b in (4., 12.):
            ctx.assume(m.absv(v.speed - b) > 1e-3)
        i = m.ite(v.speed < 4., 0, m.ite(v.speed < 12., 1, 2))
    raw = (-1. if v.crashed else 0.) + 0.2 * i / 2. + (-0.05 if action in (0, 2) else 0.)
    got = env._reward(action)
    ctx.eq("roundabout reward", got, (raw + 1.05) / 1.25)
    ctx.check("in [0, 1]", m.And(got >= -1e-6, got <= 1 + 1e-6))
    env.steps = ctx.int("steps", 0, 1000)
    dur = env.config["duration"] = ctx.int("duration", 1, 1000)
    ctx.check("roundabout end", m.iff(env._is_terminal(), m.Or(v.crashed, env.steps >= dur)))


class Steady(common.Rand):
    """All normal draws are the same."""

    def randn(self, *size):
        if not hasattr(self, "z"):
            self.z = self.ctx.choose("z", [0., 1.2, -0.9])
        return m.arr([self.z] * int(size[0])) if size else self.z


def roundabout_scene(ctx):
    """The agent heads north at 8 m/s, the incoming vehicle where configured (anywhere else if not), the others anywhere."""
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle
    asked = ctx.choose("asked", [None, 0, 1, 2])
    env = common.env_of("RoundaboutEnv", dict(incoming_vehicle_destination=asked))
    env.np_random = Steady(ctx)
    env.action_type = type("A", (), {"vehicle_class": MDPVehicle})()
    env._make_road()
    env._make_vehicles()
    cars = env.road.vehicles
    ctx.check("five vehicles, the agent first", len(cars) == 5 and cars[0] is env.vehicle and type(cars[0]) is MDPVehicle)
    ctx.check("agent's destination", cars[0].route[-1][1] == "nxs" and cars[0].route[0][:2] == ("ser", "ses"))
    ctx.eq("agent's speed", cars[0].speed, 8.)
    ctx.check("agent's set-point", cars[0].speed_index == 1 and cars[0].target_speed == 8)
    exits = ["exr", "sxr", "nxr"]
    ends = exits if asked is None else [exits[asked]]
    for k, (v, index, s) in enumerate(zip(cars[1:], (("we", "sx", 1), ("we", "sx", 0), ("we", "sx", 0), ("eer", "ees", 0)), (5., 20., -20., 50.))):
        ctx.check("kind", type(v) is IDMVehicle)
        ctx.check("destination", v.route[-1][1] in (exits if k else ends))
        ctx.eq("speed", v.speed, 16 + 2 * env.np_random.z)
        p = env.road.network.get_lane(index).position(s + 2 * env.np_random.z, 0)
        ctx.eq("x", v.position[0], p[0])
        ctx.eq("y", v.position[1], p[1])


def two_way(ctx, count):
    env = common.env_of("TwoWayEnv")
    env._make_road()
    lane = ctx.choose("lane", [0, 1])
    v = ego(ctx, env, ("a", "b", lane), count)
    if lane == 0 and ctx.choose("wrong way", [False, True]):
        v.lane_index = ("b", "a", 0)
        ctx.eq("two-way cost of the opposite lane", env._cost(1), (1. if v.crashed else 0.) + 1. / 15)
        return
    tgt = ctx.choose("target", [0, 1])
    v.target_lane_index = ("a", "b", tgt)
    v.speed = ctx.real("v", -10, 60)
    got = env._reward(ctx.choose("action", [0, 1, 2, 3, 4]))
    ctx.eq("two-way reward", got, 0.8 * v.speed_index / (count - 1) + 0.2 * (1 - tgt))
    ctx.check("two-way end", m.iff(env._is_terminal(), v.crashed))
    ctx.eq("two-way cost", env._cost(1), (1. if v.crashed else 0.) + (1. / 15 if lane == 0 else 0.))


def two_way_back(ctx, count):
    """Past the end of the road, the ego turns back on its single opposite lane."""
    env = common.env_of("TwoWayEnv")
    env._make_road()
    v = ego(ctx, env, ("b", "a", 0), count)
    v.target_lane_index = ("b", "a", 0)
    v.speed = ctx.real("v", -10, 60)
    ctx.eq("two-way reward without other lane", env._reward(1), 0.8 * v.speed_index / (count - 1))
    ctx.check("two-way end", m.iff(env._is_terminal(), v.crashed))


def two_way_scene(ctx):
    """Oncoming vehicles drive towards the ego on the left lane, the others ahead of it on the right lane."""
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle
    rand = common.Rand(ctx)
    env = common.env_of("TwoWayEnv")
    env.np_random = rand
    env.action_type = type("A", (), {"vehicle_class": MDPVehicle})()
    env._make_road()
    net = env.road.network
    net.get_closest_lane_index = lambda position, heading=None: ("a", "b", 1) if bool(position[1] > 2) else ("b", "a", 0) if heading is not None and bool(m.cos(heading) < 0) else ("a", "b", 0)
    env._make_vehicles()
    cars = env.road.vehicles
    ctx.check("six vehicles", len(cars) == 6 and cars[0] is env.vehicle and env.controlled_vehicles == [cars[0]])
    ctx.eq("ego x", cars[0].position[0], 30.)
    ctx.eq("ego y", cars[0].position[1], 4.)
    for k, v in enumerate(cars[1:]):
        same = k < 3
        ctx.check("kind", type(v) is IDMVehicle and not v.enable_lane_change)
        ctx.eq("lane", v.position[1], 4. if same else 0.)
        ctx.eq("direction", m.cos(v.heading), 1. if same else -1.)
        ctx.check("target lane", v.target_lane_index == (("a", "b", 1) if same else ("b", "a", 0)))
        c = 70. + 40 * k if same else 800. - (200. + 100 * (k - 3))
        ctx.check("place", m.And(v.position[0] >= c - 30 - 1e-6, v.position[0] <= c + 30 + 1e-6))
        ctx.check("speed", m.And(v.speed >= (18 if same else 5) - 1e-6, v.speed <= (30 if same else 35) + 1e-6))


class Uniform(common.Rand):
    def uniform(self, low=0., high=1., size=None):
        self.asked = (low, high)
        return common.Rand.uniform(self, low, high, size)


def lane_keeping_env(ctx, rand=None):
    from highway_env.vehicle.dynamics import BicycleVehicle
    env = common.env_of("LaneKeepingEnv")
    env.lane, env.lanes, env.trajectory, env.interval_trajectory, env.lpv = None, [], [], [], None
    env.np_random = rand
    env._make_road()
    v = common.vehicle(BicycleVehicle, env.road, [0., 0.], 0., 8., ("c", "d", 0))
    env.road.vehicles = [v]
    env.controlled_vehicles = [v]
    return env, v


def lane_keeping_noise(ctx):
    """Observed states and derivatives are the real ones with a bounded noise."""
    rand = Uniform(ctx)
    env, v = lane_keeping_env(ctx, rand)
    v.position = m.arr([ctx.real("x", -10, 200), ctx.real("y", -20, 80)])
    v.speed = ctx.real("v", 1, 30)
    v.lateral_speed, v.yaw_rate = ctx.real("lateral", -5, 5), ctx.real("yaw", -2, 2)
    bs = env.config["state_noise"] = ctx.real("state_noise", 0, 1)
    bd = env.config["derivative_noise"] = ctx.real("derivative_noise", 0, 1)
    what = ctx.choose("what", ["state", "derivative"])
    got = getattr(env, what)
    true = getattr(v, what)[[1, 2, 4, 5]]
    b = bs if what == "state" else bd
    ctx.check("shape", tuple(got.shape) == (4, 1) and tuple(true.shape) == (4, 1))
    for i in range(4):
        d = got[i, 0] - true[i, 0]
        ctx.check("within the noise", m.And(d <= b + 1e-6, d >= -b - 1e-6))


def lane_keeping(ctx, which, zero):
    """Reward and reference: the distance to the lane followed."""
    env, v = lane_keeping_env(ctx, common.Rand(ctx))
    other, sine = env.lane, env.lanes[0]
    ctx.check("two lanes", len(env.lanes) == 1)
    if which == "sine":
        env.lane = sine
        v.position = m.arr([ctx.choose("x", [0., 12.5, 50., 130.]), ctx.real("y", -12, 12)])
    else:
        p = other.position(ctx.real("s", -10, 90), ctx.real("r", -12, 12))
        v.position = p
    lane = env.lane
    s, lat = lane.local_coordinates(v.position)
    ctx.eq("reward", env._reward(0), 1 - (lat / 10.) ** 2)
    ctx.check("never ends", not env._is_terminal())
    ref = env.reference_state
    ctx.check("shape", tuple(ref.shape) == (4, 1))
    ctx.eq("reference lateral", ref[0, 0], v.position[1] - lat)
    ctx.eq("reference heading", ref[1, 0], lane.heading_at(s))
    ctx.eq("reference speeds", ref[2, 0], 0.)
    ctx.eq("reference rate", ref[3, 0], 0.)


def lane_switch(ctx):
    """The second lane is followed from the first step that starts outside the first one; the command is given before the simulation."""
    env, v = lane_keeping_env(ctx, common.Rand(ctx))
    first, second = env.lane, env.lanes[0]
    s, r = ctx.real("s", -10, 90), ctx.real("r", -12, 12)
    for b in (-5., first.length + 5.):
        ctx.assume(m.absv(s - b) > 1e-3)
    ctx.assume(m.absv(m.absv(r) - 5.) > 1e-3)
    v.position = first.position(s, r)
    last = ctx.choose("last lane", [False, True])
    if last:
        env.lanes = []
    log = []
    env.road.act = lambda *a: log.append("act")
    env.road.step = lambda dt: log.append(("step", dt))
    env.action_type = type("A", (), {"act": lambda self, a: log.append(("command", a))})()
    env.observation_type = type("O", (), {"observe": lambda self: "seen"})()
    obs, reward, terminal, info = env.step("action")
    on = m.And(s >= -5., s < first.length + 5., m.absv(r) <= 5.)
    ctx.check("lane followed", m.iff(env.lane is first, m.Or(last, on)))
    ctx.check("sequence", log[0] == ("command", "action") and log[1:] == ["act", ("step", 0.1)])
    ctx.check("result", obs == "seen" and terminal is False)
    ctx.check("trajectory", len(env.trajectory) == 1)
    ctx.eq("trajectory x", env.trajectory[0][0, 0], v.position[0])
    if env.lane is first:
        ctx.eq("reward", reward, 1 - (first.local_coordinates(v.position)[1] / 10.) ** 2)


def cases(tier):
    cs = [Case("merge-%d-%d" % (o, c), merge, dict(others=o, count=c), cost=o) for o in (0, 1, 2) for c in ((3,) if o != 1 or tier == "quick" else (2, 3, 5))]
    cs += [Case("merge-scene", merge_scene), Case("roundabout-scene", roundabout_scene, cost=2), Case("two-way-scene", two_way_scene)]
    cs += [Case("roundabout-%s" % ("meta" if k else "free"), roundabout, dict(count=3, meta=k)) for k in (True, False)]
    cs += [Case("two-way-back-%d" % c, two_way_back, dict(count=c)) for c in (2, 3)]
    cs += [Case("two-way-%d" % c, two_way, dict(count=c)) for c in (2, 3, 5)]
    cs += [Case("lane-keeping-noise", lane_keeping_noise), Case("lane-keeping-straight", lane_keeping, dict(which="straight", zero=False)),
           Case("lane-keeping-sine", lane_keeping, dict(which="sine", zero=False)), Case("lane-switch", lane_switch)]
    return cs
