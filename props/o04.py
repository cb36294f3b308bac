"""Goal-reaching tasks: goal observations, reward, success and end of the episode; the parking lot and what is put on it."""
from symx.engine import Case
from symx import m
from . import common
from .o01 import features

BOUNDS = ("one or two agents, any positions within 100 m, headings in [-7,7], speeds in [-40,40], any goal pose and scales; up to any step count; the scene built with every "
          "random draw (three parking spots per side in the all-draws case, the default fifteen with a symbolic heading draw)")

FEATURES = ["x", "y", "vx", "vy", "cos_h", "sin_h"]
WEIGHTS = [1, 0.3, 0, 0, 0.02, 0.02]


def goal_features(goal, names):
    d = {"x": goal.position[0], "y": goal.position[1], "vx": 0, "vy": 0, "cos_h": m.cos(goal.heading), "sin_h": m.sin(goal.heading), "heading": goal.heading, "presence": 1, "cos_d": 0, "sin_d": 0}
    return [d[k] for k in names]


def scene(ctx, agents=1, env="ParkingEnv", crash=True, config=None, free=True):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Landmark
    rd = common.road(common.straight_net(1, 100.))
    vs = []
    for k in range(agents):
        v = common.vehicle(Vehicle, rd, [ctx.real("x%d" % k, -100, 100), ctx.real("y%d" % k, -100, 100)], ctx.angle("h%d" % k, -7, 7),
                           ctx.real("v%d" % k, -40, 40) if free else ctx.choose("v%d" % k, [0., 2.]), ("0", "1", 0))
        v.crashed = ctx.bool("crashed%d" % k) if crash else False
        vs.append(v)
    rd.vehicles = list(vs)
    e = common.env_of(env, config=config, road=rd, vehicles=vs)
    e.goal = Landmark(rd, m.arr([ctx.real("gx", -100, 100), ctx.real("gy", -100, 100)]), heading=ctx.angle("gh", -4, 4))
    rd.objects = [e.goal]
    return e, vs


def observation(ctx, names, symbolic_scales):
    from highway_env.envs.common.observation import KinematicsGoalObservation
    e, vs = scene(ctx, 2, crash=False)
    scales = [ctx.real("scale%d" % k, 0.1, 100) if symbolic_scales else [100, 100, 5, 5, 1, 1, 2][k] for k in range(len(names))]
    o = KinematicsGoalObservation(e, features=names, scales=scales)
    if ctx.choose("observer", [0, 1]):
        o.observer_vehicle = vs[1]
        me = vs[1]
    else:
        me = vs[0]
    before = [me.position[0], me.position[1], me.heading, me.speed]
    got = o.observe()
    ctx.check("entries", sorted(got) == ["achieved_goal", "desired_goal", "observation"])
    d, g = features(me), goal_features(e.goal, names)
    for k, f in enumerate(names):
        ctx.eq("observation %s" % f, got["observation"][k], d[f] / scales[k])
        ctx.eq("achieved %s" % f, got["achieved_goal"][k], d[f] / scales[k])
        ctx.eq("desired %s" % f, got["desired_goal"][k], g[k] / scales[k])
    for a, b in zip(before, [me.position[0], me.position[1], me.heading, me.speed]):
        ctx.eq("observer untouched", a, b)


def noroad(ctx):
    from highway_env.envs.common.observation import KinematicsGoalObservation
    n = ctx.choose("n", [2, 6])
    o = KinematicsGoalObservation(common.env_of("ParkingEnv"), features=FEATURES[:n], scales=[1] * n)
    got = o.observe()
    ctx.check("shapes", all(got[k].shape == (n,) and not got[k].any() for k in ("observation", "achieved_goal", "desired_goal")) and len(got) == 3)


def distance(a, d):
    s = 0
    for w, x, y in zip(WEIGHTS, a, d):
        s = s + w * m.absv(x - y)
    return s


def reward(ctx, env):
    """For any pair of goals, the reward and the success it tells."""
    e = common.env_of(env)
    e.vehicle = type("V", (), {})()
    e.vehicle.crashed = crashed = ctx.bool("crashed") if env == "SummonEnv" else False
    a = [ctx.real("a%d" % k, -10, 10) for k in range(6)]
    d = [ctx.real("d%d" % k, -10, 10) for k in range(6)]
    r = e.compute_reward(m.arr(a), m.arr(d), {})
    s = distance(a, d)
    r0 = r + m.ite(crashed, 5., 0.)
    ctx.check("never positive", r0 <= 1e-6)
    ctx.eq("squared", r0 * r0, s)
    ctx.assume(m.absv(s - 0.0144) > 1e-5)
    ok = e._is_success(m.arr(a), m.arr(d))
    ctx.check("success", m.iff(ok, m.And(m.Not(crashed), s < 0.0144)))
    if env == "ParkingEnv":
        b = [ctx.real("b%d" % k, -10, 10) for k in range(6)]
        rs = e.compute_reward(m.arr(a + b).reshape(2, 6), m.arr(d + d).reshape(2, 6), {})
        ctx.check("one reward per pair", len(rs) == 2)
        ctx.eq("first of a batch", rs[0] * rs[0], s)
        ctx.eq("second of a batch", rs[1] * rs[1], distance(b, d))
        ctx.check("never positive in a batch", m.And(rs[0] <= 1e-6, rs[1] <= 1e-6))


class Fixed(object):
    """An observation given by the harness."""
    def __init__(self, obs):
        self.obs = obs

    def observe(self):
        return self.obs


def episode(ctx, agents, env="ParkingEnv"):
    """Reward and end of the episode for what is observed."""
    e = common.env_of(env, config=dict(duration=100))
    vs = []
    for k in range(agents):
        v = type("V", (), {})()
        v.crashed = ctx.bool("crashed%d" % k)
        vs.append(v)
    e.controlled_vehicles = vs
    obs, dist = [], []
    for k in range(agents):
        a = [ctx.real("a%d%d" % (k, i), -10, 10) for i in range(6)]
        d = [ctx.real("d%d%d" % (k, i), -10, 10) for i in range(6)]
        dist.append(distance(a, d))
        obs.append({"observation": m.arr(a), "achieved_goal": m.arr(a), "desired_goal": m.arr(d)})
    e.observation_type = Fixed(tuple(obs) if agents > 1 else obs[0])
    e.steps = ctx.int("steps", 0, 300)
    summon = env == "SummonEnv"
    for s in dist:
        ctx.assume(m.absv(s - 0.0144) > 1e-5)
    hit = m.ite(vs[0].crashed, 1, 0) if summon else 0
    r = e._reward(None)
    want = 0
    for s in dist:
        want = want - m.sqrt(s) - 5 * hit
    ctx.eq("reward", r, want)
    done = e._is_terminal()
    success = m.And(*[s < 0.0144 for s in dist])
    if summon:
        success = m.And(success, m.Not(vs[0].crashed))
    ctx.check("terminal", m.iff(done, m.Or(e.steps >= 100, success, *[v.crashed for v in vs])))


def success_info(ctx, agents):
    """What a step reports as success."""
    from highway_env.envs.common.observation import MultiAgentObservation
    import highway_env.envs.common.abstract as abstract
    e = common.env_of("ParkingEnv")
    obs, dist = [], []
    for k in range(agents):
        a = [ctx.real("a%d%d" % (k, i), -10, 10) for i in range(6)]
        d = [ctx.real("d%d%d" % (k, i), -10, 10) for i in range(6)]
        dist.append(distance(a, d))
        ctx.assume(m.absv(dist[-1] - 0.0144) > 1e-5)
        obs.append({"observation": m.arr(a), "achieved_goal": m.arr(a), "desired_goal": m.arr(d)})
    o = tuple(obs) if agents > 1 else obs[0]
    if agents > 1:
        e.observation_type = MultiAgentObservation.__new__(MultiAgentObservation)
    else:
        e.observation_type = Fixed(o)
    old = abstract.AbstractEnv.step
    abstract.AbstractEnv.step = lambda self, action: (o, -1., False, {"speed": 3})
    try:
        out = e.step([0, 0])
    finally:
        abstract.AbstractEnv.step = old
    ctx.check("passed on", out[0] is o and out[1] == -1. and out[2] is False and out[3]["speed"] == 3)
    s = out[3]["is_success"]
    if agents > 1:
        ctx.check("one per agent", len(s) == agents)
        for k in range(agents):
            ctx.check("success of agent %d" % k, m.iff(s[k], dist[k] < 0.0144))
    else:
        ctx.check("success", m.iff(s, dist[0] < 0.0144))


def lot(ctx, spots, agents):
    """The parking scene: spots on both sides, the agents at rest, the goal in the middle of a spot."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Landmark
    e = common.env_of("ParkingEnv", config=dict(controlled_vehicles=agents))
    e.np_random = common.Rand(ctx)
    e._create_road(spots)
    lanes = e.road.network.lanes_list()
    ctx.check("spots", len(lanes) == 2 * spots)
    for i, a in enumerate(lanes):
        ctx.eq("length", a.length, 8.)
        for b in lanes[:i]:
            same = (a.start[1] > 0) == (b.start[1] > 0)
            ctx.check("apart", abs(a.start[0] - b.start[0]) >= 4 - 1e-9 or not same)
    e.action_type = type("A", (), {"vehicle_class": Driven})()
    Driven.road_seen = []
    e._create_vehicles()
    ctx.check("vehicles", len(e.road.vehicles) == agents and all(a is b for a, b in zip(e.road.vehicles, e.controlled_vehicles)) and len(e.controlled_vehicles) == agents)
    for k, v in enumerate(e.controlled_vehicles):
        ctx.eq("agent %d x" % k, v.position[0], 20. * k)
        ctx.eq("agent %d y" % k, v.position[1], 0.)
        ctx.eq("agent %d at rest" % k, v.speed, 0)
        ctx.check("agent %d heading" % k, m.And(v.heading >= 0, v.heading <= 2 * m.pi))
    g = e.goal
    ctx.check("goal on the road", len(e.road.objects) == 1 and e.road.objects[0] is g and isinstance(g, Landmark))
    best = []
    for lane in lanes:
        p = (lane.start + lane.end) / 2
        best.append(m.And(m.absv(g.position[0] - p[0]) < 1e-6, m.absv(g.position[1] - p[1]) < 1e-6, m.absv(g.heading - (m.pi / 2 if lane.end[1] > 0 else -m.pi / 2)) < 1e-6))
    ctx.check("goal in the middle of a spot", m.Or(*best))
    ctx.eq("goal at rest", g.speed, 0)


class Driven(object):
    crashed = False

    def __init__(self, road, position, heading=0, speed=0):
        self.road, self.position, self.heading, self.speed = road, position, heading, speed


def cases(tier):
    cs = [Case("observation", observation, dict(names=FEATURES, symbolic_scales=False), cost=2), Case("observation-scales", observation, dict(names=["sin_h", "vx", "heading", "y"], symbolic_scales=True), cost=2),
          Case("no-scene", noroad), Case("reward", reward, dict(env="ParkingEnv"), cost=3), Case("reward-summon", reward, dict(env="SummonEnv"), cost=2),
          Case("episode-one", episode, dict(agents=1), cost=2), Case("episode-two", episode, dict(agents=2), cost=4), Case("episode-summon", episode, dict(agents=1, env="SummonEnv"), cost=2),
          Case("success", success_info, dict(agents=1)), Case("success-two", success_info, dict(agents=2)),
          Case("lot", lot, dict(spots=3, agents=1)), Case("lot-default", lot, dict(spots=15, agents=1), cost=2), Case("lot-two", lot, dict(spots=2, agents=2))]
    if tier == "thorough":
        cs += [Case("episode-three", episode, dict(agents=3), cost=9), Case("success-three", success_info, dict(agents=3), cost=4), Case("lot-three", lot, dict(spots=5, agents=3), cost=2)]
    return cs
