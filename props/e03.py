"""The intersection task: reward, end, traffic."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("the real intersection network; one to three agents on incoming, crossing and leaving lanes (all four arms), every longitudinal position in [-10,110], set-point index, crash flag, number of steps and duration up to "
          "1000, policy frequency of 1 to 5 Hz, collision reward in [-20,-0.1]; up to nine other vehicles (most of them far away); every random draw (normal draws within 3 deviations)")

L = 100.


def intersection(ctx, name="IntersectionEnv", rand=None, **config):
    env = common.env_of(name, config)
    if rand is not None:
        env.np_random = rand
    env._make_road()
    env.road.vehicles, env.road.objects = [], []
    return env


def arm(i):
    """The entering and leaving lanes of an arm: (origin, direction) of the first, (origin, direction) of the second."""
    c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][i]
    rot = lambda p: (c * p[0] - s * p[1], s * p[0] + c * p[1])
    return (rot((2., 111.)), rot((0., -1.))), (rot((-2., 11.)), rot((0., 1.)))


KINDS = {"exit": lambda i: ("il%d" % i, "o%d" % i, 0), "entry": lambda i: ("o%d" % i, "ir%d" % i, 0), "cross": lambda i: ("ir%d" % i, "il%d" % ((i + 2) % 4), 0)}


def agent(ctx, env, k, kinds=("exit", "entry", "cross"), arms=(0, 1, 2, 3), cls=None):
    kind = ctx.choose("kind%d" % k, kinds)
    i = ctx.choose("arm%d" % k, arms)
    index = KINDS[kind](i)
    lane = env.road.network.get_lane(index)
    s = ctx.real("s%d" % k, -10, 110)
    v = common.mdp_vehicle(env.road, lane.position(s, 0), 0., 5., index)
    v.SPEED_COUNT = 3
    v.speed_index = ctx.int("index%d" % k, 0, 2)
    v.crashed = ctx.choose("crashed%d" % k, [False, True])
    v.route = None
    if kind == "exit":
        ctx.assume(m.absv(s - 25.) > 1e-3)
    return v, s, kind


def arrived(a):
    v, s, kind = a
    return m.And(kind == "exit", s >= 25.)


def agent_reward(a, collision, normal):
    v, s, kind = a
    r = m.ite(arrived(a), 1., (collision if v.crashed else 0.) + m.ite(v.speed_index == 2, 1., 0.))
    return (r - collision) / (1. - collision) if normal else r


def rewards(ctx, n, **kw):
    env = intersection(ctx)
    cars = [agent(ctx, env, k, **kw) for k in range(n)]
    env.road.vehicles = [c[0] for c in cars]
    env.controlled_vehicles = list(env.road.vehicles)
    collision = env.config["collision_reward"] = ctx.real("collision", -20, -0.1)
    normal = env.config["normalize_reward"] = ctx.choose("normalize", [False, True])
    steps = env.steps = ctx.int("steps", 0, 1000)
    dur = env.config["duration"] = ctx.int("duration", 1, 1000)
    hz = env.config["policy_frequency"] = ctx.choose("hz", [1, 2, 5])
    total = 0.
    for a in cars:
        r = agent_reward(a, collision, normal)
        got = env._agent_reward(1, a[0])
        ctx.eq("reward of an agent", got, r)
        total = total + r
        over = steps >= dur * hz
        ctx.check("end of an agent", m.iff(env._agent_is_terminal(a[0]), m.Or(a[0].crashed, arrived(a), over)))
        ctx.check("arrival", m.iff(env.has_arrived(a[0]), arrived(a)))
        if normal:
            ctx.check("in [0, 1+]", m.And(got >= -1e-6, got <= 1 + 1e-6))
    ctx.eq("mean reward", env._reward(1), total / n)
    ctx.check("end", m.iff(env._is_terminal(), m.Or(any(a[0].crashed for a in cars), m.And(*[arrived(a) for a in cars]), over)))
    ctx.eq("cost", env._cost(1), 1. if cars[0][0].crashed else 0.)


class Never(common.Rand):
    """Nothing is spawned at probability zero."""

    def rand(self, *size):
        return 0.5

    random = random_sample = rand


def step(ctx, n):
    """What a step reports for each agent, and the traffic it leaves."""
    from highway_env.vehicle.behavior import IDMVehicle
    env = intersection(ctx, rand=Never(ctx), simulation_frequency=1, policy_frequency=1, spawn_probability=0, collision_reward=ctx.real("collision", -20, -0.1))
    env.road.act = lambda *a: None
    env.road.step = lambda dt: None
    cars = [agent(ctx, env, k, kinds=("exit",), arms=(k, 3)) for k in range(n)]
    env.controlled_vehicles = [c[0] for c in cars]
    others = []
    for k in range(2):
        kind = ctx.choose("other%d" % k, ["exit", "entry", "cross"] if k else ["exit"])
        index = KINDS[kind](2)
        lane = env.road.network.get_lane(index)
        s = ctx.real("t%d" % k, 0, 110)
        ctx.assume(m.absv(s - 80.) > 1e-3)
        v = common.vehicle(IDMVehicle, env.road, lane.position(s, 0), 0., 5., index)
        v.route = ctx.choose("route%d" % k, [[index], None] if k else [[index]])
        others.append((v, s, kind))
    vehicles = [others[0][0]] + env.controlled_vehicles + [others[1][0]]
    env.road.vehicles = list(vehicles)
    env.action_type = type("A", (), {"act": lambda self, a: None})()
    env.observation_type = type("O", (), {"observe": lambda self: len(env.road.vehicles)})()
    obs, reward, done, info = env.step(1)
    rs = [agent_reward(a, env.config["collision_reward"], False) for a in cars]
    ctx.check("one per agent", len(info["agents_rewards"]) == n == len(info["agents_dones"]))
    for a, r, d, w in zip(cars, info["agents_rewards"], info["agents_dones"], rs):
        ctx.eq("agents_rewards", r, w)
        ctx.check("agents_dones", m.iff(d, m.Or(a[0].crashed, arrived(a))))
    ctx.eq("reward", reward, sum(rs) / n)
    ctx.check("observed before the traffic changes", obs == len(vehicles))
    gone = [bool(m.And(o[2] == "exit", o[1] >= 80.)) or o[0].route is None for o in others]
    kept = [v for v in vehicles if not any(v is o[0] and g for o, g in zip(others, gone))]
    ctx.check("vehicles that left are removed, agents stay", len(env.road.vehicles) == len(kept) and all(a is b for a, b in zip(env.road.vehicles, kept)))


def renewed(ctx):
    """At probability one, a step brings a vehicle onto the drawn lane, after those that left made room."""
    from highway_env.vehicle.behavior import IDMVehicle
    env = intersection(ctx, rand=Draws(ctx, [(2, 0), (2, 1)]), simulation_frequency=1, policy_frequency=1, spawn_probability=1)
    on_entry(env)
    env.road.act = lambda *a: None
    env.road.step = lambda dt: None
    a = agent(ctx, env, 0, kinds=("exit",), arms=(0,))
    env.controlled_vehicles = [a[0]]
    s = ctx.real("t", 0, 110)
    ctx.assume(m.Or(s > 80.001, s < 70.))
    lane = env.road.network.get_lane(KINDS["exit"](2))
    o = common.vehicle(IDMVehicle, env.road, lane.position(s, 0), 0., 5., KINDS["exit"](2))
    o.route = [KINDS["exit"](2)]
    env.road.vehicles = [o, a[0]]
    env.action_type = type("A", (), {"act": lambda self, a: None})()
    env.observation_type = type("O", (), {"observe": lambda self: None})()
    env.step(1)
    left = bool(s >= 80.)
    new = [v for v in env.road.vehicles if v is not o and v is not a[0]]
    ctx.check("who left is removed", any(v is o for v in env.road.vehicles) == (not left))
    ctx.check("one new vehicle", len(new) == 1 and new[0].lane_index == ("o2", "ir2", 0))


def wrapper(ctx):
    """The tuple version returns one reward and end per agent."""
    from highway_env.envs.common.abstract import MultiAgentWrapper
    inner = type("E", (), {"step": lambda self, a: ("obs", 3., False, {"agents_rewards": (1., 2.), "agents_dones": (True, False), "action": a})})()
    w = MultiAgentWrapper.__new__(MultiAgentWrapper)
    w.env = inner
    a = ctx.choose("action", [(0, 1), (2, 2)])
    obs, reward, done, info = w.step(a)
    ctx.check("tuple", obs == "obs" and reward == (1., 2.) and done == (True, False) and info["action"] == a)


class Draws(common.Rand):
    """The origin and destination are taken from a list."""

    def __init__(self, ctx, routes, **kw):
        common.Rand.__init__(self, ctx, **kw)
        self.routes = routes

    def choice(self, a, size=None, replace=True, p=None):
        if size == 2:
            import numpy as np
            self.ctx.check("two different arms", list(a) == [0, 1, 2, 3] and not replace)
            self.drawn = list(self.ctx.choose(self._n(), self.routes))
            return np.array(self.drawn)
        return common.Rand.choice(self, a, size, replace, p)


def on_entry(env):
    """Vehicles are created on entering lanes: the closest lane follows from the direction."""
    by_heading = {0: 3, 1: 0, 2: 1, -1: 2, -2: 1, 3: 2}

    def closest(position, heading=None):
        x, y = position[0], position[1]
        for i in range(4):
            (o, d), _ = arm(i)
            side = (x - o[0]) * -d[1] + (y - o[1]) * d[0]
            ahead = (x - o[0]) * d[0] + (y - o[1]) * d[1]
            if bool(m.And(m.absv(side) < 0.5, ahead > -20, ahead < 99)):
                return ("o%d" % i, "ir%d" % i, 0)
        raise AssertionError("not on an entering lane")
    env.road.network.get_closest_lane_index = closest


def entry_position(i, s):
    (o, d), _ = arm(i)
    return [o[0] + d[0] * s, o[1] + d[1] * s]


ROUTES = [(a, b) for a in range(4) for b in range(4) if a != b]


def spawn(ctx, straight, routes):
    """One call to the generator of traffic."""
    from highway_env.vehicle.behavior import IDMVehicle
    rand = Draws(ctx, routes)
    env = intersection(ctx, rand=rand)
    on_entry(env)
    p = ctx.real("probability", 0, 1)
    lon, pd, sd = ctx.real("longitudinal", 0, 60), ctx.real("pd", 0.1, 2), ctx.real("sd", 0, 2)
    v0 = common.vehicle(IDMVehicle, env.road, [0., 0.], 0., 5., ("o0", "ir0", 0))
    a = ctx.choose("beside", range(4))
    v0.position = m.arr(entry_position(a, ctx.real("s0", -20, 110)))
    env.road.vehicles = [v0]
    before = rand.k[0]
    got = env._spawn_vehicle(lon, position_deviation=pd, speed_deviation=sd, spawn_probability=p, go_straight=straight)
    if rand.k[0] == before + 1:
        ctx.check("not spawned", got is None and len(env.road.vehicles) == 1)
        return
    i, j = rand.drawn
    j = (i + 2) % 4 if straight else j
    if got is None:
        ctx.check("refused", len(env.road.vehicles) == 1 and env.road.vehicles[0] is v0)
        return
    ctx.check("added last", len(env.road.vehicles) == 2 and env.road.vehicles[0] is v0 and env.road.vehicles[1] is got)
    d = [got.position[k] - v0.position[k] for k in (0, 1)]
    ctx.check("15 m apart", d[0] * d[0] + d[1] * d[1] >= 225 - 0.1)
    ctx.check("enters", got.lane_index == ("o%d" % i, "ir%d" % i, 0))
    ctx.check("leaves", got.route[0] == got.lane_index and got.route[-1][1] == "o%d" % j and got.route[1][:2] == ("ir%d" % i, "il%d" % j))
    ctx.check("kind", type(got) is IDMVehicle)


def spawned(ctx, i, straight):
    """Position, speed and separation of a spawned vehicle as functions of the draws."""
    from highway_env.vehicle.behavior import IDMVehicle
    j = (i + 1) % 4
    draws = iter([])
    u, a, b = ctx.real("u", 0, 1), ctx.real("a", -3, 3), ctx.real("b", -3, 3)

    class Fixed(Draws):
        def rand(self, *size):
            return u

        random = random_sample = rand

        def randn(self, *size):
            return next(draws)
    env = intersection(ctx, rand=Fixed(ctx, [(i, j)]))
    on_entry(env)
    draws = iter([a, b])
    p = ctx.real("probability", 0, 1)
    lon, pd, sd = ctx.real("longitudinal", 0, 60), 2., 1.5
    near = ctx.choose("other", ["none", "same lane", "beside"])
    t = ctx.real("s0", -20, 110)
    s = lon + 5 + a * pd
    if near != "none":
        v0 = common.vehicle(IDMVehicle, env.road, [0., 0.], 0., 5., ("o0", "ir0", 0))
        q = entry_position(i, t)
        off = 9. if near == "beside" else 0.
        (o, d), _ = arm(i)
        v0.position = m.arr([q[0] - d[1] * off, q[1] + d[0] * off])
        far = [common.vehicle(IDMVehicle, env.road, [500. + 40 * k, 300.], 0., 5., ("o0", "ir0", 0)) for k in range(8)]
        env.road.vehicles = [v0] + far if i % 2 == straight else far + [v0]
        limit = 12. if near == "beside" else 15.
        ctx.assume(m.absv(m.absv(t - s) - limit) > 1e-3)
    n = len(env.road.vehicles)
    ctx.assume(m.absv(u - p) > 1e-6)
    got = env._spawn_vehicle(lon, position_deviation=pd, speed_deviation=sd, spawn_probability=p, go_straight=straight)
    want = u < p
    if near != "none":
        want = m.And(want, m.absv(t - s) > limit)
    ctx.check("spawned exactly when drawn and free", m.iff(got is not None, want))
    ctx.check("count", len(env.road.vehicles) == n + (got is not None))
    if got is not None:
        w = entry_position(i, s)
        ctx.eq("x", got.position[0], w[0])
        ctx.eq("y", got.position[1], w[1])
        ctx.eq("speed", got.speed, 8 + b * sd)
        (o, d), _ = arm(i)
        ctx.eq("heading cos", m.cos(got.heading), d[0])
        ctx.eq("heading sin", m.sin(got.heading), d[1])


def populate(ctx, agents, crowd, initial=1):
    """The scene of a reset: agents and the vehicles removed around them."""
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.controller import MDPVehicle
    rand = Draws(ctx, [(1, 3), (2, 0)], normal=1.)
    name = "IntersectionEnv"
    env = intersection(ctx, name, rand, controlled_vehicles=agents, simulation_frequency=1, destination=ctx.choose("destination", ["o1", None] if agents == 1 else ["o1"]))
    on_entry(env)
    env.action_type = type("A", (), {"vehicle_class": MDPVehicle})()
    env.road.act = lambda *a: None
    env.road.step = lambda dt: None
    pre = []
    for k in range(crowd):
        i = ctx.choose("lane%d" % k, [0, 2] if k else [0])
        s = ctx.real("t%d" % k, 0, 110)
        v = common.vehicle(IDMVehicle, env.road, entry_position(i, s), 0., 5., ("o%d" % i, "ir%d" % i, 0))
        pre.append((v, i, s))
    env.road.vehicles = [p[0] for p in pre]
    env._make_vehicles(initial)
    ctx.check("agents", len(env.controlled_vehicles) == agents)
    on = env.road.vehicles
    new = [v for v in on if not any(v is p[0] for p in pre) and not any(v is c for c in env.controlled_vehicles)]
    ctx.check("at most one challenger", len(new) <= initial)
    for k, v in enumerate(new):
        ctx.check("traffic enters", v.lane_index in [("o%d" % i, "ir%d" % i, 0) for i in (1, 2)])
        for w in new[:k] + [p[0] for p in pre if any(p[0] is w for w in on)]:
            d = [v.position[x] - w.position[x] for x in (0, 1)]
            ctx.check("traffic 15 m apart", d[0] * d[0] + d[1] * d[1] >= 225 - 0.1)
        for e in env.controlled_vehicles:
            d = [v.position[x] - e.position[x] for x in (0, 1)]
            ctx.check("no new vehicle within 20 m of an agent", d[0] * d[0] + d[1] * d[1] >= 400 - 0.1)
    for c in new if initial == 1 else ():
        ctx.check("challenger goes straight", c.route[0][0] in ("o1", "o2") and c.route[-1][1] == {"o1": "o3", "o2": "o0"}[c.route[0][0]])
        ctx.eq("challenger speed", c.speed, 8.)
    for k, v in enumerate(env.controlled_vehicles):
        ctx.check("agent is on the road once", sum(w is v for w in on) == 1)
        (o, d), _ = arm(k % 4)
        s = (v.position[0] - o[0]) * d[0] + (v.position[1] - o[1]) * d[1]
        ctx.check("agent around 60 m on its own arm", m.And(s >= 55 - 1e-6, s <= 65 + 1e-6, v.lane_index == ("o%d" % (k % 4), "ir%d" % (k % 4), 0)))
        ctx.eq("agent speed", v.speed, 10.)
        ctx.check("grid of set-points", (v.SPEED_COUNT, v.speed_index) == (3, 2))
        for x, w in enumerate((0., 4.5, 9.)):
            ctx.eq("set-point %d" % x, v.index_to_speed(x), w)
        ctx.eq("target", v.target_speed, 9.)
        if env.config["destination"]:
            ctx.check("destination", v.route[-1][1] == "o1")
        else:
            ctx.check("destination", v.route[-1][1] in ("o1", "o2", "o3"))
    for v, i, s in pre:
        there = any(w is v for w in on)
        for k, e in enumerate(env.controlled_vehicles):
            d = [v.position[x] - e.position[x] for x in (0, 1)]
            if there:
                ctx.check("no vehicle within 20 m of an agent", d[0] * d[0] + d[1] * d[1] >= 400 - 0.1)
        if not there:
            ctx.check("only close ones are removed", m.Or(*[(v.position[0] - e.position[0]) ** 2 + (v.position[1] - e.position[1]) ** 2 <= 400 + 0.1 for e in env.controlled_vehicles]))


def cases(tier):
    cs = [Case("wrapper", wrapper)]
    cs += [Case("rewards-1", rewards, dict(n=1)), Case("rewards-2", rewards, dict(n=2, arms=(0, 3) if tier == "quick" else (0, 1, 2, 3), kinds=("exit", "entry")), cost=5)]
    if tier == "thorough":
        cs += [Case("rewards-3", rewards, dict(n=3, arms=(1,), kinds=("exit", "cross")), cost=9)]
    cs += [Case("step-%d" % n, step, dict(n=n), cost=3) for n in (1, 2)]
    cs += [Case("renewed", renewed)]
    for st in (False, True):
        for a in range(4):
            cs.append(Case("spawn-%s-%d" % ("straight" if st else "any", a), spawn, dict(straight=st, routes=[r for r in ROUTES if r[0] == a]), cost=2))
            cs.append(Case("spawned-%s-%d" % ("straight" if st else "any", a), spawned, dict(i=a, straight=st)))
    cs += [Case("populate-1-%d" % c, populate, dict(agents=1, crowd=c), cost=4) for c in (1, 2, 3)[:2 if tier == "quick" else 3]]
    cs += [Case("populate-initial", populate, dict(agents=1, crowd=0, initial=3 if tier == "quick" else 4), cost=6)]
    cs += [Case("populate-2-1", populate, dict(agents=2, crowd=1), cost=4)]
    return cs
