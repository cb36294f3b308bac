"""Several agents: each observes the scene from its own vehicle and drives its own vehicle, in order."""
from symx.engine import Case
from symx import m
from . import common
from .o01 import features, scaled
from .o02 import routed

BOUNDS = ("two or three agents (and one other vehicle) at any positions, speeds and headings within 100 m of each other, on one road or two of different widths; kinematic, goal, attribute, occupancy and time-to-collision grid observations; continuous and discrete actions of any "
          "value; agents' observations with default or given ranges")


def cars(ctx, n, rd, straight=False):
    from highway_env.vehicle.kinematics import Vehicle
    out = []
    for k in range(n):
        v = common.vehicle(Vehicle, rd, [100. + 30 * k + ctx.real("x%d" % k, 0, 20), ctx.real("y%d" % k, -4, 8)], 0. if straight else ctx.angle("h%d" % k, -7, 7),
                           ctx.real("v%d" % k, -40, 80), ("0", "1", 0))
        out.append(v)
    return out


def roads(ctx, wide):
    """Agents on different roads: the default ranges are those of each one's own road."""
    from highway_env.envs.common.observation import observation_factory
    net = common.straight_net(2, 1000.)
    common.add_straight(net, "a", "b", wide, 0., 1000., y0=100.)
    rd = common.road(net)
    vs = cars(ctx, 2, rd)
    vs[1].position[1] = vs[1].position[1] + 100.
    vs[1].lane_index = vs[1].target_lane_index = ("a", "b", 0)
    rd.vehicles = list(vs)
    if ctx.choose("order", [0, 1]):
        rd.vehicles.reverse()
    env = common.env_of("HighwayEnv", road=rd, vehicles=vs)
    names = ["presence", "x", "y", "vx", "vy"]
    o = observation_factory(env, {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics", "features": names, "vehicles_count": 1, "clip": False}})
    got = o.observe()
    for a, n in ((0, 2), (1, wide)):
        ranges = {"x": [-150., 150.], "y": [-4. * n, 4. * n], "vx": [-60., 60.], "vy": [-60., 60.]}
        d = features(vs[a])
        for j, f in enumerate(names):
            ctx.eq("agent %d: %s" % (a, f), got[a][0, j], scaled(d, f, ranges, {"normalize": True, "clip": False}))


def kinematics(ctx, agents, others, rows, normalize):
    from highway_env.envs.common.observation import observation_factory, MultiAgentObservation
    net = common.straight_net(2, 1000.)
    rd = common.road(net)
    vs = cars(ctx, agents + others, rd)
    order = list(vs)
    if ctx.choose("order", [0, 1]):
        order.reverse()
    rd.vehicles = order
    names = ["presence", "x", "y", "vx", "cos_h"]
    env = common.env_of("HighwayEnv", road=rd, vehicles=vs[:agents])
    o = observation_factory(env, {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics", "features": names, "vehicles_count": rows, "normalize": normalize,
                                                                                       "see_behind": True}})
    ctx.check("kind", isinstance(o, MultiAgentObservation) and len(o.space().spaces) == agents)
    got = o.observe()
    ctx.check("one observation per agent", isinstance(got, tuple) and len(got) == agents)
    ranges = {"x": [-150., 150.], "y": [-8., 8.], "vx": [-60., 60.]}
    for a in range(agents):
        ctx.check("shape %d" % a, got[a].shape == (rows, len(names)) == o.space().spaces[a].shape)
        # vehicles are at least 10 m apart along the lane in this order
        close = [v for v in vs if v is not vs[a]]
        want = [features(vs[a])] + [features(v, vs[a]) for v in close]
        if rows - 1 < len(close):
            # which of the others are shown is decided by their distance
            d = [m.absv(v.position[0] - vs[a].position[0]) for v in close]
            for i in range(len(d)):
                for j in range(i):
                    ctx.assume(m.absv(d[i] - d[j]) > 1e-3)
        else:
            d = None
        for j, f in enumerate(names):
            ctx.eq("agent %d sees itself first: %s" % (a, f), got[a][0, j], scaled(want[0], f, ranges, {"normalize": normalize}))
        shown = [[scaled(w, f, ranges, {"normalize": normalize}) for f in names] for w in want[1:]]
        for k in range(1, rows):
            if k <= len(close):
                ctx.check("agent %d row %d is another vehicle" % (a, k), m.Or(*[m.And(*[m.absv(x - y) <= 1e-6 for x, y in zip(got[a][k], w)]) for w in shown]))
            else:
                ctx.check("agent %d row %d is empty" % (a, k), m.And(*[x == 0 for x in got[a][k]]))


def goals(ctx):
    """Parking with several agents: each achieves with its own pose."""
    from highway_env.envs.common.observation import observation_factory
    from highway_env.road.objects import Landmark
    rd = common.road(common.straight_net(1, 100.))
    vs = cars(ctx, 2, rd)
    env = common.env_of("ParkingEnv", road=rd, vehicles=vs)
    env.goal = Landmark(rd, m.arr([ctx.real("gx", -10, 10), 3.]), heading=0.)
    names, scales = ["x", "vy", "sin_h"], [100, 5, 1]
    o = observation_factory(env, {"type": "MultiAgentObservation", "observation_config": {"type": "KinematicsGoal", "features": names, "scales": scales}})
    got = o.observe()
    ctx.check("one observation per agent", len(got) == 2)
    for a in range(2):
        d = features(vs[a])
        for k, f in enumerate(names):
            ctx.eq("agent %d achieves %s" % (a, f), got[a]["achieved_goal"][k], d[f] / scales[k])
            ctx.eq("agent %d observes %s" % (a, f), got[a]["observation"][k], d[f] / scales[k])
            ctx.eq("agent %d wants %s" % (a, f), got[a]["desired_goal"][k], [env.goal.position[0], 0, 0][k] / scales[k])


def grids(ctx):
    """Occupancy grids are centred on their own agent."""
    from highway_env.envs.common.observation import observation_factory
    rd = common.road(common.straight_net(1, 1000.))
    vs = cars(ctx, 2, rd, straight=True)
    rd.vehicles = list(vs)
    for v in vs:
        v.position[1] = 0.
    dx = vs[1].position[0] - vs[0].position[0]
    for e in (15., 45.):
        ctx.assume(m.absv(dx - e) > 1e-3)
    env = common.env_of("HighwayEnv", road=rd, vehicles=vs)
    o = observation_factory(env, {"type": "MultiAgentObservation", "observation_config": {"type": "OccupancyGrid", "features": ["presence", "vx"], "grid_size": [[-45, 45], [-2, 2]],
                                                                                       "grid_step": [30, 4]}})
    got = o.observe()
    near = dx < 45
    dv = (vs[1].speed - vs[0].speed) / 60
    for a, s in ((0, 1), (1, -1)):
        ctx.eq("agent %d itself" % a, got[a][0, 0, 1], 1)
        ctx.eq("agent %d the other" % a, got[a][0, 0, 1 + s], m.ite(m.And(near, dx > 15), 1, 0))
        ctx.eq("agent %d its relative speed" % a, got[a][1, 0, 1 + s], m.ite(m.And(near, dx > 15), m.clip(s * dv, -1, 1), 0))
        ctx.eq("agent %d nobody" % a, got[a][0, 0, 1 - s], 0)


def continuous(ctx, agents):
    from highway_env.envs.common.action import action_factory, MultiAgentAction
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    rd = common.road(common.straight_net(1, 100.))
    vs = cars(ctx, agents + 1, rd)
    env = common.env_of("ParkingEnv", road=rd, vehicles=vs[:agents])
    dynamical = ctx.choose("dynamical", [False, True])
    at = action_factory(env, {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction", "dynamical": dynamical}})
    ctx.check("kind", isinstance(at, MultiAgentAction) and at.vehicle_class is (BicycleVehicle if dynamical else Vehicle) and len(at.space().spaces) == agents)
    u = [[ctx.real("u%d%d" % (a, k), -2, 2) for k in range(2)] for a in range(agents)]
    at.act(tuple(m.arr(list(x)) for x in u))
    for a in range(agents):
        ctx.eq("acceleration %d" % a, vs[a].action["acceleration"], 5 * m.clip(u[a][0], -1, 1))
        ctx.eq("steering %d" % a, vs[a].action["steering"], m.pi / 4 * m.clip(u[a][1], -1, 1))
    ctx.check("others are not driven", vs[agents].action["acceleration"] == 0 and vs[agents].action["steering"] == 0)


def discrete(ctx, agents):
    from highway_env.envs.common.action import action_factory
    from highway_env.vehicle.controller import MDPVehicle
    labels = ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"]
    seen = []
    vs = [type("V", (), {"act": lambda self, a: seen.append((self, a))})() for _ in range(agents)]
    env = common.env_of("HighwayEnv", vehicles=vs)
    at = action_factory(env, {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}})
    ctx.check("spaces", at.vehicle_class is MDPVehicle and [s.n for s in at.space().spaces] == [5] * agents)
    u = [ctx.choose("u%d" % k, range(5)) for k in range(agents)]
    at.act(tuple(u))
    ctx.check("each its action, once", len(seen) == agents and all(x is v and a == labels[k] for (x, a), v, k in zip(seen, vs, u)))


def attributes(ctx):
    from highway_env.envs.common.observation import observation_factory
    env = common.env_of("HighwayEnv")
    env.state, env.reference_state = m.arr([ctx.real("s%d" % k, -9, 9) for k in range(2)]), m.arr([ctx.real("r%d" % k, -9, 9) for k in range(2)])
    o = observation_factory(env, {"type": "AttributesObservation", "attributes": ["reference_state", "state"]})
    got = o.observe()
    ctx.check("attributes", sorted(got) == ["reference_state", "state"])
    for k in range(2):
        ctx.eq("state", got["state"][k], env.state[k])
        ctx.eq("reference", got["reference_state"][k], env.reference_state[k])


def cases(tier):
    cs = [Case("kinematics", kinematics, dict(agents=2, others=1, rows=3, normalize=True), cost=3), Case("kinematics-padded", kinematics, dict(agents=2, others=0, rows=4, normalize=False)),
          Case("goals", goals), Case("grids", grids, cost=2), Case("continuous-2", continuous, dict(agents=2)), Case("continuous-3", continuous, dict(agents=3)),
          Case("discrete-2", discrete, dict(agents=2)), Case("attributes", attributes), Case("kinematics-roads", roads, dict(wide=1)), Case("kinematics-truncated", kinematics, dict(agents=2, others=1, rows=2, normalize=True), cost=2)]
    cs.append(Case("time-to-collision", routed, dict(agents=2)))
    if tier == "thorough":
        cs += [Case("kinematics-roads-3", roads, dict(wide=3)), Case("kinematics-three", kinematics, dict(agents=3, others=1, rows=4, normalize=True), cost=9), Case("discrete-3", discrete, dict(agents=3)), Case("continuous-1", continuous, dict(agents=1))]
    return cs
