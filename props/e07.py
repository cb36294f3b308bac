"""Where vehicles and objects are created."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("straight roads of 1 to 4 lanes with up to three (one case: 9, thorough 12) earlier vehicles anywhere on them, every requested or drawn speed in [0,40], lane and spacing in [0.1,5]; any longitudinal in [-20,120] on straight, "
          "sine and circular lanes; highway scenes of one or two agents and up to two others; summon scenes of up to two others; every random draw")


def fresh_road(ctx, lanes, rand):
    from highway_env.road.road import Road, RoadNetwork
    return Road(network=RoadNetwork.straight_road_network(lanes), np_random=rand)


def random_vehicle(ctx, kind, lanes, earlier, given):
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.kinematics import Vehicle
    cls = dict(Vehicle=Vehicle, IDMVehicle=IDMVehicle, MDPVehicle=MDPVehicle)[kind]
    rand = common.Rand(ctx)
    rd = fresh_road(ctx, lanes, rand)
    places = []
    for k in range(earlier):
        x = ctx.real("x%d" % k, 0, 500)
        places.append(x)
        rd.vehicles.append(common.vehicle(Vehicle, rd, [x, 4. * (k % lanes)], 0., 20., ("0", "1", k % lanes)))
    spacing = ctx.real("spacing", 0.1, 5)
    lane = ctx.choose("lane", range(lanes)) if "lane" in given else None
    speed = ctx.real("speed", 0, 40) if "speed" in given else None
    v = cls.create_random(rd, speed=speed, lane_id=lane, spacing=spacing)
    ctx.check("kind", type(v) is cls)
    ctx.check("not added by itself", len(rd.vehicles) == earlier)
    if speed is None:
        ctx.check("default speed", m.And(v.speed >= 23 - 1e-6, v.speed <= 25 + 1e-6))
    else:
        ctx.eq("speed", v.speed, speed)
    if lane is not None:
        ctx.eq("lane", v.position[1], 4. * lane)
        ctx.check("lane index", v.lane_index == ("0", "1", lane))
    else:
        ctx.check("in the middle of a lane", m.Or(*[m.absv(v.position[1] - 4. * i) <= 1e-6 for i in range(lanes)]))
    ctx.eq("heading", v.heading, 0.)
    offset = spacing * 1.5 * v.speed * math.exp(-5. / 30 * lanes)
    base = m.mx(*places) if places else 3 * offset
    ctx.check("ahead of all others", v.position[0] >= base + 0.9 * offset - 1e-4)
    ctx.check("not too far", v.position[0] <= base + 1.1 * offset + 1e-4)


def highway(ctx, agents, others, lanes, initial):
    """The scene of the highway task: agents, then the others, each beyond the ones before."""
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.kinematics import Vehicle
    kind = IDMVehicle if others == 1 else Vehicle
    env = common.env_of("HighwayEnv", dict(other_vehicles_type="%s.%s" % ("highway_env.vehicle.behavior" if others == 1 else "highway_env.vehicle.kinematics", kind.__name__),
                                           lanes_count=lanes, vehicles_count=others, controlled_vehicles=agents, initial_lane_id=initial, vehicles_density=ctx.choose("density", [0.5, 1, 2]),
                                           ego_spacing=ctx.choose("ego spacing", [1, 2])))
    env.np_random = common.Rand(ctx)
    env.action_type = type("A", (), {"vehicle_class": MDPVehicle})()
    env._reset()
    cars = env.road.vehicles
    ctx.check("count", len(cars) == agents + others and env.controlled_vehicles == cars[:agents])
    ctx.check("the road draws from the environment", env.road.np_random is env.np_random)
    ctx.check("lanes", len(env.road.network.graph["0"]["1"]) == lanes)
    shrink = math.exp(-5. / 30 * lanes)
    for k, v in enumerate(cars):
        ctx.check("kind", type(v) is (MDPVehicle if k < agents else kind))
        if k < agents:
            ctx.eq("speed", v.speed, 25.)
            if initial is not None:
                ctx.eq("initial lane", v.position[1], 4. * initial)
        gap = (env.config["ego_spacing"] if k < agents else 1. / env.config["vehicles_density"]) * 1.5 * v.speed * shrink
        for w in cars[:k]:
            ctx.check("separated", v.position[0] - w.position[0] >= 0.9 * gap - 1e-4)
        ctx.check("aligned", m.And(v.heading == 0, m.Or(*[m.absv(v.position[1] - 4. * i) <= 1e-6 for i in range(lanes)])))


def on_lane(ctx, kind, shape):
    from highway_env.road.lane import StraightLane, SineLane, CircularLane
    from highway_env.road.objects import Obstacle, Landmark
    from highway_env.road.road import RoadNetwork
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.kinematics import Vehicle
    cls = dict(Vehicle=Vehicle, IDMVehicle=IDMVehicle, Obstacle=Obstacle, Landmark=Landmark)[kind]
    limit = ctx.choose("limit", [None, 0, 7.5]) if shape == "straight" else 7.5
    lane = dict(straight=lambda: StraightLane([3., 5.], [63., 85.], speed_limit=limit), sine=lambda: SineLane([0., 2.], [100., 2.], 3., 0.1, 0.2, speed_limit=limit),
                circular=lambda: CircularLane([10., 20.], 30., -1., 2., speed_limit=limit))[shape]()
    net = RoadNetwork()
    net.add_lane("a", "b", lane)
    net.get_closest_lane_index = lambda p, h=None: ("a", "b", 0)
    rd = common.road(net)
    s = ctx.real("s", -20, 120)
    if shape == "circular":
        s = ctx.choose("s0", [-5., 0., 10., 40.])
    p, h = lane.position(s, 0), lane.heading_at(s)
    if kind in ("Obstacle", "Landmark"):
        v = cls.make_on_lane(rd, ("a", "b", 0), s)
    else:
        speed = ctx.choose("given", [None, 0, 1])
        speed = ctx.real("speed", 0.5, 40) if speed == 1 else speed
        v = cls.make_on_lane(rd, ("a", "b", 0), s, speed) if ctx.choose("positional", [True, False]) else cls.make_on_lane(rd, ("a", "b", 0), longitudinal=s, speed=speed)
        if speed is not None or limit is not None:
            ctx.eq("speed", v.speed, limit if speed is None else speed)
        if cls is Vehicle:
            w = cls.make_on_lane(rd, ("a", "b", 0), s)
            ctx.eq("at rest by default", w.speed, 0.)
    ctx.check("kind", type(v) is cls and v.road is rd)
    ctx.check("not added by itself", not rd.vehicles and not rd.objects)
    ctx.eq("x", v.position[0], p[0])
    ctx.eq("y", v.position[1], p[1])
    ctx.eq("heading", v.heading, h)


class Script(common.Rand):
    """The first draws in [0, 1] are given, the others inputs."""

    def __init__(self, ctx, first):
        common.Rand.__init__(self, ctx)
        self.first = list(first)

    def rand(self, *size):
        return self.first.pop(0) if self.first and not size else common.Rand.rand(self, *size)


def summon(ctx, others, parked=0):
    """Parked vehicles in their spots (the first ones on the other side), moving ones on the middle lanes, none within 20 m of the agent."""
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.kinematics import Vehicle
    env = common.env_of("SummonEnv", dict(vehicles_count=others))
    env.np_random = Script(ctx, [0.125] * (1 + 2 * parked)) if parked else common.Rand(ctx)
    env.action_type = type("A", (), {"vehicle_class": Vehicle})()
    env._create_road()
    net = env.road.network
    net.get_closest_lane_index = lambda p, h=None: ("d", "e", 0)
    ctx.check("spots", len(net.graph["a"]["b"]) == 15 and len(net.graph["b"]["c"]) == 15)
    n = len(net.graph["d"]["e"])
    env._create_vehicles()
    cars = env.road.vehicles
    ctx.check("agent first", cars[0] is env.vehicle and env.controlled_vehicles == [env.vehicle] and len(cars) <= others + 1)
    a = env.vehicle.position
    spots = [net.get_lane((f, t, i)) for f, t in (("a", "b"), ("b", "c")) for i in range(15)]
    last = net.get_lane(("a", "b", 14))
    q = last.position(4., 0)
    ctx.eq("agent x", a[0], q[0])
    ctx.eq("agent y", a[1], q[1])
    ctx.eq("agent at rest", env.vehicle.speed, 0.)
    taken = []
    for v in cars[1:]:
        d = [v.position[0] - a[0], v.position[1] - a[1]]
        ctx.check("no vehicle within 20 m", d[0] * d[0] + d[1] * d[1] >= 400 - 1e-6)
        if type(v) is Vehicle:
            where = [i for i, l in enumerate(spots) if abs(float(l.position(4., 0)[0]) - float(v.position[0])) < 1e-6 and abs(float(l.position(4., 0)[1]) - float(v.position[1])) < 1e-6]
            ctx.check("parked in its own spot", len(where) == 1 and where[0] not in taken)
            taken += where
            ctx.eq("parked", v.speed, 0.)
        else:
            ctx.check("kind", type(v) is IDMVehicle)
            ctx.eq("slow", v.speed, 2.)
            ctx.check("on a middle lane", any(abs(float(net.get_lane(("d", "e", i)).position(0, 0)[1]) - float(v.position[1])) < 1e-6 for i in range(n)))
    ctx.check("goal", len(env.road.objects) == 1 and env.road.objects[0] is env.goal)
    ctx.check("goal beyond the spots", m.And(m.Or(env.goal.position[0] == -40, env.goal.position[0] == 40), env.goal.position[1] == 0))
    ctx.eq("goal heading", env.goal.heading, 0.)


def cases(tier):
    cs = []
    big = tier == "thorough"
    for kind in ("Vehicle", "IDMVehicle", "MDPVehicle"):
        for lanes in (1, 3) + ((2, 4) if big else ()):
            for earlier in (0, 2) + ((1, 3) if big else ()):
                for given in (("speed", "lane"), ()) + ((("speed",), ("lane",)) if big or kind == "Vehicle" else ()):
                    if kind != "Vehicle" and (lanes, earlier) != (3, 2) and not big:
                        continue
                    cs.append(Case("random-%s-%d-%d-%s" % (kind, lanes, earlier, "".join(g[0] for g in given) or "free"), random_vehicle, dict(kind=kind, lanes=lanes, earlier=earlier, given=given), cost=earlier + 1))
    cs.append(Case("random-many", random_vehicle, dict(kind="Vehicle", lanes=2, earlier=12 if big else 9, given=("speed", "lane")), cost=5))
    for agents, others, lanes, initial in ((1, 1, 2, None), (1, 2, 2, 1), (2, 1, 1, 0), (1, 0, 3, 0)) + (((2, 2, 3, None), (1, 3, 2, 0), (2, 1, 4, 3)) if big else ()):
        cs.append(Case("highway-%d-%d-%d-%s" % (agents, others, lanes, initial), highway, dict(agents=agents, others=others, lanes=lanes, initial=initial), cost=5))
    for kind in ("Vehicle", "IDMVehicle", "Obstacle", "Landmark"):
        for shape in ("straight", "sine", "circular"):
            cs.append(Case("on-lane-%s-%s" % (kind, shape), on_lane, dict(kind=kind, shape=shape)))
    cs += [Case("summon-%d" % n, summon, dict(others=n), cost=4) for n in (1, 2) + ((3,) if big else ())]
    cs.append(Case("summon-crowded", summon, dict(others=13 if big else 12, parked=10), cost=9))
    return cs
