"""Modified copies of an environment."""
import operator

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("a two-lane road of two sections with an ego and two others (thorough three) of mixed kinds at any longitudinal position in [0,400] and lateral offsets on the lanes, any speeds, target speeds, routes and crash flags; "
          "highway, intersection and merge environments; a viewer present or not; two agents (simplified copies)")


class Viewer(object):
    """Stands for a window: must not be copied."""

    def __deepcopy__(self, memo):
        raise RuntimeError("the viewer was copied")


def build(ctx, n, name="HighwayEnv", kinds=None):
    from highway_env.envs.common.action import action_factory
    from highway_env.envs.common.observation import observation_factory
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle
    net = common.straight_net(2, 200.)
    common.add_straight(net, "1", "2", 2, 200., 400.)
    common.add_straight(net, "1", "3", 1, 200., 400., y0=8.)
    rd = common.road(net, np_random=common.Rand(ctx))
    e = common.mdp_vehicle(rd, [ctx.real("x", 0, 200), 0.], 0., ctx.real("v", 0, 40), ("0", "1", 0), route=[("0", "1", 0), ("1", "2", None)])
    cars = [e]
    for k in range(n):
        kind = (kinds or ["IDMVehicle", "Vehicle", "LinearVehicle"])[k % 3]
        cls = dict(IDMVehicle=IDMVehicle, Vehicle=Vehicle, LinearVehicle=LinearVehicle)[kind]
        v = common.vehicle(cls, rd, [ctx.real("x%d" % k, 0, 200), 4. * (k % 2)], 0., 20., ("0", "1", k % 2))
        v.speed = ctx.real("v%d" % k, 0, 40)
        v.crashed = ctx.choose("crashed%d" % k, [False, True])
        if kind != "Vehicle":
            v.target_speed = ctx.real("target%d" % k, 0, 40)
            v.route = ctx.choose("route%d" % k, [[("0", "1", 1), ("1", "2", None)], None])
            if not v.route:     # heading for the next road, or changing lanes
                v.target_lane_index = ("1", "2", 0) if k == 0 else ("0", "1", 1 - k % 2)
        cars.append(v)
    rd.vehicles = cars[1:2] + [e] + cars[2:]
    rd.objects = [Obstacle(rd, m.arr([150., 4.]))]
    env = common.env_of(name, road=rd, vehicles=[e])
    env.viewer = ctx.choose("viewer", [None, Viewer()])
    env.automatic_rendering_callback = Viewer()
    env.action_type = action_factory(env, {"type": "DiscreteMetaAction"})
    env.observation_type = observation_factory(env, {"type": "Kinematics"})
    env.steps = ctx.int("steps", 0, 100)
    return env


KEYS = ["heading", "speed", "crashed", "lane_index", "target_lane_index", "target_speed", "speed_index", "route", "LANE_CHANGE_MAX_BRAKING_IMPOSED", "timer", "COLOR"]


def state(v):
    d = {k: getattr(v, k, "none") for k in KEYS}
    d["route"] = list(d["route"]) if isinstance(d["route"], list) else d["route"]
    return d, (v.position[0], v.position[1])


def compare(ctx, what, v, s, but=()):
    now, pos = state(v)
    ctx.eq(what + " x", pos[0], s[1][0])
    ctx.eq(what + " y", pos[1], s[1][1])
    for k in KEYS:
        if k in but:
            continue
        a, b = now[k], s[0][k]
        if k in ("heading", "speed", "target_speed", "timer") and "none" not in (a if isinstance(a, str) else "", b if isinstance(b, str) else "") and a is not None:
            ctx.eq("%s %s" % (what, k), a, b)
        else:
            ctx.check("%s %s" % (what, k), a == b)


def separate(ctx, env, other, vehicles, states):
    """The original is as it was and the copy is on its own, consistently linked."""
    ctx.check("a new environment", other is not env and type(other) is type(env))
    ctx.check("the original keeps its vehicles", len(env.road.vehicles) == len(vehicles) and all(a is b for a, b in zip(env.road.vehicles, vehicles)))
    for v, s in zip(vehicles, states):
        compare(ctx, "original", v, s)
    ctx.check("own road", other.road is not env.road and other.road.network is not env.road.network and other.config is not env.config)
    for v in other.road.vehicles:
        ctx.check("own vehicles", not any(v is w for w in vehicles))
        ctx.check("on their own road", v.road is other.road)
    ctx.check("own objects", all(not any(o is p for p in env.road.objects) for o in other.road.objects) and len(other.road.objects) == len(env.road.objects))
    ctx.check("the agent is on the road", sum(v is other.vehicle for v in other.road.vehicles) == 1 and len(other.controlled_vehicles) == 1)
    ctx.check("observes and drives its own agent", other.observation_type.observer_vehicle is other.vehicle and other.action_type.controlled_vehicle is other.vehicle)
    ctx.check("acts on itself", other.observation_type.env is other and other.action_type.env is other)
    ctx.check("no window", other.viewer is None and other.automatic_rendering_callback is None)
    ctx.check("counters", other.steps == env.steps)


def prepared(ctx, n, **kw):
    env = build(ctx, n, **kw)
    vehicles = list(env.road.vehicles)
    return env, vehicles, [state(v) for v in vehicles]


def copied(ctx, n):
    import copy
    env, vehicles, states = prepared(ctx, n)
    other = copy.deepcopy(env)
    separate(ctx, env, other, vehicles, states)
    ctx.check("as many", len(other.road.vehicles) == len(vehicles))
    for v, s in zip(other.road.vehicles, states):
        compare(ctx, "copy", v, s)
    # acting on the copy leaves the original alone
    for v in other.road.vehicles:
        v.position[0] += 1.
        v.speed = 0.
        if getattr(v, "route", None):
            v.route.pop(0)
    other.road.vehicles.pop()
    other.config["duration"] = -1
    ctx.check("own configuration", env.config.get("duration") != -1)
    ctx.check("the original keeps its vehicles", len(env.road.vehicles) == len(vehicles))
    for v, s in zip(vehicles, states):
        compare(ctx, "original", v, s)


def simplified(ctx, n):
    env, vehicles, states = prepared(ctx, n)
    e = env.vehicle
    env.PERCEPTION_DISTANCE = d = ctx.real("distance", 20, 180)
    for v in vehicles:
        if v is not e:
            dx, dy = v.position[0] - e.position[0], v.position[1] - e.position[1]
            ctx.assume(m.absv(dx * dx + dy * dy - d * d) > 0.01)
    other = env.simplify()
    separate(ctx, env, other, vehicles, states)
    ctx.check("agent first", other.road.vehicles[0] is other.vehicle)
    compare(ctx, "agent", other.vehicle, state(e))
    near = [v for v in vehicles if v is not e and bool((v.position[0] - e.position[0]) ** 2 + (v.position[1] - e.position[1]) ** 2 < d * d)]
    ctx.check("the close ones only", len(other.road.vehicles) == 1 + len(near))
    for v in near:
        ctx.check("every close one", m.Or(*[m.And(w.position[0] == v.position[0], w.position[1] == v.position[1], type(w) is type(v)) for w in other.road.vehicles[1:]]))


def crowd(ctx, n):
    """However many are close, all are kept."""
    from highway_env.vehicle.kinematics import Vehicle
    env = build(ctx, 0)
    e = env.vehicle
    e.position = m.arr([ctx.real("ego", 0, 60), 0.])
    d = env.PERCEPTION_DISTANCE = ctx.real("distance", 20, 180)
    for k in range(n):
        env.road.vehicles.append(common.vehicle(Vehicle, env.road, [8. * k, 0.], 0., 20., ("0", "1", 0)))
        ctx.assume(m.absv(m.absv(e.position[0] - 8. * k) - d) > 1e-3)
    other = env.simplify()
    near = [k for k in range(n) if bool(m.absv(e.position[0] - 8. * k) < d)]
    ctx.check("all close ones", sorted(float(v.position[0]) for v in other.road.vehicles[1:]) == [8. * k for k in near] and other.road.vehicles[0] is other.vehicle)


def agents(ctx):
    """Another agent is kept like any other vehicle, once, if it is close."""
    from highway_env.vehicle.kinematics import Vehicle
    env = build(ctx, 0)
    e = env.vehicle
    e.position = m.arr([ctx.real("ego", 0, 60), 0.])
    d = env.PERCEPTION_DISTANCE = ctx.real("distance", 20, 170)
    xs = [ctx.real("second", 61, 130), ctx.real("other", 131, 200)]
    second = common.mdp_vehicle(env.road, [xs[0], 0.], 0., 20., ("0", "1", 0))
    plain = common.vehicle(Vehicle, env.road, [xs[1], 0.], 0., 20., ("0", "1", 0))
    env.road.vehicles = [plain, second, e]
    env.controlled_vehicles = [e, second]
    for x in xs:
        ctx.assume(m.absv(x - e.position[0] - d) > 1e-3)
    near = [x for x in xs if bool(x - e.position[0] < d)]
    other = env.simplify()
    ctx.check("agents", len(other.controlled_vehicles) == 2 and other.vehicle is other.controlled_vehicles[0] and other.controlled_vehicles[1] is not second)
    on = other.road.vehicles
    ctx.check("the agent first, the close ones once", len(on) == 1 + len(near) == len({id(v) for v in on}) and on[0] is other.vehicle)
    for x in near:
        ctx.check("every close one", m.Or(*[v.position[0] == x for v in on[1:]]))
    ctx.check("the other agent is the one on the road", any(v is other.controlled_vehicles[1] for v in on) == (len(near) > 0))


def changed(ctx, n, kind):
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    from highway_env.vehicle.kinematics import Vehicle
    path = dict(IDMVehicle="highway_env.vehicle.behavior.IDMVehicle", LinearVehicle="highway_env.vehicle.behavior.LinearVehicle", Vehicle="highway_env.vehicle.kinematics.Vehicle")[kind]
    cls = dict(IDMVehicle=IDMVehicle, LinearVehicle=LinearVehicle, Vehicle=Vehicle)[kind]
    env, vehicles, states = prepared(ctx, n, kinds=["IDMVehicle", "LinearVehicle", "IDMVehicle"])
    env.road.network.get_closest_lane_index = Closest()
    other = env.change_vehicles(path)
    separate(ctx, env, other, vehicles, states)
    ctx.check("as many", len(other.road.vehicles) == len(vehicles))
    for v, w, s in zip(vehicles, other.road.vehicles, states):
        if v is env.vehicle:
            ctx.check("the agent stays what it is", type(w) is type(v) and w is other.vehicle)
            compare(ctx, "agent", w, s)
        else:
            ctx.check("changed", type(w) is cls)
            compare(ctx, "changed", w, s, but=("crashed", "COLOR", "timer") + (("target_lane_index", "target_speed", "route", "LANE_CHANGE_MAX_BRAKING_IMPOSED") if kind == "Vehicle" else ()))


class Closest(object):
    def __deepcopy__(self, memo):
        return self

    def __call__(self, position, heading=None):
        return ("0", "1", 1) if bool(position[1] > 2) else ("0", "1", 0)


def preferred(ctx, n):
    from highway_env.vehicle.behavior import IDMVehicle
    env, vehicles, states = prepared(ctx, n)
    lane = ctx.choose("lane", [None, 0, 1])
    other = env.set_preferred_lane() if lane is None and ctx.choose("omitted", [False, True]) else env.set_preferred_lane(lane)
    separate(ctx, env, other, vehicles, states)
    for v, w, s in zip(vehicles, other.road.vehicles, states):
        if lane is None or not isinstance(v, IDMVehicle):
            compare(ctx, "left alone", w, s)
            continue
        compare(ctx, "other fields", w, s, but=("route", "LANE_CHANGE_MAX_BRAKING_IMPOSED"))
        ctx.check("the same roads on the preferred lane", [tuple(r) for r in w.route] == [(r[0], r[1], lane) for r in (s[0]["route"] or [v.lane_index])])
        ctx.check("not afraid to impose braking", w.LANE_CHANGE_MAX_BRAKING_IMPOSED >= 100)


def field(ctx, n):
    env, vehicles, states = prepared(ctx, n)
    name = ctx.choose("field", ["crashed", "target_speed", "new_field"])
    value = ctx.choose("crash", [True, False]) if name == "crashed" else ctx.real("value", 0, 50)
    agent = getattr(env.vehicle, name, "none")
    other = env.set_vehicle_field((name, value))
    separate(ctx, env, other, vehicles, states)
    for v, w, s in zip(vehicles, other.road.vehicles, states):
        if v is env.vehicle:
            compare(ctx, "agent", w, s)
            ctx.check("the agent keeps its own", (getattr(w, name, "none") is agent) or bool(getattr(w, name, "none") == agent))
        else:
            compare(ctx, "other fields", w, s, but=(name,))
            ctx.eq("set", getattr(w, name), value) if name != "crashed" else ctx.check("set", w.crashed == value)


def routed(ctx, n):
    from highway_env.vehicle.behavior import IDMVehicle
    env, vehicles, states = prepared(ctx, n)
    to = ctx.choose("to", [0, 1, 2, "random"])
    other = env.set_route_at_intersection(to)
    separate(ctx, env, other, vehicles, states)
    for v, w, s in zip(vehicles, other.road.vehicles, states):
        if not isinstance(v, IDMVehicle):
            compare(ctx, "left alone", w, s)
            continue
        compare(ctx, "other fields", w, s, but=("route",))
        options = v.get_routes_at_intersection()
        if to == "random":
            ctx.check("one of the routes", any(list(w.route or []) == list(o) for o in options) if options else w.route == s[0]["route"])
        else:
            ctx.check("the chosen route", list(w.route or []) == list(options[to % len(options)]) if options else w.route == s[0]["route"])


def called(ctx, n):
    env, vehicles, states = prepared(ctx, n)
    dest = ctx.choose("destination", ["2", "3"])
    other = env.call_vehicle_method(("plan_route_to", [dest]))
    separate(ctx, env, other, vehicles, states)
    for v, w, s in zip(vehicles, other.road.vehicles, states):
        ctx.check("the same vehicles", type(v) is type(w))
        if hasattr(v, "plan_route_to"):
            compare(ctx, "other fields", w, s, but=("route",))
            ctx.check("planned", w.route == [v.lane_index, ("1", dest, None)])
        else:
            compare(ctx, "left alone", w, s)


def called_quietly(ctx, n):
    """Methods that return nothing."""
    env, vehicles, states = prepared(ctx, n)
    to = ctx.choose("to", [0, 1])
    other = env.call_vehicle_method(("set_route_at_intersection", [to]))
    ctx.check("vehicles remain", all(w is not None for w in other.road.vehicles) and len(other.road.vehicles) == len(vehicles))
    separate(ctx, env, other, vehicles, states)
    for v, w, s in zip(vehicles, other.road.vehicles, states):
        ctx.check("the same vehicles", type(v) is type(w))
        compare(ctx, "other fields", w, s, but=("route",))
        if hasattr(v, "set_route_at_intersection"):
            options = v.get_routes_at_intersection()
            ctx.check("the chosen route", list(w.route or []) == list(options[to % len(options)]) if options else w.route == s[0]["route"])


def randomized(ctx, n):
    from highway_env.vehicle.behavior import LinearVehicle
    env, vehicles, states = prepared(ctx, n, kinds=["LinearVehicle", "Vehicle", "IDMVehicle"])
    before = [getattr(v, "ACCELERATION_PARAMETERS", None) for v in vehicles]
    other = env.randomize_behaviour()
    separate(ctx, env, other, vehicles, states)
    for v, w, s, b in zip(vehicles, other.road.vehicles, states, before):
        compare(ctx, "state", w, s)
        if isinstance(v, LinearVehicle):
            ctx.check("own parameters", w.ACCELERATION_PARAMETERS is not v.ACCELERATION_PARAMETERS)
            ctx.check("the original keeps its parameters", v.ACCELERATION_PARAMETERS is b and LinearVehicle.ACCELERATION_PARAMETERS is not w.ACCELERATION_PARAMETERS)
            for name, rng in (("ACCELERATION_PARAMETERS", v.ACCELERATION_RANGE), ("STEERING_PARAMETERS", v.STEERING_RANGE)):
                p = getattr(w, name)
                for i in range(len(p)):
                    lo, hi = min(float(rng[0][i]), float(rng[1][i])), max(float(rng[0][i]), float(rng[1][i]))
                    ctx.check("%s within its range" % name, m.And(p[i] >= lo - 1e-6, p[i] <= hi + 1e-6))


def cases(tier):
    n = 2 if tier == "quick" else 3
    cs = [Case("copy", copied, dict(n=n)), Case("simplify", simplified, dict(n=n)), Case("preferred-lane", preferred, dict(n=n)), Case("field", field, dict(n=n)),
          Case("route", routed, dict(n=n)), Case("call", called, dict(n=n)), Case("call-quietly", called_quietly, dict(n=n)), Case("randomize", randomized, dict(n=n))]
    cs += [Case("simplify-agents", agents)]
    cs += [Case("simplify-crowd", crowd, dict(n=8 if tier == "quick" else 15))]
    cs += [Case("change-" + k, changed, dict(n=n, kind=k)) for k in ("IDMVehicle", "LinearVehicle", "Vehicle")]
    return cs
