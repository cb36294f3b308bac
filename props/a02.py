"""Discrete meta-actions: labels, what they command, and which are available."""
import operator

from symx.engine import Case
from symx import m
from . import common
from .v05 import FreeLane

BOUNDS = ("roads of 1 to 4 lanes, any forbidden lanes, the vehicle on any of them at any position in [-20,120] x [-12,16], any speed in [-10,60], grids of 1 to 5 set-points; "
          "longitudinal, lateral and both kinds of action sets")

ALL = {0: "LANE_LEFT", 1: "IDLE", 2: "LANE_RIGHT", 3: "FASTER", 4: "SLOWER"}
LONGI = {0: "SLOWER", 1: "IDLE", 2: "FASTER"}
LAT = {0: "LANE_LEFT", 1: "IDLE", 2: "LANE_RIGHT"}


def table(longitudinal, lateral):
    return ALL if longitudinal and lateral else LONGI if longitudinal else LAT


def forwarded(ctx, longitudinal, lateral):
    from highway_env.envs.common.action import action_factory
    from highway_env.vehicle.controller import MDPVehicle
    seen = []
    cars = [type("V", (), {"act": lambda self, a: seen.append((self, a))})() for _ in range(2)]
    env = common.env_of("HighwayEnv", vehicles=cars)
    at = action_factory(env, dict(type="DiscreteMetaAction", longitudinal=longitudinal, lateral=lateral))
    t = table(longitudinal, lateral)
    ctx.check("space", at.space().n == len(t) and at.vehicle_class is MDPVehicle)
    ctx.check("labels", at.actions == t and at.actions_indexes == {b: a for a, b in t.items()})
    if ctx.choose("driven", [0, 1]):
        at.controlled_vehicle = cars[1]
        me = cars[1]
    else:
        me = cars[0]
    k = ctx.choose("action", sorted(t))
    at.act(k)
    ctx.check("forwarded once to the driven vehicle", len(seen) == 1 and seen[0][0] is me and seen[0][1] == t[k])


def reachable(net, idx, forbidden, p, length):
    lat = m.absv(p[1] - 4. * idx)
    return m.And(idx not in forbidden, lat <= 8., p[0] >= 0, p[0] < length + 5)


def available(ctx, lanes, longitudinal, lateral, count):
    """The actions offered are exactly those that can have an effect on a vehicle that has settled."""
    from highway_env.envs.common.action import action_factory
    from highway_env.vehicle.controller import MDPVehicle
    forbidden = ctx.choose("forbidden", [(), (0,), (lanes - 1,)] if lanes > 1 else [(), (0,)])
    net = common.straight_net(lanes, 100., forbidden=forbidden)
    rd = common.road(net)
    lane = ctx.choose("lane", range(lanes))
    cls = type("Grid", (MDPVehicle,), dict(SPEED_COUNT=count, SPEED_MIN=ctx.real("low", 0, 20), SPEED_MAX=ctx.real("high", 21, 40)))
    index = ctx.choose("index", range(count))
    p = [ctx.real("x", -20, 120), ctx.real("y", -12, 16)]
    for b in (0., 105.):
        ctx.assume(m.absv(p[0] - b) > 1e-3)
    ctx.assume(m.absv(p[0] - 97.5) > 1e-3)
    for i in range(lanes):
        ctx.assume(m.absv(m.absv(p[1] - 4. * i) - 8.) > 1e-3)
    v = common.mdp_vehicle(rd, p, 0., ctx.real("v", -10, 60), ("0", "1", lane), speed_index=index, cls=cls)
    rd.vehicles = [v]
    env = common.env_of("HighwayEnv", road=rd, vehicles=[v])
    env.action_type = action_factory(env, dict(type="DiscreteMetaAction", longitudinal=longitudinal, lateral=lateral))
    t = table(longitudinal, lateral)
    got = env.get_available_actions()
    ctx.check("no duplicates", len(set(got)) == len(got) and all(a in t for a in got))
    labels = [t[a] for a in got]
    ctx.check("IDLE", "IDLE" in labels)
    for label, i in (("LANE_LEFT", lane - 1), ("LANE_RIGHT", lane + 1)):
        if lateral and 0 <= i < lanes:
            ctx.check(label, m.iff(label in labels, reachable(net, i, forbidden, p, 100.)))
        else:
            ctx.check("no " + label, label not in labels)
    ctx.check("FASTER", ("FASTER" in labels) == (longitudinal and index < count - 1))
    ctx.check("SLOWER", ("SLOWER" in labels) == (longitudinal and index > 0))
    # what is not offered has no effect once the vehicle has reached its set-point and lane
    v.speed = v.index_to_speed(index)
    v.steering_control = v.speed_control = lambda *a: 0.
    for a in sorted(t):
        before = (v.target_lane_index, v.speed_index)
        v.act("IDLE")
        idle = (v.target_lane_index, v.speed_index)
        if t[a] in labels or bool(p[0] > 97.5):
            v.target_lane_index, v.speed_index = before
            v.target_speed = v.index_to_speed(before[1])
            continue
        v.target_lane_index, v.speed_index = before
        v.act(t[a])
        ctx.check("%s would have no effect" % t[a], v.target_lane_index[:2] == idle[0][:2] and operator.index(v.target_lane_index[2]) == operator.index(idle[0][2])
                  and operator.index(v.speed_index) == operator.index(idle[1]))
        v.target_lane_index, v.speed_index = before
        v.target_speed = v.index_to_speed(before[1])


def refused(ctx):
    from highway_env.envs.common.action import action_factory
    rd = common.road(common.straight_net(1, 100.))
    v = common.mdp_vehicle(rd, [0., 0.], 0., 20., ("0", "1", 0))
    env = common.env_of("HighwayEnv", road=rd, vehicles=[v])
    env.action_type = action_factory(env, {"type": ctx.choose("type", ["ContinuousAction"])})
    try:
        env.get_available_actions()
    except ValueError:
        return
    ctx.fail("continuous actions have no list of available ones")


def cases(tier):
    cs = [Case("refused", refused)]
    for lo, la in ((True, True), (True, False), (False, True)):
        cs.append(Case("forwarded-%d%d" % (lo, la), forwarded, dict(longitudinal=lo, lateral=la)))
        for lanes in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
            for count in (2, 3) + ((4, 5) if tier == "thorough" else ()):
                if (lo, la) == (True, True) or (lanes, count) in ((1, 2), (3, 2)):
                    cs.append(Case("available-%d%d-%dlanes-%dspeeds" % (lo, la, lanes, count), available, dict(lanes=lanes, longitudinal=lo, lateral=la, count=count), cost=lanes))
    return cs
