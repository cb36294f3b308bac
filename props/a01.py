"""Continuous actions: what the driven vehicle is commanded for any action vector."""
import numpy as np

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("any action components in [-10,10], any ranges with bounds in [-20,20], every combination of longitudinal, lateral, clipping, dynamical and default or given ranges; "
          "two actions in a row, two agents")


def axes(ctx, longitudinal, lateral, given, clip=True, dynamical=False):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    from highway_env.envs.common.action import ContinuousAction, action_factory
    kw = {}
    acc, steer = (-5, 5.0), (-m.pi / 4, m.pi / 4)
    if given:
        acc = (ctx.real("a0", -20, 20), ctx.real("a1", -20, 20))
        steer = (ctx.real("s0", -20, 20), ctx.real("s1", -20, 20))
        kw = dict(acceleration_range=acc, steering_range=steer)
    if not clip:
        kw["clip"] = False
    rd = common.road(common.straight_net(1, 100.))
    cls = BicycleVehicle if dynamical else Vehicle
    cars = [common.vehicle(cls, rd, [10., 0.], 0., 5., ("0", "1", 0)) for _ in range(2)]
    old = {"steering": ctx.real("old_s", -1, 1), "acceleration": ctx.real("old_a", -5, 5)}
    for c in cars:
        c.action = dict(old)
    env = common.env_of("ParkingEnv", road=rd, vehicles=cars)
    at = action_factory(env, dict(type="ContinuousAction", longitudinal=longitudinal, lateral=lateral, dynamical=dynamical, **kw))
    ctx.check("kind", isinstance(at, ContinuousAction) and at.vehicle_class is cls)
    n = int(longitudinal) + int(lateral)
    sp = at.space()
    ctx.check("space", sp.shape == (n,) and (sp.low == -1).all() and (sp.high == 1).all())
    ctx.check("no action yet", at.last_action.shape == (n,) and not at.last_action.any())
    which = 0
    if ctx.choose("driven", [0, 1]):
        at.controlled_vehicle = cars[1]
        which = 1
    for turn in range(2):
        u = [ctx.real("u%d_%d" % (turn, k), -10, 10) for k in range(n)]
        a = m.arr(list(u))
        at.act(a)
        for k in range(n):
            ctx.eq("action vector untouched", a[k], u[k])
        w = [m.clip(x, -1, 1) for x in u] if clip else u
        want_a = acc[0] + (w[0] + 1) * (acc[1] - acc[0]) / 2 if longitudinal else 0
        want_s = steer[0] + (w[n - 1] + 1) * (steer[1] - steer[0]) / 2 if lateral else 0
        got = cars[which].action
        ctx.eq("acceleration %d" % turn, got["acceleration"], want_a)
        ctx.eq("steering %d" % turn, got["steering"], want_s)
        ctx.check("command", sorted(got) == ["acceleration", "steering"])
        if clip and not given:
            ctx.check("within the ranges", m.And(m.absv(got["acceleration"]) <= 5 + 1e-9, m.absv(got["steering"]) <= m.pi / 4 + 1e-9))
        for k in range(n):
            ctx.eq("last action", at.last_action[k], w[k])
        other = cars[1 - which].action
        ctx.eq("the other vehicle keeps its acceleration", other["acceleration"], old["acceleration"])
        ctx.eq("the other vehicle keeps its steering", other["steering"], old["steering"])
        for v in cars:
            ctx.check("nothing moves yet", m.And(v.position[0] == 10., v.position[1] == 0., v.speed == 5., v.heading == 0.))


def subclass(ctx):
    """Ranges come from the action type in use."""
    from highway_env.envs.common.action import ContinuousAction
    from highway_env.vehicle.kinematics import Vehicle

    class Gentle(ContinuousAction):
        ACCELERATION_RANGE = (-3., 1.)
        STEERING_RANGE = (-0.25, 0.5)

    rd = common.road(common.straight_net(1, 100.))
    v = common.vehicle(Vehicle, rd, [10., 0.], 0., 5., ("0", "1", 0))
    at = Gentle(common.env_of("ParkingEnv", road=rd, vehicles=[v]))
    a, s = ctx.real("a", -3, 3), ctx.real("s", -3, 3)
    at.act(m.arr([a, s]))
    ctx.eq("acceleration", v.action["acceleration"], -1. + 2. * m.clip(a, -1, 1))
    ctx.eq("steering", v.action["steering"], 0.125 + 0.375 * m.clip(s, -1, 1))


def neither(ctx):
    from highway_env.envs.common.action import ContinuousAction, DiscreteMetaAction, action_factory
    env = common.env_of("ParkingEnv")
    for cls in (ContinuousAction, DiscreteMetaAction):
        try:
            cls(env, longitudinal=False, lateral=False)
        except ValueError:
            continue
        ctx.fail("an action without any axis was accepted")
    try:
        action_factory(env, {"type": ctx.choose("type", ["", "Continuous", "discrete"])})
    except ValueError:
        return
    ctx.fail("an unknown action type was accepted")


def executed(ctx, longitudinal, lateral):
    """Through a policy step: the command is what the vehicle executes at every simulation step."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.envs.common.action import ContinuousAction
    rd = common.road(common.straight_net(1, 1000.))
    v = common.vehicle(Vehicle, rd, [100., 0.], 0., ctx.real("v", -20, 20), ("0", "1", 0))
    v.on_state_update = lambda: None
    rd.vehicles = [v]
    env = common.env_of("ParkingEnv", config=dict(simulation_frequency=10, policy_frequency=5), road=rd, vehicles=[v])
    env._is_terminal = lambda: False
    env.action_type = ContinuousAction(env, longitudinal=longitudinal, lateral=lateral)
    n = int(longitudinal) + int(lateral)
    v0 = v.speed
    speed = v0
    for turn in range(2):
        u = [ctx.real("u%d_%d" % (turn, k), -3, 3) for k in range(n)]
        env._simulate(m.arr(list(u)))
        speed = speed + (0.1 * 2 * 5 * m.clip(u[0], -1, 1) if longitudinal else 0)
        ctx.eq("speed after step %d" % turn, v.speed, speed)
        if not lateral:
            ctx.eq("straight", v.heading, 0.)


def cases(tier):
    cs = []
    for lo, la in ((True, True), (True, False), (False, True)):
        for given in (False, True):
            for clip in (True, False):
                cs.append(Case("axes-%d%d%d%d" % (lo, la, given, clip), axes, dict(longitudinal=lo, lateral=la, given=given, clip=clip)))
        cs.append(Case("axes-dynamical-%d%d" % (lo, la), axes, dict(longitudinal=lo, lateral=la, given=False, dynamical=True)))
    cs.append(Case("other-ranges", subclass))
    cs += [Case("neither", neither), Case("executed", executed, dict(longitudinal=True, lateral=False))]
    if tier == "thorough":
        cs.append(Case("executed-both", executed, dict(longitudinal=True, lateral=True), cost=4))
    return cs
