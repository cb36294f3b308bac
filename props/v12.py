"""Copies and predictions: a vehicle made from another one starts in the same state and lives its own life."""
import operator

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("any vehicle state on or beside a two-lane road (position in [-20,220]x[-8,12], heading in [-7,7], speed in [-40,40], target speed in [-40,40]), any target lane and "
          "timer, routes of 0 to 3 steps, all vehicle classes; predictions of one to three actions of one to three time steps each, saved every one to three steps; histories of 2 to 32 states")


def scene(ctx, n=2):
    net = common.straight_net(n, 200.)
    common.add_straight(net, "1", "2", n, 200., 400.)
    return net, common.road(net, np_random=common.Rand(ctx))


def copies(ctx, source, target):
    from highway_env.vehicle import kinematics, controller, behavior, dynamics
    kinds = {"Vehicle": kinematics.Vehicle, "Bicycle": dynamics.BicycleVehicle, "Controlled": controller.ControlledVehicle, "MDP": controller.MDPVehicle,
             "IDM": behavior.IDMVehicle, "Linear": behavior.LinearVehicle, "Aggressive": behavior.AggressiveVehicle,
             "Defensive": behavior.DefensiveVehicle}
    if target == "Interval":
        from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
        T = IntervalVehicle
    else:
        T = kinds[target]
    net, rd = scene(ctx)
    x, y = ctx.real("x", -20, 220), ctx.real("y", -8, 12)
    h, v = ctx.real("h", -7, 7), ctx.real("v", -40, 40)
    o = common.vehicle(kinds[source], rd, [x, y], h, v, ("0", "1", 0))
    rd.vehicles = [o]
    driven = hasattr(o, "target_speed")
    if driven:
        o.target_speed = ctx.choose("stop", [0, 1]) and ctx.real("t", -40, 40)
        o.target_lane_index = ("0", "1", ctx.choose("lane", [0, 1]))
        o.route = ctx.choose("route", [None, [("0", "1", 0)], [("0", "1", 0), ("1", "2", None)]])
        o.route = o.route and list(o.route)
    if hasattr(o, "timer"):
        o.timer = ctx.choose("just", [0, 1]) and ctx.real("timer", 0.001, 2)
    before = (driven and o.target_speed, driven and o.target_lane_index, driven and o.route and list(o.route))
    c = T.create_from(o)
    ctx.check("another vehicle of the wanted class", c is not o and type(c) is T)
    ctx.check("same road", c.road is rd)
    ctx.check("the road is unchanged", rd.vehicles == [o])
    ctx.eq("x", c.position[0], x)
    ctx.eq("y", c.position[1], y)
    ctx.eq("heading", c.heading, h)
    ctx.eq("speed", c.speed, v)
    ctx.check("not crashed", not c.crashed)
    if driven and hasattr(c, "target_speed"):
        ctx.check("target lane", tuple(c.target_lane_index) == o.target_lane_index)
        if target == "MDP":
            ctx.check("closest set-point", c.speed_index == c.speed_to_index(o.target_speed))
            ctx.eq("target speed", c.target_speed, c.index_to_speed(c.speed_index))
        else:
            ctx.eq("target speed", c.target_speed, o.target_speed)
        ctx.check("route", c.route == o.route)
        if c.route is not None and target not in ("MDP",):
            c.route.pop(0)
            c.route += [("5", "6", 0)]
    if hasattr(o, "timer") and hasattr(c, "timer"):
        ctx.eq("timer", c.timer, o.timer)
    # the copy lives its own life
    c.position += m.arr([3., 4.])
    c.heading += 1
    c.speed += 1
    c.action["acceleration"] = 77
    ctx.eq("x stays", o.position[0], x)
    ctx.eq("y stays", o.position[1], y)
    ctx.eq("heading stays", o.heading, h)
    ctx.eq("speed stays", o.speed, v)
    ctx.check("command stays", o.action["acceleration"] == 0)
    if driven:
        ctx.eq("target speed stays", o.target_speed, before[0])
        ctx.check("plan stays", (o.target_lane_index, o.route and list(o.route)) == before[1:])


def history(ctx, plan, steps, save):
    """The predicted states are those the vehicle goes through when it executes the actions."""
    from highway_env.vehicle.controller import MDPVehicle
    net, rd = scene(ctx)
    x, y = ctx.real("x", -20, 180), ctx.real("y", -3, 7)
    h, v = ctx.real("h", -0.3, 0.3), ctx.real("v", 1, 40)
    o = common.mdp_vehicle(rd, [x, y], h, v, ("0", "1", 0), speed_index=ctx.choose("index", [0, 1, 2]))
    o.route = [("0", "1", 0), ("1", "2", None)]
    rd.vehicles = [o]
    o.lane_index = ("0", "1", 0)
    # the model itself is checked elsewhere: here each method is replaced by one that records what happened
    log = []

    class Traced(MDPVehicle):
        def act(self, action=None):
            self.done = getattr(self, "done", ()) + (("act", action),)
            if action is not None:
                MDPVehicle.act(self, action)

        def step(self, dt):
            self.done = getattr(self, "done", ()) + (("step", dt),)
            self.position += m.arr([self.speed * dt, 0.])
            self.speed = self.speed + dt

    o.__class__ = Traced
    dt = 0.125
    got = o.predict_trajectory(plan, steps * dt, save * dt, dt)
    total = len(plan) * steps
    ctx.check("one state per saving period", len(got) == total // save)
    ctx.check("the vehicle did nothing", not hasattr(o, "done"))
    ctx.eq("x stays", o.position[0], x)
    ctx.eq("speed stays", o.speed, v)
    ctx.check("route stays", o.route == [("0", "1", 0), ("1", "2", None)])
    ctx.check("road stays", rd.vehicles == [o])
    ctx.check("states of their own", len({id(s) for s in got} | {id(o)}) == len(got) + 1)
    ctx.check("positions of their own", len({id(s.position) for s in got} | {id(o.position)}) == len(got) + 1)
    # executing the actions
    k, seen = 0, []
    for a in plan:
        o.act(a)
        for _ in range(steps):
            o.act()
            o.step(dt)
            k += 1
            if k % save == 0:
                seen.append((o.position[0], o.position[1], o.speed, o.speed_index, o.target_lane_index,
                             [c for c in o.done if c[0] == "step" or c[1] is not None]))
    for k, (s, w) in enumerate(zip(got, seen)):
        ctx.eq("x %d" % k, s.position[0], w[0])
        ctx.eq("y %d" % k, s.position[1], w[1])
        ctx.eq("speed %d" % k, s.speed, w[2])
        ctx.check("set-point %d" % k, s.speed_index == w[3])
        ctx.check("target lane %d" % k, s.target_lane_index == w[4])
        ctx.check("same commands %d" % k, [c for c in s.done if c[0] == "step" or c[1] is not None] == w[5])
        ctx.check("control before every step %d" % k, all(s.done[j - 1][0] == "act" for j, c in enumerate(s.done) if c[0] == "step"))


def recorded(ctx, kind, n):
    """The last thirty states, latest first, if the road records them; none otherwise."""
    from highway_env.vehicle import kinematics, controller, behavior
    net, rd = scene(ctx)
    rd.record_history = ctx.choose("recorded", [False, True, 1])
    x, v = ctx.real("x", 10, 150), ctx.real("v", -40, 40)
    cls = {"Vehicle": kinematics.Vehicle, "Controlled": controller.ControlledVehicle, "IDM": behavior.IDMVehicle}[kind]
    o = common.vehicle(cls, rd, [x, 4.], 0.1, v, ("0", "1", 1), **(dict(timer=0.5) if kind == "IDM" else {}))
    net.get_closest_lane_index = lambda p, h=None: ("0", "1", 1)
    for k in range(n):
        o.position = m.arr([x + k, 4.])
        o.speed = v + k
        o.on_state_update()
    got = list(o.history)
    if not rd.record_history:
        ctx.check("nothing recorded", not got)
        return
    ctx.check("the last thirty", len(got) == min(n, 30))
    for i, w in enumerate(got):
        k = n - 1 - i
        ctx.check("a copy", w is not o and type(w) is cls and not w.history)
        ctx.eq("x", w.position[0], x + k)
        ctx.eq("y", w.position[1], 4.)
        ctx.eq("speed", w.speed, v + k)
        ctx.eq("heading", w.heading, 0.1)


def cases(tier):
    cs = []
    pairs = [("Vehicle", "Vehicle"), ("Vehicle", "Bicycle"), ("Controlled", "Controlled"), ("MDP", "MDP"), ("Controlled", "MDP"), ("IDM", "IDM"), ("MDP", "IDM"), ("IDM", "Linear"),
             ("Linear", "Linear"), ("IDM", "Aggressive"), ("Linear", "Defensive"), ("Linear", "Interval"), ("IDM", "Vehicle")]
    if tier == "thorough":
        pairs += [("IDM", "MDP"), ("Aggressive", "IDM"), ("Defensive", "Controlled"), ("MDP", "Linear"), ("IDM", "Interval"), ("MDP", "Vehicle")]
    for a, b in pairs:
        cs.append(Case("%s-to-%s" % (a, b), copies, dict(source=a, target=b)))
    for plan, st, sv in ((["FASTER"], 2, 1), (["LANE_RIGHT", "SLOWER"], 2, 2), (["IDLE", "FASTER"], 3, 2)) + \
            (((["FASTER", "LANE_RIGHT", "IDLE"], 2, 3), (["SLOWER", "LANE_RIGHT", "FASTER"], 3, 3)) if tier == "thorough" else ()):
        cs.append(Case("predict-%s-%d-%d" % ("-".join(plan), st, sv), history, dict(plan=plan, steps=st, save=sv), cost=2))
    for kind, ns in (("Vehicle", (2, 32)), ("Controlled", (3,)), ("IDM", (2,))):
        for n in ns:
            cs.append(Case("recorded-%s-%d" % (kind, n), recorded, dict(kind=kind, n=n)))
    return cs
