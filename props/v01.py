"""Kinematics: one step of a vehicle is one step of the slip-angle bicycle model."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("any position in [-1000,1000]^2, any heading in [-7,7], speed in [-60,60], steering in [-1.4,1.4], acceleration in "
          "[-20,20], dt in [0,1]; one step (repeated twice in the history cases); all vehicle classes that inherit the model")

R = 1000


def start(ctx, cls, rd=None, crashed=False):
    x, y = ctx.real("x", -R, R), ctx.real("y", -R, R)
    h, v = ctx.angle("h", -7, 7), ctx.real("v", -60, 60)
    o = common.vehicle(cls, rd, [x, y], h, v)
    d, a = ctx.angle("d", -1.4, 1.4), ctx.real("a", -20, 20)
    o.action = {"steering": d, "acceleration": a}
    return o, x, y, h, v, d, a


def model(ctx, name, x, y, h, v, d, dt, L=5.):
    """tan(beta) = tan(d)/2; returns the new position and sin(beta)"""
    cd, sd = m.cos(d), m.sin(d)
    # cos(d) > 0 on the range: beta's direction is (2 cos d, sin d) normalised
    n = m.sqrt(4 * cd * cd + sd * sd)
    cb, sb = 2 * cd / n, sd / n
    c, s = m.cos(h) * cb - m.sin(h) * sb, m.sin(h) * cb + m.cos(h) * sb
    return x + v * c * dt, y + v * s * dt, h + v * sb * dt / (L / 2)


def step(ctx, which):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    cls = {"vehicle": Vehicle, "controlled": ControlledVehicle, "mdp": MDPVehicle}[which]
    o, x, y, h, v, d, a = start(ctx, Vehicle if which == "vehicle" else cls)
    ctx.assume(m.And(v <= 40, v >= -40))
    dt = ctx.real("dt", 0, 1)
    o.step(dt)
    nx, ny, nh = model(ctx, "", x, y, h, v, d, dt)
    ctx.eq("x", o.position[0], nx)
    ctx.eq("y", o.position[1], ny)
    ctx.eq("heading", o.heading, nh)
    ctx.eq("speed", o.speed, v + a * dt)
    ctx.observe("p", o.position)


def straight(ctx):
    """Without steering the vehicle goes straight, at any speed and over two steps."""
    from highway_env.vehicle.kinematics import Vehicle
    o, x, y, h, v, d, a = start(ctx, Vehicle)
    ctx.assume(m.And(v <= 20, v >= -20))
    dt = ctx.real("dt", 0, 1)
    o.act({"steering": 0, "acceleration": a})
    o.step(dt)
    o.step(dt)
    s = (v + v + a * dt) * dt
    ctx.eq("x", o.position[0], x + s * m.cos(h))
    ctx.eq("y", o.position[1], y + s * m.sin(h))
    ctx.eq("heading", o.heading, h)
    ctx.eq("speed", o.speed, v + 2 * a * dt)


def distance(ctx):
    """The vehicle never moves farther than its speed allows, and a parked one does not move."""
    from highway_env.vehicle.kinematics import Vehicle
    o, x, y, h, v, d, a = start(ctx, Vehicle)
    dt = ctx.real("dt", 0, 1)
    o.step(dt)
    px, py = o.position[0] - x, o.position[1] - y
    ctx.eq("distance", px * px + py * py, v * v * dt * dt)
    ctx.le("turn", m.absv(o.heading - h), m.absv(v) * dt / 2.5)


def hold(ctx):
    """The last command is repeated until another one is given."""
    from highway_env.vehicle.kinematics import Vehicle
    o, x, y, h, v, d, a = start(ctx, Vehicle)
    d2, a2 = ctx.real("d2", -1, 1), ctx.real("a2", -5, 5)
    o.act({"steering": d2, "acceleration": a2})
    o.act()
    ctx.eq("steering kept", o.action["steering"], d2)
    ctx.eq("acceleration kept", o.action["acceleration"], a2)
    o.act(None)
    ctx.eq("steering kept 2", o.action["steering"], d2)


def relocate(ctx):
    """After a step the vehicle is attached to a closest lane of its road."""
    from highway_env.vehicle.kinematics import Vehicle
    net = common.straight_net(3, 200.)
    common.add_straight(net, "1", "2", 1, 200., 300.)
    rd = common.road(net)
    o = common.vehicle(Vehicle, rd, [ctx.real("x", -20, 320), ctx.real("y", -6, 14)], 0., ctx.real("v", -30, 30), ("0", "1", 0))
    o.step(ctx.real("dt", 0, 1))
    ctx.check("lane of the index", o.lane is net.get_lane(o.lane_index))
    best = o.lane.distance(o.position)
    for a in net.graph:
        for b in net.graph[a]:
            for l in net.graph[a][b]:
                ctx.le("closest", best, l.distance(o.position))
    ctx.observe("lane", list(o.lane_index))


def cases(tier):
    cs = [Case("step-" + w, step, dict(which=w)) for w in ("vehicle", "controlled", "mdp")]
    return cs + [Case("straight", straight), Case("distance", distance), Case("hold", hold), Case("relocate", relocate, cost=3)]
