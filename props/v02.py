"""Speed limits and crashes: excess speed decays in both directions, and a crashed vehicle brakes to a stop in a straight line."""
from symx.engine import Case
from symx import m
from . import common
from .v01 import start

BOUNDS = ("any state with speed in [-60,60], any command, dt in [0,1]; kinematic, controlled and dynamic-bicycle vehicles (each with "
          "its own maximum speed); three successive steps for crashed vehicles")


def classes(which):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.controller import ControlledVehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    return {"vehicle": (Vehicle, 40), "controlled": (ControlledVehicle, 40), "bicycle": (BicycleVehicle, 15)}[which]


def slow(cls):
    """A kind of vehicle with its own maximum speed."""
    return type("Slow" + cls.__name__, (cls,), {"MAX_SPEED": 20})


def make(ctx, cls):
    from highway_env.vehicle.dynamics import BicycleVehicle
    if not issubclass(cls, BicycleVehicle):
        return start(ctx, cls)
    h, v = ctx.angle("h", -7, 7), ctx.real("v", -60, 60)
    o = cls(None, m.arr([1., 2.]), 0., 10.)
    o.heading, o.speed = h, v
    d, a = ctx.real("d", -1, 1), ctx.real("a", -20, 20)
    o.action = {"steering": d, "acceleration": a}
    return o, 1., 2., h, v, d, a


def limit(ctx, which):
    cls, top = classes(which)
    if ctx.choose("own maximum", [False, True]):
        cls, top = slow(cls), 20
    o, x, y, h, v, d, a = make(ctx, cls)
    dt = ctx.real("dt", 0, 1)
    o.clip_actions()
    got = o.action["acceleration"]
    if v > top:
        ctx.eq("above the maximum", got, m.mn(a, top - v))
        ctx.check("decelerates", got < 0)
    elif v < -top:
        ctx.eq("below the reverse maximum", got, m.mx(a, -top - v))
        ctx.check("brakes in reverse", got > 0)
    else:
        ctx.eq("command unchanged", got, a)
    ctx.eq("steering unchanged", o.action["steering"], d)
    ctx.observe("a", got)


def stepped(ctx, which):
    """One full step: the excess never grows, and shrinks at least like (1 - dt)."""
    cls, top = classes(which)
    o, x, y, h, v, d, a = make(ctx, cls)
    dt = ctx.real("dt", 0, 1)
    o.step(dt)
    if v > top:
        ctx.le("excess decays", o.speed - top, (v - top) * (1 - dt))
    elif v < -top:
        ctx.le("reverse excess decays", -top - o.speed, (-top - v) * (1 - dt))
    else:
        ctx.eq("speed", o.speed, v + a * dt)


def crash(ctx, which):
    cls, top = classes(which)
    o, x, y, h, v, d, a = make(ctx, cls)
    ctx.assume(m.And(v <= top, v >= -top))
    o.crashed = True
    dt = ctx.real("dt", 0, 1)
    for k in (1, 2, 3):
        o.action = {"steering": d, "acceleration": a}      # whatever is asked
        o.step(dt)
        v = v * (1 - dt)
        ctx.eq("speed %d" % k, o.speed, v)
        if which != "bicycle":
            ctx.eq("heading %d" % k, o.heading, h)
    if which != "bicycle":
        dx, dy = o.position[0] - x, o.position[1] - y
        ctx.eq("straight line", dx * m.sin(h), dy * m.cos(h))


def cases(tier):
    return [Case("%s-%s" % (n, w), f, dict(which=w)) for n, f in (("limit", limit), ("stepped", stepped), ("crash", crash))
            for w in ("vehicle", "controlled", "bicycle")]
