"""Dynamic bicycle: the lateral dynamics with tyre slip, its Euler step and its linearisation."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("any position, heading in [-7,7], longitudinal speed in [-15,15] (away from exactly +-1), lateral speed in [-10,10], yaw rate in [-6,6] (clipping: [-20,20]), "
          "steering in [-1.5,1.5], acceleration in [-10,10], dt in [0,0.5]; the default vehicle and a subclass with other mass, axle distances and tyres")

DEFAULT = dict(MASS=1., A=2.5, B=2.5, IZ=1 / 12. * (25. + 3 * 4.), FF=15., FR=15.)
LOADED = dict(MASS=2., A=1.5, B=3., IZ=6., FF=20., FR=32.)      # a subclass with other masses, axles and tyres


def car(p):
    from highway_env.vehicle.dynamics import BicycleVehicle
    if p is DEFAULT:
        return BicycleVehicle(None, [0., 0.], 0., 5.)

    class Loaded(BicycleVehicle):
        MASS, LENGTH_A, LENGTH_B, INERTIA_Z, FRICTION_FRONT, FRICTION_REAR = p["MASS"], p["A"], p["B"], p["IZ"], p["FF"], p["FR"]
    return Loaded(None, [0., 0.], 0., 5.)


def start(ctx, vlo=-15., vhi=15., p=DEFAULT, ylim=6., dlim=1.5):
    x, y = ctx.real("x", -100, 100), ctx.real("y", -100, 100)
    h, v = ctx.angle("h", -7, 7), ctx.real("v", vlo, vhi)
    lat, yaw = ctx.real("lat", -10, 10), ctx.real("yaw", -ylim, ylim)
    o = car(p)
    o.position = m.arr([x, y])
    o.heading, o.speed, o.lateral_speed, o.yaw_rate = h, v, lat, yaw
    d, a = ctx.real("d", -dlim, dlim), ctx.real("a", -10, 10)
    o.action = {"steering": d, "acceleration": a}
    return o, x, y, h, v, lat, yaw, d, a


def slip(lat, yaw, v, p):
    from symx import shim
    at2 = shim.OVERRIDES["arctan2"]
    return at2(lat + p["A"] * yaw, v), at2(lat - p["B"] * yaw, v)


def accelerations(v, lat, yaw, d, p=DEFAULT, slips=slip):
    tf, tr = slips(lat, yaw, v, p)
    fy, ry = 2 * p["FF"] * (d - tf), 2 * p["FR"] * (0 - tr)
    return (fy + ry) / p["MASS"] - yaw * v, (p["A"] * fy - p["B"] * ry) / p["IZ"]


def derivative(ctx, lo, hi, p=DEFAULT):
    o, x, y, h, v, lat, yaw, d, a = start(ctx, lo, hi, p)
    got = o.derivative
    c, s = m.cos(h), m.sin(h)
    ctx.check("six components", got.shape == (6, 1))
    ctx.eq("dx", got[0, 0], v * c - lat * s)
    ctx.eq("dy", got[1, 0], v * s + lat * c)
    ctx.eq("dheading", got[2, 0], yaw)
    ctx.eq("dspeed", got[3, 0], a)
    dl, dy = accelerations(v, lat, yaw, d, p)
    ctx.eq("dlateral", got[4, 0], dl)
    ctx.eq("dyaw", got[5, 0], dy)


def slow(ctx):
    """At low speed lateral speed and yaw rate are damped."""
    o, x, y, h, v, lat, yaw, d, a = start(ctx, -0.999, 0.999)
    got = o.derivative
    ctx.eq("lateral damping", got[4, 0], -2 * lat - yaw * v)
    ctx.eq("yaw damping", got[5, 0], -2 * yaw)


def euler(ctx, lo, hi):
    o, x, y, h, v, lat, yaw, d, a = start(ctx, lo, hi)
    dt = ctx.real("dt", 0, 0.5)
    dl, dy = accelerations(v, lat, yaw, d)
    o.step(dt)
    c, s = m.cos(h), m.sin(h)
    ctx.eq("x", o.position[0], x + (v * c - lat * s) * dt)
    ctx.eq("y", o.position[1], y + (v * s + lat * c) * dt)
    ctx.eq("heading", o.heading, h + yaw * dt)
    ctx.eq("speed", o.speed, v + a * dt)
    ctx.eq("lateral speed", o.lateral_speed, lat + dl * dt)
    ctx.eq("yaw rate", o.yaw_rate, yaw + dy * dt)


def limited(ctx, crashed):
    """Commands and yaw rates out of their ranges are limited before they take effect; a crashed vehicle brakes straight ahead."""
    o, x, y, h, v, lat, yaw, d, a = start(ctx, 1.001, 14.9, ylim=20., dlim=4.)
    o.crashed = crashed
    dt = ctx.real("dt", 0, 0.5)
    if crashed:
        d, a = 0., -v
    yaw, d = m.clip(yaw, -2 * math.pi, 2 * math.pi), m.clip(d, -math.pi / 2, math.pi / 2)
    dl, dy = accelerations(v, lat, yaw, d)
    o.step(dt)
    ctx.eq("heading", o.heading, h + yaw * dt)
    ctx.eq("speed", o.speed, v + a * dt)
    ctx.eq("lateral speed", o.lateral_speed, lat + dl * dt, margin=1e-3)
    ctx.eq("yaw rate", o.yaw_rate, yaw + dy * dt, margin=1e-3)


def clipping(ctx):
    from highway_env.vehicle.dynamics import BicycleVehicle
    o = BicycleVehicle(None, [0., 0.], 0., 5.)
    yaw, d = ctx.real("yaw", -20, 20), ctx.real("d", -4, 4)
    o.yaw_rate = yaw
    o.action = {"steering": d, "acceleration": ctx.real("a", -10, 10)}
    o.clip_actions()
    ctx.eq("yaw rate limited to a turn per second", o.yaw_rate, m.clip(yaw, -2 * math.pi, 2 * math.pi))
    ctx.eq("steering limited", o.action["steering"], m.clip(d, -math.pi / 2, math.pi / 2))
    ctx.eq("acceleration kept", o.action["acceleration"], o.action["acceleration"])


def linear(ctx, sign, p=DEFAULT):
    """The linearised dynamics are those of the model with slip angles replaced by their ratios."""
    o, x, y, h, v, lat, yaw, d, a = start(ctx, *((1.001, 15.) if sign > 0 else (-15., -1.001)), p=p)
    got = o.derivative_linear
    c, s = m.cos(h), m.sin(h)
    dl, dy = accelerations(v, lat, yaw, d, p, lambda lat, yaw, v, p: ((lat + p["A"] * yaw) / v, (lat - p["B"] * yaw) / v))
    ctx.eq("dx", got[0, 0], v * c - lat * s)
    ctx.eq("dy", got[1, 0], v * s + lat * c)
    ctx.eq("dheading", got[2, 0], yaw)
    ctx.eq("dspeed", got[3, 0], a)
    ctx.eq("dlateral", got[4, 0], dl)
    ctx.eq("dyaw", got[5, 0], dy)


def matrices(ctx, p=DEFAULT):
    """Structure matrices: A = A0 + sum of friction coefficients times their patterns, for the lateral and the full state."""
    o = car(p)
    v = ctx.real("v", -15, 15)
    ctx.assume(m.Or(m.absv(v) > 1.001, m.absv(v) < 0.999))
    o.speed = v
    A0, phi, Bm = o.lateral_lpv_structure()
    Am, B2 = o.lateral_lpv_dynamics()
    for i in range(2):
        for j in range(2):
            ctx.eq("A %d%d" % (i, j), Am[i, j], A0[i, j] + p["FF"] * phi[0][i, j] + p["FR"] * phi[1][i, j])
        ctx.eq("B %d" % i, B2[i, 0], Bm[i, 0])
    fA, fB = o.full_lateral_lpv_dynamics()
    ctx.check("full shapes", fA.shape == (4, 4) and fB.shape == (4, 1))
    want = [[0, v, 1, 0], [0, 0, 0, 1], [0, 0, Am[0, 0], Am[0, 1]], [0, 0, Am[1, 0], Am[1, 1]]]
    for i in range(4):
        for j in range(4):
            ctx.eq("full A %d%d" % (i, j), fA[i, j], want[i][j])
        ctx.eq("full B %d" % i, fB[i, 0], 0. if i < 2 else Bm[i - 2, 0])


def state(ctx):
    o, x, y, h, v, lat, yaw, d, a = start(ctx)
    for k, (g, w) in enumerate(zip(o.state[:, 0], [x, y, h, v, lat, yaw])):
        ctx.eq("state %d" % k, g, w)


def cases(tier):
    ranges = {"fwd": (1.001, 15.), "rev": (-15., -1.001)}
    cs = [Case("derivative-" + n, derivative, dict(lo=r[0], hi=r[1]), cost=2) for n, r in ranges.items()]
    cs += [Case("euler-" + n, euler, dict(lo=r[0], hi=r[1]), cost=2) for n, r in ranges.items()]
    cs += [Case("slow", slow), Case("clipping", clipping), Case("linear-fwd", linear, dict(sign=1)),
           Case("linear-rev", linear, dict(sign=-1)), Case("linear-loaded", linear, dict(sign=1, p=LOADED)), Case("derivative-loaded", derivative, dict(lo=1.001, hi=15., p=LOADED), cost=2),
           Case("matrices", matrices), Case("matrices-loaded", matrices, dict(p=LOADED)), Case("state", state),
           Case("limited", limited, dict(crashed=False), cost=2), Case("limited-crashed", limited, dict(crashed=True), cost=2)]
    return cs
