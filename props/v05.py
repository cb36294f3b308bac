"""Low-level control: bounded steering by the cascaded lateral controller, proportional speed control."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("a target lane with arbitrary local coordinates (longitudinal in [-1000,1000], lateral in [-50,50]) and arbitrary heading in "
          "[-pi,pi], vehicle heading in [-7,7], speed in [-40,40] (the exact formula: away from |speed|=0.01), any target speed; vehicles of 5 and 12 m; kinematic controller of all controlled "
          "vehicle classes")


class FreeLane(object):
    """A lane where the vehicle has given coordinates, with a given heading."""
    width, length, forbidden, speed_limit = 4., 500., False, 20.

    def __init__(self, s, r, h):
        self.s, self.r, self.h, self.asked = s, r, h, []

    def local_coordinates(self, position):
        return self.s, self.r

    def heading_at(self, s):
        self.asked.append(s)
        return self.h

    def after_end(self, position, longitudinal=None, lateral=None):
        return False

    def distance(self, position):
        return 0.

    def distance_with_heading(self, position, heading, heading_weight=1.0):
        return 0.


def setup(ctx, cls, vlo=-40., vhi=40., lane_heading=None, r=None, kind="any"):
    from highway_env.road.road import RoadNetwork
    s = ctx.real("s", -1000, 1000)
    r = ctx.real("r", -50, 50) if r is None else r
    hl = ctx.angle("hl", -math.pi, math.pi) if lane_heading is None else lane_heading
    lane = FreeLane(s, r, hl)
    net = RoadNetwork()
    net.add_lane("a", "b", lane)
    h = ctx.angle("h", -7, 7)
    v = ctx.real("v", vlo, vhi)
    o = common.vehicle(cls, common.road(net), [0., 0.], h, v, ("a", "b", 0))
    return o, lane, s, r, hl, h, v


def classes():
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle
    return {"controlled": ControlledVehicle, "mdp": MDPVehicle, "idm": IDMVehicle}


def sgn_not_zero(v):
    return v


def formula(ctx, which, sign, half=2.5):
    o, lane, s, r, hl, h, v = setup(ctx, classes()[which], *((0.02, 40.) if sign > 0 else (-40., -0.02)))
    o.LENGTH = 2 * half
    got = o.steering_control(("a", "b", 0))
    ctx.check("one pursuit point", len(lane.asked) == 1)
    ctx.eq("a pursuit time ahead", lane.asked[0], s + 0.1 * v)
    lat = m.clip(-5 / 3 * r / v, -1, 1)
    corr = m.clip(m.asin(lat), -math.pi / 4, math.pi / 4)
    err = common.wrap(hl + corr - h)
    want = m.clip(m.asin(m.clip(half / v * 5 * err, -1, 1)), -math.pi / 3, math.pi / 3)
    ctx.eq("steering", got, want)
    ctx.le("bounded", m.absv(got), math.pi / 3)


def slow(ctx, sign):
    """Near standstill the division is regularised: bounded, and the speed counts as +-0.01."""
    o, lane, s, r, hl, h, v = setup(ctx, classes()["controlled"], *((0.0001, 0.0099) if sign > 0 else (-0.0099, -0.0001)))
    got = o.steering_control(("a", "b", 0))
    ctx.le("bounded", m.absv(got), math.pi / 3)
    w = 0.01 * sign
    corr = m.clip(m.asin(m.clip(-5 / 3 * r / w, -1, 1)), -math.pi / 4, math.pi / 4)
    err = common.wrap(hl + corr - h)
    ctx.eq("steering", got, m.clip(m.asin(m.clip(2.5 / w * 5 * err, -1, 1)), -math.pi / 3, math.pi / 3), tol=1e-3)


def converge(ctx, sign):
    """Centred on the lane: the vehicle turns towards the lane heading; aligned with it: it moves towards the centre line."""
    o, lane, s, r, hl, h, v = setup(ctx, classes()["controlled"], *((1., 40.) if sign > 0 else (-40., -1.)), lane_heading=0.)
    ctx.assume(m.And(h > -3.1, h < 3.1))
    got = o.steering_control(("a", "b", 0))
    rate = got * v                               # sign of the heading rate
    if ctx.choose("what", ["centred", "aligned"]) == "centred":
        ctx.assume(r == 0)
        ctx.check("turns towards the lane", m.Implies(m.absv(h) > 0.01, rate * h < 0))
        ctx.check("straight when aligned", m.Implies(h == 0, got == 0))
    else:
        ctx.assume(h == 0)
        ctx.check("comes back to the centre", m.Implies(m.absv(r) > 0.01, got * r < 0))


def speed(ctx, which):
    o, lane, s, r, hl, h, v = setup(ctx, classes()[which])
    t = ctx.real("t", -60, 60)
    ctx.eq("proportional", o.speed_control(t), (t - v) / 0.6)


def act(ctx, which):
    """The command executed is the one of the two controllers."""
    o, lane, s, r, hl, h, v = setup(ctx, classes()[which], lane_heading=0.)
    t = ctx.real("t", -60, 60)
    o.target_speed = t
    steer = ctx.real("steer", -1.047, 1.047)
    seen = []
    o.steering_control = lambda index: (seen.append(index), steer)[1]
    o.act()
    ctx.check("steers to the target lane", seen == [("a", "b", 0)])
    ctx.eq("steering", o.action["steering"], steer)
    ctx.eq("acceleration", o.action["acceleration"], (t - v) / 0.6)


def cases(tier):
    cs = []
    for sg in (1, -1):
        n = "fwd" if sg > 0 else "rev"
        cs += [Case("steering-controlled-" + n, formula, dict(which="controlled", sign=sg), cost=3),
               Case("converge-" + n, converge, dict(sign=sg), cost=3), Case("slow-" + n, slow, dict(sign=sg), cost=2)]
    for w in ("mdp", "idm"):
        cs.append(Case("steering-%s-fwd" % w, formula, dict(which=w, sign=1), cost=3))
    cs.append(Case("steering-long", formula, dict(which="controlled", sign=1, half=6.), cost=3))
    cs += [Case("speed-" + w, speed, dict(which=w)) for w in ("controlled", "mdp", "idm")]
    cs += [Case("act-" + w, act, dict(which=w)) for w in ("controlled", "mdp")]
    return cs
