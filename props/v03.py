"""Collision detection: two road users collide exactly when their footprints overlap."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("vehicle (5x2 m) against vehicle, obstacle and landmark (2x2 m), footprints reduced to 90%; relative position anywhere "
          "in [-8,8]^2; heading of the first in {0, 0.5, pi/2, -2.4, 3.1} or any, any heading of the other; overlaps and gaps "
          "smaller than 1 mm are not judged; also any two rectangles with "
          "sides in [0.5,10]")

EPS = 1e-3


def half(o):
    return 0.45 * o.LENGTH, 0.45 * o.WIDTH


def axes(h):
    c, s = m.cos(h), m.sin(h)
    return (c, s), (-s, c)


def gaps(pa, ha, sa, pb, hb, sb):
    """Signed gap between the projections of two boxes on each of their four sides' directions."""
    ax, bx = axes(ha), axes(hb)
    dx, dy = pb[0] - pa[0], pb[1] - pa[1]
    out = []
    for own, oth, so, st in ((ax, bx, sa, sb), (bx, ax, sb, sa)):
        for i in (0, 1):
            u = own[i]
            dist = m.absv(u[0] * dx + u[1] * dy)
            reach = so[i] + sum(st[j] * m.absv(u[0] * oth[j][0] + u[1] * oth[j][1]) for j in (0, 1))
            out.append(dist - reach)
    return out


def pair(ctx, other, h0):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle, Landmark
    cls = {"vehicle": Vehicle, "obstacle": Obstacle, "landmark": Landmark}[other]
    ha = ctx.angle("ha") if h0 is None else h0
    hb = ctx.angle("hb")
    dx, dy = ctx.real("dx", -8, 8), ctx.real("dy", -8, 8)
    a = Vehicle(None, m.arr([10., -4.]), ha, 5.)
    b = cls(None, m.arr([10. + dx, -4. + dy]), heading=hb, speed=3. if other == "vehicle" else 0.)
    return a, b, ha, hb, dx, dy


def hit(a, b, other):
    return a.crashed if other != "landmark" else b.hit


def soundness(ctx, other, h0):
    """A reported collision is an overlap."""
    a, b, ha, hb, dx, dy = pair(ctx, other, h0)
    a.check_collision(b)
    if hit(a, b, other):
        ctx.observe("hit", 1)
        for k, g in enumerate(gaps((0, 0), ha, half(a), (dx, dy), hb, half(b))):
            ctx.check("no gap along side %d" % k, g <= EPS)
    else:
        ctx.observe("hit", 0)


def completeness(ctx, other, h0):
    """An unreported pair is separated along one of the sides' directions (separating axis theorem)
    or by distance."""
    a, b, ha, hb, dx, dy = pair(ctx, other, h0)
    a.check_collision(b)
    if not hit(a, b, other):
        reach = math.hypot(*half(a)) + math.hypot(*half(b))      # circumscribed discs
        ctx.check("separated", m.Or(dx * dx + dy * dy >= (reach - EPS) ** 2,
                                    *[g >= -EPS for g in gaps((0, 0), ha, half(a), (dx, dy), hb, half(b))]))
        ctx.observe("hit", 0)
    else:
        ctx.observe("hit", 1)


def point(ctx):
    """A point is inside a rotated rectangle iff its coordinates in the rectangle's frame are."""
    from highway_env import utils
    h, cx, cy = ctx.angle("h"), ctx.real("cx", -50, 50), ctx.real("cy", -50, 50)
    L, W = ctx.real("L", 0.5, 10), ctx.real("W", 0.5, 10)
    u, v = ctx.real("u", -8, 8), ctx.real("v", -8, 8)
    (ax, ay), (bx, by) = axes(h)
    got = utils.point_in_rotated_rectangle(m.arr([cx + u * ax + v * bx, cy + u * ay + v * by]), m.arr([cx, cy]), L, W, h)
    if got:
        ctx.check("inside", m.And(m.absv(u) <= L / 2 + EPS, m.absv(v) <= W / 2 + EPS))
    else:
        ctx.check("outside", m.Or(m.absv(u) >= L / 2 - EPS, m.absv(v) >= W / 2 - EPS))


def rectangles(ctx, kind, h0):
    """Rectangles of any size."""
    from highway_env import utils
    h, dx, dy = ctx.angle("h"), ctx.real("dx", -12, 12), ctx.real("dy", -12, 12)
    h0 = ctx.angle("h0") if h0 is None else h0
    sa = ctx.real("La", 0.5, 10), ctx.real("Wa", 0.5, 10)
    sb = ctx.real("Lb", 0.5, 10), ctx.real("Wb", 0.5, 10)
    got = utils.rotated_rectangles_intersect((m.arr([1., 2.]), sa[0], sa[1], h0), (m.arr([1. + dx, 2. + dy]), sb[0], sb[1], h))
    g = gaps((0, 0), h0, (sa[0] / 2, sa[1] / 2), (dx, dy), h, (sb[0] / 2, sb[1] / 2))
    if got and kind == "sound":
        for k, x in enumerate(g):
            ctx.check("no gap along side %d" % k, x <= EPS)
    elif not got and kind == "complete":
        ctx.check("separated", m.Or(*[x >= -EPS for x in g]))


def cases(tier):
    cs = []
    hs = [0., 0.5, math.pi / 2, -2.4, 3.1, None]
    for h0 in hs:
        for o in ("vehicle", "obstacle", "landmark"):
            if o == "vehicle" or h0 in (0., 0.5, None):
                cs.append(Case("sound-%s-%s" % (o, h0), soundness, dict(other=o, h0=h0), cost=2))
                cs.append(Case("complete-%s-%s" % (o, h0), completeness, dict(other=o, h0=h0), cost=3))
        for k in ("sound", "complete"):
            cs.append(Case("rectangles-%s-%s" % (k, h0), rectangles, dict(kind=k, h0=h0), cost=2))
    cs.append(Case("point", point))
    return cs
