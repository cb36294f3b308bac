"""Lane frames: world <-> local coordinates are inverse of each other and the heading is the tangent of the lane."""
import math

from symx.engine import Case
from symx import m

BOUNDS = ("one lane of each kind; start/centre in [-200,200]^2, length in [1,1000], any orientation; longitudinal in "
          "[-50,1050], lateral in [-20,20]; sine lanes: amplitude in [-10,10], pulsation in [-1,1], any phase; circular "
          "lanes: radius in {9, 13, 20, 24} (thorough: also 5, 16, 25, 40), both directions")


def straight(ctx, kind):
    from highway_env.road.lane import StraightLane
    x, y = ctx.real("x", -200, 200), ctx.real("y", -200, 200)
    th, L = ctx.angle("th"), ctx.real("L", 1, 1000)
    ux, uy = m.cos(th), m.sin(th)
    lane = StraightLane(m.arr([x, y]), m.arr([x + L * ux, y + L * uy]))
    s, r = ctx.real("s", -50, 1050), ctx.real("r", -20, 20)
    if kind == "local":
        p = lane.position(s, r)
        s2, r2 = lane.local_coordinates(p)
        ctx.eq("longitudinal", s2, s)
        ctx.eq("lateral", r2, r)
        ctx.eq("length", lane.length, L)
        # frame: unit speed along the lane, lateral axis at +90 degrees
        ctx.eq("x on the frame", p[0], x + s * ux - r * uy)
        ctx.eq("y on the frame", p[1], y + s * uy + r * ux)
        ctx.observe("p", p)
    elif kind == "world":
        px, py = ctx.real("px", -300, 300), ctx.real("py", -300, 300)
        s2, r2 = lane.local_coordinates(m.arr([px, py]))
        q = lane.position(s2, r2)
        ctx.eq("x", q[0], px)
        ctx.eq("y", q[1], py)
        ctx.observe("local", (s2, r2))
    else:
        h = lane.heading_at(s)
        ctx.eq("cos", m.cos(h), ux)
        ctx.eq("sin", m.sin(h), uy)
        ctx.observe("cs", (m.cos(h), m.sin(h)))


def circular(ctx, R, cw, kind, phase):
    from highway_env.road.lane import CircularLane
    x, y = ctx.real("x", -200, 200), ctx.real("y", -200, 200)
    d = 1 if cw else -1
    ph0 = phase if phase is not None else ctx.angle("ph0")
    arc = ctx.real("arc", 0.1, 3.1)
    lane = CircularLane(m.arr([x, y]), R, ph0, ph0 + d * arc, clockwise=cw)
    r = ctx.real("r", -min(6, R - 0.5), min(6, R - 0.5))
    ctx.eq("length", lane.length, R * arc)
    if kind == "local":
        u = ctx.angle("u", -3.1, 3.1)     # travelled angle
        s = u * R
        p = lane.position(s, r)
        s2, r2 = lane.local_coordinates(p)
        ctx.eq("lateral", r2, r)
        ctx.inj(s2 / R, u)
        ctx.eq("longitudinal", s2, s)
        ctx.observe("p", p)
    elif kind == "world":
        rho, al = ctx.real("rho", 0.5, 60), ctx.angle("al")
        px, py = x + rho * m.cos(al), y + rho * m.sin(al)
        s2, r2 = lane.local_coordinates(m.arr([px, py]))
        q = lane.position(s2, r2)
        ctx.eq("x", q[0], px)
        ctx.eq("y", q[1], py)
        ctx.le("|travelled angle| <= pi", m.absv(s2), math.pi * R)
    else:
        u = ctx.angle("u", -3.1, 3.1)
        p0 = lane.position(u * R, 0)
        h = lane.heading_at(u * R)
        # tangent of the central curve: radius vector turned by +-90 degrees
        ctx.eq("cos", m.cos(h) * R, -d * (p0[1] - y))
        ctx.eq("sin", m.sin(h) * R, d * (p0[0] - x))
        # lateral offsets move along the normal of the lane (left-handed frame: +90 degrees of the heading)
        p = lane.position(u * R, r)
        ctx.eq("nx", p[0] - p0[0], -r * m.sin(h))
        ctx.eq("ny", p[1] - p0[1], r * m.cos(h))
        ctx.observe("p", p)


def sine(ctx, kind):
    from highway_env.road.lane import SineLane
    x, y = ctx.real("x", -200, 200), ctx.real("y", -200, 200)
    th = ctx.angle("th")
    L = 100.
    ux, uy = m.cos(th), m.sin(th)
    A, w, ph = ctx.real("A", -10, 10), ctx.real("w", -1, 1), ctx.angle("ph")
    lane = SineLane(m.arr([x, y]), m.arr([x + L * ux, y + L * uy]), A, w, ph)
    s, r = ctx.real("s", -50, 150), ctx.real("r", -20, 20)
    if kind == "local":
        p = lane.position(s, r)
        s2, r2 = lane.local_coordinates(p)
        ctx.eq("longitudinal", s2, s)
        ctx.eq("lateral", r2, r)
        ctx.eq("x", p[0], x + s * ux - (r + A * m.sin(w * s + ph)) * uy)
        ctx.eq("y", p[1], y + s * uy + (r + A * m.sin(w * s + ph)) * ux)
        ctx.observe("p", p)
    elif kind == "world":
        px, py = ctx.real("px", -300, 300), ctx.real("py", -300, 300)
        s2, r2 = lane.local_coordinates(m.arr([px, py]))
        q = lane.position(s2, r2)
        ctx.eq("x", q[0], px)
        ctx.eq("y", q[1], py)
    else:
        # tangent of s -> position(s, 0): (1, A w cos(w s + ph)) in the straight frame
        h = lane.heading_at(s)
        t = A * w * m.cos(w * s + ph)
        c, sn = m.cos(h), m.sin(h)
        ctx.eq("tangent", c * (uy + t * ux) - sn * (ux - t * uy), 0)
        # less than a right angle away from the axis: with the above, h is the direction of travel
        ctx.check("direction", c * ux + sn * uy > 0)
        ctx.observe("cs", (c, sn))


def cases(tier):
    cs = [Case("straight-" + k, straight, dict(kind=k)) for k in ("local", "world", "heading")]
    cs += [Case("sine-" + k, sine, dict(kind=k)) for k in ("local", "world", "heading")]
    radii = (9, 13, 20, 24) if tier == "quick" else (5, 9, 13, 16, 20, 24, 25, 40)
    for R in radii:
        for cw in (True, False):
            for k in ("local", "world", "heading"):
                cs.append(Case("circular-%s-%s-%s" % (R, "cw" if cw else "ccw", k), circular, dict(R=R, cw=cw, kind=k, phase=None)))
    return cs
