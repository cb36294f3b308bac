"""Lane membership: on-lane, reachable, end-of-lane and distance predicates are those of the lane coordinates."""
import math

from symx.engine import Case
from symx import m

BOUNDS = ("one lane of each kind; straight: start in [-100,100]^2, any orientation, length in [1,500], width in [1,10]; position "
          "at any local coordinates s in [-40,540], r in [-30,30]; sine: concrete geometry, symbolic position; circular: radii 9 "
          "and 20, both directions, any centre, position anywhere at 0.5 to 60 m of the centre; margin in [0,3]; heading any, "
          "weight in [0,3]")


def make(ctx, shape):
    from highway_env.road.lane import StraightLane, SineLane, CircularLane
    forb = ctx.bool("forbidden")
    W = ctx.real("W", 1, 10)
    if shape == "straight":
        x, y = ctx.real("x", -100, 100), ctx.real("y", -100, 100)
        th, L = ctx.angle("th"), ctx.real("L", 1, 500)
        ux, uy = m.cos(th), m.sin(th)
        lane = StraightLane(m.arr([x, y]), m.arr([x + L * ux, y + L * uy]), width=W, forbidden=forb)
        s, r = ctx.real("s", -40, 540), ctx.real("r", -30, 30)
        p = m.arr([x + s * ux - r * uy, y + s * uy + r * ux])
        h = th
        return lane, p, s, r, L, W, forb, h
    if shape == "sine":
        # the access ramp of the merge road: amplitude 3.25 over 80 m, a quarter of a period of phase
        lane = SineLane([150., 11.25], [230., 11.25], 3.25, math.pi / 80, math.pi / 2, width=W, forbidden=forb)
        s, r = ctx.real("s", -20, 100), ctx.real("r", -30, 30)
        off = 3.25 * m.sin(math.pi / 80 * s + math.pi / 2)
        p = m.arr([150. + s, 11.25 + off + r])
        return lane, p, s, r, 80., W, forb, None
    R, cw = shape
    x, y = ctx.real("x", -100, 100), ctx.real("y", -100, 100)
    ph0 = ctx.angle("ph0", -3, 3)
    arc = ctx.real("arc", 0.5, 3)
    d = 1 if cw else -1
    lane = CircularLane(m.arr([x, y]), R, ph0, ph0 + d * arc, clockwise=cw, width=W, forbidden=forb)
    rho, al = ctx.real("rho", 0.5, 60), ctx.angle("al")
    p = m.arr([x + rho * m.cos(al), y + rho * m.sin(al)])
    s, r = lane.local_coordinates(p)   # decided by R01
    ctx.eq("lateral", r, d * (R - rho))
    return lane, p, s, r, R * arc, W, forb, None


def member(ctx, shape, given):
    lane, p, s, r, L, W, forb, h = make(ctx, shape)
    mg = ctx.real("margin", 0, 3)
    on = lane.on_lane(p, s, r, margin=mg) if given else lane.on_lane(p, margin=mg)
    want = m.And(m.absv(r) <= W / 2 + mg, s >= -5, s < L + 5)
    ctx.check("on lane iff within the width and 5 m of its ends", m.Iff(on, want))
    ctx.observe("on", on)
    after = lane.after_end(p, s, r) if given else lane.after_end(p)
    ctx.check("past the end iff less than half a vehicle remains", m.Iff(after, s > L - 2.5))
    ctx.observe("after", after)


def plain(ctx, shape):
    lane, p, s, r, L, W, forb, h = make(ctx, shape)
    ctx.check("no margin by default", m.Iff(lane.on_lane(p), m.And(m.absv(r) <= W / 2, s >= -5, s < L + 5)))
    reach = lane.is_reachable_from(p)
    want = m.And(not forb, m.absv(r) <= 2 * W, s >= 0, s < L + 5)
    ctx.check("reachable iff allowed and within two widths alongside", m.Iff(reach, want))
    ctx.observe("reach", reach)


def distance(ctx, shape, ):
    lane, p, s, r, L, W, forb, h = make(ctx, shape)
    want = m.absv(r) + m.mx(s - L, 0) + m.mx(-s, 0)
    got = lane.distance(p)
    ctx.eq("L1 distance", got, want)
    ctx.observe("d", got)
    ctx.eq("no heading", lane.distance_with_heading(p, None), want)


def heading(ctx, shape):
    lane, p, s, r, L, W, forb, h = make(ctx, shape)
    w = ctx.real("w", 0, 3)
    hd = ctx.angle("hd", -6, 6)
    got = lane.distance_with_heading(p, hd, w)
    base = m.absv(r) + m.mx(s - L, 0) + m.mx(-s, 0)
    lh = lane.heading_at(s)     # decided by R01
    # the angular term: the wrapped difference in [0, pi], same cosine as the difference
    k = ctx.int("k", -3, 3)
    diff = hd - lh + 2 * math.pi * k
    ctx.assume(m.And(diff >= -math.pi, diff < math.pi))
    ctx.eq("distance with heading", got, base + w * m.absv(diff))
    ctx.observe("d", got)
    ctx.eq("default weight", lane.distance_with_heading(p, hd), base + m.absv(diff))


def cases(tier):
    shapes = [("straight", "straight"), ("sine", "sine"), ("circ9cw", (9, True)), ("circ20ccw", (20, False))]
    if tier == "thorough":
        shapes += [("circ9ccw", (9, False)), ("circ24cw", (24, True)), ("circ13ccw", (13, False))]
    cs = []
    for n, sh in shapes:
        cs += [Case(n + "-member", member, dict(shape=sh, given=False)),
               Case(n + "-member-known", member, dict(shape=sh, given=True)),
               Case(n + "-reach", plain, dict(shape=sh)), Case(n + "-distance", distance, dict(shape=sh)),
               Case(n + "-heading", heading, dict(shape=sh))]
    return cs
