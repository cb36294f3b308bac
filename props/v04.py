"""Collision response: colliding vehicles are both crashed at the slower speed; obstacles stop them; landmarks are only marked."""
from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("two road users at any relative position in [-8,8]^2 with the given headings, any speeds, crash flags, marks left earlier and collision "
          "switches; a road of three vehicles and an obstacle (aligned headings, any abscissae and speeds, chosen lateral offsets), one simulation step, one of the vehicles possibly crashed before")


def overlap(ax, ay, bx, by, la=4.5, wa=1.8, lb=4.5, wb=1.8):
    """Aligned footprints."""
    return m.And(m.absv(ax - bx) <= (la + lb) / 2, m.absv(ay - by) <= (wa + wb) / 2)


def slower(a, b):
    return m.ite(m.absv(a) <= m.absv(b), a, b)


def vehicles(ctx):
    from highway_env.vehicle.kinematics import Vehicle
    dx, dy = ctx.real("dx", -8, 8), ctx.real("dy", -8, 8)
    va, vb = ctx.real("va", -40, 40), ctx.real("vb", -40, 40)
    a, b = Vehicle(None, [0., 0.], 0., va), Vehicle(None, m.arr([dx, dy]), 0., vb)
    a.crashed, b.crashed = ctx.bool("ca"), ctx.bool("cb")
    a.COLLISIONS_ENABLED, b.COLLISIONS_ENABLED = ctx.bool("ea"), ctx.bool("eb")
    was = a.crashed, b.crashed
    ctx.assume(m.Or(m.absv(dx) < 4.499, m.absv(dx) > 4.501, m.absv(dy) > 1.801))
    ctx.assume(m.Or(m.absv(dy) < 1.799, m.absv(dy) > 1.801, m.absv(dx) > 4.501))
    a.check_collision(b)
    active = (not was[0]) and a.COLLISIONS_ENABLED and b.COLLISIONS_ENABLED
    touch = overlap(0, 0, dx, dy)
    if a.crashed != was[0] or b.crashed != was[1]:
        ctx.check("only on contact", m.And(active, touch))
        ctx.check("both crashed", a.crashed and b.crashed)
        ctx.eq("slower speed", m.absv(a.speed), m.mn(m.absv(va), m.absv(vb)))
        ctx.check("a speed of one of them", m.Or(a.speed == va, a.speed == vb))
        ctx.eq("same speed", a.speed, b.speed)
    else:
        ctx.check("contact is a crash", m.Not(m.And(active, touch)))
        ctx.eq("first unchanged", a.speed, va)
        ctx.eq("second unchanged", b.speed, vb)
    ctx.observe("crashed", [a.crashed, b.crashed])


def obstacle(ctx, what):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle, Landmark
    cls = Obstacle if what == "obstacle" else Landmark
    dx, dy = ctx.real("dx", -6, 6), ctx.real("dy", -6, 6)
    ctx.assume(m.And(m.Or(m.absv(dx) < 3.149, m.absv(dx) > 3.151), m.Or(m.absv(dy) < 1.799, m.absv(dy) > 1.801)))
    va = ctx.real("va", -40, 40)
    a, b = Vehicle(None, [0., 0.], 0., va), cls(None, m.arr([dx, dy]))
    a.crashed = was = ctx.bool("ca")
    a.COLLISIONS_ENABLED = ctx.bool("ea")
    b.hit = before = ctx.bool("hit before")
    a.check_collision(b)
    touch = overlap(0, 0, dx, dy, lb=1.8, wb=1.8)
    if what == "landmark":
        ctx.check("a landmark never hurts", a.crashed == was)
        ctx.eq("nor slows down", a.speed, va)
        if not was:
            ctx.check("marked when reached", m.Iff(b.hit, m.Or(before, touch)))
        return
    active = (not was) and a.COLLISIONS_ENABLED
    if active:
        ctx.check("crash iff contact", m.Iff(a.crashed, touch))
        ctx.check("obstacle marked iff contact", m.Iff(b.hit, m.Or(before, touch)))
        ctx.eq("stopped on contact only", a.speed, m.ite(touch, 0, va))
    else:
        ctx.check("no new crash", a.crashed == was and b.hit == before)
        ctx.eq("speed kept", a.speed, va)


def oneself(ctx):
    from highway_env.vehicle.kinematics import Vehicle
    v = ctx.real("v", -40, 40)
    a = Vehicle(None, [ctx.real("x", -5, 5), 0.], ctx.angle("h"), v)
    a.check_collision(a)
    ctx.check("no collision with itself", not a.crashed)
    ctx.eq("speed", a.speed, v)


def scene(ctx, n, obj, wreck=False):
    """After a simulation step every overlapping pair is crashed, and nobody else is (but the wreck left by an earlier collision, at any place of the list)."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle
    net = common.straight_net(1, 1000.)
    rd = common.road(net)
    P, end = [], []
    dt = 0.125
    for i in range(n):
        x = 100. if i == 0 else ctx.real("x%d" % i, 90, 110)
        y = 0. if i == 0 else ctx.choose("y%d" % i, [-1.7, 1.9])
        s = ctx.real("v%d" % i, -5, 30)
        v = common.vehicle(Vehicle, rd, [x - s * dt, y], 0., s, ("0", "1", 0))
        rd.vehicles.append(v)
        P.append(v)
        end.append((x, y, 4.5))
    w = ctx.choose("wreck", list(range(n))) if wreck else None
    if wreck:
        P[w].crashed = True
    if obj:
        xo, yo = ctx.real("xo", 90, 110), ctx.choose("yo", [0., 1.75])
        rd.objects.append(Obstacle(rd, m.arr([xo, yo])))
        end.append((xo, yo, 1.8))
    hits = {}
    for i in range(n):
        for j in range(i + 1, len(end)):
            (xa, ya, la), (xb, yb, lb) = end[i], end[j]
            gx, gy = m.absv(xa - xb) - (la + lb) / 2, m.absv(ya - yb) - 1.8
            ctx.assume(m.absv(gx) > 1e-3)       # not exactly touching
            hits[i, j] = hits[j, i] = m.And(gx < 0, gy < 0)
    rd.step(dt)
    for i in range(n):
        if i == w:
            ctx.check("the wreck stays", P[i].crashed)
            continue
        ctx.check("crashed iff in contact %d" % i, m.Iff(P[i].crashed, m.Or(*[t for (a, _), t in hits.items() if a == i])))
    if obj:
        ctx.check("obstacle hit", m.Implies(rd.objects[0].hit, m.Or(*[hits[i, n] for i in range(n)])))
    ctx.observe("crashed", [v.crashed for v in P])


def cases(tier):
    cs = [Case("vehicles", vehicles), Case("obstacle", obstacle, dict(what="obstacle")), Case("landmark", obstacle, dict(what="landmark")),
          Case("oneself", oneself), Case("scene-2", scene, dict(n=2, obj=True), cost=3),
          Case("scene-wreck", scene, dict(n=3, obj=False, wreck=True), cost=5, max_paths=20000)]
    if tier == "thorough":
        cs.append(Case("scene-3", scene, dict(n=3, obj=False), cost=9, max_paths=20000))
    return cs
