"""The roads built by the scenes fit together: joints, neighbouring lanes, symmetric branches."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("the merge, roundabout, intersection, lane-keeping, two-way, parking and summon (1 to 15 spots) and straight networks (1 to 6 lanes, any length in [1,20000] and any angle): every lane, every longitudinal position on it and every lateral one within "
          "its width")

WRAP = lambda x: (x + math.pi) % (2 * math.pi) - math.pi


class First(object):
    """Draws that are not needed."""

    def randint(self, *a, **k):
        return 0


def lanes_of(net):
    return [(a, b, i) for a, d in net.graph.items() for b, ls in d.items() for i in range(len(ls))]


def joint(ctx, name, end, start, one=None):
    """Leaving a lane at any lateral position, the vehicle is there on the next one, with the same heading."""
    net = common.network_of(name)
    l = net.get_lane(end)
    r = ctx.real("r", -0.49 * l.DEFAULT_WIDTH, 0.49 * l.DEFAULT_WIDTH)
    p = l.position(l.length, r)
    nxt = net.next_lane(end, [(start[0], start[1], None)], p, First())
    ctx.check("next lane", tuple(nxt) == tuple(start))
    k = net.get_lane(start)
    q = k.position(0, r)
    ctx.eq("at its start, x", p[0], q[0], tol=0.02)
    ctx.eq("at its start, y", p[1], q[1], tol=0.02)
    ctx.check("same heading", abs(WRAP(float(k.heading_at(0)) - float(l.heading_at(l.length)))) < 0.01)
    ctx.check("widths", abs(float(k.width_at(0)) - float(l.width_at(l.length))) < 1e-6)


def beside(ctx, name, left):
    """Lanes of a road run side by side: one width to the right is the next lane."""
    net = common.network_of(name)
    l, k = net.get_lane(left), net.get_lane((left[0], left[1], left[2] + 1))
    s, r = ctx.real("s", 0.05 * l.length, 0.95 * l.length), ctx.real("r", -2, 6)
    p, q = l.position(s, r), k.position(s * (float(k.length) / float(l.length)), r - 4.)
    ctx.eq("one width apart, x", p[0], q[0], tol=1e-3)
    ctx.eq("one width apart, y", p[1], q[1], tol=1e-3)
    ctx.check("neighbours", [tuple(x) for x in net.side_lanes(left)] == [(left[0], left[1], j) for j in (left[2] - 1, left[2] + 1) if 0 <= j < len(net.graph[left[0]][left[1]])])


def turned(ctx, name, a, b, turn):
    """Branch b is branch a turned."""
    net = common.network_of(name)
    l, k = net.get_lane(a), net.get_lane(b)
    s, r = ctx.real("s", 0, float(l.length)), ctx.real("r", -2, 2)
    p, q = l.position(s, r), k.position(s, r)
    x, y = turn((p[0], p[1]))
    ctx.eq("same length", l.length, k.length)
    ctx.eq("turned x", q[0], x)
    ctx.eq("turned y", q[1], y)


def right_of_way(ctx):
    """Priorities of the junction as documented, and what follows from them for any lateral position."""
    net = common.network_of("IntersectionEnv")
    i = ctx.choose("arm", [0, 1, 2, 3])
    horizontal = i % 2 == 1
    for j, left in (((i + 2) % 4, False), ((i - 1) % 4, False), ((i + 1) % 4, True)):
        l = net.get_lane(("ir%d" % i, "il%d" % j, 0))
        ctx.check("priority to %d" % j, l.priority == (3 if horizontal else 1) - (1 if left else 0))
        ctx.check("speed limit", l.speed_limit == 10)
    s, r = ctx.real("s", 0, 100), ctx.real("r", -1.99, 1.99)
    e, x = net.get_lane(("o%d" % i, "ir%d" % i, 0)), net.get_lane(("il%d" % i, "o%d" % i, 0))
    ctx.check("entering is not leaving", m.Not(x.on_lane(e.position(s, r))))
    ctx.eq("opposite directions", x.local_coordinates(e.position(s, r))[0], 100 - s)
    ctx.check("traffic drives on the right", m.And(e.local_coordinates(x.position(s, r))[1] < -2))


def two_way(ctx):
    net = common.network_of("TwoWayEnv")
    l, k = net.get_lane(("a", "b", 0)), net.get_lane(("b", "a", 0))
    s, r = ctx.real("s", 0, float(l.length)), ctx.real("r", -2, 2)
    t, q = k.local_coordinates(l.position(s, r))
    ctx.eq("the lane to overtake on is that of the other traffic", t, float(l.length) - s)
    ctx.eq("on the other side", q, -r)
    ctx.eq("as long", k.length, l.length)


def straight(ctx, lanes):
    """Any straight road."""
    from highway_env.road.lane import LineType
    from highway_env.road.road import RoadNetwork
    L, angle = ctx.real("L", 1, 20000), ctx.angle("angle", -7, 7)
    net = RoadNetwork.straight_road_network(lanes, L, angle)
    ls = net.graph["0"]["1"]
    ctx.check("lanes", len(ls) == lanes and lanes_of(net) == [("0", "1", i) for i in range(lanes)])
    s, r = ctx.real("s", 0, 20000), ctx.real("r", -2, 2)
    c, n = m.cos(angle), m.sin(angle)
    for i, l in enumerate(ls):
        p = l.position(s, r)
        ctx.eq("x of lane %d" % i, p[0], c * s + n * (4 * i + r))
        ctx.eq("y of lane %d" % i, p[1], -n * s + c * (4 * i + r))
        ctx.eq("length %d" % i, l.length, L)
        ctx.check("lines of lane %d" % i, list(l.line_types) == [LineType.CONTINUOUS_LINE if i == 0 else LineType.STRIPED, LineType.CONTINUOUS_LINE if i == lanes - 1 else LineType.NONE])


def parking(ctx, spots, kind="ParkingEnv", aisle=10):
    env = common.env_of(kind, {})
    env._create_road(spots)
    net = env.road.network
    ctx.check("two rows", len(net.graph["a"]["b"]) == spots and len(net.graph["b"]["c"]) == spots)
    s, r = ctx.real("s", 0, 8), ctx.real("r", -2, 2)
    for k in range(spots):
        l, o = net.get_lane(("a", "b", k)), net.get_lane(("b", "c", k))
        p, q = l.position(s, r), o.position(s, -r)
        ctx.eq("rows face each other, x", p[0], q[0])
        ctx.eq("rows face each other, y", p[1], -q[1])
        ctx.eq("spots from the aisle", p[1], aisle + s)
        ctx.eq("length", l.length, 8)
        if k:
            j = net.get_lane(("a", "b", k - 1))
            ctx.eq("adjacent spots", p[0] - j.position(s, r)[0], 4)
    if kind == "SummonEnv":
        t = ctx.real("t", 0, 8)
        ls = net.graph["d"]["e"]
        for i, l in enumerate(ls):
            p = l.position(t, r)
            ctx.check("between the rows %d" % i, m.And(-aisle < p[1], p[1] < aisle))
            for k in range(spots):      # every spot opens on the middle lanes
                u, w = l.local_coordinates(net.get_lane(("a", "b", k)).position(0, r))
                ctx.check("alongside every spot", m.And(-1e-6 <= u, u <= l.length + 1e-6))
            if i:
                ctx.eq("middle lanes side by side, x", p[0], ls[i - 1].position(t, r)[0])
                ctx.eq("middle lanes side by side, y", p[1] - ls[i - 1].position(t, r)[1], 4)


def joints():
    out = []
    out += [("MergeEnv", ("a", "b", i), ("b", "c", i)) for i in (0, 1)] + [("MergeEnv", ("b", "c", i), ("c", "d", i)) for i in (0, 1)]
    out += [("MergeEnv", ("j", "k", 0), ("k", "b", 0)), ("MergeEnv", ("k", "b", 0), ("b", "c", 2))]
    out.append(("LaneKeepingEnv", ("c", "d", 0), ("d", "a", 0)))
    ring = ["se", "ex", "ee", "nx", "ne", "wx", "we", "sx"]
    for k in range(8):
        a, b, c = ring[k], ring[(k + 1) % 8], ring[(k + 2) % 8]
        out += [("RoundaboutEnv", (a, b, i), (b, c, i)) for i in (0, 1)]
    for d in "senw":
        out.append(("RoundaboutEnv", (d + "er", d + "es", 0), (d + "es", d + "e", 0)))
        out.append(("RoundaboutEnv", (d + "x", d + "xs", 0), (d + "xs", d + "xr", 0)))
    for i in range(4):
        for j in range(4):
            if i != j:
                out.append(("IntersectionEnv", ("o%d" % i, "ir%d" % i, 0), ("ir%d" % i, "il%d" % j, 0)))
                out.append(("IntersectionEnv", ("ir%d" % i, "il%d" % j, 0), ("il%d" % j, "o%d" % j, 0)))
    return out


def obstacle(ctx):
    """The merging lane is closed by an obstacle at its end."""
    env = common.env_of("MergeEnv")
    env._make_road()
    lane = env.road.network.get_lane(("b", "c", 2))
    ctx.check("one obstacle", [type(o).__name__ for o in env.road.objects] == ["Obstacle"])
    o = env.road.objects[0]
    p = lane.position(lane.length, 0)
    ctx.eq("x", o.position[0], p[0])
    ctx.eq("y", o.position[1], p[1])


def cases(tier):
    cs = [Case("joint-%s-%s-%s" % (n, "".join(map(str, a)), "".join(map(str, b))), joint, dict(name=n, end=a, start=b)) for n, a, b in joints()]
    cs += [Case("beside-%s-%s" % (n, "".join(map(str, a))), beside, dict(name=n, left=a)) for n, a in
           [("MergeEnv", ("a", "b", 0)), ("MergeEnv", ("b", "c", 0)), ("MergeEnv", ("b", "c", 1)), ("MergeEnv", ("c", "d", 0)), ("TwoWayEnv", ("a", "b", 0)), ("HighwayEnv", ("0", "1", 0)), ("HighwayEnv", ("0", "1", 2))]
           + [("RoundaboutEnv", (a, b, 0)) for a, b in (("se", "ex"), ("ex", "ee"), ("ne", "wx"), ("we", "sx"))]]
    quarter = [lambda p: p, lambda p: (-p[1], p[0]), lambda p: (-p[0], -p[1]), lambda p: (p[1], -p[0])]
    for i in (1, 2, 3):
        at = lambda a, b, d: ("%s%d" % (a, (d[0] + i) % 4), "%s%d" % (b, (d[1] + i) % 4), 0)
        for a, b, d in [("o", "ir", (0, 0)), ("il", "o", (0, 0)), ("ir", "il", (0, 1)), ("ir", "il", (0, 2)), ("ir", "il", (0, 3))]:
            cs.append(Case("turned-intersection-%s%s%d-%d" % (a, b, d[1], i), turned, dict(name="IntersectionEnv", a=("%s%d" % (a, d[0]), "%s%d" % (b, d[1]), 0), b=at(a, b, d), turn=quarter[i])))
    letters = "senw"
    back = [lambda p: p, lambda p: (p[1], -p[0]), lambda p: (-p[0], -p[1]), lambda p: (-p[1], p[0])]
    for i in (1, 2, 3):
        g = lambda n: letters[(letters.index(n[0]) + i) % 4] + n[1:]
        for a, b, k in [("se", "ex", 0), ("se", "ex", 1), ("sx", "se", 0), ("sx", "se", 1), ("ser", "ses", 0), ("ses", "se", 0), ("sx", "sxs", 0), ("sxs", "sxr", 0)]:
            cs.append(Case("turned-roundabout-%s%s%d-%d" % (a, b, k, i), turned, dict(name="RoundaboutEnv", a=(a, b, k), b=(g(a), g(b), k), turn=back[i])))
    cs += [Case("right-of-way", right_of_way), Case("two-way", two_way), Case("obstacle", obstacle)]
    cs += [Case("straight-%d" % n, straight, dict(lanes=n)) for n in (1, 2, 3, 4, 6)]
    cs += [Case("parking-%d" % n, parking, dict(spots=n)) for n in (1, 2, 7, 15)]
    cs += [Case("summon-%d" % n, parking, dict(spots=n, kind="SummonEnv", aisle=12)) for n in (3, 15)]
    return cs
