"""Following the road: the next lane is a lane of the planned road, else of any outgoing road, on a sensible lane id."""
import operator

from symx.engine import Case
from symx import m
from . import common
from .r03 import AnyLane

BOUNDS = ("a road of 1 to 3 lanes leading to three roads of 1 to 3 lanes each (and to a dead end), lane distances arbitrary, "
          "routes of up to 3 steps (matching, continuing, foreign, absent, exhausted), arbitrary random draw; and a "
          "vehicle crossing the end of its target lane, on that lane or still on the road before")


FORBIDDEN = [("c", 0), ("e", 0), ("e", 2), ("f", 1)]      # whether a lane is open to changes does not matter: going straight on to it is no change


def network(ctx, n0):
    from highway_env.road.road import RoadNetwork
    net, d = RoadNetwork(), {}
    for to, n in (("c", n0), ("d", 1), ("e", 3), ("f", 2)):
        for i in range(n):
            d[to, i] = ctx.real("d_%s%d" % (to, i), 0, 50)
            net.add_lane("b", to, AnyLane(d[to, i], d[to, i]))
            net.get_lane(("b", to, i)).forbidden = (to, i) in FORBIDDEN
    for i in range(n0):
        net.add_lane("a", "b", AnyLane(0., 0.))
    net.add_lane("c", "z", AnyLane(1., 1.))     # z is a dead end
    return net, d


def check_next(ctx, net, d, cur, got, roads):
    got = (got[0], got[1], operator.index(got[2]))
    ctx.observe("next", list(got))
    ctx.check("starts where the lane ends", got[0] == cur[1])
    ctx.check("takes an allowed road", got[1] in roads)
    n = len(net.graph[got[0]].get(got[1], []))
    ctx.check("existing lane", 0 <= got[2] < n)
    if n == len(net.graph[cur[0]][cur[1]]):
        ctx.check("same lane id when the number of lanes is kept", got[2] == cur[2])
    else:
        for i in range(n):
            ctx.check("closest lane otherwise", d[got[1], got[2]] <= d[got[1], i])


def routed(ctx, n0):
    net, d = network(ctx, n0)
    cur = ("a", "b", ctx.choose("id", list(range(n0))))
    to = ctx.choose("to", ["c", "d", "e", "f"])
    lane = ctx.choose("lane", [None, 0])
    kind = ctx.choose("route", ["current", "continuing"])
    route = [("b", to, lane), (to, "z", None)]
    if kind == "current":
        route = [("a", "b", ctx.choose("rl", [None, 0]))] + route
    want = route[1:] if kind == "current" else list(route)
    rnd = common.Rand(ctx)
    got = net.next_lane(cur, route=route, position=m.arr([0., 0.]), np_random=rnd)
    check_next(ctx, net, d, cur, got, [to])
    ctx.check("the finished step is dropped, nothing else", route == want)


def unrouted(ctx, n0, kind):
    net, d = network(ctx, n0)
    cur = ("a", "b", ctx.choose("id", list(range(n0))))
    rnd = common.Rand(ctx)
    route = {"none": None, "empty": [], "foreign": [("x", "y", None)], "last": [("a", "b", 0)]}[kind]
    got = net.next_lane(cur, route=route, position=m.arr([0., 0.]), np_random=rnd)
    check_next(ctx, net, d, cur, got, ["c", "d", "e", "f"])
    ctx.check("at most one draw", rnd.k[0] <= 1)


def every_exit(ctx):
    """Without a route every outgoing road can be taken: the draw decides which."""
    net, d = network(ctx, 2)
    outs = []
    for k in range(8):
        class Fix(object):
            """A generator whose k-th outcome (of as many as requested) comes out."""
            def randint(self, lo, hi=None, *a, **kw):
                lo, hi = (0, lo) if hi is None else (lo, hi)
                return lo + k % max(hi - lo, 1)
            integers = randint

            def choice(self, n, *a, **kw):
                return k % n if isinstance(n, int) else n[k % len(n)]

            def random(self, *a):
                return (k % 4 + 0.5) / 4
            rand = random_sample = random

            def uniform(self, lo=0., hi=1., *a):
                return lo + (hi - lo) * self.random()
        outs.append(tuple(net.next_lane(("a", "b", 1), None, m.arr([0., 0.]), Fix()))[1])
    ctx.check("each road for some draw", sorted(set(outs)) == ["c", "d", "e", "f"])


def dead_end(ctx):
    net, d = network(ctx, 2)
    rt = ctx.choose("route", [None, "last"])
    cur = ("c", "z", 0)
    got = tuple(net.next_lane(cur, route=[cur] if rt else None, position=m.arr([0., 0.]), np_random=common.Rand(ctx)))
    ctx.check("stays on the lane at a dead end", got == cur)


def follow(ctx, n0):
    """A vehicle past the end of its target lane retargets the next one; before the end, the target is untouched."""
    from highway_env.road.road import RoadNetwork
    from highway_env.vehicle.controller import ControlledVehicle
    net = RoadNetwork()
    common.add_straight(net, "a", "b", n0, 0., 100.)
    common.add_straight(net, "b", "c", 2, 100., 200.)
    common.add_straight(net, "b", "d", 3, 100., 200.)
    rnd = common.Rand(ctx)
    rd = common.road(net, np_random=rnd)
    x, y = ctx.real("x", 0, 150), ctx.real("y", -2, 10)
    i = ctx.choose("id", list(range(n0)))
    v = common.vehicle(ControlledVehicle, rd, [x, y], 0., 10., ("a", "b", i), target_speed=10.)
    to = ctx.choose("to", ["c", "d", None])
    v.route = [("a", "b", None), ("b", to, None)] if to else None
    v.follow_road()
    t = v.target_lane_index
    t = (t[0], t[1], operator.index(t[2]))
    ctx.observe("target", list(t))
    past = x > 97.5
    if t == ("a", "b", i):
        ctx.check("still on the lane", m.Not(past))
        return
    ctx.check("only past the end", past)
    ctx.check("chained", t[0] == "b" and t[1] in ([to] if to else ["c", "d"]))
    n = len(net.graph["b"][t[1]])
    ctx.check("existing lane", 0 <= t[2] < n)
    if n == n0:
        ctx.check("same id", t[2] == i)
    else:
        for j in range(n):
            ctx.check("closest", m.absv(y - 4. * t[2]) <= m.absv(y - 4. * j))
    ctx.check("route progresses", not to or [tuple(s) for s in v.route] == [("b", to, None)])


def ahead(ctx):
    """The lane whose end counts is the target one: a vehicle already heading for the next road, not there yet, keeps its target (and route)."""
    from highway_env.road.road import RoadNetwork
    from highway_env.vehicle.controller import ControlledVehicle
    net = RoadNetwork()
    common.add_straight(net, "a", "b", 2, 0., 100.)
    common.add_straight(net, "b", "c", 2, 100., 200.)
    common.add_straight(net, "c", "d", 2, 200., 300.)
    rd = common.road(net, np_random=common.Rand(ctx))
    x = ctx.real("x", 80, 220)
    on = ctx.choose("on", ["a", "b"])
    v = common.vehicle(ControlledVehicle, rd, [x, ctx.real("y", -2, 6)], 0., 10., (on, chr(ord(on) + 1), ctx.choose("lane", [0, 1])), target_speed=10.)
    i = ctx.choose("id", [0, 1])
    v.target_lane_index = ("b", "c", i)
    v.route = [("b", "c", None), ("c", "d", None)] if ctx.choose("routed", [True, False]) else None
    n = v.route and len(v.route)
    v.follow_road()
    t = tuple(v.target_lane_index)
    if x > 197.5:
        ctx.check("next road at the end of the target", t == ("c", "d", i))
        ctx.check("route progresses", n is None or len(v.route) == 1)
    else:
        ctx.check("target kept before its end", t == ("b", "c", i))
        ctx.check("route kept", n is None or len(v.route) == 2)


def cases(tier):
    cs = []
    for n0 in (1, 2, 3):
        cs.append(Case("routed-%d" % n0, routed, dict(n0=n0)))
        for k in ("none", "empty", "foreign", "last"):
            cs.append(Case("unrouted-%s-%d" % (k, n0), unrouted, dict(n0=n0, kind=k)))
        cs.append(Case("follow-%d" % n0, follow, dict(n0=n0)))
    cs += [Case("dead-end", dead_end), Case("follow-ahead", ahead), Case("every-exit", every_exit)]
    return cs
