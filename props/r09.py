"""Route choice at intersections: the alternatives are the roads leaving the next junction of the planned route."""
import operator

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("planned routes of 0 to 4 steps through nodes with 0 to 3 outgoing roads each (symbolic), any lane requirement (any integer or none) per step; any requested "
          "alternative in [-4,7], or random with any draw")


class Outgoing(object):
    """The roads leaving a node, in order: how many is an input, looked at only when asked."""

    def __init__(self, count, names):
        self.count, self.names = count, names
        self.lanes = lambda b: [None]

    def keys(self):
        return self.names(operator.index(self.count))

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return operator.index(self.count)

    def __contains__(self, b):
        return b in self.keys()

    def __getitem__(self, b):
        if b in self:
            return self.lanes(b)
        raise KeyError(b)

    def items(self):
        return [(b, self.lanes(b)) for b in self.keys()]

    def values(self):
        return [self.lanes(b) for b in self.keys()]


class Draws(object):
    """Random choices are inputs."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        self.n += 1
        self.last = self.ctx.int("draw%d" % self.n, int(low), int(high) - 1)
        return self.last

    def choice(self, a):
        return self.randint(a) if isinstance(a, int) else list(a)[operator.index(self.randint(len(a)))]


def setup(ctx, n, required=None):
    from highway_env.road.road import RoadNetwork
    from highway_env.vehicle.controller import ControlledVehicle
    net = RoadNetwork()
    net.graph = {}
    outs = {}
    for k in range(n):
        node = "n%d" % (k + 1)
        deg = ctx.int("roads%d" % (k + 1), 0 if k == n - 1 else 1, 3)
        rank = ctx.int("rank%d" % (k + 1), 0, 2)  # where the planned continuation comes among the outgoing roads

        def names(d, k=k, rank=rank):
            r = ["x%d%d" % (k, j) for j in range(d)]
            if k < n - 1:
                r[operator.index(rank)] = "n%d" % (k + 2)
            return r
        ctx.assume(rank < deg if k < n - 1 else rank == 0)
        outs[node] = Outgoing(deg, names)
        net.graph[node] = outs[node]
        if k == n - 1 and ctx.choose("dead end absent", [False, True]):
            # nodes without outgoing roads do not appear in the network
            ctx.assume(deg == 0)
            del net.graph[node]
    net.graph["n0"] = {"n1": [None]}
    rnd = Draws(ctx)
    v = common.vehicle(ControlledVehicle, common.road(net, np_random=rnd), [0., 0.], 0., 10., target_speed=10.)
    v.lane_index = v.target_lane_index = ("n0", "n1", 0)
    if required:
        return v, outs, [("n%d" % k, "n%d" % (k + 1), required(k)) for k in range(n)], rnd
    route = [("n%d" % k, "n%d" % (k + 1), ctx.int("lane%d" % k, -3, 9) if ctx.choose("required%d" % k, [False, True]) else None) for k in range(n)]
    return v, outs, route, rnd


def expected(outs, route):
    if not route:
        return []
    for k in range(min(len(route), 3)):
        o = outs[route[k][1]]
        if len(o) >= 2:
            return [route[:k + 1] + [(route[k][1], b, route[k][2])] for b in o.keys()]
    return [route]


def same(a, b):
    """The same lanes are asked for (lane requirements are terms)."""
    if len(a) != len(b):
        return False
    r = []
    for x, y in zip(a, b):
        if tuple(x[:2]) != tuple(y[:2]) or (x[2] is None) != (y[2] is None):
            return False
        if x[2] is not None:
            r.append(x[2] == y[2])
    return m.And(*r) if r else True


def routes(ctx, n, required=None):
    v, outs, route, rnd = setup(ctx, n, required)
    v.route = [tuple(s) for s in route]
    got = v.get_routes_at_intersection()
    want = expected(outs, route)
    ctx.check("as many alternatives as roads", len(got) == len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        ctx.check("alternative %d" % k, same(a, b))
    ctx.check("asking changes nothing", same(v.route, route))


def choose(ctx, n, random):
    v, outs, route, rnd = setup(ctx, n)
    v.route = [tuple(s) for s in route]
    want = expected(outs, route)
    to = "random" if random else ctx.int("to", -4, 7)
    v.set_route_at_intersection(to)
    if not want:
        ctx.check("no route stays no route", same(v.route, route))
        return
    if random:
        ctx.check("one of the alternatives", m.Or(*[same(v.route, w) for w in want]))
        ctx.check("one draw", rnd.n == 1)
        k = rnd.last
        ctx.check("every alternative can be drawn", m.And(*[m.Or(k != i, same(v.route, w)) for i, w in enumerate(want)]))
    else:
        k = to % len(want)
        ctx.check("the requested alternative", m.And(*[m.Or(k != i, same(v.route, w)) for i, w in enumerate(want)]))


def none(ctx):
    v, outs, route, rnd = setup(ctx, 1)
    v.route = ctx.choose("route", [None, []])
    before = v.route
    ctx.check("no alternatives without a route", v.get_routes_at_intersection() == [])
    v.set_route_at_intersection(ctx.int("to", -5, 5))
    ctx.check("still none", v.route == before)


def cases(tier):
    deep = (4,) if tier == "thorough" else ()
    cs = [Case("routes-%d" % n, routes, dict(n=n), cost=n, max_paths=30000) for n in (1, 2, 3) + deep]
    cs += [Case("choose-%d" % n, choose, dict(n=n, random=False), cost=n, max_paths=30000) for n in (1, 2, 3) + deep]
    cs += [Case("random-%d" % n, choose, dict(n=n, random=True), cost=n, max_paths=30000) for n in (1, 2) + deep[:1]]
    cs.append(Case("none", none))
    if tier != "thorough":      # junctions further than three lanes away do not count
        cs.append(Case("routes-far", routes, dict(n=4, required=lambda k: (None, 0, 1, 2)[k]), cost=4, max_paths=30000))
    return cs
