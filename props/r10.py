"""Lane relations and proximity: neighbouring lanes, connected roads and nearby vehicles are exactly those of the definition."""
import operator

from symx.engine import Case
from symx import m
from . import common
from .r05 import Graph

BOUNDS = ("roads of 1 to 5 lanes; connection of any two roads in every directed graph on 4 nodes, without route, or with routes of 1 to 3 steps starting at the road, at the next one or further ahead, "
          "search depth 0 to 3; proximity: two other vehicles (thorough: three) anywhere in a 160 m x 16 m box around the ego, any range in "
          "[0,100], count in {none,0,1,2,3}")


def side(ctx):
    from highway_env.road.road import RoadNetwork
    n = ctx.choose("lanes", [1, 2, 3, 4, 5])
    net = common.straight_net(n, 100.)
    common.add_straight(net, "1", "2", 2, 100., 200.)
    i = ctx.int("id", 0, 4)
    ctx.assume(i < n)
    got = [(a, b, operator.index(k)) for a, b, k in net.side_lanes(("0", "1", i))]
    k = operator.index(i)
    ctx.check("adjacent lanes", sorted(got) == [("0", "1", j) for j in (k - 1, k + 1) if 0 <= j < n])
    ctx.check("all lanes of the road", [tuple(x) for x in net.all_side_lanes(("0", "1", i))] == [("0", "1", j) for j in range(n)])
    ctx.check("all lanes of the network", len(net.lanes_list()) == n + 2)
    ctx.check("single lane by default", (net.get_lane(("0", "1", None)) is net.graph["0"]["1"][0]) if n == 1 else True)
    ctx.check("lane", net.get_lane(("0", "1", k)) is net.graph["0"]["1"][k])


def relations(ctx):
    from highway_env.road.road import RoadNetwork
    nodes = ["a", "b", "c"]
    l1 = (ctx.choose("f1", nodes), ctx.choose("t1", nodes), ctx.choose("i1", [0, 1]))
    l2 = (ctx.choose("f2", nodes), ctx.choose("t2", nodes), ctx.choose("i2", [0, 1]))
    for same in (False, True):
        ids = (not same) or l1[2] == l2[2]
        ctx.check("same road %s" % same, RoadNetwork.is_same_road(l1, l2, same) == (l1[0] == l2[0] and l1[1] == l2[1] and ids))
        ctx.check("leading road %s" % same, RoadNetwork.is_leading_to_road(l1, l2, same) == (l1[1] == l2[0] and ids))


def road_eq(l2, r):
    """l2's road is r, or ends where r starts."""
    return (l2[0], l2[1]) == r or l2[1] == r[0]


def connected(ctx, depth, same):
    """Without route: some road at most `depth` roads after lane 1's road is lane 2's road, or starts where it ends."""
    from highway_env.road.road import RoadNetwork
    g = Graph(ctx, 4, [])
    net = RoadNetwork()
    net.graph = GraphView(g)
    l1 = ("n0", "n1", 0)
    l2 = (ctx.choose("from", g.nodes), ctx.choose("to", g.nodes), ctx.choose("id", [0, 1]) if same else 0)
    got = bool(net.is_connected_road(l1, l2, depth=depth, same_lane=same))
    layer = {("n0", "n1"): True}
    seen = []
    for k in range(depth + 1):
        for r, t in layer.items():
            if road_eq(l2, r) and (not same or l2[2] == 0):
                seen.append(t)
        nxt = {}
        for (a, b), t in layer.items():
            for c in g.nodes:
                e = g.term(b, c)
                if e is False:
                    continue
                nxt[b, c] = m.Or(nxt.get((b, c), False), m.And(t, e))
        layer = nxt
    want = m.Or(*seen) if seen else False
    ctx.check("connected iff within reach", m.Iff(got, want) if want is not False and want is not True else got == want)


class GraphView(object):
    """dict-like adjacency of the symbolic graph."""

    def __init__(self, g):
        self.g = g

    def get(self, a, default=None):
        from .r05 import Edges
        return Edges(self.g, a) if a in self.g.nodes and a not in self.g.sinks else default

    def __getitem__(self, a):
        r = self.get(a)
        if r is None:
            raise KeyError(a)
        return r

    def __contains__(self, a):
        return self.get(a) is not None


def routed(ctx, depth):
    """With a route starting at or after the road, only the route's roads are followed while it lasts."""
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    for a, b in (("a", "b"), ("b", "c"), ("b", "d"), ("c", "e"), ("c", "f"), ("d", "e"), ("e", "g"), ("f", "g")):
        common.add_straight(net, a, b, 1, 0., 100.)
    nodes = list("abcdefg") + ["z"]
    current = ctx.choose("current", [True, False])
    n = ctx.choose("steps", [1, 2, 3])
    route = [("b", ctx.choose("second", ["c", "d"]), None)]
    while len(route) < n:
        last = route[-1][1]
        nx = list(net.graph[last])
        route.append((last, ctx.choose("step%d" % len(route), nx), None))
    full = ([("a", "b", 0)] if current else []) + route
    if not current and n > 1 and ctx.choose("starts", ["here", "ahead"]) == "ahead":
        full = full[1:]
    l2 = (ctx.choose("from", nodes), ctx.choose("to", nodes), 0)
    got = bool(net.is_connected_road(("a", "b", 0), l2, route=list(full), depth=depth))
    # roads followed: every continuation up to the start of the route, the route's while it lasts, then again every continuation
    frontier, seen = [(("a", "b"), tuple(r[:2] for r in full))], []
    for k in range(depth + 1):
        seen += [r for r, _ in frontier]
        nxt = []
        for road, todo in frontier:
            if todo and todo[0] == road:
                todo = todo[1:]
            if todo and todo[0][0] == road[1]:
                nxt.append((todo[0], todo[1:]))
            else:
                nxt += [((road[1], c), todo) for c in net.graph.get(road[1], {})]
        frontier = nxt
    ctx.check("connected iff on the way", got == any(road_eq(l2, r) for r in seen))


def close(ctx, n, mode):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.lane import StraightLane
    net = common.straight_net(3, 1000.)
    net.add_lane("s", "t", StraightLane([500., -300.], [500., 300.]))      # a road crossing the others
    rd = common.road(net)
    ego = common.vehicle(Vehicle, rd, [500., 4.], 0., 20., ("0", "1", 1))

    class Short(Vehicle):
        LENGTH = 2.
    behind = ctx.choose("behind", [True, False])
    R = ctx.real("range", 0, 100) if mode == "range" else 200.
    count = ctx.choose("count", [None, 0, 1, 2, 3]) if mode == "order" else None
    vs = []
    for i in range(n):
        dx = ctx.real("dx%d" % i, -80, 80)
        dy = ctx.choose("dy%d" % i, [0., 6.]) if mode == "order" else ctx.real("dy%d" % i, -8, 8)
        vs.append((dx, dy, common.vehicle([Vehicle, Short][i % 2], rd, [500. + dx, 4. + dy], 0., 20., ("s", "t", 0) if i % 2 else ("0", "1", 1))))
    for i in range(n):
        for j in range(i):
            ctx.assume(m.absv(m.absv(vs[i][0]) - m.absv(vs[j][0])) > 1e-3)
    for dx, dy, v in vs:
        ctx.assume(m.absv(dx * dx + dy * dy - R * R) > 1e-3)
    rd.vehicles.extend([v for _, _, v in vs])
    rd.vehicles.insert(1, ego)
    got = rd.close_vehicles_to(ego, R, count=count, see_behind=behind)
    ctx.check("vehicles, each once, not the ego", len({id(v) for v in got}) == len(got) and all(v is not ego for v in got))
    inside = [m.And(dx * dx + dy * dy < R * R, True if behind else dx > -10) for dx, dy, v in vs]
    rank = {id(v): k for k, v in enumerate(got)}
    ctx.check("at most the count", count is None or len(got) <= count)
    for k, (dx, dy, v) in enumerate(vs):
        if id(v) in rank:
            ctx.check("in range", inside[k])
        elif count is None or len(got) < count:
            ctx.check("all those in range", m.Not(inside[k]))
        for j, (ex, ey, w) in enumerate(vs):
            if j == k or id(v) not in rank:
                continue
            if id(w) in rank:
                if rank[id(v)] < rank[id(w)]:
                    ctx.check("nearest along the road first", m.absv(dx) <= m.absv(ex))
            else:
                ctx.check("the nearest ones", m.Or(m.Not(inside[j]), m.absv(dx) <= m.absv(ex)))


def cases(tier):
    cs = [Case("side-lanes", side), Case("relations", relations), Case("close-range", close, dict(n=2, mode="range"), cost=3),
          Case("close-order", close, dict(n=3 if tier == "thorough" else 2, mode="order"), cost=4)]
    for d in (0, 1, 2) + ((3,) if tier == "thorough" else ()):
        cs.append(Case("connected-%d" % d, connected, dict(depth=d, same=False), cost=d + 1, max_paths=30000))
        cs.append(Case("routed-%d" % d, routed, dict(depth=d), max_paths=30000))
    cs.append(Case("routed-3", routed, dict(depth=3), max_paths=30000)) if tier != "thorough" else None
    cs.append(Case("connected-same-1", connected, dict(depth=1, same=True)))
    return cs
