"""Route planning: a planned route is a shortest chain of existing roads, and empty exactly when there is none."""
import itertools

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("every directed graph on 4 nodes (5 nodes without roads into the start, thorough), with or without outgoing "
          "roads at each node; every start and destination; roads not examined by the search stay unknown; chains of 9 (thorough 12) nodes with any shortcuts over one node")


class Edges(object):
    """The adjacency of one node: membership of each successor is an input."""

    def __init__(self, g, a):
        self.g, self.a = g, a

    def keys(self):
        return [b for b in self.g.nodes if self.g.has(self.a, b)]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def __contains__(self, b):
        return b in self.g.nodes and self.g.has(self.a, b)

    def __getitem__(self, b):
        if b in self:
            return self.g.lanes
        raise KeyError(b)

    def items(self):
        return [(b, self.g.lanes) for b in self.keys()]

    def values(self):
        return [self.g.lanes for b in self.keys()]


class Graph(object):
    """Nodes n0..; the nodes of `sinks` have no outgoing road and are absent from the graph, as the network builds it."""

    def __init__(self, ctx, n, sinks, noedge=()):
        self.ctx, self.nodes, self.sinks = ctx, ["n%d" % i for i in range(n)], sinks
        self.e = {(a, b): ctx.int("e_%s_%s" % (a, b), 0, 1) for a in self.nodes for b in self.nodes
                  if a != b and a not in sinks and (a, b) not in noedge}
        for a in self.nodes:      # a node of the graph has at least one outgoing road
            if a not in sinks:
                ctx.assume(m.Or(*[v == 1 for (x, b), v in self.e.items() if x == a]))
        self.lanes = [None]

    def term(self, a, b):
        return self.e[a, b] == 1 if (a, b) in self.e else False

    def has(self, a, b):
        return bool(self.term(a, b))

    def __contains__(self, a):
        return a in self.nodes and a not in self.sinks

    def keys(self):
        return [a for a in self.nodes if a not in self.sinks]

    def __iter__(self):
        return iter(self.keys())

    def __getitem__(self, a):
        if a not in self:
            raise KeyError(a)
        return Edges(self, a)

    def get(self, a, d=None):
        return self[a] if a in self else d


def simple_paths(nodes, a, b, maxlen):
    mid = [x for x in nodes if x not in (a, b)]
    for k in range(0, maxlen):
        for p in itertools.permutations(mid, k):
            yield (a,) + p + (b,)


def judge(ctx, g, start, goal, path):
    ctx.observe("length", len(path))
    if path:
        ctx.check("starts and ends at the requested nodes", path[0] == start and path[-1] == goal)
        for a, b in zip(path[:-1], path[1:]):
            ctx.check("every step is a road", g.term(a, b))
    longest = len(path) - 2 if path else len(g.nodes) - 1
    for p in simple_paths(g.nodes, start, goal, longest):
        ctx.check("no shorter route" if path else "no route at all",
                  m.Not(m.And(*[g.term(a, b) for a, b in zip(p[:-1], p[1:])])))


def make(ctx, n, noback=False):
    sinks = ctx.choose("sinks", [(), ("n%d" % (n - 1),), ("n1", "n2")])
    noedge = [("n%d" % i, "n0") for i in range(n)] if noback else ()
    return Graph(ctx, n, sinks, noedge)


def shortest(ctx, n, noback):
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    net.graph = g = make(ctx, n, noback)
    start, goal = "n0", ctx.choose("goal", ["n1", "n%d" % (n - 1)])
    judge(ctx, g, start, goal, list(net.shortest_path(start, goal)))


def plan(ctx, n):
    """A vehicle asked to go to a destination: current lane, then one step per road of a shortest path."""
    from highway_env.road.road import RoadNetwork
    from highway_env.vehicle.controller import ControlledVehicle
    net = RoadNetwork()
    net.graph = g = make(ctx, n, True)
    rd = common.road(net)
    v = ControlledVehicle(None, [0., 0.], 0., 10.)
    v.road, v.lane_index = rd, ("x", "n0", ctx.choose("id", [0, 2]))
    goal = ctx.choose("goal", ["n1", "n%d" % (n - 1)])
    r = v.plan_route_to(goal)
    ctx.check("returns the vehicle", r is v)
    ctx.check("first step is the current lane", tuple(v.route[0]) == v.lane_index)
    steps = [tuple(s) for s in v.route[1:]]
    ctx.check("no lane is imposed", all(s[2] is None for s in steps))
    ctx.check("steps are chained", all(a[1] == b[0] for a, b in zip([("x", "n0")] + steps, steps)))
    judge(ctx, g, "n0", goal, ["n0"] + [s[1] for s in steps] if steps else [])


def sink_start(ctx):
    """On a road that ends nowhere there is no route."""
    from highway_env.road.road import RoadNetwork
    from highway_env.vehicle.controller import ControlledVehicle
    net = RoadNetwork()
    net.graph = g = Graph(ctx, 3, ("n0",))
    ctx.check("no path from a dead end", list(net.shortest_path("n0", "n1")) == [])
    v = ControlledVehicle(None, [0., 0.], 0., 10.)
    v.road, v.lane_index = common.road(net), ("x", "n0", 1)
    v.plan_route_to("n2")
    ctx.check("only the current lane", [tuple(s) for s in v.route] == [("x", "n0", 1)])


def chain(ctx, n):
    """A long chain of roads (the ring of a roundabout and more) with shortcuts skipping one of them, or not."""
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    nodes = ["n%d" % i for i in range(n)]
    last = nodes[-1]
    net.graph = g = Graph(ctx, n, (last,), [(a, b) for i, a in enumerate(nodes) for j, b in enumerate(nodes) if j not in (i + 1, i + 2)])
    for a, b in zip(nodes[:-1], nodes[1:]):
        ctx.assume(g.e[a, b] == 1)
    path = list(net.shortest_path("n0", last))
    ctx.observe("length", len(path))
    ctx.check("from start to destination", path[:1] == ["n0"] and path[-1:] == [last])
    for a, b in zip(path[:-1], path[1:]):
        ctx.check("every step is a road", g.term(a, b))
    # fewest roads: dynamic programming over the chain
    d = [0]
    for j in range(1, n):
        best = d[j - 1] + 1
        if j > 1:
            best = m.ite(g.term(nodes[j - 2], nodes[j]), m.mn(best, d[j - 2] + 1), best)
        d.append(best)
    ctx.check("no shorter route", d[-1] == len(path) - 1)


def cases(tier):
    cs = [Case("chain-%d" % n, chain, dict(n=n)) for n in ((9,) if tier == "quick" else (9, 12))]
    cs += [Case("shortest-4", shortest, dict(n=4, noback=False), cost=3), Case("plan-4", plan, dict(n=4), cost=2),
          Case("dead-end", sink_start)]
    if tier == "thorough":
        cs.append(Case("shortest-5", shortest, dict(n=5, noback=True), cost=9, max_paths=40000))
    return cs
