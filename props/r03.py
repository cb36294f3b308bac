"""Localisation: the lane a position is attributed to minimises the lane distance over the whole network."""
import math

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("networks of the highway (4 lanes), merge, two-way and parking roads with any position in a box around them and any "
          "heading; abstract network of 5 edges whose 7 lane distances are arbitrary")


class AnyLane(object):
    """A lane of unknown geometry."""
    width, length, forbidden = 4., 100., False

    def __init__(self, d, dh):
        self.d, self.dh = d, dh

    def distance(self, position):
        return self.d

    def distance_with_heading(self, position, heading, heading_weight=1.0):
        return self.d if heading is None else self.dh


def abstract(ctx, with_heading):
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    ds = {}
    for a, b, n in (("a", "b", 2), ("b", "c", 1), ("b", "d", 2), ("c", "a", 1), ("d", "e", 1)):
        for i in range(n):
            d = ctx.real("d_%s%s%d" % (a, b, i), 0, 100)
            dh = ctx.real("h_%s%s%d" % (a, b, i), 0, 100)
            net.add_lane(a, b, AnyLane(d, dh))
            ds[(a, b, i)] = dh if with_heading else d
    got = net.get_closest_lane_index(m.arr([0., 0.]), 0. if with_heading else None)
    got = tuple(got)
    ctx.observe("lane", list(got))
    ctx.check("an existing lane", got in ds)
    for k, d in ds.items():
        ctx.check("not farther than %s" % (k,), ds[got] <= d)


def concrete(ctx, name, box, heading):
    net = common.network_of(name)
    px, py = ctx.real("px", box[0], box[1]), ctx.real("py", box[2], box[3])
    p = m.arr([px, py])
    h = ctx.real("h", -3.5, 3.5) if heading else None
    got = tuple(net.get_closest_lane_index(p, h))
    ctx.observe("lane", list(got))
    best = None

    def dist(lane):
        s, r = lane.local_coordinates(p)
        d = m.absv(r) + m.mx(s - lane.length, 0) + m.mx(-s, 0)
        if heading:
            d = d + m.absv(common.wrap(h - lane.heading_at(s)))
        return d
    d0 = dist(net.get_lane(got))
    for a in net.graph:
        for b in net.graph[a]:
            for i, lane in enumerate(net.graph[a][b]):
                if (a, b, i) != got:
                    ctx.le("not farther than %s-%s-%d" % (a, b, i), d0, dist(lane))


def cases(tier):
    cs = [Case("abstract-%s" % h, abstract, dict(with_heading=h)) for h in (True, False)]
    cs += [Case("highway", concrete, dict(name="HighwayEnv", box=(-50, 10100, -30, 40), heading=False)),
           Case("highway-heading", concrete, dict(name="HighwayEnv", box=(-50, 10100, -30, 40), heading=True)),
           Case("merge", concrete, dict(name="MergeEnv", box=(-50, 500, -30, 40), heading=False), cost=5),
           Case("two-way-heading", concrete, dict(name="TwoWayEnv", box=(-50, 900, -20, 30), heading=True), cost=5),
           Case("parking", concrete, dict(name="ParkingEnv", box=(-40, 40, -30, 30), heading=False), cost=5)]
    return cs
