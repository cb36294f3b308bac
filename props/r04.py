"""Neighbour search: leader and follower on a lane are the nearest occupants ahead and behind."""
from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("ego on a road of three parallel 200 m lanes, any longitudinal position, 2 other vehicles (thorough: 3), or "
          "one vehicle and up to two objects (hit before or not), at any position in [-30,240]x[-8,16]; own lane and any requested lane, also with the ego changing lanes and the other vehicle crashed, standing, reversing or attributed to another lane; three (thorough: four) vehicles on the lane; a requested lane of a crossing road; ring lanes "
          "of radius 9 and 24 with 2 others")


def setup(ctx, nv, nobj, side=False, kinds=False, hits=False):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.objects import Obstacle, Landmark
    net = common.straight_net(3, 200.)
    rd = common.road(net)
    lane0 = 1 if side else ctx.choose("lane", [0, 1, 2])
    xs = ctx.real("xe", 0, 200)
    ego = common.vehicle(Vehicle, rd, [xs, 4. * lane0 + ctx.real("dy", -1, 1)], 0., 20., ("0", "1", lane0)) if not kinds else changing(ctx, rd, xs, lane0)
    others = []
    for i in range(nv):
        x, y = ctx.real("x%d" % i, -30, 240), ctx.real("y%d" % i, -8, 16)
        if kinds:    # crashed or not, standing or reversing, attributed to whatever lane: only the place counts
            others.append(common.vehicle(Vehicle, rd, [x, y], ctx.choose("h%d" % i, [0., 3.]), ctx.choose("v%d" % i, [0., -5., 20.]), ("0", "1", ctx.choose("listed%d" % i, [0, 2]))))
            others[-1].crashed = ctx.bool("crashed%d" % i)
        else:
            others.append(common.vehicle(Vehicle, rd, [x, y], 0., 20., ("0", "1", 0)))
    objs = []
    for i in range(nobj):
        cls = Landmark if i else Obstacle
        x, y = ctx.real("xo%d" % i, -30, 240), ctx.real("yo%d" % i, -8, 16)
        objs.append(cls(rd, m.arr([x, y])))
        objs[-1].hit = ctx.choose("hit%d" % i, [False, True]) if hits else False
    pos = 1 if side else ctx.choose("place", [0, nv])
    rd.vehicles = others[:pos] + [ego] + others[pos:]
    rd.objects = objs
    return rd, ego, others, objs


def changing(ctx, rd, xs, lane0):
    """A traffic vehicle on its way to another lane."""
    from highway_env.vehicle.behavior import IDMVehicle
    v = common.vehicle(IDMVehicle, rd, [xs, 4. * lane0], 0., 20., ("0", "1", lane0), timer=0.5)
    v.target_lane_index = ("0", "1", ctx.choose("target", [0, 1, 2]))
    return v


def check(ctx, got, ego_s, cands):
    """cands: (entity, s, on the lane)"""
    front, rear = got
    ents = [c[0] for c in cands]
    ctx.observe("front", -1 if front is None else [e is front for e in ents].index(True) if any(e is front for e in ents) else -2)
    ctx.observe("rear", -1 if rear is None else [e is rear for e in ents].index(True) if any(e is rear for e in ents) else -2)
    for who, sel, lab in ((front, lambda s: s >= ego_s, "leader"), (rear, lambda s: s < ego_s, "follower")):
        if who is None:
            for e, s, on in cands:
                ctx.check("no %s only if none qualifies" % lab, m.Not(m.And(on, sel(s))))
            continue
        mine = [c for c in cands if c[0] is who]
        ctx.check("%s is another occupant" % lab, len(mine) == 1)
        if not mine:
            continue
        _, s0, on0 = mine[0]
        ctx.check("%s qualifies" % lab, m.And(on0, sel(s0)))
        for e, s, on in cands:
            if e is not who:
                nearer = s < s0 if lab == "leader" else s > s0
                ctx.check("%s is the nearest" % lab, m.Not(m.And(on, sel(s), nearer)))


def straight(ctx, nv, nobj, side, kinds=False, hits=False):
    from highway_env.road.objects import Landmark
    rd, ego, others, objs = setup(ctx, nv, nobj, side, kinds, hits)
    idx = ("0", "1", ctx.choose("on", [0, 1, 2])) if side else None
    lane_y = 4. * (idx or ego.lane_index)[2]
    got = rd.neighbour_vehicles(ego, idx) if side else rd.neighbour_vehicles(ego)
    cands = [(o, o.position[0], m.And(m.absv(o.position[1] - lane_y) <= 3, o.position[0] >= -5, o.position[0] < 205))
             for o in others + [x for x in objs if not isinstance(x, Landmark)]]
    check(ctx, got, ego.position[0], cands)


def circular(ctx, R, cw):
    """On a ring lane the order is that of the lane coordinate."""
    from highway_env.road.road import RoadNetwork
    from highway_env.road.lane import CircularLane
    from highway_env.vehicle.kinematics import Vehicle
    net = RoadNetwork()
    net.add_lane("a", "b", CircularLane([0., 0.], R, 0., 1.4 * (1 if cw else -1), clockwise=cw))
    lane = net.get_lane(("a", "b", 0))
    rd = common.road(net)
    ps = []
    for i in range(3):
        s, r = ctx.real("s%d" % i, -0.2 * R, 1.6 * R), ctx.real("r%d" % i, -4, 4)
        ps.append((s, r, common.vehicle(Vehicle, rd, lane.position(s, r), 0., 5., ("a", "b", 0))))
    rd.vehicles = [p[2] for p in ps]
    ego = ps[0]
    got = rd.neighbour_vehicles(ego[2])
    loc = [lane.local_coordinates(p[2].position) for p in ps]      # decided by R01
    cands = [(p[2], s, m.And(m.absv(r) <= 3, s >= -5, s < 1.4 * R + 5)) for p, (s, r) in list(zip(ps, loc))[1:]]
    check(ctx, got, loc[0][0], cands)


def three(ctx, n):
    """Several vehicles on the lane itself: the nearest of many, whatever their order."""
    from highway_env.vehicle.kinematics import Vehicle
    rd = common.road(common.straight_net(3, 200.))
    ego = common.vehicle(Vehicle, rd, [ctx.real("xe", 0, 200), 4.], 0., 20., ("0", "1", 1))
    xs = [ctx.real("x%d" % i, 0, 200) for i in range(n)]
    others = [common.vehicle(Vehicle, rd, [x, 4.], 0., 20., ("0", "1", 1)) for x in xs]
    rd.vehicles = others[:1] + [ego] + others[1:]
    check(ctx, rd.neighbour_vehicles(ego), ego.position[0], [(o, o.position[0], True) for o in others])


def crossing(ctx):
    """The lane asked for may belong to another road: it alone gives the coordinates."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.road.lane import StraightLane
    net = common.straight_net(2, 200.)
    net.add_lane("s", "t", StraightLane([100., 60.], [100., -60.]))
    rd = common.road(net)
    ego = common.vehicle(Vehicle, rd, [ctx.real("xe", 90, 110), ctx.choose("ye", [0., 20., -30.])], 0., 20., ("0", "1", 0))
    others = [common.vehicle(Vehicle, rd, [ctx.real("x%d" % i, 90, 110), ctx.real("y%d" % i, -66, 66)], 0., 20., ("0", "1", i)) for i in range(2)]
    rd.vehicles = [ego] + others
    idx = ctx.choose("on", [("s", "t", 0), ("0", "1", 1)])
    got = rd.neighbour_vehicles(ego, idx)
    if idx[0] == "s":
        cands = [(o, 60 - o.position[1], m.And(m.absv(o.position[0] - 100) <= 3, o.position[1] <= 65, o.position[1] > -65)) for o in others]
        check(ctx, got, 60 - ego.position[1], cands)
    else:
        check(ctx, got, ego.position[0], [(o, o.position[0], m.absv(o.position[1] - 4) <= 3) for o in others])


def none(ctx):
    from highway_env.vehicle.kinematics import Vehicle
    rd = common.road(common.straight_net(2, 100.))
    v = common.vehicle(Vehicle, rd, [ctx.real("x", 0, 90), 0.], 0., 10., ("0", "1", 0))
    v.lane_index = None
    rd.vehicles = [v, common.vehicle(Vehicle, rd, [50., 0.], 0., 10., ("0", "1", 0))]
    got = rd.neighbour_vehicles(v)
    ctx.check("a vehicle on no lane has no neighbours", got[0] is None and got[1] is None)


def cases(tier):
    n = 2 if tier == "quick" else 3
    cs = [Case("straight-own", straight, dict(nv=n, nobj=0, side=False), cost=3),
          Case("straight-own-objects", straight, dict(nv=1, nobj=2, side=False), cost=3),
          Case("straight-own-hit", straight, dict(nv=1, nobj=1, side=False, hits=True), cost=3),
          Case("straight-side", straight, dict(nv=n, nobj=0, side=True), cost=4),
          Case("straight-side-objects", straight, dict(nv=1, nobj=1, side=True), cost=4),
          Case("three", three, dict(n=n + 1), cost=3), Case("crossing", crossing, cost=3),
          Case("straight-kinds", straight, dict(nv=1, nobj=0, side=False, kinds=True), cost=3),
          Case("ring-9-cw", circular, dict(R=9, cw=True), cost=2), Case("ring-24-ccw", circular, dict(R=24, cw=False), cost=2),
          Case("off-road", none)]
    return cs
