"""Meta-actions: lane changes to reachable adjacent lanes only, speed changes by fixed increments, one thing at a time."""
import operator

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("a road of 1 to 4 parallel lanes (one of them forbidden, thorough: any), any current target lane, any position in "
          "[-20,240]x[-14,26] (road of 200 m, followed by one of as many or, with the target already there, 1 to 3 lanes, or a dead end), any speed in [-40,40] and target speed in [-60,60]; every meta-action, "
          "two in a row (thorough: three)")

ACTIONS = ["FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT", "IDLE", None]


def scene(ctx, n, forbidden, nxt):
    from highway_env.vehicle.controller import ControlledVehicle
    net = common.straight_net(n, 200., forbidden=forbidden)
    if nxt:
        common.add_straight(net, "1", "2", n, 200., 300.)
    rd = common.road(net, np_random=common.Rand(ctx))
    x, y = ctx.real("x", -20, 240), ctx.real("y", -14, 26)
    v, t = ctx.real("v", -40, 40), ctx.real("t", -60, 60)
    i = ctx.choose("lane", list(range(n)))
    o = common.vehicle(ControlledVehicle, rd, [x, y], 0., v, ("0", "1", i))
    o.target_speed = t
    # the low-level controller is decided elsewhere
    o.steering_control = lambda index: 0.
    return o, net, x, y, v, t, i


def lane_of(o):
    t = o.target_lane_index
    return t[0], t[1], operator.index(t[2])


def single(ctx, n, forbidden, nxt, repeat=1):
    o, net, x, y, v, t, i = scene(ctx, n, forbidden, nxt)
    cur = ("0", "1", i)
    for k in range(repeat):
        a = ctx.choose("action%d" % k, ACTIONS)
        if nxt and k == 0 and x > 197.5:
            cur = ("1", "2", cur[2])            # the road goes on with as many lanes
        o.act(a)
        got = lane_of(o)
        ctx.check("existing lane", got[0] in net.graph and got[1] in net.graph[got[0]] and 0 <= got[2] < len(net.graph[got[0]][got[1]]))
        ctx.check("same road", got[:2] == cur[:2])
        if a in ("LANE_LEFT", "LANE_RIGHT"):
            j = cur[2] + (1 if a == "LANE_RIGHT" else -1)
            if 0 <= j < n:
                lane_ok = net.graph[cur[0]][cur[1]][j]
                can = lane_reach(lane_ok, x, y, j, forbidden if cur[0] == "0" else (), cur[0])
                if got[2] == j:
                    ctx.check("reachable", can)
                else:
                    ctx.check("unchanged otherwise", got[2] == cur[2])
                    ctx.check("only if not reachable", m.Not(can))
            else:
                ctx.check("no lane there", got[2] == cur[2])
        else:
            ctx.check("lane kept", got[2] == cur[2])
        t = t + {"FASTER": 5, "SLOWER": -5}.get(a, 0)
        ctx.eq("target speed", o.target_speed, t)
        ctx.eq("speed control towards it", o.action["acceleration"], (t - v) / 0.6)
        ctx.check("position untouched", m.And(o.position[0] == x, o.position[1] == y))
        cur = got
    ctx.observe("lane", list(cur))


def uneven(ctx, n, k):
    """Target already on the next road, which has another number of lanes."""
    from highway_env.vehicle.controller import ControlledVehicle
    net = common.straight_net(n, 200.)
    common.add_straight(net, "1", "2", k, 200., 300.)
    rd = common.road(net, np_random=common.Rand(ctx))
    x, y = ctx.real("x", 190, 290), ctx.real("y", -14, 26)
    j = ctx.choose("target", list(range(k)))
    o = common.vehicle(ControlledVehicle, rd, [x, y], 0., 10., ("0", "1", ctx.choose("lane", list(range(n)))))
    o.target_lane_index = ("1", "2", j)
    o.steering_control = lambda index: 0.
    a = ctx.choose("action", ["LANE_LEFT", "LANE_RIGHT"])
    o.act(a)
    got, i = lane_of(o), j + (1 if a == "LANE_RIGHT" else -1)
    ctx.check("same road", got[:2] == ("1", "2"))
    if 0 <= i < k:
        can = lane_reach(None, x, y, i, (), "1")
        ctx.check("reachable", m.iff(can, got[2] == i))
        ctx.check("one lane or none", got[2] in (i, j))
    else:
        ctx.check("no lane there", got[2] == j)


def lane_reach(lane, x, y, j, forbidden, a):
    if j in forbidden:
        return False
    base, L = (0., 200.) if a == "0" else (200., 100.)
    return m.And(m.absv(y - 4. * j) <= 8, x - base >= 0, x - base < L + 5)


def cases(tier):
    cs = []
    for n in (1, 2, 3, 4):
        cs.append(Case("one-%d" % n, single, dict(n=n, forbidden=(), nxt=False)))
    cs += [Case("forbidden", single, dict(n=3, forbidden=(1,), nxt=False)), Case("next-road", single, dict(n=3, forbidden=(), nxt=True)),
           Case("two-in-a-row", single, dict(n=3, forbidden=(2,), nxt=False, repeat=2), cost=3)]
    cs += [Case("uneven-%d-%d" % q, uneven, dict(n=q[0], k=q[1])) for q in ((1, 3), (3, 1), (2, 3), (4, 2))]
    if tier == "thorough":
        cs.append(Case("three-in-a-row", single, dict(n=4, forbidden=(1,), nxt=True, repeat=3), cost=9, max_paths=20000))
        cs.append(Case("forbidden-0", single, dict(n=3, forbidden=(0,), nxt=True)))
    return cs
