"""Lane changes of traffic: safe, advantageous, reachable, not too frequent, and aborted when someone cuts in."""
import operator

from symx.engine import Case
from symx import m
from . import common
from .v08 import gap

BOUNDS = ("the accelerations that the car-following model predicts for the vehicle and its old and new neighbours (any of them absent) "
          "are arbitrary in [-12,6], politeness in [0,1]; routes with any lane requirement on roads of up to 3 lanes (thorough: 4); any decision timer; any "
          "position on or beside the road; aborts: two other vehicles (traffic or plain) at any distance and speed with any lanes and target lanes")


def mobil(ctx, wanted):
    """The decision rule, over arbitrary predictions."""
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.kinematics import Vehicle
    cand, own = ctx.choose("candidate", [0, 1, 2]), 1
    if cand == own:
        return
    pol = ctx.real("politeness", 0, 1)
    who = {}
    acc = {}
    # a road of four lanes has two lanes on one side
    lanes = 4 if wanted == 3 else 3

    class Other(Vehicle):
        pass

    def name(v):
        return "none" if v is None else "self" if v is me else who[id(v)]

    def get(e, f):
        if e is None:
            return 0.
        k = "a_%s_%s" % (name(e), name(f))
        if k not in acc:
            acc[k] = ctx.real(k, -12, 6)
        return acc[k]

    class Model(IDMVehicle):
        POLITENESS = pol

        def acceleration(self, ego_vehicle=None, front_vehicle=None, rear_vehicle=None):
            return get(ego_vehicle, front_vehicle)

    class FreeRoad(object):
        network = common.straight_net(lanes, 1000.)
        vehicles, objects, record_history, np_random = [], [], False, None

        def neighbour_vehicles(self, vehicle, lane_index=None):
            lane = own if lane_index is None else lane_index[2]
            ctx.check("asks about itself", vehicle is me)
            return tuple(n[lane])
    n = {own: [None, None], cand: [None, None]}
    for lane, nm in ((own, "old"), (cand, "new")):
        for j, role in enumerate(("front", "rear")):
            if ctx.choose("%s_%s" % (nm, role), [True, False]):
                v = Other(None, [0., 0.])
                who[id(v)] = nm + role
                n[lane][j] = v
    me = common.vehicle(Model, FreeRoad(), [100., 4.], 0., 20., ("0", "1", own), timer=0.5)
    me.route = None if wanted == "none" else [("0", "1", None)] if wanted == "any" else [("0", ctx.choose("until", ["1", "2"]), wanted)]
    got = me.mobil(("0", "1", cand))
    got = bool(got)
    # specification
    nf = n[cand][1]
    safe = get(nf, me) >= -2.0 if nf is not None else True
    pred = get(me, n[cand][0])
    if isinstance(wanted, int):
        d, w = cand - own, wanted - own
        good = m.And((d > 0) == (w > 0), w != 0, pred >= -2.0)
    else:
        of = n[own][1]
        gain = pred - get(me, n[own][0]) + pol * ((get(nf, me) - get(nf, n[cand][0]) if nf is not None else 0.)
                                                  + (get(of, n[own][0]) - get(of, me) if of is not None else 0.))
        good = gain >= 0.2
    if got:
        ctx.check("does not force the new follower to brake hard", safe)
        ctx.check("worth it", good)
    else:
        ctx.check("only refused for a reason", m.Not(m.And(safe, good)))
    ctx.check("mobil only decides", me.target_lane_index == ("0", "1", own))
    ctx.observe("change", got)


def policy(ctx, n):
    """No change is under way: at most one decision per delay, towards an adjacent reachable lane that the model recommends."""
    from highway_env.vehicle.behavior import IDMVehicle
    net = common.straight_net(n, 200., forbidden=(n - 1,) if n == 4 else ())
    rd = common.road(net)
    i = ctx.choose("lane", list(range(n)))
    x, y = ctx.real("x", -20, 240), ctx.real("y", -14, 26)
    timer = ctx.real("timer", 0, 3)
    me = common.vehicle(IDMVehicle, rd, [x, y], 0., 20., ("0", "1", i), timer=1.)
    me.timer = timer
    rec = {j: ctx.bool("mobil%d" % j) for j in range(n)}
    asked = []

    def mobil(lane_index):
        asked.append(lane_index)
        return rec[operator.index(lane_index[2])]
    me.mobil = mobil
    me.change_lane_policy()
    t = (me.target_lane_index[0], me.target_lane_index[1], operator.index(me.target_lane_index[2]))
    if timer <= 1.0:
        ctx.check("too early", t == ("0", "1", i))
        ctx.eq("timer runs on", me.timer, timer)
        return
    ctx.eq("timer restarts", me.timer, 0)
    can = {j: m.And(m.absv(y - 4. * j) <= 8, x >= 0, x < 205, rec[j]) if not (n == 4 and j == 3) else False for j in range(n) if abs(j - i) == 1}
    if t == ("0", "1", i):
        for j in can:
            ctx.check("recommended change is made", m.Not(can[j]))
    else:
        ctx.check("adjacent lane", t[:2] == ("0", "1") and t[2] in can)
        if t[2] in can:
            ctx.check("reachable and recommended", can[t[2]])
    ctx.check("the current lane changes by driving only", me.lane_index == ("0", "1", i))
    ctx.observe("target", list(t))


def ongoing(ctx, n):
    """A change is under way: aborted iff a vehicle ahead, within the desired gap, is also moving into that lane from another one."""
    from highway_env.vehicle.behavior import IDMVehicle
    from highway_env.vehicle.controller import ControlledVehicle
    from highway_env.vehicle.kinematics import Vehicle
    net = common.straight_net(3, 1000.)
    common.add_straight(net, "1", "2", 3, 1000., 1200.)
    rd = common.road(net)
    v = ctx.real("v", 0, 40)
    far = ctx.choose("far", [False, True])
    target = ("1", "2", 1) if far else ("0", "1", 1)
    me = common.vehicle(IDMVehicle, rd, [100., 0.], 0., v, ("0", "1", 0), timer=0.5)
    me.target_lane_index = target
    me.timer = timer = ctx.real("timer", 0, 3)
    me.mobil = lambda lane_index: ctx.fail("no new decision during a change")
    rd.vehicles.append(me)
    reasons = []
    for k in range(n):
        kind = ctx.choose("kind%d" % k, ["traffic", "plain"])
        x, w = ctx.real("x%d" % k, 20, 250), ctx.real("w%d" % k, 0, 40)
        on = ctx.choose("lane%d" % k, [("0", "1", 1), ("0", "1", 2)])
        o = common.vehicle(ControlledVehicle if kind == "traffic" else Vehicle, rd, [x, 8.], 0., w, on)
        d = x - 100
        if kind == "traffic":
            o.target_lane_index = ctx.choose("to%d" % k, [("0", "1", 1), ("0", "1", 2)])
            if not far and on != target and o.target_lane_index == target:
                reasons.append(m.And(d > 0, d < gap(v, v - w)))
        rd.vehicles.append(o)
    me.change_lane_policy()
    t = me.target_lane_index
    t = (t[0], t[1], operator.index(t[2]))
    if t == target:
        ctx.check("no reason to abort", m.Not(m.Or(*reasons)) if reasons else True)
    else:
        ctx.check("back to the current lane", t == ("0", "1", 0))
        ctx.check("someone cuts in", m.Or(*reasons) if reasons else False)
    ctx.eq("timer untouched", me.timer, timer)
    ctx.observe("target", list(t))


def tick(ctx):
    from highway_env.vehicle.behavior import IDMVehicle
    rd = common.road(common.straight_net(1, 1000.))
    t, dt = ctx.real("t", 0.01, 5), ctx.real("dt", 0, 1)
    me = common.vehicle(IDMVehicle, rd, [100., 0.], 0., 10., ("0", "1", 0), timer=t)
    ctx.eq("given timer", me.timer, t)
    me.step(dt)
    ctx.eq("time passes", me.timer, t + dt)
    ctx.eq("and the vehicle moves", me.position[0], 100 + 10 * dt)
    other = IDMVehicle(None, [ctx.real("x", -500, 500), ctx.real("y", -500, 500)])
    ctx.check("decision times are spread", m.And(other.timer >= 0, other.timer < 1.0))


def disabled(ctx):
    """The policy is only run when lane changes are enabled."""
    from highway_env.vehicle.behavior import IDMVehicle
    rd = common.road(common.straight_net(2, 1000.))
    # not only from within its lane
    me = common.vehicle(IDMVehicle, rd, [100., ctx.real("y", -3.9, 1.9)], 0., 10., ("0", "1", 0), timer=2.)
    me.enable_lane_change = ctx.choose("enabled", [True, False])
    rd.vehicles.append(me)
    me.mobil = lambda lane_index: True
    me.act()
    ctx.check("target", me.target_lane_index == (("0", "1", 1) if me.enable_lane_change else ("0", "1", 0)))


def cases(tier):
    cs = [Case("mobil-%s" % w, mobil, dict(wanted=w), cost=2) for w in ("none", "any", 0, 1, 2, 3)]
    cs += [Case("policy-%d" % n, policy, dict(n=n)) for n in (1, 2, 3) + ((4,) if tier == "thorough" else ())]
    cs += [Case("ongoing-1", ongoing, dict(n=1)), Case("ongoing-2", ongoing, dict(n=2), cost=3), Case("tick", tick), Case("disabled", disabled)]
    if tier == "thorough":
        cs.append(Case("ongoing-3", ongoing, dict(n=3), cost=9, max_paths=30000))
    return cs
