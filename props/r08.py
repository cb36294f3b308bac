"""Right of way: of two vehicles on conflicting courses, the one without priority stops, and is released afterwards."""
import math

import numpy as np

from symx.engine import Case
from symx import m
from . import common
from .v03 import gaps

BOUNDS = ("priorities in 0..3 and lanes of any speed limit; 2 and 3 vehicles (traffic, agent-controlled and plain) with arbitrary "
          "conflict patterns and arbitrary relative positions, crashed or not, and 5 (thorough 7) with one pair in conflict; yield durations 0 to 2 s with any timer value; conflict prediction: "
          "any relative pose (first heading 0 or any, sizes of the second vehicle 3 x 1.2 to 5 x 2 m) at each of the sampled instants")


class Lane(object):
    def __init__(self, priority, speed_limit):
        self.priority, self.speed_limit = priority, speed_limit


def vehicles(ctx, kinds, real=False):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    from highway_env.vehicle.behavior import IDMVehicle
    cls = {"idm": IDMVehicle, "ctl": ControlledVehicle, "mdp": MDPVehicle, "raw": Vehicle}
    out = []
    for i, k in enumerate(kinds):
        x, y = ctx.real("x%d" % i, -30, 30), ctx.real("y%d" % i, -30, 30)
        h = [0., math.pi / 2, math.pi, 0.3][i]
        if k == "raw":
            v = cls[k](None, m.arr([x, y]), h, 5.)
        else:
            kw = {"timer": 0.5} if k == "idm" else {}
            v = cls[k](None, m.arr([x, y]), h, 25., target_speed=25., **kw)
            v.speed = 5.
            v.target_speed = ctx.real("ts%d" % i, 1, 30)
        v.lane = Lane(ctx.real("prio%d" % i, 0, 3) if real else ctx.int("prio%d" % i, 0, 3), ctx.real("limit%d" % i, 1, 40))
        out.append(v)
    return out


def loser(ctx, a, b):
    """Specification: lower priority yields, else the one farther behind."""
    d = (b.position[0] - a.position[0], b.position[1] - a.position[1])
    fa = m.cos(a.heading) * d[0] + m.sin(a.heading) * d[1]
    fb = -(m.cos(b.heading) * d[0] + m.sin(b.heading) * d[1])
    pa, pb = a.lane.priority, b.lane.priority
    return m.Or(pa < pb, m.And(pa == pb, fa > fb)), m.Or(pb < pa, m.And(pa == pb, fb > fa))


def decide(ctx, kinds):
    from highway_env.road.regulation import RegulatedRoad
    a, b = vehicles(ctx, kinds, True)
    who = RegulatedRoad.respect_priorities(a, b)
    la, lb = loser(ctx, a, b)
    ctx.check("one of the two", who is a or who is b)
    ctx.check("the right one", m.Not(lb) if who is a else m.Not(la))
    ctx.observe("who", 0 if who is a else 1)


def enforce(ctx, kinds, yielding):
    from highway_env.road.regulation import RegulatedRoad
    vs = vehicles(ctx, kinds)
    n = len(vs)
    conflict = {}
    for i in range(n):
        for j in range(i + 1, n):
            conflict[i, j] = ctx.bool("conflict%d%d" % (i, j))

    class Scene(RegulatedRoad):
        YIELD_DURATION = ctx.choose("duration", [0., 1., 2.]) if yielding else 0.

        @staticmethod
        def is_conflict_possible(v1, v2, *a, **k):
            i, j = [x is v1 for x in vs].index(True), [x is v2 for x in vs].index(True)
            return conflict[min(i, j), max(i, j)]
    rd = Scene(None, vs)
    timers = {}
    for i, v in enumerate(vs):
        v.crashed = i == 0 and ctx.bool("crashed")
        if yielding and kinds[i] in ("idm", "ctl") and i < 2:
            v.is_yielding, v.color, v.target_speed = True, None, 0.
            v.yield_timer = timers[i] = ctx.int("timer%d" % i, 0, 6)
    before = [getattr(v, "target_speed", None) for v in vs]
    rd.enforce_road_rules()
    for i, v in enumerate(vs):
        if kinds[i] == "raw":
            ctx.check("no target speed given to a plain vehicle", not hasattr(v, "target_speed"))
            continue
        must, may = [], []
        for (p, q), c in conflict.items():
            if c and i in (p, q):
                lp, lq = loser(ctx, vs[p], vs[q])
                must.append(lp if i == p else lq)
                may.append(m.Not(lq if i == p else lp))
        forced = kinds[i] in ("idm", "ctl")
        if not forced:
            ctx.eq("an agent is never stopped", v.target_speed, before[i])
            ctx.check("nor marked", not getattr(v, "is_yielding", False))
            continue
        yields = bool(getattr(v, "is_yielding", False))
        must, may = m.Or(*must) if must else False, m.Or(*may) if may else False
        if i in timers:
            over = timers[i] >= rd.YIELD_DURATION * 2
            if yields:
                ctx.eq("yielding at zero speed", v.target_speed, 0)
                ctx.check("keeps yielding for the duration or for a conflict", m.Or(m.Not(over), may))
                ctx.check("a conflict restarts the duration", m.Implies(must, v.yield_timer == 0))
                ctx.check("timer advances or restarts", m.Or(v.yield_timer == timers[i] + 1, m.And(may, v.yield_timer == 0)))
            else:
                ctx.check("released only when the time is over", over)
                ctx.check("not released into a conflict", m.Not(must))
                ctx.eq("resumes at the speed limit", v.target_speed, v.lane.speed_limit)
        elif yields:
            ctx.check("has a reason to yield", may)
            ctx.eq("stops", v.target_speed, 0)
            ctx.check("timer starts", v.yield_timer == 0)
        else:
            ctx.check("did not have to yield", m.Not(must))
            ctx.eq("carries on", v.target_speed, before[i])
        ctx.observe("yields", yields)


def crowd(ctx, n):
    """Whichever two of many vehicles are in conflict, one of them stops; every pair is considered."""
    from highway_env.road.regulation import RegulatedRoad
    from highway_env.vehicle.controller import ControlledVehicle
    pair = ctx.choose("pair", [(i, j) for j in range(n) for i in range(j)])
    vs = []
    for i in range(n):
        v = ControlledVehicle(None, m.arr([30. * i, 0.]), 0., 25., target_speed=25.)
        v.lane = Lane(1, 20.)
        vs.append(v)
    for i in pair:
        vs[i].lane = Lane(ctx.real("prio%d" % i, 0, 3), 20.)
    ctx.assume(m.absv(vs[pair[0]].lane.priority - vs[pair[1]].lane.priority) > 1e-3)

    class Scene(RegulatedRoad):
        @staticmethod
        def is_conflict_possible(v1, v2, *a, **k):
            return {id(v1), id(v2)} == {id(vs[i]) for i in pair}
    Scene(None, vs).enforce_road_rules()
    low = [bool(vs[pair[0]].lane.priority < vs[pair[1]].lane.priority)]
    who = pair[0] if low[0] else pair[1]
    for i, v in enumerate(vs):
        ctx.check("the one of lower priority stops", bool(getattr(v, "is_yielding", False)) == (i == who))
        ctx.eq("and only it", v.target_speed, 0. if i == who else 25.)


def conflict(ctx, kind, k, h0, size=(5., 2.)):
    """A conflict is predicted when the vehicles would overlap, and is not when their 1.5x-long footprints stay apart."""
    from highway_env.vehicle.controller import ControlledVehicle
    from highway_env.road.regulation import RegulatedRoad
    times = []
    ha = ctx.angle("ha") if h0 is None else h0
    hb = ctx.angle("hb")
    dx, dy = ctx.real("dx", -9, 9), ctx.real("dy", -9, 9)

    class Stub(ControlledVehicle):
        def predict_trajectory_constant_speed(self, ts):
            times.append([float(t) for t in ts])
            far = m.arr([1000. * (1 if self.which else -1), 0.])
            ps = [m.arr([dx, dy]) if self.which else m.arr([0., 0.]) for t in ts]
            hs = [hb if self.which else ha for t in ts]
            if k is not None:
                ps = [p if i == k else far for i, p in enumerate(ps)]
                hs = [h if i == k else 0. for i, h in enumerate(hs)]
            return tuple(ps), tuple(hs)
    a, b = Stub(None, [0., 0.], 0., 5.), Stub(None, [0., 0.], 0., 5.)
    a.which, b.which = 0, 1
    b.LENGTH, b.WIDTH = size
    got = bool(RegulatedRoad.is_conflict_possible(a, b))
    ctx.check("both predicted over the next three seconds",
              all(len(t) == 11 and all(abs(x - 0.25 * (i + 1)) < 1e-9 for i, x in enumerate(t)) for t in times) and len(times) == 2)
    if kind == "missed" and not got:
        g = gaps((0, 0), ha, (2.25, 0.9), (dx, dy), hb, (2.25, 0.9))
        ctx.check("no overlap missed", m.Or(dx * dx + dy * dy >= 4.8466 ** 2, *[x >= -1e-3 for x in g]))
    if kind == "spurious" and got:
        for i, x in enumerate(gaps((0, 0), ha, (3.75, 0.9), (dx, dy), hb, (0.75 * size[0], 0.45 * size[1]))):
            ctx.check("no gap along side %d" % i, x <= 1e-3)
    ctx.observe("got", got)


def frequency(ctx):
    """The rules are enforced twice per second of simulation (at every step when steps are longer)."""
    from highway_env.road.regulation import RegulatedRoad
    f = ctx.choose("frequency", [1, 2, 3, 5, 10, 15, 20, 30])
    n = []

    class Scene(RegulatedRoad):
        def enforce_road_rules(self):
            n.append(self.steps)
    rd = Scene(None, [])
    for _ in range(3 * max(f, 2)):
        rd.step(1. / f)
    ctx.check("regularly", all(b - a == max(f // 2, 1) for a, b in zip(n[:-1], n[1:])) and len(n) >= 5)


def cases(tier):
    cs = [Case("decide-%s-%s" % k, decide, dict(kinds=k)) for k in (("idm", "idm"), ("idm", "mdp"), ("raw", "ctl"))]
    for ks in (("idm", "ctl"), ("idm", "mdp"), ("raw", "idm"), ("mdp", "mdp"), ("idm", "mdp", "ctl")):
        cs.append(Case("enforce-" + "-".join(ks), enforce, dict(kinds=ks, yielding=False), cost=len(ks)))
        if ks[0] == "idm":
            cs.append(Case("release-" + "-".join(ks), enforce, dict(kinds=ks, yielding=True), cost=2 * len(ks)))
    for kind in ("missed", "spurious"):
        for k in (0, 5, 10):
            cs.append(Case("%s-%d" % (kind, k), conflict, dict(kind=kind, k=k, h0=0.)))
        cs.append(Case("%s-any" % kind, conflict, dict(kind=kind, k=3, h0=None)))
    for size in ((3., 1.2), (4., 3.)):
        cs.append(Case("spurious-size-%d" % size[0], conflict, dict(kind="spurious", k=3, h0=0., size=size)))
    cs.append(Case("frequency", frequency))
    cs.append(Case("crowd", crowd, dict(n=5 if tier == "quick" else 7), cost=2))
    return cs
