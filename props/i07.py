"""Hypotheses about the route of another vehicle: one per road it may take, each with its own observations, and the vehicle itself is not affected."""
from symx.engine import Case
from symx import m
from . import common, r09

BOUNDS = ("planned routes of 1 to 3 steps through nodes with 0 to 3 outgoing roads each (symbolic), a lane requirement of any integer at one of the steps and some or none at the others, roads of 1 or 4 lanes; up to two earlier hypotheses (a candidate, "
          "the beginning of one, another road), lanes ended or not and observations consistent or not in every combination; features of any value; any requested index")


class End(object):
    def __init__(self, ctx, name):
        self.ctx, self.name, self.v = ctx, name, None

    def after_end(self, position, *a, **k):
        if self.v is None:
            self.v = self.ctx.bool("ended_" + self.name)
        return self.v


def key(step):
    return "%s_%s" % tuple(step[:2])


def setup(ctx, n, counted=(4,)):
    from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
    which = ctx.choose("step with any requirement", list(range(n)))

    def required(k):
        if k == which:
            return ctx.int("lane%d" % k, -3, 9)
        return None if k % 2 else 2
    v0, outs, route, rnd = r09.setup(ctx, n, required)
    net = v0.road.network
    ends = {}
    counts = {}

    def lanes(a, b):
        if (a, b) not in counts:
            counts[a, b] = ctx.choose("lanes", list(counted)) if not counts else 1 if list(counts.values())[0] == 1 else 4
        return [None] * counts[a, b]
    for a, o in outs.items():
        o.lanes = lambda b, a=a: lanes(a, b)
    net.graph["n0"] = {"n1": lanes("n0", "n1")}
    net.get_lane = lambda index: ends.setdefault(key(index), End(ctx, key(index)))
    v = common.vehicle(MultipleModelVehicle, v0.road, [0., 0.], 0., 10., target_speed=10., timer=0.5)
    v.lane_index = v.target_lane_index = ("n0", "n1", 0)
    v.route = [tuple(s) for s in route]
    # no lane asked for: the first one; more than there are: the last one
    want = [[(a, b, 0 if c is None else m.mn(c, len(lanes(a, b)) - 1)) for a, b, c in w] for w in r09.expected(outs, route)]
    return v, route, want, ends


def verdicts(ctx):
    """The consistency of datasets is decided elsewhere: here any answer."""
    import highway_env.vehicle.uncertainty.estimation as mod
    out = {}

    def consistent(data, parameter_box=None):
        k = data["tag"]
        if k not in out:
            out[k] = ctx.bool("consistent_" + k)
        return out[k]
    return mod, consistent, out


def update(ctx, n, earlier):
    v, route, want, ends = setup(ctx, n, (4,) if earlier else (1, 4))
    mod, consistent, out = verdicts(ctx)
    known = []
    for k, e in enumerate(earlier):
        if e in ("first", "last"):
            r = list(want[0 if e == "first" else -1])
            if any(operator_same(r, x) for x, _ in known):
                return
        elif e == "prefix":
            if len(want[0]) < 2:
                return
            r = list(want[0][:-1])
        else:
            r = [("n0", "n1", 0), ("n1", "z", 2)] if e == "other" else [("q", "z", 1)]
        known.append((r, {"lateral": {"tag": e}} if ctx.choose("observed_" + e, [True, False]) else {}))
    v.data = [(list(r), d) for r, d in known]
    real = mod.is_consistent_dataset
    mod.is_consistent_dataset = consistent
    try:
        v.update_possible_routes()
    finally:
        mod.is_consistent_dataset = real
    ctx.check("own route unchanged", r09.same(v.route, route))
    # expected hypotheses: candidates and earlier ones, beginnings of a candidate continued, then stepped, then filtered
    hyp = []
    for r, d in known:
        ext = [w for w in want if len(w) > len(r) and w[:len(r)] == r]
        hyp.append((ext[0] if ext else r, d))
    for w in want:
        if not any(len(h) == len(w) and h == w for h, _ in hyp):
            hyp.append((w, {}))
    final = []
    for r, d in hyp:
        e = ends.get(key(r[0]))
        r = list(r)
        if e is not None and e.v is not None and e.v and len(r) > 1:
            r = r[1:]
        if d and not out.get(d["lateral"]["tag"], True):
            continue
        final.append((r, d))
    got = list(v.data)
    ctx.check("as many hypotheses as possible routes", len(got) == len(final))
    for k, (r, d) in enumerate(final):
        match = [x for x in got if len(x[0]) == len(r) and key(x[0][-1]) == key(r[-1]) and key(x[0][0]) == key(r[0])]
        ctx.check("route %d is a hypothesis" % k, len(match) == 1)
        if len(match) == 1:
            ctx.check("lanes of route %d" % k, r09.same(match[0][0], r))
            ctx.check("observations of route %d" % k, match[0][1] == d)
    ids = [id(x[0]) for x in got]
    ctx.check("routes of their own", len(set(ids)) == len(ids) and id(v.route) not in ids)


def operator_same(a, b):
    return a is b or [s[:2] for s in a] == [s[:2] for s in b]


def final_lane(ctx):
    """Going on for ever on the last lane of a hypothesis (or past its end)."""
    v, route, want, ends = setup(ctx, 1)
    for k in range(3):
        v.update_possible_routes()
    ctx.check("a lane is still followed in every hypothesis", all(len(r) >= 1 for r, _ in v.data))
    ctx.check("hypotheses are there", len(v.data) >= 1)


def observe(ctx, n, single=False):
    """Each hypothesis records what the vehicle would see on its own lane, and what it does."""
    from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle
    rd = common.road(common.straight_net(2, 1000.))
    v = common.vehicle(MultipleModelVehicle, rd, [100., 0.], 0., ctx.real("v", 1, 30), ("0", "1", 0), timer=0.5)
    v.target_speed = ctx.real("t", 0, 40)
    names = [("a", "b%d" % k, 0) for k in range(n)]
    feats = {i: m.arr([ctx.real("f%d" % k, -5, 5), ctx.real("g%d" % k, -5, 5)]) for k, i in enumerate(names)}
    feats[v.target_lane_index] = m.arr([ctx.real("fo", -5, 5), ctx.real("go", -5, 5)])
    v.steering_features = lambda index: feats[index]
    ps = m.arr([ctx.real("p0", -5, 5), ctx.real("p1", -5, 5)])
    v.STEERING_PARAMETERS = ps
    if single:
        v.lane_index = ("0", "1", 1)
        feats[v.lane_index] = m.arr([ctx.real("fl", -5, 5), ctx.real("gl", -5, 5)])
    tails = [[] if single and ctx.choose("single%d" % k, [True, False]) else [("b%d" % k, "c", 0)] for k in range(n)]
    v.data = [([i] + tails[k], {}) for k, i in enumerate(names)]
    steps = 2
    for s in range(steps):
        v.collect_data()
    ctx.check("hypotheses kept", [r for r, _ in v.data] == [[i] + tails[k] for k, i in enumerate(names)])
    for k, (r, d) in enumerate(v.data):
        for s in range(steps):
            lat = d["lateral"]
            ctx.check("observations %d" % k, len(lat["features"]) == steps and len(lat["outputs"]) == steps and len(d["longitudinal"]["outputs"]) == steps)
            f = lat["features"][s]
            ctx.eq("feature %d 0" % k, f[0], feats[names[k]][0])
            ctx.eq("feature %d 1" % k, f[1], feats[names[k]][1])
            o = feats[v.target_lane_index]
            ctx.eq("steering %d" % k, lat["outputs"][s], ps[0] * o[0] + ps[1] * o[1])


def assume(ctx, n):
    from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle, RegressionVehicle
    net = common.straight_net(2, 100.)
    common.add_straight(net, "1", "2", 1, 100., 200.)
    rd = common.road(net)
    x, y, h, s = ctx.real("x", 0, 90), ctx.real("y", -2, 6), ctx.real("h", -3, 3), ctx.real("s", 0, 30)
    net.get_closest_lane_index = lambda p, hd=None: ("0", "1", 0)
    v = common.vehicle(MultipleModelVehicle, rd, [0., 0.], 0., 0., ("0", "1", 0), timer=0.5)
    v.position, v.heading, v.speed = m.arr([x, y]), h, s
    v.route = [("0", "1", 0), ("1", "2", 0)]
    obs = {"features": [[1., 2.]], "outputs": [3.]}
    v.data = [([("0", "1", k % 2), ("1", "2", 0)], {"lateral": {"features": [[float(k), 2.]], "outputs": [3.]}, "longitudinal": dict(obs)}) for k in range(n)]
    index = ctx.int("index", 0, 5)
    w = v.assume_model_is_valid(index)
    if n == 0:
        ctx.check("no hypothesis: a copy", type(w) is MultipleModelVehicle and w is not v)
        ctx.check("the planned route", w.route == v.route and w.route is not v.route)
        return
    ctx.check("a vehicle predicting with the observations", isinstance(w, RegressionVehicle))
    for k in range(n):
        here = m.Or(index == k, m.And(k == n - 1, index >= n))
        ctx.check("route of hypothesis %d" % k, m.Or(m.Not(here), w.route == v.data[k][0]))
        ctx.check("lane of hypothesis %d" % k, m.Or(m.Not(here), w.target_lane_index == v.data[k][0][0]))
        ctx.check("observations of hypothesis %d" % k, m.Or(m.Not(here), w.data == v.data[k][1]))
    for a, b in zip([w.position[0], w.position[1], w.heading, w.speed], [x, y, h, s]):
        ctx.eq("same state", a, b)
    # what the copy goes through leaves the hypotheses alone
    w.route.pop(0)
    ctx.check("hypotheses keep their route", all(len(r) == 2 for r, _ in v.data) and len(v.route) == 2)
    w.data["lateral"]["outputs"].append(1.)
    ctx.check("hypotheses keep their observations", all(d["lateral"]["outputs"] == [3.] for _, d in v.data))


def cases(tier):
    cs = [Case("final-lane", final_lane)]
    for n in (1, 2, 3):
        cs += [Case("update-%d-%s" % (n, "-".join(e) or "none"), update, dict(n=n, earlier=e), cost=n, max_paths=20000)
               for e in ([], ["first"], ["prefix"], ["other"], ["last", "far"], ["prefix", "other"]) if n > 1 or e in ([], ["first"], ["other"]) or tier == "thorough"]
    cs += [Case("observe-%d" % n, observe, dict(n=n)) for n in (0, 1, 2, 3)]
    cs += [Case("observe-last-%d" % n, observe, dict(n=n, single=True)) for n in (1, 2)]
    cs += [Case("assume-%d" % n, assume, dict(n=n)) for n in (0, 1, 2, 3)]
    return cs
