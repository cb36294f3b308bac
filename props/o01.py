"""Kinematic observations: the closest vehicles, relative to the observer, scaled to [-1, 1], in a fixed shape."""
from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("an observer and two other vehicles (thorough: three) anywhere in a 500 m x 16 m box on a road of two to three lanes, any headings in [-7,7], speeds in [-40,80]; "
          "one to five observed rows; all combinations of absolute, normalised, clipped, see-behind; given or default ranges; the shuffled order for any draw")


def features(v, origin=None, hide=False):
    d = {"presence": 1, "x": v.position[0], "y": v.position[1], "vx": v.speed * m.cos(v.heading), "vy": v.speed * m.sin(v.heading),
         "heading": v.heading, "cos_h": m.cos(v.heading), "sin_h": m.sin(v.heading)}
    if origin is not None:
        o = features(origin)
        for k in ("x", "y", "vx", "vy"):
            d[k] = d[k] - o[k]
    return d


def observe(ctx, others, rows, names, opts, lanes=2, order="sorted", again=False):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.envs.common.observation import KinematicObservation
    net = common.straight_net(lanes, 1000.)
    rd = common.road(net, np_random=common.Rand(ctx))

    def car(k):
        x, y = ctx.real("x%d" % k, 0, 500), ctx.choose("y%d" % k, [0., 3.]) if k else 4.
        h, v = ctx.angle("h%d" % k, -7, 7), ctx.real("v%d" % k, -40, 80)
        return common.vehicle(Vehicle, rd, [x, y], h, v, ("0", "1", 0))
    ego = car(0)
    vs = [car(k + 1) for k in range(others)]
    rd.vehicles = vs[:1] + [ego] + vs[1:]
    env = common.env_of("HighwayEnv", road=rd, vehicles=[ego])
    env.np_random = common.Rand(ctx, name="perm")
    o = KinematicObservation(env, features=names, vehicles_count=rows, order=order, **opts)
    got = o.observe()
    ctx.check("shape", got.shape == (rows, len(names)) == o.space().shape)
    # specification
    n = len(net.graph["0"]["1"])
    ranges = opts.get("features_range") or {"x": [-150., 150.], "y": [-4. * n, 4. * n], "vx": [-60., 60.], "vy": [-60., 60.]}
    close = []
    for v in vs:
        d2 = m.sqrt((v.position[0] - ego.position[0]) * (v.position[0] - ego.position[0]) + (v.position[1] - 4.) ** 2)
        seen = d2 < 180.
        if not opts.get("see_behind", False):
            seen = m.And(seen, v.position[0] - ego.position[0] > -10)
        ctx.assume(m.Or(d2 < 179.999, d2 > 180.001))
        if bool(seen):
            close.append(v)
    close.sort(key=lambda v: Key(m.absv(v.position[0] - ego.position[0])))
    for a, b in zip(close, close[1:]):
        ctx.assume(m.absv(b.position[0] - ego.position[0]) - m.absv(a.position[0] - ego.position[0]) > 0.001)
    want = [features(ego)] + [features(v, None if opts.get("absolute") else ego) for v in close[:rows - 1]]
    want += [None] * (rows - len(want))
    want = [[scaled(w, f, ranges, opts) for f in names] for w in want]
    if order == "shuffled":
        for j, f in enumerate(names):
            ctx.eq("observer first %s" % f, got[0, j], want[0][j])
        for k in range(1, rows):
            ctx.check("row %d shown" % k, m.Or(*[equal(got[i], want[k]) for i in range(1, rows)]))
            ctx.check("row %d is one of them" % k, m.Or(*[equal(got[k], want[i]) for i in range(1, rows)]))
    else:
        for k in range(rows):
            for j, f in enumerate(names):
                ctx.eq("row %d %s" % (k, f), got[k, j], want[k][j])
    if again:
        # what was observed before has no influence
        ego.position = m.arr([ctx.real("xx", 0, 500), 4.])
        ego.speed = ctx.real("vv", -40, 80)
        rd.vehicles = [ego]
        got = o.observe()
        ctx.check("same shape", got.shape == (rows, len(names)))
        for k in range(rows):
            for j, f in enumerate(names):
                ctx.eq("later row %d %s" % (k, f), got[k, j], scaled(features(ego), f, ranges, opts) if k == 0 else 0)


def scaled(d, f, ranges, opts):
    if d is None:
        return 0
    w = d[f]
    if opts.get("normalize", True) and f in ranges:
        lo, hi = ranges[f]
        w = -1 + (w - lo) * 2 / (hi - lo)
        if opts.get("clip", True):
            w = m.clip(w, -1, 1)
    return w


def equal(a, b):
    return m.And(*[m.absv(x - y) <= 1e-6 for x, y in zip(a, b)])


def destinations(ctx, intentions, absolute=False):
    """The direction to a vehicle's destination is shown only if intentions are observed (the observer's own always is)."""
    from highway_env.vehicle.controller import ControlledVehicle
    from highway_env.envs.common.observation import KinematicObservation
    net = common.straight_net(2, 200.)
    common.add_straight(net, "x", "0", 1, -100., 0.)
    rd = common.road(net)
    vs = []
    for k in range(2):
        x, y = ctx.real("x%d" % k, 0, 150), ctx.choose("y%d" % k, [0., 4.])
        v = common.vehicle(ControlledVehicle, rd, [x, y], 0., ctx.real("v%d" % k, 0, 30), ("0", "1", 0))
        v.route = ctx.choose("route%d" % k, [None, [("0", "1", 0)], [("x", "0", 0), ("0", "1", 1)]])
        vs.append(v)
    ctx.assume(m.absv(vs[0].position[0] - vs[1].position[0]) > 1)
    ctx.assume(m.absv(vs[0].position[0] - vs[1].position[0]) < 150)
    rd.vehicles = vs
    env = common.env_of("HighwayEnv", road=rd, vehicles=vs[:1])
    o = KinematicObservation(env, features=["sin_d", "presence", "cos_d"], vehicles_count=2, see_behind=True, observe_intentions=intentions,
                             absolute=absolute)
    got = o.observe()
    for k, v in enumerate(vs):
        if v.route is None or (k and not intentions):
            c, s = 0, 0
        else:
            dx, dy = 200. - v.position[0], 4. * v.route[-1][2] - v.position[1]
            n = m.sqrt(dx * dx + dy * dy)
            c, s = dx / n, dy / n
        ctx.eq("presence %d" % k, got[k, 1], 1)
        ctx.eq("cosine %d" % k, got[k, 2], c)
        ctx.eq("sine %d" % k, got[k, 0], s)


def noroad(ctx):
    """Without a scene the observation is empty but has its shape."""
    from highway_env.envs.common.observation import KinematicObservation
    n = ctx.choose("rows", [1, 2, 5])
    env = common.env_of("HighwayEnv", road=None)
    o = KinematicObservation(env, vehicles_count=n)
    got = o.observe()
    ctx.check("shape", got.shape == (n, 5) == o.space().shape)
    ctx.check("empty", not got.any())


class Key(object):
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def cases(tier):
    cs = []
    B = ["presence", "x", "y", "vx", "vy"]
    R = {"x": [-100., 100.], "vx": [-20., 30.], "y": [0., 12.], "cos_h": [-1., 1.]}
    full = ["heading", "y", "cos_h", "presence", "sin_h", "x"]
    # name, others, rows, features, options, further arguments
    todo = [("default", 2, 3, B, {}, {}), ("one-row", 1, 1, B, {}, {}), ("two-rows", 2, 2, B, {}, {}), ("padded", 2, 5, B, {}, {}),
            ("absolute", 2, 3, B, dict(absolute=True), {}), ("raw", 2, 3, B, dict(normalize=False), {}),
            ("unclipped", 2, 3, B, dict(clip=False), {}), ("behind", 2, 3, B, dict(see_behind=True), {}),
            ("ranges", 2, 3, ["vx", "x", "y"], dict(features_range=R), {}), ("ranges-partial", 1, 2, B, dict(features_range={"x": [-50., 150.], "vx": [-10., 40.]}), {}), ("directions", 2, 3, full, dict(features_range=R, see_behind=True), {}),
            ("ranges-headings", 1, 2, ["heading", "cos_h", "sin_h", "vy"], dict(features_range={"heading": [-1., 2.], "cos_h": [0., 0.5], "sin_h": [-0.5, 0.25], "vy": [0., 5.]}), {}),
            ("raw-absolute", 2, 4, ["x", "vy", "presence"], dict(normalize=False, absolute=True, see_behind=True), {}),
            ("three-lanes", 1, 2, B, {}, dict(lanes=3)), ("later", 1, 2, B, {}, dict(again=True)),
            ("shuffled", 2, 4, ["presence", "x", "vx"], dict(see_behind=True), dict(order="shuffled"))]
    if tier == "thorough":
        todo += [("three-others", 3, 4, B, dict(see_behind=True), {}), ("three-truncated", 3, 3, B, {}, {}),
                 ("three-shuffled", 3, 4, ["presence", "x"], {}, dict(order="shuffled")), ("three-absolute", 3, 5, full, dict(absolute=True), {})]
    for name, n, rows, names, opts, kw in todo:
        cs.append(Case(name, observe, dict(others=n, rows=rows, names=names, opts=opts, **kw), cost=n * n))
    cs += [Case("no-scene", noroad), Case("intentions", destinations, dict(intentions=True)),
           Case("no-intentions", destinations, dict(intentions=False)),
           Case("no-intentions-absolute", destinations, dict(intentions=False, absolute=True))]
    return cs
