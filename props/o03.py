"""The occupancy grid: every vehicle inside its bounds in its cell, nothing else."""
from symx.engine import Case
from symx import m
from . import common
from .o01 import features

BOUNDS = ("an observer and one or two other vehicles (thorough: three) anywhere up to 40 m away (the lateral position of all but one of two values), speeds in [-40,80], headings in [-7,7] (directions) or along the road; "
          "grids of 3x2 to 5x1 cells and the default one; given or default ranges of speeds and positions; two observations in a row (the first one as it was when the second has been made)")


def grid(ctx, others, size, step, names, ranges, straight=True, again=False, listed_first=True):
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.envs.common.observation import OccupancyGridObservation
    net = common.straight_net(2, 1000.)
    rd = common.road(net)
    ego = common.vehicle(Vehicle, rd, [ctx.real("x0", 100, 200), ctx.real("y0", -10, 10)], 0. if straight else ctx.angle("h0", -7, 7), ctx.real("v0", -40, 80), ("0", "1", 0))

    def car(k, tag=""):
        x, y = ctx.real("dx%d%s" % (k, tag), -40, 40), ctx.real("dy%d%s" % (k, tag), -40, 40) if k == 1 and not tag else ctx.choose("dy%d%s" % (k, tag), [-4., 30.])
        h = 0. if straight else ctx.angle("h%d%s" % (k, tag), -7, 7)
        v = common.vehicle(Vehicle, rd, [ego.position[0] + x, ego.position[1] + y], h, ctx.real("v%d%s" % (k, tag), -40, 80), ("0", "1", 0))
        v.rel = (x, y)
        return v
    env = common.env_of("HighwayEnv", road=rd, vehicles=[ego])
    kw = {k: v for k, v in dict(grid_size=size, grid_step=step, features=names, features_range=dict(ranges) if ranges else None).items() if v is not None}
    o = OccupancyGridObservation(env, **kw)
    size, step = size or [[-27.5, 27.5]] * 2, step or [5, 5]
    names = names or ["presence", "vx", "vy"]
    ranges = ranges or {"vx": [-60., 60.], "vy": [-60., 60.]}
    nx, ny = [int((b - a) / s) for (a, b), s in zip(size, step)]
    wanted, seen = {}, {}
    for turn in ("", "b") if again else ("",):
        vs = [car(k + 1, turn) for k in range(others)]
        ego.rel = (0., 0.)
        rd.vehicles = [ego] + vs if listed_first else vs + [ego]
        got = o.observe()
        ctx.check("shape" + turn, got.shape == (len(names), ny, nx) == o.space().shape)
        for i in range(ny):
            for j in range(nx):
                want = [0.] * len(names)
                for v in rd.vehicles:
                    here = []
                    for u, lo, s, c in ((v.rel[0], size[0][0], step[0], j), (v.rel[1], size[1][0], step[1], i)):
                        a = lo + s * c
                        if v is not ego:
                            ctx.assume(m.absv(u - a) > 1e-3)
                            ctx.assume(m.absv(u - (a + s)) > 1e-3)
                        here.append(m.And(u > a, u < a + s) if v is not ego else m.And(u >= a, u < a + s))
                    d = features(v, ego)
                    for k, f in enumerate(names):
                        w = d[f]
                        if f in ranges:
                            lo, hi = ranges[f]
                            w = -1 + (w - lo) * 2 / (hi - lo)
                        want[k] = m.ite(m.And(*here), m.clip(w, -1, 1), want[k])
                wanted[turn, i, j] = want
                for k, f in enumerate(names):
                    ctx.eq("%s at row %d column %d%s" % (f, i, j, turn), got[k, i, j], want[k])
        seen[turn] = got
    for turn, got in seen.items() if again else ():    # what was handed out belongs to the agent
        for i in range(ny):
            for j in range(nx):
                for k, f in enumerate(names):
                    ctx.eq("%s at row %d column %d%s, later" % (f, i, j, turn), got[k, i, j], wanted[turn, i, j][k])


def default(ctx):
    """Without options: 11 by 11 cells of 5 m, centred on the observer."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.envs.common.observation import OccupancyGridObservation
    rd = common.road(common.straight_net(2, 1000.))
    ego = common.vehicle(Vehicle, rd, [100., 4.], 0., 20., ("0", "1", 0))
    x = ctx.real("dx", -40, 40)
    other = common.vehicle(Vehicle, rd, [100. + x, 4. + ctx.choose("dy", [-12., 0.4, 26.])], 0., ctx.real("v", 0, 40), ("0", "1", 0))
    other.crashed = ctx.choose("crashed", [False, True])
    rd.vehicles = [ego, other]
    for k in range(12):
        ctx.assume(m.absv(x - (-27.5 + 5 * k)) > 1e-3)
    got = OccupancyGridObservation(common.env_of("HighwayEnv", road=rd, vehicles=[ego])).observe()
    ctx.check("shape", got.shape == (3, 11, 11))
    row = int((other.position[1] - 4. + 27.5) // 5)
    for i in range(11):
        for j in range(11):
            here = m.And(i == row, x > -27.5 + 5 * j, x < -22.5 + 5 * j)
            base = 1. if (i, j) == (5, 5) else 0.
            ctx.eq("presence %d %d" % (i, j), got[0, i, j], m.ite(here, 1., base))
            ctx.eq("speed %d %d" % (i, j), got[1, i, j], m.ite(here, (other.speed - 20.) / 60., 0.))
            ctx.eq("lateral speed %d %d" % (i, j), got[2, i, j], 0.)


def noroad(ctx):
    from highway_env.envs.common.observation import OccupancyGridObservation
    ctx.choose("c", [0])
    env = common.env_of("HighwayEnv", road=None)
    o = OccupancyGridObservation(env, grid_size=[[-10., 20.], [-5., 5.]], grid_step=[5, 5])
    got = o.observe()
    ctx.check("shape", got.shape == (3, 2, 6) == o.space().shape)
    ctx.check("empty", not got.any())


def cases(tier):
    B = ["presence", "vx", "vy"]
    W = [[-15., 15.], [-10., 10.]]
    R = {"x": [-100., 100.], "y": [-50., 60.], "vx": [-20., 30.], "vy": [-10., 10.]}
    todo = [("one", 1, W, [10, 10], B, None, {}), ("two", 2, [[-15., 15.], [-8., 0.]], [15, 8], B, None, {}), ("row", 1, [[-20., 30.], [-3., 3.]], [10, 6], ["vx", "presence"], None, {}),
            ("ranges", 1, W, [10, 10], ["presence", "x", "y", "vx"], R, {}), ("narrow-ranges", 1, W, [10, 20], ["presence", "x", "vx"], {"x": [-4., 8.], "y": [-3., 3.], "vx": [-20., 30.]}, {}), ("column", 1, [[-4., 4.], [-20., 20.]], [8, 10], ["presence", "x"], {"x": [-100., 100.]}, {}),
            ("uneven", 1, [[-10., 16.], [-6., 8.]], [6, 4], ["presence"], R, {}),
            ("again", 1, [[-8., 24.], [-10., 10.]], [16, 20], ["presence", "vx"], None, dict(again=True)),
            ("observer-last", 1, [[-15., 15.], [-5., 5.]], [10, 10], B, None, dict(listed_first=False)),
            ("directions", 1, [[-15., 15.], [-5., 5.]], [10, 10], ["cos_h", "sin_h", "vx", "vy", "heading"], R, dict(straight=False))]
    if tier == "thorough":
        todo += [("three", 3, W, [15, 10], B, None, {}), ("wide", 1, [[-35., 35.], [-15., 15.]], [10, 10], B, R, {}), ("two-fine", 2, W, [10, 10], B, R, {})]
    cs = [Case(name, grid, dict(others=n, size=size, step=step, names=names, ranges=ranges, **kw), cost=n * n) for name, n, size, step, names, ranges, kw in todo]
    return cs + [Case("default", default, cost=2), Case("no-scene", noroad)]
