"""The interval predictor of linear parameter-varying systems encloses every trajectory of the system."""
import numpy as np

from symx.engine import Case
from symx import m

BOUNDS = ("systems of 1 to 4 states: fixed dynamics with positive off-diagonal entries, with real, with complex and with both kinds of eigenvalues, and those of the traffic vehicles; symbolic 2x2 dynamics; one or two deviations; "
          "any initial box in [-20,20] with sides up to 10, any member, centre in [-10,10], control in [-5,5], perturbation box in [-2,2] and member, any shares of the deviations; one step of 0.01 to 0.2 s "
          "(no longer than the fastest decay), so by induction every number of steps")

SYSTEMS = dict(
    single=([[-1.5]], [[[-0.5]], [[0.75]]]),
    positive=([[-1., 0.5], [0.25, -2.]], [[[0.5, -0.25], [0.25, 0.5]], [[-0.5, 0.], [0.25, -0.25]]]),
    integrator=([[0., 1.], [0., -1.]], [[[0., 0.], [0., -0.5]], [[0., 0.], [0., 0.5]]]),
    real=([[0., 1.], [-2., -3.]], [[[0., 0.], [-0.5, 0.5]], [[0., 0.], [0.25, -0.5]]]),
    skewed=([[-1., -0.75], [-0.5, -2.]], [[[0.25, 0.], [0.5, -0.25]]]),
    complex=([[-1., 2.], [-2., -1.]], [[[0.25, 0.], [0.5, -0.25]]]),
    mixed=([[-1., 2., 0.], [-2., -1., 0.], [0., -0.5, -1.5]], [[[0.25, 0., 0.], [0., 0.5, -0.25], [0., 0., -0.5]]]))


def traffic(kind):
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    from props import common
    rd = common.road(common.straight_net(1))
    v = IntervalVehicle(rd, np.array([0., 0.]), 0., 20.)
    if kind == "longitudinal-front":
        from highway_env.vehicle.kinematics import Vehicle
        rd.vehicles = [v, Vehicle(rd, np.array([30., 0.]), 0., 20.)]
    a0, da = v.longitudinal_matrix_polytope() if kind.startswith("longitudinal") else v.lateral_matrix_polytope()
    plain = lambda x: [[float(y) for y in r] for r in x]
    return plain(a0), [plain(d) for d in da]


def vec(ctx, name, n, lo, hi):
    return [ctx.real("%s%d" % (name, k), lo, hi) for k in range(n)]


def mat(A, v):
    return [sum((A[i][j] * v[j] for j in range(len(v))), 0.) for i in range(len(A))]


def plus(*vs):
    return [sum(x, 0.) for x in zip(*vs)]


def build(ctx, A, das, centred, control, noise, feedback=False, boxed=True):
    """The model, with a state of the system in its initial box."""
    from highway_env.interval import LPV
    n = len(A)
    s = dict(n=n, A=A, das=das)
    s["x"] = vec(ctx, "x", n, -20, 20)
    s["c"] = vec(ctx, "c", n, -10, 10) if centred else [0.] * n
    kw = dict(center=m.arr(s["c"])) if centred else {}
    if boxed:
        low, high = vec(ctx, "low", n, -20, 20), vec(ctx, "high", n, -20, 20)
        for a, x, b in zip(low, s["x"], high):
            ctx.assume(m.And(a <= x, x <= b))
        kw["x_i"] = m.arr([low, high])
    s["B"] = [[1. if i == j else 0. for j in range(n)] for i in range(n)] if control == "full" else [[0.5 * (k + 1)] for k in range(n)]
    s["u"] = [0.] * len(s["B"][0])
    if control:
        s["u"] = vec(ctx, "u", len(s["B"][0]), -5, 5)
        kw.update(b=np.array(s["B"]), u=m.arr([[q] for q in s["u"]]))
    s["D"], s["w"] = [[1. - 0.75 * k] for k in range(n)], [0.]
    if noise:
        w0, w, w1 = ctx.real("w0", -2, 2), ctx.real("w", -2, 2), ctx.real("w1", -2, 2)
        ctx.assume(m.And(w0 <= w, w <= w1))
        s["w"] = [w]
        kw.update(d=np.array(s["D"]), omega_i=m.arr([[w0], [w1]]))
    s["K"] = [[0.] * n for _ in s["u"]]
    if feedback:
        s["K"] = [[-0.25 * (j + 1) for j in range(n)] for _ in s["u"]]
        kw["k"] = np.array(s["K"])
    lpv = LPV(m.arr(s["x"]), m.arr(A), [m.arr(d) for d in das], **kw)
    return lpv, s


def decay(lpv, s):
    """The fastest decay rate of the model's (diagonally dominant) coordinates."""
    a = lpv.a0
    return max([0.] + [-float(a[i][i]) for i in range(s["n"])])


def inside(ctx, lpv, x, name):
    """The box reported in the coordinates of the system."""
    box = lpv.change_coordinates(lpv.x_i_t, back=True, interval=True)
    ctx.check(name + " shape", np.shape(box) == (2, len(x)))
    for k in range(len(x)):
        ctx.check("%s %d" % (name, k), m.And(box[0][k] <= x[k] + 1e-6, box[1][k] >= x[k] - 1e-6))


def transformed(ctx, lpv, x, c, name):
    """The box in the coordinates of the model (tighter: the one that is stepped)."""
    P = lpv.coordinates[1] if lpv.coordinates else np.eye(len(x))
    z = mat(P, [a - b for a, b in zip(x, c)])
    for k in range(len(x)):
        ctx.check("%s %d" % (name, k), m.And(lpv.x_i_t[0][k] <= z[k] + 1e-6, lpv.x_i_t[1][k] >= z[k] - 1e-6))


def system(name):
    return traffic(name) if name not in SYSTEMS else SYSTEMS[name]


def initial(ctx, name, centred):
    A, das = system(name)
    lpv, s = build(ctx, A, das, centred, None, False)
    inside(ctx, lpv, s["x"], "initially inside")
    transformed(ctx, lpv, s["x"], s["c"], "initially inside the model's box")


def degenerate(ctx, name, centred):
    """Without a box the state is known."""
    A, das = system(name)
    lpv, s = build(ctx, A, das, centred, None, False, boxed=False)
    for k in range(s["n"]):
        ctx.eq("known", lpv.x_i_t[0][k], lpv.x_i_t[1][k])
    inside(ctx, lpv, s["x"], "initially inside")


def derivative(s, shares):
    A = s["A"]
    y = [a - b for a, b in zip(s["x"], s["c"])]
    dx = plus(mat(A, y), mat(s["B"], s["u"]), mat(s["D"], s["w"]))
    for h, d in zip(shares, s["das"]):
        dx = plus(dx, [h * q for q in mat(d, y)])
    return dx


def in_model_box(ctx, lpv, s):
    """Put the system anywhere in any box of model coordinates (as after any number of steps)."""
    n = s["n"]
    P, Q = lpv.coordinates if lpv.coordinates else (np.eye(n), np.eye(n))
    z, low, high = vec(ctx, "z", n, -20, 20), vec(ctx, "zlow", n, -20, 20), vec(ctx, "zhigh", n, -20, 20)
    for a, q, b in zip(low, z, high):
        ctx.assume(m.And(a <= q, q <= b))
    lpv.x_i_t = m.arr([low, high])
    s["x"] = plus(mat(P, z), s["c"])
    return z


def one_step(ctx, name, centred, control, noise, dt):
    """The next state depends linearly on the share of each deviation: none or all of each are the extremes."""
    A, das = system(name)
    lpv, s = build(ctx, A, das, centred, control, noise, boxed=False)
    in_model_box(ctx, lpv, s)
    if len(das) <= 4:
        shares = [ctx.choose("deviation %d" % k, [0., 1.]) for k in range(len(das))]
    else:
        one = ctx.choose("vertex", range(len(das)))
        shares = [float(k == one) for k in range(len(das))]
    if decay(lpv, s) > 0:
        dt = min(dt, 0.99 / decay(lpv, s))
    dx = derivative(s, shares)
    lpv.step(dt)
    x = [a + dt * b for a, b in zip(s["x"], dx)]
    transformed(ctx, lpv, x, s["c"], "still inside the model's box")


def symbolic_step(ctx, deviations):
    """Dynamics that are inputs too."""
    A = [[ctx.real("a00", -4, 4), ctx.real("a01", 0, 4)], [ctx.real("a10", 0, 4), ctx.real("a11", -4, 4)]]
    das = [[[ctx.real("d%d%d%d" % (q, i, j), -2, 2) if i == 0 else 0. for j in range(2)] for i in range(2)] for q in range(deviations)]
    lpv, s = build(ctx, A, das, False, None, False)
    h = [ctx.choose("of deviation %d" % q, [0., 1., 0.5]) for q in range(deviations)]
    dx = derivative(s, h)
    dt = ctx.choose("dt", [0.05, 0.2])
    lpv.step(dt)
    transformed(ctx, lpv, [a + dt * b for a, b in zip(s["x"], dx)], s["c"], "still inside")


def nominal(ctx, name, centred, control):
    """The nominal state follows the nominal dynamics, in the coordinates of the model."""
    A, das = system(name)
    lpv, s = build(ctx, A, das, centred, control, False)
    P = lpv.coordinates[1] if lpv.coordinates else np.eye(s["n"])
    x = s["x"]
    for t in range(2):
        dx = derivative(dict(s, x=x), [0.] * len(das))
        lpv.step(0.1)
        x = [a + 0.1 * b for a, b in zip(x, dx)]
    z = mat(P, [a - b for a, b in zip(x, s["c"])])
    for k in range(s["n"]):
        ctx.eq("nominal %d" % k, lpv.x_t[k], z[k])
    # from any box it is in
    lpv.x_t = m.arr(in_model_box(ctx, lpv, s))
    lpv.step(0.1)
    for k in range(s["n"]):
        ctx.check("nominal inside %d" % k, m.And(lpv.x_i_t[0][k] <= lpv.x_t[k] + 1e-6, lpv.x_i_t[1][k] >= lpv.x_t[k] - 1e-6))


def coordinates(ctx, name, centred):
    """There and back; nothing passed in is altered."""
    A, das = system(name)
    lpv, s = build(ctx, A, das, centred, None, False)
    n, offset = s["n"], ctx.choose("offset", [True, False])
    v = vec(ctx, "v", n, -20, 20)
    given = m.arr(v)
    z = lpv.change_coordinates(given, offset=offset)
    for k in range(n):
        ctx.eq("argument kept", given[k], v[k])
    zk = [z[k] for k in range(n)]
    back = lpv.change_coordinates(z, back=True, offset=offset)
    for k in range(n):
        ctx.eq("there and back", back[k], v[k])
        ctx.eq("argument kept on the way back", z[k], zk[k])
    if offset:
        many = [m.arr(v), m.arr([2. * q for q in v])]
        there = lpv.change_coordinates(many)
        ctx.check("list", len(there) == 2)
        again = lpv.change_coordinates(there, back=True)
        for k in range(n):
            ctx.eq("list there", there[0][k], zk[k])
            ctx.eq("list back", again[0][k], v[k])
            ctx.eq("second there and back", again[1][k], 2. * v[k])
    M = [vec(ctx, "m%d" % i, n, -5, 5) for i in range(n)]
    T = lpv.change_coordinates(lpv.change_coordinates(m.arr(M), matrix=True), matrix=True, back=True)
    for i in range(n):
        for j in range(n):
            ctx.eq("matrix there and back", T[i][j], M[i][j])
    member, top = vec(ctx, "member", n, -20, 20), vec(ctx, "top", n, -20, 20)
    for a, b, t in zip(v, member, top):
        ctx.assume(m.And(a <= b, b <= t))
    box = m.arr([v, top])
    zb = lpv.change_coordinates(box, interval=True, offset=offset)
    zm = lpv.change_coordinates(m.arr(member), offset=offset)
    ctx.check("box shape", np.shape(zb) == (2, n))
    for k in range(n):
        ctx.check("box holds the members", m.And(zb[0][k] <= zm[k] + 1e-6, zb[1][k] >= zm[k] - 1e-6))
        ctx.eq("box kept", box[0][k], v[k])
    # members of a box of model coordinates on their way back
    bb, bm = lpv.change_coordinates(box, interval=True, back=True, offset=offset), lpv.change_coordinates(m.arr(member), back=True, offset=offset)
    for k in range(n):
        ctx.check("box holds the members on the way back", m.And(bb[0][k] <= bm[k] + 1e-6, bb[1][k] >= bm[k] - 1e-6))


def feedback(ctx, name):
    """With a feedback gain the model runs in closed loop and the control is what the gain does not provide already."""
    A, das = system(name)
    lpv, s = build(ctx, A, das, False, "single", False, feedback=True)
    n = s["n"]
    total, state = ctx.real("total", -5, 5), vec(ctx, "state", n, -10, 10)
    known = ctx.choose("state known", [True, False])
    lpv.set_control(m.arr([[total]]), state=m.arr([[q] for q in state]) if known else None)
    ctx.eq("control", lpv.u[0][0], total - (mat(s["K"], state)[0] if known else 0.))
    closed = [[A[i][j] + s["B"][i][0] * s["K"][0][j] for j in range(n)] for i in range(n)]
    P, Q = lpv.coordinates if lpv.coordinates else (np.eye(n), np.eye(n))
    for j in range(n):
        e = [1. if k == j else 0. for k in range(n)]
        col = mat(P, mat([[lpv.a0[i][k] for k in range(n)] for i in range(n)], mat(Q, e)))
        for i in range(n):
            ctx.eq("closed loop", col[i], closed[i][j])
    if known:
        # the state moves as under the total control
        dx = plus(mat(A, state), [s["B"][i][0] * total for i in range(n)])
        z = mat(Q, state)
        d = plus(mat(lpv.a0, z), mat(lpv.b, [lpv.u[0][0]]))
        dz = mat(Q, dx)
        for k in range(n):
            ctx.eq("motion", d[k], dz[k])


def cases(tier):
    big = tier == "thorough"
    cs = []
    for name in ("single", "positive", "integrator", "real", "skewed", "complex", "mixed", "longitudinal", "longitudinal-front", "lateral"):
        for centred in (False, True):
            k = "%s-%s" % (name, "centred" if centred else "plain")
            o = dict(name=name, centred=centred)
            cs.append(Case("initial-" + k, initial, o))
            cs.append(Case("known-" + k, degenerate, o))
            cs.append(Case("coordinates-" + k, coordinates, o, cost=2))
            cs.append(Case("nominal-" + k, nominal, dict(o, control=None if centred else "single")))
            for dt in (0.05, 0.2) if big else (0.1,):
                cs.append(Case("step-%s-%g" % (k, dt), one_step, dict(o, control="full" if centred else None, noise=centred, dt=dt), cost=5))
                if big or name in ("real", "positive"):
                    cs.append(Case("driven-step-%s-%g" % (k, dt), one_step, dict(o, control="single", noise=not centred, dt=dt), cost=5))
        if name in ("single", "positive", "real", "integrator"):
            cs.append(Case("feedback-" + name, feedback, dict(name=name)))
    cs += [Case("symbolic-%d" % d, symbolic_step, dict(deviations=d), cost=8) for d in (1, 2) if d == 1 or big]
    return cs
