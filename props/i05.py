"""Regression of linear traffic parameters: the estimate, the region around it and the test of new observations."""
import math

import numpy as np

from symx.engine import Case
from symx import m

BOUNDS = ("datasets of one to five observations with given features of 1, 2 or 3 components, any outputs in [-10,10], any true parameter and noise up to sigma; boxes around, beside and across the estimate; "
          "the confidence level, regularisation, noise level and parameter bound from small sets")

FEATURES = {
    "1x2": [[2.0], [-1.0]],
    "2x1": [[1.0, 0.5]],
    "2x2": [[1.0, 0.5], [-0.5, 2.0]],
    "2x3": [[1.0, 0.5], [2.0, -0.25], [0.5, 0.5]],
    "2x5": [[1.0, 0.5], [2.0, -0.25], [0.5, 0.5], [0.0, 1.0], [-1.0, 3.0]],
    "3x3": [[1.0, 0.5, 0.25], [-0.5, 2.0, 1.0], [0.75, -1.0, 0.5]],
    "3x5": [[5.0, 0.0, 0.0], [4.0, -1.0, 0.0], [3.0, -2.0, -1.0], [2.0, 0.0, -3.0], [1.0, -1.0, -2.0]],
}


def solve_ridge(ctx, name, lam, sigma):
    """G and the right-hand side of the normal equations of the regularised least squares problem."""
    phi = FEATURES[name]
    d = len(phi[0])
    y = [ctx.real("y%d" % k, -10, 10) for k in range(len(phi))]
    G = [[sum(f[i] * f[j] for f in phi) / sigma + (lam if i == j else 0.) for j in range(d)] for i in range(d)]
    rhs = [sum(f[i] * q for f, q in zip(phi, y)) / sigma for i in range(d)]
    return phi, y, G, rhs, d


def pack(phi, y):
    return {"features": [np.array(f) for f in phi], "outputs": list(y)}


def radius(G, lam, delta, bound, d):
    det = float(np.linalg.det(np.array(G)))
    return math.sqrt(2 * math.log(math.sqrt(det / lam ** d) / delta)) + math.sqrt(lam * d) * bound


def ellipsoid(ctx, name):
    from highway_env import utils
    lam, sigma = ctx.choose("lambda", [1e-5, 0.1]), ctx.choose("sigma", [0.1, 0.5])
    delta, bound = ctx.choose("delta", [0.1, 0.01]), ctx.choose("bound", [1., 3.])
    phi, y, G, rhs, d = solve_ridge(ctx, name, lam, sigma)
    data = pack(phi, y)
    theta, g, beta = utils.confidence_ellipsoid(data, lambda_=lam, delta=delta, sigma=sigma, param_bound=bound)
    for i in range(d):
        for j in range(d):
            ctx.eq("Gramian", g[i][j], G[i][j])
        ctx.eq("normal equations", sum(G[i][j] * theta[j] for j in range(d)), rhs[i], tol=1e-4, margin=1e-2)
    ctx.eq("radius", beta, radius(G, lam, delta, bound, d))
    ctx.check("data kept", len(data["outputs"]) == len(y) and len(data["features"]) == len(phi))


def polytope(ctx, name, prior):
    """The region: centred on the estimate, never beyond the prior box, and around the whole ellipsoid where that box allows."""
    from highway_env import utils
    lam, sigma = 1e-5, 0.1
    phi, y, G, rhs, d = solve_ridge(ctx, name, lam, sigma)
    size = dict(wide=1e4, narrow=0.5, negative=0.5)[prior]
    shift = dict(wide=0., narrow=0.25, negative=-0.25)[prior]
    box = np.array([[-size + shift] * d, [size + shift] * d])
    est, g, beta = utils.confidence_ellipsoid(pack(phi, y), param_bound=float(np.amax(np.abs(box))))
    theta, devs, g2, beta2 = utils.confidence_polytope(pack(phi, y), parameter_box=box)
    beta, beta2 = float(beta), float(beta2)
    ctx.eq("radius", beta2, beta)
    for i in range(d):
        for j in range(d):
            ctx.eq("Gramian", g2[i][j], G[i][j])
        ctx.eq("estimate", theta[i], m.clip(est[i], box[0][i], box[1][i]))
        ctx.check("corners within the prior", m.And(*[m.And(theta[i] + q[i] >= box[0][i] - 1e-6, theta[i] + q[i] <= box[1][i] + 1e-6) for q in devs]))
    if prior == "wide":
        # the corners of a parallelepiped: its half axes, from corners that differ in one sign only
        pts = [np.array([float(v) for v in q]) for q in devs]
        ctx.check("corners", len(pts) == 2 ** d)
        base = pts[0]
        others = sorted(pts[1:], key=lambda p: float(np.linalg.norm(p - base)))
        axes = []
        for p in others:
            v = (p - base) / 2.
            if len(axes) < d and any(np.allclose(base + 2. * v + 0 * p, q) for q in pts) and (not axes or np.linalg.matrix_rank(np.array(axes + [v])) == len(axes) + 1):
                axes.append(v)
        R = np.array(axes).T
        inv = np.linalg.inv(R)
        ctx.check("centred", bool(np.allclose(sum(pts), 0., atol=1e-6 * (1 + float(np.abs(base).max())))))
        # any parameter of the ellipsoid, in the coordinates of the half axes: at most one on each
        L = np.linalg.cholesky(np.array(G))
        u = [ctx.real("u%d" % k, -1, 1) for k in range(d)]
        ctx.assume(sum(q * q for q in u) <= 1)
        back = np.linalg.inv(L.T) * beta
        M = inv @ back
        for i in range(d):
            h = sum(float(M[i][j]) * u[j] for j in range(d))
            ctx.check("ellipsoid inside", m.And(h <= 1 + 1e-6, h >= -1 - 1e-6))


def accept(ctx, name):
    """An observation made by a parameter of the confidence ellipsoid is valid, one off by more than the bound is not."""
    from highway_env import utils
    phi, y, G, rhs, d = solve_ridge(ctx, name, 1e-5, 0.1)
    Gm = np.array(G)
    sigma, beta = ctx.choose("sigma", [0.1, 0.5]), ctx.choose("beta", [1.5, 4.])
    f = ctx.choose("feature", [[1.0, -2.0, 0.5], [0.0, 0.25, 1.0], [3.0, 1.0, -1.0]])[:d]
    est = [ctx.real("est%d" % k, -5, 5) for k in range(d)]
    u = [ctx.real("u%d" % k, -1, 1) for k in range(d)]
    ctx.assume(sum(q * q for q in u) <= 0.999)
    # the true parameter: est + beta L^-T u
    B = np.linalg.inv(np.linalg.cholesky(Gm).T) * beta
    noise = ctx.real("noise", -1, 1) * sigma * 0.999
    out = sum(f[i] * (est[i] + sum(float(B[i][j]) * u[j] for j in range(d))) for i in range(d)) + noise
    got = utils.is_valid_observation(m.arr([out]), np.array([[q] for q in f]), m.arr(est), Gm, beta, sigma)
    ctx.check("explained observations are valid", got)
    bound = math.sqrt(sum(q * q for q in f) / float(min(np.linalg.eigvalsh(Gm)))) * beta + sigma
    err = ctx.real("error", -1, 1) * 3. * bound
    ctx.assume(m.absv(m.absv(err) - bound) > 1e-3)
    got = utils.is_valid_observation(m.arr([sum(a * b for a, b in zip(f, est)) + err]), np.array([[q] for q in f]), m.arr(est), Gm, beta, sigma)
    ctx.check("bound", m.iff(got, m.absv(err) < bound))


def consistent(ctx, name, wide):
    """The last observation is tested against the estimate of the others; the dataset is left as it was."""
    from highway_env import utils
    phi = FEATURES[name]
    d = len(phi[0])
    box = np.array([[-100.] * d, [100.] * d]) if wide else np.array([[-1.] * d, [1.5] * d])
    y = [ctx.real("y%d" % k, -10, 10) for k in range(len(phi))]
    data = pack(phi, y)
    if len(phi) == 1:
        ctx.check("a single observation is consistent", utils.is_consistent_dataset(data, parameter_box=box))
    else:
        theta, _, g, beta = utils.confidence_polytope(pack(phi[:-1], y[:-1]), parameter_box=box)
        bound = math.sqrt(sum(q * q for q in phi[-1]) / float(min(np.linalg.eigvalsh(np.array([[float(a) for a in r] for r in g]))))) * float(beta) + 0.1
        err = m.absv(y[-1] - sum(a * b for a, b in zip(phi[-1], theta)))
        ctx.assume(m.absv(err - bound) > 1e-3)
        ctx.check("last against the others", m.iff(utils.is_consistent_dataset(data, parameter_box=box), err < bound))
    ctx.check("data kept", len(data["outputs"]) == len(phi) and len(data["features"]) == len(phi))
    for q, r in zip(data["outputs"], y):
        ctx.eq("outputs kept", q, r)


def cases(tier):
    names = sorted(FEATURES)
    cs = []
    for n in names:
        cs.append(Case("ellipsoid-" + n, ellipsoid, dict(name=n)))
        cs.append(Case("consistent-%s" % n, consistent, dict(name=n, wide=True)))
        cs.append(Case("consistent-%s-prior" % n, consistent, dict(name=n, wide=False)))
        if len(FEATURES[n]) >= len(FEATURES[n][0]):
            cs.append(Case("accept-" + n, accept, dict(name=n)))
            cs += [Case("polytope-%s-%s" % (n, p), polytope, dict(name=n, prior=p)) for p in ("wide", "narrow", "negative")]
    return cs
