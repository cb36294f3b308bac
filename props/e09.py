"""The finite decision problem made of an environment: transitions, rewards and ends over the time-to-collision grid."""
import sys
import types

import numpy as np

from symx.engine import Case
from symx import m
from . import common
from .o02 import kind

BOUNDS = ("grids of 1 to 4 speeds, 1 to 4 lanes and 2 to 10 (thorough 12) times, with any contents in [0,1], rewards weights in [-2,2]; every state and action of the five-action set; policy frequencies 1, 2 and 0.5, any speed index and lane")

SHAPES = [(1, 1, 2), (3, 1, 4), (1, 3, 3), (2, 2, 2), (3, 4, 3), (4, 2, 3)]


def moved(h, i, j, a, shape):
    """Where an action leads: IDLE by default, one lane left (0) or right (2), one speed up (3) or down (4) at the first instant only."""
    cut = lambda x, n: min(max(x, 0), n - 1)
    dh = {3: 1, 4: -1}.get(a, 0) if j == 0 else 0
    di = {0: -1, 2: 1}.get(a, 0)
    return (cut(h + dh, shape[0]) * shape[1] + cut(i + di, shape[1])) * shape[2] + cut(j + 1, shape[2])


def transition(ctx, shape):
    """Any state, any action: integers of the solver."""
    from highway_env.envs.common.finite_mdp import clip_position, transition_model
    grid = np.zeros(shape)
    h, i, j = [ctx.int(n, 0, k - 1) for n, k in zip("hij", shape)]
    a = ctx.int("a", 0, 4)
    got = transition_model(m.arr([h]), m.arr([i]), m.arr([j]), m.arr([a]), grid)[0]
    first = j == 0
    h2 = m.clip(h + m.ite(m.And(a == 3, first), 1, 0) - m.ite(m.And(a == 4, first), 1, 0), 0, shape[0] - 1)
    i2 = m.clip(i + m.ite(a == 2, 1, 0) - m.ite(a == 0, 1, 0), 0, shape[1] - 1)
    j2 = m.mn(j + 1, shape[2] - 1)
    ctx.eq("next state", got, (h2 * shape[1] + i2) * shape[2] + j2)
    x, y, z = [ctx.int(n, -3, 8) for n in "xyz"]
    got = clip_position(m.arr([x]), m.arr([y]), m.arr([z]), grid)[0]
    ctx.eq("clipped", got, (m.clip(x, 0, shape[0] - 1) * shape[1] + m.clip(y, 0, shape[1] - 1)) * shape[2] + m.clip(z, 0, shape[2] - 1))


class Mdp(object):
    def __init__(self, transition, reward, terminal, state=None):
        self.transition, self.reward, self.terminal, self.state = transition, reward, terminal, state


def whole(ctx, shape, freq):
    """Tables of the conversion, for any contents of the grid and any weights."""
    import importlib
    from highway_env.envs.common import finite_mdp as fm
    v, l, t = shape
    net = common.straight_net(l, 100.)
    rd = common.road(net)
    index, lane = ctx.choose("index", list(range(v))), ctx.choose("lane", list(range(l)))
    ego = common.vehicle(kind(v, 10., 30.), rd, [20., 4. * lane], 0., 15., ("0", "1", lane))
    ego.speed_index, ego.target_lane_index = index, ("0", "1", (lane + 1) % l)
    env = common.env_of("HighwayEnv", dict(policy_frequency=freq), rd, [ego])
    env.action_space = type("S", (), {"n": 5})()
    cr, rl, hs, lc = [ctx.real(n, -2, 2) for n in ("collision", "right", "speed", "change")]
    env.config["collision_reward"] = cr
    env.RIGHT_LANE_REWARD, env.HIGH_SPEED_REWARD, env.LANE_CHANGE_REWARD = rl, hs, lc
    cells = [[[ctx.real("g%d%d%d" % (a, b, c), 0, 1) for c in range(t)] for b in range(l)] for a in range(v)]
    ask = []

    def grid(e, q, horizon, vehicle=None):
        ask.append((e, q, horizon, vehicle))
        return m.arr(cells)

    old = fm.compute_ttc_grid, {k: sys.modules.get(k) for k in ("finite_mdp", "finite_mdp.mdp")}
    pkg, mod = types.ModuleType("finite_mdp"), types.ModuleType("finite_mdp.mdp")
    pkg.mdp, mod.DeterministicMDP = mod, Mdp
    fm.compute_ttc_grid = grid
    sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = pkg, mod
    try:
        mdp = env.to_finite_mdp()
    finally:
        fm.compute_ttc_grid = old[0]
        for k, x in old[1].items():
            if x is None:
                del sys.modules[k]
            else:
                sys.modules[k] = x
    ctx.check("of this environment, in policy periods", len(ask) == 1 and ask[0][0] is env and abs(ask[0][1] - 1. / freq) < 1e-9 and ask[0][2] == 10. and ask[0][3] in (None, ego))
    n = v * l * t
    ctx.check("sizes", np.shape(mdp.transition) == (n, 5) and np.shape(mdp.reward) == (n, 5) and np.shape(mdp.terminal) == (n,) and tuple(mdp.original_shape) == shape)
    ctx.check("state", mdp.state == (index * l + lane) * t)
    for s, (a, b, c) in enumerate(np.ndindex(*shape)):
        value = cr * cells[a][b][c] + rl * (float(b) / max(l - 1, 1)) + hs * (float(a) / max(v - 1, 1))
        for k in range(5):
            ctx.check("transition", mdp.transition[s][k] == moved(a, b, c, k, shape))
            ctx.eq("reward", mdp.reward[s][k], value + (lc if k in (0, 2) else 0.))
        ctx.check("terminal", m.iff(mdp.terminal[s], m.Or(cells[a][b][c] == 1, c == t - 1)))


def missing(ctx):
    """Without the optional module the conversion says what is missing."""
    from highway_env.envs.common import finite_mdp as fm
    rd = common.road(common.straight_net(2, 100.))
    ego = common.vehicle(kind(3, 10., 30.), rd, [20., 0.], 0., 15., ("0", "1", 0))
    env = common.env_of("HighwayEnv", {}, rd, [ego])
    env.action_space = type("S", (), {"n": 5})()
    old = {k: sys.modules.get(k) for k in ("finite_mdp", "finite_mdp.mdp")}
    sys.modules["finite_mdp"] = sys.modules["finite_mdp.mdp"] = None
    try:
        env.to_finite_mdp()
        ctx.fail("silent")
    except ModuleNotFoundError as e:
        ctx.check("says so", "finite_mdp" in str(e))
    finally:
        for k, x in old.items():
            if x is None:
                del sys.modules[k]
            else:
                sys.modules[k] = x


def cases(tier):
    big = tier == "thorough"
    cs = []
    for s in SHAPES + [(3, 3, 10), (1, 4, 6)] + ([(4, 4, 12), (2, 4, 8), (3, 2, 10)] if big else []):
        cs.append(Case("transition-%d-%d-%d" % s, transition, dict(shape=s)))
    for k, s in enumerate(SHAPES + ([(3, 3, 4), (2, 4, 4)] if big else [])):
        cs.append(Case("whole-%d-%d-%d" % s, whole, dict(shape=s, freq=(1, 2, 0.5)[k % 3]), cost=3))
    cs.append(Case("missing", missing, {}))
    return cs
