"""The reward, end and cost of the highway task."""
from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("roads of 1 to 4 lanes and one of two sections, every speed in [-60, 80], position, current and target lane, crash flag, collision reward in [-10,-0.1], "
          "speed range with bounds in [-10,60] at least 1 apart, reward weights in [0,5], any number of steps and duration up to 1000; meta-action and continuous vehicles, with one or two agents")


def clip01(x):
    return m.clip(x, 0., 1.)


def scene(ctx, lanes, controlled, agents=1):
    from highway_env.vehicle.kinematics import Vehicle
    net = common.straight_net(lanes, 200.)
    common.add_straight(net, "1", "2", 2, 200., 400.)
    rd = common.road(net)
    cars = []
    for k in range(agents):
        lane = ctx.choose("lane%d" % k, range(lanes))
        speed = ctx.real("v%d" % k, -60, 80)
        x, y = ctx.real("x%d" % k, -50, 300), ctx.real("y%d" % k, -10, 20)
        for b in (-5., 205.):
            ctx.assume(m.absv(x - b) > 1e-3)
        ctx.assume(m.absv(m.absv(y - 4. * lane) - 2.) > 1e-3)
        if controlled:
            tgt = ctx.choose("target%d" % k, range(lanes))
            v = common.mdp_vehicle(rd, [x, y], 0., speed, ("0", "1", lane), target_lane_index=("0", "1", tgt))
        else:
            tgt = lane
            v = common.vehicle(Vehicle, rd, [x, y], 0., 20., ("0", "1", lane))
            v.speed = speed
        v.crashed = ctx.choose("crashed%d" % k, [False, True])
        cars.append((v, x, y, lane, tgt))
    rd.vehicles = [c[0] for c in cars]
    env = common.env_of("HighwayEnv", dict(controlled_vehicles=agents), road=rd, vehicles=rd.vehicles[:])
    return env, cars


def reward(ctx, lanes, controlled, agents):
    env, cars = scene(ctx, lanes, controlled, agents)
    v, x, y, lane, tgt = cars[0]
    worst = env.config["collision_reward"] = ctx.real("collision", -10, -0.1)
    low, high = ctx.real("low", -10, 59), ctx.real("high", -9, 60)
    ctx.assume(high >= low + 1)
    env.config["reward_speed_range"] = [low, high]
    fast, right = env.HIGH_SPEED_REWARD, env.RIGHT_LANE_REWARD
    got = env._reward(ctx.choose("action", [0, 1, 2, 3, 4]))
    on = m.And(m.absv(y - 4. * lane) < 2., x >= -5., x < 205.)
    if not bool(on):
        ctx.eq("off the road", got, 0.)
        return
    raw = (worst if v.crashed else 0.) + right * tgt / max(lanes - 1, 1)
    best = fast + right
    r = clip01((v.speed - low) / (high - low))
    ctx.eq("reward", got, (raw + fast * r - worst) / (best - worst))
    ctx.check("in [0, 1]", m.And(got >= -1e-6, got <= 1 + 1e-6))
    if not v.crashed:
        ctx.check("a crash is worse", got >= -worst / (best - worst) - 1e-6)


def weights(ctx, lanes):
    """The class weights are used as such."""
    env, cars = scene(ctx, lanes, True)
    v, x, y, lane, tgt = cars[0]
    ctx.assume(m.And(m.absv(y - 4. * lane) < 2., x >= -5., x < 205.))
    a, b = ctx.real("right", 0, 5), ctx.real("fast", 0.1, 5)
    env.RIGHT_LANE_REWARD, env.HIGH_SPEED_REWARD = a, b
    raw = (-1. if v.crashed else 0.) + a * tgt / max(lanes - 1, 1)
    got = env._reward(1)
    ctx.eq("reward", got, (raw + b * clip01((v.speed - 20) / 10) + 1) / (a + b + 1))


def terminal(ctx, lanes, controlled, agents):
    env, cars = scene(ctx, lanes, controlled, agents)
    v, x, y, lane, tgt = cars[0]
    off = env.config["offroad_terminal"] = ctx.choose("offroad_terminal", [False, True])
    steps = env.steps = ctx.int("steps", 0, 1000)
    dur = env.config["duration"] = ctx.int("duration", 1, 1000)
    on = m.And(m.absv(y - 4. * lane) < 2., x >= -5., x < 205.)
    want = m.Or(v.crashed, steps >= dur, m.And(off, m.Not(on)))
    ctx.check("terminal", m.iff(env._is_terminal(), want))
    ctx.eq("cost", env._cost(1), 1. if v.crashed else 0.)


def cases(tier):
    cs = []
    for lanes in (1, 2, 3, 4):
        for controlled in (True, False):
            for agents in (1, 2) if lanes == 2 or tier == "thorough" and lanes < 4 else (1,):
                k = "%dlanes-%s-%dagents" % (lanes, "meta" if controlled else "free", agents)
                o = dict(lanes=lanes, controlled=controlled, agents=agents)
                cs.append(Case("reward-" + k, reward, o, cost=lanes * agents))
                cs.append(Case("terminal-" + k, terminal, o, cost=lanes * agents))
    cs += [Case("weights-%d" % n, weights, dict(lanes=n)) for n in (1, 3)]
    return cs
