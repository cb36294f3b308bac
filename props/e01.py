"""The step and reset protocol of every environment."""
from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("simulation and policy frequencies of 1 to 6 Hz (thorough 12), any pattern of terminal substeps, any done flag, control mode and presence of an action, one to three steps in a row; "
          "any earlier time, step count, scene and done flag at reset")


class Probe(object):
    """Stands for the scene, the actions, the observations and the reward: records the order of their use."""

    def __init__(self, ctx, terminal):
        self.ctx, self.log, self.k, self.terminal, self.now = ctx, [], 0, terminal, 0
        self.crashed, self.speed, self.position = False, ctx.real("speed", -10, 60), m.arr([0., 0.])

    # road
    def act(self, *a):
        self.log.append(("act",) + a)

    def step(self, dt):
        self.now += 1
        self.log.append(("step", dt))


def probe_env(ctx, terminal, cost, sim, pol, manual):
    from highway_env.envs.common.abstract import AbstractEnv
    p = Probe(ctx, terminal)

    class Env(AbstractEnv):
        def _reward(self, action):
            p.log.append(("reward", action))
            return 100 + p.now

        def _is_terminal(self):
            return p.terminal(p.now)

        if cost:
            def _cost(self, action):
                p.log.append(("cost", action))
                return 500 + p.now

    env = Env.__new__(Env)
    env.config = env.default_config()
    env.config.update(dict(simulation_frequency=sim, policy_frequency=pol, manual_control=manual))
    env.road = p
    env.controlled_vehicles = [p]
    env.time = env.steps = 0
    env.done = False
    env.viewer = env.automatic_rendering_callback = None
    env.should_update_rendering, env.rendering_mode, env.enable_auto_render = True, "human", False
    env.action_type = type("A", (), {"act": lambda self, a: p.log.append(("command", a))})()
    env.observation_type = type("O", (), {"observe": lambda self: p.log.append(("observe",)) or ("observation", p.now)})()
    return env, p


def protocol(ctx, hz, steps):
    sim, pol = ctx.int("simulation_frequency", 1, hz), ctx.int("policy_frequency", 1, hz)
    ctx.assume(pol <= sim)
    manual = ctx.choose("manual", [False, True])
    cost = ctx.choose("cost", [False, True])
    passive = ctx.choose("no action", [False, True])
    done = ctx.choose("done", [False, True]) if steps == 1 else False
    end = ctx.int("end", 1, 3 * hz)  # the substep from which the scene is terminal
    env, p = probe_env(ctx, lambda now: end <= now, cost, sim, pol, manual)
    env.done = done
    for k in range(steps):
        action = None if passive else "action%d" % k
        start = len(p.log)
        first = p.now
        obs, reward, terminal, info = env.step(action)
        log = p.log[start:]
        # the expected sequence
        want = []
        n = 0
        if action is not None and not manual:
            want.append(("command", action))
        while True:
            want += [("act",), ("step",)]
            n += 1
            if done or bool((n + 1) * pol > sim) or bool(end <= first + n):
                break
        after = [e for e in log if e[0] in ("observe", "reward", "cost")]
        during = [e for e in log if e[0] not in ("observe", "reward", "cost")]
        ctx.check("step %d: sequence" % k, [e[:1] if e[0] == "step" else e for e in during] == want)
        ctx.check("step %d: simulated before observing" % k, log[:len(during)] == during)
        for e in during:
            if e[0] == "step":
                ctx.eq("dt", e[1] * sim, 1.)
        ctx.check("step %d: counters" % k, m.And(env.steps == k + 1, env.time == first + n))
        ctx.check("step %d: results" % k, obs == ("observation", first + n) and reward == 100 + first + n)
        ctx.check("step %d: terminal" % k, m.iff(terminal, end <= first + n))
        ctx.check("step %d: one reward of the action" % k, [e for e in after if e[0] == "reward"] == [("reward", action)])
        ctx.check("step %d: info" % k, info["crashed"] == p.crashed and info["action"] == action)
        ctx.eq("step %d: speed" % k, info["speed"], p.speed)
        ctx.check("step %d: cost" % k, info["cost"] == 500 + first + n if cost else "cost" not in info)
        if bool(end <= p.now):
            break


def unready(ctx):
    env, p = probe_env(ctx, lambda now: False, True, 1, 1, False)
    if ctx.choose("missing", ["road", "vehicle"]) == "road":
        env.road = None
    else:
        env.controlled_vehicles = []
        ctx.check("no vehicle", env.vehicle is None)
    try:
        env.step(0)
    except NotImplementedError:
        ctx.check("nothing simulated", p.log == [])
        return
    ctx.fail("an environment without a scene was stepped")


def vehicle_property(ctx):
    env, p = probe_env(ctx, lambda now: False, True, 1, 1, False)
    a, b = object(), object()
    env.controlled_vehicles = [a, b]
    ctx.check("the first one", env.vehicle is a)
    env.vehicle = b
    ctx.check("the only one", env.vehicle is b and env.controlled_vehicles == [b])


OBS = [{"type": "Kinematics", "normalize": False, "absolute": True, "features": ["x", "vx"], "vehicles_count": 1}, {"type": "OccupancyGrid", "features": ["presence"]},
       {"type": "TimeToCollision", "horizon": 2}, {"type": "KinematicsGoal", "features": ["x"], "scales": [1]}, {"type": "AttributesObservation", "attributes": ["steps"]},
       {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics", "normalize": False, "absolute": True, "features": ["x", "vx"], "vehicles_count": 1}}]
ACT = [{"type": "DiscreteMetaAction"}, {"type": "ContinuousAction"}, {"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}}]


def same_space(a, b):
    """Same kind and shape of space."""
    if type(a) is not type(b):
        return False
    if hasattr(a, "spaces"):
        if isinstance(a.spaces, dict) or hasattr(a.spaces, "items"):
            return sorted(a.spaces) == sorted(b.spaces) and all(same_space(a.spaces[k], b.spaces[k]) for k in a.spaces)
        return len(a.spaces) == len(b.spaces) and all(same_space(x, y) for x, y in zip(a.spaces, b.spaces))
    return tuple(a.shape or ()) == tuple(b.shape or ()) and getattr(a, "n", None) == getattr(b, "n", None)


def reset(ctx, i):
    """After a reset, observations and actions are those of the new scene."""
    from highway_env.envs.common.abstract import AbstractEnv
    from highway_env.vehicle.controller import MDPVehicle
    from highway_env.vehicle.kinematics import Vehicle
    obs = OBS[i]
    act = ctx.choose("action", ACT)
    if obs["type"] == "TimeToCollision":
        act = ACT[0]
    scenes = []

    class Env(AbstractEnv):
        def _reset(self):
            cls = self.action_type.vehicle_class
            k = len(scenes)
            scenes.append((self.time, self.steps, self.done, cls))
            self.road = common.road(common.straight_net(2, 500.))
            cars = []
            for j in range(2):
                cars.append(common.vehicle(cls, self.road, [10. + 50 * j if obs["type"] == "TimeToCollision" else ctx.real("x%d%d" % (k, j), 10, 40) + 50 * j, 0.], 0., 20. + k, ("0", "1", 0)))
            self.road.vehicles = list(cars)
            self.controlled_vehicles = cars[:2] if "Multi" in obs["type"] + act["type"] else cars[:1]
            self.goal = cars[1]

    env = Env.__new__(Env)
    env.config = env.default_config()
    env.config.update(observation=obs, action=act)
    env.np_random = None
    env.road = env.action_type = env.observation_type = None
    env.controlled_vehicles = []
    env.viewer = env.automatic_rendering_callback = None
    env.should_update_rendering, env.rendering_mode, env.enable_auto_render = True, "human", False
    env.time, env.steps = ctx.int("time", 0, 1000), ctx.int("steps", 0, 1000)
    env.done = ctx.choose("done", [False, True])
    env.define_spaces()
    for k in range(3):
        if k == 2:  # another configuration
            obs = dict(OBS[0], vehicles_count=3)
            act = ACT[1] if act["type"] == "DiscreteMetaAction" else ACT[0]
            env.configure(dict(observation=obs, action=act))
        got = env.reset()
        ctx.check("one scene per reset", len(scenes) == k + 1)
        ctx.check("clean counters before the scene is made", scenes[k][:3] == (0, 0, False))
        ctx.check("class of the vehicles", scenes[k][3] is (MDPVehicle if act["type"] == "DiscreteMetaAction" else Vehicle))
        ctx.check("counters", env.time == 0 and env.steps == 0 and not env.done)
        o, a = env.observation_type, env.action_type
        agents = list(zip(o.agents_observation_types, env.controlled_vehicles)) if "Multi" in obs["type"] else [(o, env.vehicle)]
        for t, v in agents if obs["type"] != "AttributesObservation" else []:
            ctx.check("observes the new scene", t.env is env and t.observer_vehicle is v)
        drivers = list(zip(a.agents_action_types, env.controlled_vehicles)) if "Multi" in act["type"] else [(a, env.vehicle)]
        for t, v in drivers:
            ctx.check("drives the new vehicle", t.env is env and t.controlled_vehicle is v)
        if obs["type"] == "Kinematics":
            ctx.eq("x", got[0, 0], env.vehicle.position[0])
            ctx.eq("vx", got[0, 1], 20. + k)
        if obs["type"] == "MultiAgentObservation":
            ctx.check("one per agent", len(got) == len(env.controlled_vehicles))
            for g, v in zip(got, env.controlled_vehicles):
                ctx.eq("x", g[0, 0], v.position[0])
        if obs["type"] == "AttributesObservation":
            ctx.check("steps", got["steps"] == 0)
        for what, space, t in (("observation", env.observation_space, o), ("action", env.action_space, a)):
            ctx.check("declared %s space" % what, same_space(space, t.space()))
        if "Multi" in act["type"]:
            ctx.check("one action space per agent", len(env.action_space.spaces) == len(env.controlled_vehicles))
        if hasattr(got, "shape"):
            ctx.check("observation of the declared shape", tuple(env.observation_space.shape) == tuple(got.shape))
        env.time, env.steps, env.done = 7, 9, True


def cases(tier):
    hz = 6 if tier == "quick" else 12
    cs = [Case("unready", unready), Case("vehicle", vehicle_property)]
    cs += [Case("protocol-%d" % s, protocol, dict(hz=hz, steps=s), cost=s) for s in (1, 2, 3)]
    cs += [Case("reset-%s" % OBS[i]["type"], reset, dict(i=i)) for i in range(len(OBS))]
    return cs
