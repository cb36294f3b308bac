"""Environments do not influence each other."""
import copy
import inspect
import sys
import types

from symx.engine import Case
from symx import core, m
from . import common

BOUNDS = ("one reset of one environment of every kind (one and two agents where supported, meta-actions and continuous actions), with every random draw of its scene (normal draws within 0.01 deviations; up to 3 random vehicles); "
          "all class attributes, default arguments and module constants of highway_env, and the configurations of two environments")

ENVS = ["HighwayEnv", "MergeEnv", "TwoWayEnv", "RoundaboutEnv", "IntersectionEnv", "MultiAgentIntersectionEnv", "ParkingEnv", "ParkingEnvActionRepeat", "SummonEnv", "LaneKeepingEnv"]
CONFIG = {"HighwayEnv": dict(vehicles_count=1, lanes_count=2), "IntersectionEnv": dict(initial_vehicle_count=1), "MultiAgentIntersectionEnv": dict(initial_vehicle_count=1), "SummonEnv": dict(vehicles_count=1),
          "LaneKeepingEnv": dict(observation={"type": "AttributesObservation", "attributes": ["steps"]}), "TwoWayEnv": dict(observation={"type": "Kinematics"})}
TRAFFIC = ("DISTANCE_WANTED", "COMFORT_ACC_MAX", "COMFORT_ACC_MIN")


def data(v):
    return not (callable(v) or isinstance(v, (types.ModuleType, property, classmethod, staticmethod, types.MethodType)) or inspect.isroutine(v))


def keep(x):
    """A copy of the data in x; anything else stands for itself."""
    if isinstance(x, dict):
        return {k: keep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(keep(v) for v in x) if type(x) in (list, tuple) else x
    if isinstance(x, set):
        return set(x)
    if hasattr(x, "shape") and hasattr(x, "copy"):
        return x.copy()
    return x


def snapshot():
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if mod is None or not (name == "highway_env" or name.startswith("highway_env.")):
            continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__"):
                continue
            if inspect.isclass(v) and getattr(v, "__module__", "").startswith("highway_env"):
                for a, w in sorted(vars(v).items()):
                    f = w.__func__ if isinstance(w, (classmethod, staticmethod)) else w
                    if a in ("__dict__", "__weakref__", "__doc__", "__module__", "__annotations__", "_abc_impl", "__abstractmethods__", "__static_attributes__", "__firstlineno__", "__parameters__", "__orig_bases__"):
                        continue
                    if inspect.isfunction(f):
                        out[v.__name__, a, "defaults"] = keep((f.__defaults__, f.__kwdefaults__))
                    elif data(w):
                        out[v.__name__, a, "value"] = keep(w)
            elif data(v) and isinstance(v, (int, float, str, list, tuple, dict, set)):
                out[name, k, "value"] = keep(v)
    return out


def same(a, b):
    if core.is_sym(a) or core.is_sym(b):
        return a is b
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)) and all(same(a[k], b[k]) for k in a)
    if hasattr(a, "shape") and getattr(a, "shape", ()) != ():
        return a.shape == getattr(b, "shape", None) and all(same(x, y) for x, y in zip(a.flatten(), b.flatten()))
    if a is b:
        return True
    if isinstance(a, (bool, int, float, str, set, type(None))):
        return a == b
    return type(a) is type(b) and hasattr(a, "__dict__") and vars(a) == vars(b)


def signature(x):
    if core.is_sym(x) or isinstance(x, (bool, int, float, str, type(None))):
        return x
    if isinstance(x, dict):
        return {k: signature(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, range)):
        return [signature(v) for v in x]
    if hasattr(x, "shape"):
        return [float(v) if not core.is_sym(v) else v for v in x.flatten()]
    return type(x).__name__


class Replay(common.Rand):
    """The same draws again."""

    def __init__(self, ctx, values):
        common.Rand.__init__(self, ctx, normal=0.01)
        self.values, self.fresh = values, not values

    def __getattribute__(self, k):
        f = object.__getattribute__(self, k)
        if k not in ("rand", "random_sample", "random", "uniform", "randn", "standard_normal", "normal", "randint", "choice"):
            return f

        def draw(*a, **kw):
            if self.fresh:
                self.fresh = False
                v = f(*a, **kw)
                self.fresh = True
                self.values.append((k, a, kw, v))
                return v.copy() if hasattr(v, "copy") else v
            if not object.__getattribute__(self, "again"):
                return f(*a, **kw)
            self.ctx.check("as many draws", self.at < len(self.values))
            k0, a0, kw0, v = self.values[self.at]
            self.at += 1
            self.ctx.check("the same draws are made", k0 == k and same(signature(a0), signature(a)) and same(signature(kw0), signature(kw)))
            if k == "choice" and not isinstance(a[0], int) and len(a[0]) and not isinstance(list(a[0])[0], (int, float, str)):
                return list(a[0])[[x is v for x in a0[0]].index(True)]
            return v.copy() if hasattr(v, "copy") else v
        return draw

    again, at = False, 0


def shown(v):
    return [type(v).__name__, v.lane_index, getattr(v, "target_lane_index", None), getattr(v, "route", None), getattr(v, "speed_index", None), v.crashed, getattr(v, "SPEED_COUNT", None)], \
        [v.position[0], v.position[1], v.heading, v.speed, getattr(v, "target_speed", 0.), getattr(v, "timer", 0.), getattr(v, "DISTANCE_WANTED", 0.), getattr(v, "SPEED_MIN", 0.), getattr(v, "SPEED_MAX", 0.)]


def scene_of(env):
    out = [shown(v) for v in env.road.vehicles] + [shown(v) for v in env.controlled_vehicles]
    for o in list(env.road.objects) + ([env.goal] if hasattr(env, "goal") else []):
        out.append(([type(o).__name__], [o.position[0], o.position[1], o.heading]))
    return out


def again(ctx, name, action):
    """A second reset - of the same environment after use, or of a new one after another one - with the same draws gives the same scene."""
    env, before, after = scene(ctx, name, action, rand=Replay(ctx, []))
    fresh = ctx.choose("second", ["same environment", "new environment"])
    first = scene_of(env)
    values = object.__getattribute__(env.np_random, "values")
    rand = Replay(ctx, values)
    rand.fresh, rand.again = False, True
    if fresh == "same environment":
        for v in env.road.vehicles:
            v.crashed = True
            v.position = v.position + 3.
            v.speed = 1.
            v.target_speed = 2.
        env.road.vehicles.reverse()
        env.time, env.steps, env.done = 11, 12, True
        second, _, last = scene(ctx, name, action, rand=rand, env=env)
    else:
        second, _, last = scene(ctx, name, action, rand=rand)
    try:
        ctx.check("all draws", rand.at == len(values))
        ctx.check("the road draws from the same source", second.road.np_random is second.np_random)
        ctx.check("counters", second.time == 0 and second.steps == 0 and not second.done)
        now = scene_of(second)
        ctx.check("as many vehicles", len(first) == len(now))
        for a, b in zip(first, now):
            ctx.check("same vehicle", a[0] == b[0])
            for x, y in zip(a[1], b[1]):
                ctx.eq("same state", x, y)
    finally:
        restore(before, last)


def seeded(ctx):
    """Seeding replaces the only source of randomness."""
    import numpy as np
    env = common.env_of("HighwayEnv")
    s = ctx.choose("seed", [0, 1, 7, 123456])
    a = env.seed(s)
    ctx.check("the seed is reported", a == [s])
    x = env.np_random.uniform(size=3)
    env.seed(s)
    y = env.np_random.uniform(size=3)
    ctx.check("the same draws", all(float(i) == float(j) for i, j in zip(x, y)))
    env.seed(s + 1)
    z = env.np_random.uniform(size=3)
    ctx.check("other draws", any(float(i) != float(j) for i, j in zip(x, z)))


def scene(ctx, name, action=None, config=None, rand=None, env=None):
    """A real reset, of which only the closest-lane search and the observation are left out."""
    import numpy as np
    cfg = dict(CONFIG.get(name, {}))
    cfg.update(config or {})
    known = env
    env = env or common.env_of(name, cfg)
    if action:
        env.config["action"] = dict(action)
    if name == "LaneKeepingEnv" and not known:
        env.lane, env.lanes, env.trajectory, env.interval_trajectory, env.lpv = None, [], [], [], None
    env.np_random = rand or common.Rand(ctx, normal=0.01)
    real = type(env).define_spaces.__get__(env)

    def define():
        real()
        env.observation_type.observe = lambda: None
    env.define_spaces = define
    from highway_env.road.road import RoadNetwork
    from highway_env.road.road import Road
    old, oa, os = RoadNetwork.get_closest_lane_index, Road.act, Road.step
    RoadNetwork.get_closest_lane_index = lambda self, position, heading=None: next((f, t, 0) for f in self.graph for t in self.graph[f])
    Road.act, Road.step = lambda self: None, lambda self, dt: None
    before = snapshot()
    try:
        env.reset()
        after = snapshot()
    finally:
        RoadNetwork.get_closest_lane_index, Road.act, Road.step = old, oa, os
    return env, before, after


def restore(before, after):
    """Undo the changes found, so that the other paths start from the same classes."""
    mods = [mod for n, mod in sys.modules.items() if mod is not None and n.startswith("highway_env")]
    for (c, a, kind), v in before.items():
        if kind == "value" and not same(v, after.get((c, a, kind), v)):
            for mod in mods:
                k = getattr(mod, c, None)
                if inspect.isclass(k):
                    setattr(k, a, v)


def classes(ctx, name, action, traffic):
    env, before, after = scene(ctx, name, action)
    try:
        for k in sorted(set(before) | set(after)):
            is_traffic = name.endswith("IntersectionEnv") and k[0] == "IDMVehicle" and k[1] in TRAFFIC
            if is_traffic != traffic:
                continue
            if k not in before:
                ctx.fail("%s.%s appeared" % k[:2])
            elif k not in after or not same(before[k], after[k]):
                ctx.fail("%s.%s changed" % k[:2])
        ctx.check("a scene was made", len(env.road.vehicles) >= 1 and env.vehicle is not None)
    finally:
        restore(before, after)


def configs(ctx, name):
    """Nothing is shared between the configurations of two environments, nor with what the user gave."""
    import highway_env.envs as envs
    cls = getattr(envs, name)
    a, b = common.env_of(name), common.env_of(name)
    given = {"observation": dict(a.config["observation"]), "action": dict(a.config["action"]), "centering_position": [ctx.real("cx", 0, 1), 0.5], "duration": ctx.int("duration", 1, 100)}
    keep = copy.deepcopy(given)
    a.configure(given)
    ctx.check("configured", a.config["duration"] is given["duration"] and a.config["observation"] == given["observation"])
    a.configure(None)
    ctx.check("others are not", b.config is not a.config and "duration" not in b.config or b.config.get("duration") is not given["duration"])
    seen = []

    def walk(x):
        if isinstance(x, (dict, list)):
            seen.append(id(x))
            for y in (x.values() if isinstance(x, dict) else x):
                walk(y)
    walk(cls.default_config(a))if not inspect.ismethod(cls.default_config) else walk(cls.default_config())
    first = set(seen)
    keepalive = a.default_config()
    seen[:] = []
    walk(keepalive)
    mine = set(seen)
    seen[:] = []
    second = a.default_config()
    walk(second)
    ctx.check("defaults are fresh", not (mine & set(seen)))
    a.define_spaces()
    b.define_spaces()
    ctx.check("what was given is not changed", set(given) == set(keep) and all(same(given[k], keep[k]) for k in ("observation", "action")))
    ctx.check("configuration of the others is theirs", same(b.config, b.default_config()))


META, CONT = {"type": "DiscreteMetaAction"}, {"type": "ContinuousAction"}


def cases(tier):
    cs = [Case("seeded", seeded)]
    for n in ENVS:
        for label, a in ((("default", None),) + ((("meta", META), ("continuous", CONT)) if n in ("HighwayEnv", "MergeEnv", "TwoWayEnv", "RoundaboutEnv") else ())):
            if label == "meta":
                continue
            cs.append(Case("classes-%s-%s" % (n, label), classes, dict(name=n, action=a, traffic=False), cost=2))
            cs.append(Case("again-%s-%s" % (n, label), again, dict(name=n, action=a), cost=3))
        cs.append(Case("configs-" + n, configs, dict(name=n)))
    cs += [Case("traffic-parameters-" + n, classes, dict(name=n, action=None, traffic=True), cost=2) for n in ENVS if n.endswith("IntersectionEnv")]
    return cs
