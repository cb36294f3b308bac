"""Keyboard control and the displayed plan: events drive the enabled axes of the driven vehicle and nothing else."""
import pygame

from symx.engine import Case
from symx import m
from . import common
from .a02 import table

BOUNDS = ("sequences of one to three (thorough four) key presses or releases of the four arrows, an unused key or the mouse; every combination of axes; any previous action within [-1.5,1.5] and any command ranges within [-20,20]; "
          "plans of up to three (thorough four) discrete actions; any policy and simulation frequency in [1,60]")

KEYS = dict(right=pygame.K_RIGHT, left=pygame.K_LEFT, down=pygame.K_DOWN, up=pygame.K_UP, other=pygame.K_a)


class Event(object):
    def __init__(self, type, key=None):
        self.type = type
        if key is not None:
            self.key = key


def events(ctx, n):
    out = []
    for k in range(n):
        kind = ctx.choose("kind%d" % k, ["press", "release", "mouse"] if k == 0 else ["press", "release"])
        if kind == "mouse":
            out.append((kind, None, Event(pygame.MOUSEMOTION)))
            continue
        key = ctx.choose("key%d" % k, sorted(KEYS))
        out.append((kind, key, Event(pygame.KEYDOWN if kind == "press" else pygame.KEYUP, KEYS[key])))
    return out


class Car(object):
    def __init__(self):
        self.seen = []

    def act(self, a):
        self.seen.append(a)


def continuous(ctx, axes, n):
    from highway_env.envs.common.action import action_factory
    from highway_env.envs.common.graphics import EventHandler
    cars = [Car(), Car()]
    env = common.env_of("HighwayEnv", vehicles=cars)
    lo, hi = ctx.real("lo", -20, -1), ctx.real("hi", 1, 20)
    at = action_factory(env, dict(type="ContinuousAction", longitudinal="longitudinal" in axes, lateral="lateral" in axes, acceleration_range=(lo, hi), steering_range=(-0.5, 0.25)))
    me, him = cars
    if ctx.choose("driven", [0, 1]):
        at.controlled_vehicle = cars[1]
        him, me = cars
    before = [ctx.real("before%d" % k, -1, 1) for k in range(len(axes))]
    given = m.arr(before)
    at.last_action = given
    want = dict(zip(axes, before))
    drives = dict(right=("lateral", 0.7), left=("lateral", -0.7), up=("longitudinal", 0.7), down=("longitudinal", -0.7), other=(None, 0))
    for kind, key, e in events(ctx, n):
        EventHandler.handle_event(at, e)
        axis, value = drives[key] if key else (None, 0)
        if axis in want:
            want[axis] = value if kind == "press" else 0
        for k, a in enumerate(axes):
            ctx.eq("action", at.last_action[k], want[a])
        if axis in want:
            ctx.check("commanded", len(me.seen) > 0)
        if me.seen:
            u = me.seen[-1]
            ctx.eq("acceleration", u["acceleration"], lo + (want["longitudinal"] + 1) / 2 * (hi - lo) if "longitudinal" in want else 0)
            ctx.eq("steering", u["steering"], -0.5 + (want["lateral"] + 1) / 2 * 0.75 if "lateral" in want else 0)
    ctx.check("nobody else", not him.seen)
    for g, b in zip(given, before):
        ctx.eq("the action given before is left alone", g, b)


def discrete(ctx, axes, n):
    from highway_env.envs.common.action import action_factory
    from highway_env.envs.common.graphics import EventHandler
    cars = [Car(), Car()]
    env = common.env_of("HighwayEnv", vehicles=cars)
    at = action_factory(env, dict(type="DiscreteMetaAction", longitudinal="longitudinal" in axes, lateral="lateral" in axes))
    me, him = cars
    if ctx.choose("driven", [0, 1]):
        at.controlled_vehicle = cars[1]
        him, me = cars
    label = dict(right=("longitudinal", "FASTER"), left=("longitudinal", "SLOWER"), up=("lateral", "LANE_LEFT"), down=("lateral", "LANE_RIGHT"), other=(None, None))
    want = []
    for kind, key, e in events(ctx, n):
        EventHandler.handle_event(at, e)
        if kind == "press" and label[key][0] in axes:
            want.append(label[key][1])
        ctx.check("one command per press, none otherwise", me.seen == want)
    ctx.check("nobody else", not him.seen)


def plan(ctx, kind, n):
    """The plan of an agent is shown as the trajectory of the ego under its actions, one per policy period."""
    from highway_env.envs.common.action import action_factory
    from highway_env.envs.common.graphics import EnvViewer
    p, s = ctx.real("policy", 1, 60), ctx.real("simulation", 1, 60)
    asked = []

    class Ego(Car):
        def predict_trajectory(self, *a, **k):
            asked.append((a, k))
            return ["the trajectory"]

    ego = Ego()
    env = common.env_of("HighwayEnv", vehicles=[ego, Car()])
    env.config.update(policy_frequency=p, simulation_frequency=s)
    env.action_type = action_factory(env, dict(type="DiscreteMetaAction", lateral=kind != "longitudinal"))
    env.action_space = env.action_type.space()
    t = table(True, kind != "longitudinal")
    acts = [ctx.choose("act%d" % k, sorted(t)) for k in range(n)]
    labels = [t[a] for a in acts]
    viewer = EnvViewer.__new__(EnvViewer)
    viewer.env, viewer.vehicle_trajectory = env, "none"
    viewer.set_agent_action_sequence(list(acts))
    if n <= 1:
        ctx.check("nothing to show", not asked and viewer.vehicle_trajectory == "none")
        return
    import inspect
    from highway_env.vehicle.controller import MDPVehicle
    ctx.check("shown", len(asked) == 1 and viewer.vehicle_trajectory == ["the trajectory"])
    a = inspect.signature(MDPVehicle.predict_trajectory).bind(None, *asked[0][0], **asked[0][1]).arguments
    got = list(a["actions"])
    ctx.check("as many actions", len(got) == n)
    ctx.check("labels", got == labels)
    ctx.eq("one action per policy period", a["action_duration"], 1. / p)
    ctx.eq("simulated at the simulation frequency", a["dt"], 1. / s)
    ctx.check("several states per period", m.And(a["trajectory_timestep"] > 0, a["trajectory_timestep"] <= 1. / p))
    ctx.check("nothing executed", not ego.seen)


def window(ctx, n):
    """Window events: each is handed once to the view and once to the control of the ego; closing the window closes the environment."""
    from highway_env.envs.common import graphics
    log = []

    class Surface(object):
        def handle_event(self, e):
            log.append(("view", e))

    class Env(object):
        action_type = object() if ctx.choose("action type", [True, False]) else None

        def close(self):
            log.append(("close", None))

    viewer = graphics.EnvViewer.__new__(graphics.EnvViewer)
    viewer.env, viewer.sim_surface = Env(), Surface()
    es = []
    for k in range(n):
        es.append(Event(dict(quit=pygame.QUIT, press=pygame.KEYDOWN, release=pygame.KEYUP)[ctx.choose("kind%d" % k, ["quit", "press", "release"])], pygame.K_a))
    old = pygame.event.get, graphics.EventHandler.__dict__["handle_event"]
    pygame.event.get = lambda *a, **k: list(es)
    graphics.EventHandler.handle_event = classmethod(lambda cls, at, e: log.append(("control", e)) or ctx.check("control of the ego", at is viewer.env.action_type))
    try:
        viewer.handle_events()
    finally:
        pygame.event.get = old[0]
        graphics.EventHandler.handle_event = old[1]
    ctx.check("the view sees every event once, in order", [e for w, e in log if w == "view"] == es)
    ctx.check("so does the control", [e for w, e in log if w == "control"] == (es if viewer.env.action_type else []))
    ctx.check("closed when asked", len([1 for w, e in log if w == "close"]) == len([1 for e in es if e.type == pygame.QUIT]))


def cases(tier):
    big = tier == "thorough"
    cs = []
    for axes in (("longitudinal", "lateral"), ("longitudinal",), ("lateral",)):
        for n in (1, 2) + ((3,) if big else ()):
            cs.append(Case("continuous-%s-%d" % ("-".join(axes), n), continuous, dict(axes=axes, n=n), cost=n))
            cs.append(Case("discrete-%s-%d" % ("-".join(axes), n), discrete, dict(axes=axes, n=n), cost=n))
    for kind in ("all", "longitudinal"):
        for n in range(5 if big else 4):
            cs.append(Case("plan-%s-%d" % (kind, n), plan, dict(kind=kind, n=n)))
    for n in (0, 1, 2, 3):
        cs.append(Case("window-%d" % n, window, dict(n=n)))
    return cs
