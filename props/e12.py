"""Rendering: shows the scene as it is now, frame by frame while recording, and never takes part in the simulation."""
import copy

from symx.engine import Case
from symx import m
from . import common
from .e01 import probe_env

BOUNDS = ("every sequence of 4 (thorough: 5) of: step, reset, render (human, rgb_array), close, deep copy; 1 to 3 rounds per step, any round from which the scene is terminal, callback or not, offscreen or not, "
          "any rendering at which the user closes the window; scenes that change in simulation rounds and resets (the vehicles that the intersection adds after a step are displayed from the next round on)")


class Screen(object):
    """Stands for the viewer: records what it is asked to show."""

    made = None

    def __init__(self, env):
        self.env, self.log, self.closed = env, [], 0
        self.offscreen = env.config["offscreen_rendering"]
        self.shown = None
        Screen.made.append(self)

    def display(self):
        self.shown = self.env.road.version()
        self.log.append(("display", self.shown))

    def handle_events(self):
        self.log.append(("events",))
        if self.env.quits():
            self.env.close()

    def get_image(self):
        self.log.append(("image",))
        return ("image", self.shown)

    def close(self):
        self.closed += 1


def session(ctx, ops, callback, offscreen):
    import highway_env.envs.common.abstract as mod
    sim = ctx.int("rounds", 1, 3)
    end = ctx.int("end", 1, 12)
    quit_at = ctx.int("closed by the user at", 1, 9) if not offscreen else 0
    quits = dict(n=0)

    def quit_():
        quits["n"] += 1
        return bool(quit_at == quits["n"])

    env, p = probe_env(ctx, lambda now: end <= now, False, sim, 1, False)
    env.config["offscreen_rendering"] = offscreen
    env.quits = quit_
    env.define_spaces = lambda: None
    scene = dict(resets=0)
    p.version = lambda: (scene["resets"], p.now)

    def build():
        scene["resets"] += 1
    env._reset = build
    frames = []
    if callback:
        def capture():
            frames.append(p.version())
        env.automatic_rendering_callback = capture
    real, mod.EnvViewer, Screen.made = mod.EnvViewer, Screen, []
    try:
        was_done = False
        mode = None         # that of a rendering since the last step
        for k, op in enumerate(ops):
            viewer = env.viewer
            before, made, shots = len(viewer.log) if viewer else 0, len(Screen.made), len(frames)
            start = p.now
            if op == "step":
                sim_log = len(p.log)
                env.step("action%d" % k)
                rounds = [e for e in p.log[sim_log:] if e[0] == "step"]
                ctx.check("%d: rendering opens no window in a step" % k, len(Screen.made) == made)
                auto = viewer is not None and mode is not None
                want = [(scene["resets"], start + i + 1) for i in range(len(rounds))]
                if auto and callback:
                    ctx.check("%d: every frame is captured" % k, frames[shots:] == want)
                elif auto:
                    ctx.check("%d: every frame is displayed" % k, [e[1] for e in viewer.log[before:] if e[0] == "display"] == want)
                    ctx.check("%d: in the same mode" % k, len([e for e in viewer.log[before:] if e == ("image",)]) == (len(want) if mode == "rgb_array" else 0))
                else:
                    ctx.check("%d: nothing is rendered" % k, frames[shots:] == [] and (viewer is None or viewer.log[before:] == []))
                # rounds: as many as without rendering, unless the window was closed
                closed = viewer is not None and env.viewer is None
                n, stop = 0, False
                while not stop:
                    n += 1
                    stop = bool(n >= sim) or bool(end <= start + n) or was_done
                ctx.check("%d: as many rounds as without rendering" % k, len(rounds) <= n if closed else len(rounds) == n)
                if auto and not closed:
                    ctx.check("%d: the last state is shown" % k, callback or viewer.shown == p.version())
                mode = None
            elif op == "reset":
                env.reset()
                ctx.check("%d: same window" % k, env.viewer is viewer and len(Screen.made) == made)
            elif op in ("human", "rgb_array"):
                sim_log = len(p.log)
                image = env.render() if op == "human" and k % 2 else env.render(op)
                v = viewer or Screen.made[-1]
                ctx.check("%d: one window" % k, len(Screen.made) == made + (viewer is None) and (env.viewer is v or v.closed == 1))
                ctx.check("%d: the current state is shown" % k, v.shown == p.version())
                if op == "rgb_array":
                    ctx.check("%d: image of the current state" % k, image == ("image", p.version()))
                else:
                    ctx.check("%d: no image" % k, image is None)
                new = v.log[before:]
                ctx.check("%d: events are handled unless offscreen" % k, len([e for e in new if e == ("events",)]) == (0 if offscreen else 1))
                ctx.check("%d: displayed at most once" % k, len([e for e in new if e[0] == "display"]) <= 1)
                ctx.check("%d: nothing is simulated" % k, p.log[sim_log:] == [] and env.time is not None)
                mode = op
            elif op == "copy":
                # the scene itself is not copied here
                c = copy.deepcopy(env, {id(p): p})
                ctx.check("%d: a copy has no window" % k, c.viewer is None and c.automatic_rendering_callback is None)
                image = c.render("rgb_array")
                ctx.check("%d: a window of its own" % k, len(Screen.made) == made + 1 and Screen.made[-1].env is c and env.viewer is viewer)
                ctx.check("%d: the copy is shown" % k, image == ("image", p.version()))
            elif op == "close":
                env.close()
                ctx.check("%d: closed" % k, env.viewer is None and env.done and (viewer is None or viewer.closed == 1))
            was_done = env.done
            if op == "reset":
                ctx.check("%d: not done" % k, not env.done)
        ctx.check("windows are closed once", all(s.closed <= 1 for s in Screen.made))
    finally:
        mod.EnvViewer = real


OPS = ["step", "reset", "human", "rgb_array", "close", "copy"]


def free(ctx, n, first, callback, offscreen):
    session(ctx, [first] + [ctx.choose("operation %d" % k, OPS) for k in range(1, n)], callback, offscreen)


def cases(tier):
    n = 5 if tier == "thorough" else 4
    return [Case("%s-%s-%s" % (f, "callback" if c else "plain", "offscreen" if o else "screen"), free, dict(n=n, first=f, callback=c, offscreen=o), cost=5, max_paths=60000)
            for f in ("human", "rgb_array", "step") for c in (False, True) for o in (False, True)]
