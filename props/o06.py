"""Image observations: what is rendered, as grey levels, the last frames stacked with the newest last."""
import numpy as np

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("images of 1x2 to 3x2 pixels with any colour components in [0,255], any weights in [0,1], stacks of 1 to 4 frames, up to five observations in a row, two observers of one environment; "
          "the rendering itself is an input")


def stack(ctx, width, height, depth, frames, channels=3):
    from highway_env.envs.common.observation import observation_factory, GrayscaleObservation
    ws = [ctx.real("w%d" % c, 0, 1) for c in range(3)]
    images, asked = [], []
    for k in range(frames):
        images.append(m.arr([ctx.real("p%d_%d_%d_%d" % (k, i, j, c), 0, 255) for i in range(height) for j in range(width) for c in range(channels)]).reshape(height, width, channels))
    env = common.env_of("HighwayEnv", config=dict(screen_width=width, screen_height=height))

    def render(mode="human"):
        asked.append(mode)
        return images[len(asked) - 1]
    env.render = render
    o = observation_factory(env, dict(type="GrayscaleObservation", weights=ws, stack_size=depth, observation_shape=(width, height)))
    ctx.check("kind", isinstance(o, GrayscaleObservation) and o.space().shape == (width, height, depth))
    seen = []

    def want(k, i, j, d):
        n = k - (depth - 1 - d)
        if n < 0:
            return 0
        p = images[n][i, j]
        return ws[0] * p[0] + ws[1] * p[1] + ws[2] * p[2]
    for k in range(frames):
        got = o.observe()
        ctx.check("one image per observation", asked == ["rgb_array"] * (k + 1))
        ctx.check("shape", got.shape == (width, height, depth))
        seen.append(got)
        # earlier observations are not overwritten
        for q, old in enumerate(seen):
            for i in range(height):
                for j in range(width):
                    for d in range(depth):
                        ctx.eq("observation %d pixel %d %d frame %d" % (q, j, i, d), old[j, i, d], want(q, i, j, d))


def within(ctx):
    """With weights that sum to at most one every value is in the declared space."""
    from highway_env.envs.common.observation import observation_factory
    ws = [ctx.real("w%d" % c, 0, 1) for c in range(3)]
    ctx.assume(ws[0] + ws[1] + ws[2] <= 1)
    image = m.arr([ctx.real("p%d%d" % (i, c), 0, 255) for i in range(2) for c in range(3)]).reshape(1, 2, 3)
    env = common.env_of("HighwayEnv")
    env.render = lambda mode="human": image
    o = observation_factory(env, dict(type="GrayscaleObservation", weights=ws, stack_size=2, observation_shape=(2, 1)))
    sp, got = o.space(), o.observe()
    for i in range(2):
        for d in range(2):
            ctx.check("value in the space %d %d" % (i, d), m.And(got[i, 0, d] >= float(sp.low[i, 0, d]) - 1e-6, got[i, 0, d] <= float(sp.high[i, 0, d]) + 1e-6))


def isolated(ctx):
    """Two environments (or two agents) do not share frames."""
    from highway_env.envs.common.observation import observation_factory
    ws = [0.5, 0.25, 0.25]
    cfg = dict(type="GrayscaleObservation", weights=ws, stack_size=2, observation_shape=(1, 1))
    ims = [m.arr([ctx.real("p%d%d" % (k, c), 0, 255) for c in range(3)]).reshape(1, 1, 3) for k in range(2)]
    os = []
    for k in range(2):
        env = common.env_of("HighwayEnv")
        env.render = lambda mode="human", k=k: ims[k]
        os.append(observation_factory(env, cfg))
    got = [o.observe() for o in os] + [os[0].observe()]
    g = [im[0, 0, 0] / 2 + im[0, 0, 1] / 4 + im[0, 0, 2] / 4 for im in ims]
    for n, (old, new) in enumerate([(0, g[0]), (0, g[1]), (g[0], g[0])]):
        ctx.eq("observation %d old frame" % n, got[n][0, 0, 0], old)
        ctx.eq("observation %d new frame" % n, got[n][0, 0, 1], new)


def cases(tier):
    sizes = [(2, 1, 2, 3), (1, 2, 1, 2), (2, 2, 3, 4), (3, 2, 2, 3)] + ([(2, 3, 4, 5), (4, 3, 3, 4)] if tier == "thorough" else [])
    cs = [Case("stack-%dx%d-%d-%d" % s, stack, dict(width=s[0], height=s[1], depth=s[2], frames=s[3])) for s in sizes]
    cs.append(Case("stack-alpha", stack, dict(width=2, height=1, depth=2, frames=2, channels=4)))
    return cs + [Case("within", within), Case("isolated", isolated)]
