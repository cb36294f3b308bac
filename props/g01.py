"""The view: world positions go to the right pixels, lane markings lie on the lane edges, vehicles and objects are drawn where they are."""
import math

import numpy as np
import pygame

from symx.engine import Case
from symx import m
from . import common

BOUNDS = ("surfaces up to 600x600 pixels; any scale in [1,20], origin, centring and position within 1000 m; straight lanes in four directions of 20 to 300 m, any width in [1,8], surfaces of 60x40 and 120x50 pixels at 5.5 px/m (thorough also 110x100); "
          "any heading; sprites of any size; the pixels drawn by pygame itself are not modelled: its drawing calls are recorded")

DIRECTIONS = dict(east=(1., 0.), north=(0., -1.), west=(-1., 0.), slant=(0.6, 0.8))


def surface(w, h, cls=None):
    from highway_env.road.graphics import WorldSurface
    return (cls or WorldSurface)((w, h), 0, pygame.Surface((w, h)))


class Patched(object):
    """Attributes replaced for a while."""

    def __init__(self, *spec):
        self.spec = spec

    def __enter__(self):
        self.old = [(o, n, vars(o)[n]) for o, n, v in self.spec]
        for o, n, v in self.spec:
            setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in self.old:
            setattr(o, n, v)


def mapping(ctx, size):
    s = surface(*size)
    s.scaling = ctx.real("scale", 1, 20)
    s.origin = m.arr([ctx.real("ox", -1000, 1000), ctx.real("oy", -1000, 1000)])
    p = [ctx.real("x", -1000, 1000), ctx.real("y", -1000, 1000)]
    got = s.vec2pix(m.arr(p))
    same = s.pos2pix(*p)
    for k in (0, 1):
        exact = (p[k] - s.origin[k]) * s.scaling
        ctx.check("pixel", m.And(m.absv(got[k] - exact) < 1 + 1e-6))
        ctx.eq("one mapping", got[k], same[k])
    x = ctx.real("length", 0, 100)
    ctx.check("length", m.And(s.pix(x) <= x * s.scaling + 1e-6, s.pix(x) > x * s.scaling - 1 - 1e-6))


def visible(ctx, size):
    s = surface(*size)
    s.scaling = ctx.choose("scale", [5.5, 2., 13.])
    s.origin = m.arr([ctx.real("ox", -1000, 1000), ctx.real("oy", -1000, 1000)])
    p = [ctx.real("x", -1000, 1000), ctx.real("y", -1000, 1000)]
    margin = ctx.choose("margin", [None, 0, 20])
    seen = s.is_visible(m.arr(p)) if margin is None else s.is_visible(m.arr(p), margin)
    mg = 50 if margin is None else margin
    u = [(p[k] - s.origin[k]) * s.scaling for k in (0, 1)]
    inside = m.And(*[m.And(u[k] > -mg - 1, u[k] < size[k] + mg + 1) for k in (0, 1)])
    well = m.And(*[m.And(u[k] > -mg + 1, u[k] < size[k] + mg - 1) for k in (0, 1)])
    ctx.check("what is in the window is visible", m.Or(m.Not(well), seen))
    ctx.check("what is out of it is not", m.Or(inside, m.Not(seen)))


def centred(ctx, size):
    s = surface(*size)
    s.scaling = ctx.real("scale", 1, 20)
    c = [ctx.real("cx", 0, 1), ctx.real("cy", 0, 1)]
    s.centering_position = list(c)
    p = [ctx.real("x", -1000, 1000), ctx.real("y", -1000, 1000)]
    at = m.arr(p)
    s.move_display_window_to(at)
    for k in (0, 1):
        ctx.eq("displayed at the centring position", (p[k] - s.origin[k]) * s.scaling, c[k] * size[k])
        ctx.eq("position kept", at[k], p[k])


def keys(ctx, n):
    from highway_env.road.graphics import WorldSurface
    from .e10 import Event
    a, b = surface(60, 40), surface(60, 40)
    asked = [0.3, 0.5]
    if ctx.choose("configured", [True, False]):
        a.centering_position = asked
        want = [0.3, 0.5]
    else:
        want = [0.5, 0.5]
    scale = ctx.real("scale", 1, 20)
    a.scaling = scale
    codes = dict(l=pygame.K_l, o=pygame.K_o, m=pygame.K_m, k=pygame.K_k, other=pygame.K_a)
    for i in range(n):
        key = ctx.choose("key%d" % i, sorted(codes))
        down = ctx.choose("down%d" % i, [True, False])
        a.handle_event(Event(pygame.KEYDOWN if down else pygame.KEYUP, codes[key]))
        if down:
            scale = scale / 1.3 if key == "l" else scale * 1.3 if key == "o" else scale
            want[0] += dict(m=-0.1, k=0.1).get(key, 0)
    ctx.eq("scale", a.scaling, scale)
    for k in (0, 1):
        ctx.eq("centring", a.centering_position[k], want[k])
        ctx.eq("other view", b.centering_position[k], 0.5)
        ctx.eq("views to come", WorldSurface.INITIAL_CENTERING[k], 0.5)
        ctx.eq("configuration", asked[k], [0.3, 0.5][k])
    ctx.eq("other view's scale", b.scaling, 5.5)


def exact_surface(w, h):
    """Drawing coordinates in unrounded pixels."""
    from highway_env.road.graphics import WorldSurface

    class Exact(WorldSurface):
        def pix(self, length):
            return length * self.scaling
    return surface(w, h, Exact)


def lane_of(direction, length, types, width):
    from highway_env.road.lane import StraightLane, LineType
    d = DIRECTIONS[direction]
    a = np.array([10., -5.])
    return d, a, StraightLane(a, a + length * np.array(d), width, line_types=[getattr(LineType, t) for t in types])


def drawn(ctx, lane, a, d, s):
    """The lines drawn for a lane, in its own coordinates."""
    from highway_env.road.graphics import LaneGraphics
    lines = []

    def line(surf, color, p, q, width=1, *r):
        ctx.check("drawn on the surface", surf is s and tuple(color) == (255, 255, 255) and width >= 1)
        out = []
        for z in (p, q):
            x, y = z[0] / s.scaling + s.origin[0] - a[0], z[1] / s.scaling + s.origin[1] - a[1]
            out.append((x * d[0] + y * d[1], -x * d[1] + y * d[0]))
        lines.append(out)

    with Patched((pygame.draw, "line", line)):
        LaneGraphics.display(lane, s)
    return lines


def marking(ctx, direction, length, types, size, origin):
    """Markings are on the edges, on the lane, of the kind asked for, and cover whatever part of the edge is in the window."""
    width = ctx.real("width", 1, 8)
    d, a, lane = lane_of(direction, length, types, width)
    s = exact_surface(*size)
    far = ctx.real("along", *origin)
    side = ctx.real("beside", -8, 8)
    s.origin = m.arr([a[0] + far * d[0] - side * d[1], a[1] + far * d[1] + side * d[0]])
    lines = drawn(ctx, lane, a, d, s)
    none = [k for k in (0, 1) if types[k] == "NONE"]
    for (s0, l0), (s1, l1) in lines:
        ctx.check("on an edge", m.Or(*[m.absv(l0 - (k - 0.5) * width) < 1e-6 for k in (0, 1) if k not in none]) if len(none) < 2 else False)
        ctx.eq("parallel", l0, l1)
        ctx.check("along the lane", m.And(s0 >= -1e-6, s1 <= length + 1e-6, s0 <= s1))
    # any point of an edge inside the window
    side = ctx.choose("edge", [0, 1])
    t = ctx.real("t", 0, length)
    if types[side] == "STRIPED":
        # any stripe of the pattern: three metres every five (the last one when more than half of it is on the lane)
        k = ctx.int("stripe", 0, int(length // 5))
        u = ctx.real("u", 0.01, 2.99)
        ctx.assume(m.And(t == 5 * k + u, 5 * k <= length - 1.6))
    px = [(a[i] + t * d[i] - (side - 0.5) * width * (d[1], -d[0])[i] - s.origin[i]) * s.scaling for i in (0, 1)]
    ctx.assume(m.And(*[m.And(px[i] >= 0, px[i] <= size[i]) for i in (0, 1)]))
    e = (side - 0.5) * width
    on = m.Or(*[m.And(m.absv(l[0][1] - e) < 1e-6, l[0][0] <= t + 1e-6, t <= l[1][0] + 1e-6) for l in lines]) if lines else False
    if types[side] == "NONE":
        ctx.check("no marking", m.Not(on))
    elif types[side] == "STRIPED":
        ctx.check("every stripe in view is drawn", on)
    else:
        ctx.assume(m.And(t > 2.5, t < length - 2.5))
        ctx.check("the line is drawn wherever it is in view", on)


def gaps(ctx, direction, length, size, origin):
    """Striped edges are blank for two metres every five."""
    width = ctx.real("width", 1, 8)
    d, a, lane = lane_of(direction, length, ("STRIPED", "STRIPED"), width)
    s = exact_surface(*size)
    s.origin = m.arr([a[0] + ctx.real("along", *origin) * d[0], a[1] + ctx.real("along2", *origin) * d[1] if d[1] else a[1]])
    k = ctx.int("gap", 0, int(length // 5))
    t = 5 * k + ctx.real("u", 3.01, 4.99)
    for (s0, l0), (s1, l1) in drawn(ctx, lane, a, d, s):
        ctx.check("blank", m.Or(t < s0 + 1e-6, t > s1 - 1e-6))


def road(ctx):
    """All lanes of all roads are drawn; all vehicles and all objects; histories only when recorded."""
    from highway_env.road import graphics as rg
    net = common.straight_net(2, 100.)
    common.add_straight(net, "1", "2", 1, 100., 200.)
    common.add_straight(net, "1", "5", 3, 0., 100.)
    rd = common.road(net)
    rd.vehicles = [object(), object()]
    rd.objects = [object(), object(), object()]
    rd.record_history = ctx.choose("recorded", [True, False])
    lanes, cars, past, things = [], [], [], []
    s = surface(60, 40)
    with Patched((rg.LaneGraphics, "display", classmethod(lambda c, l, x: lanes.append((l, x)))), (rg.VehicleGraphics, "display", classmethod(lambda c, v, x, **k: cars.append((v, x)))),
                 (rg.VehicleGraphics, "display_history", classmethod(lambda c, v, x, **k: past.append((v, x, k.get("simulation")))))
                 , (rg.RoadObjectGraphics, "display", classmethod(lambda c, o, x, **k: things.append((o, x))))):
        rg.RoadGraphics.display(rd, s)
        rg.RoadGraphics.display_traffic(rd, s, simulation_frequency=7, offscreen=True)
        rg.RoadGraphics.display_road_objects(rd, s, offscreen=True)
    every = [l for f in net.graph.values() for t in f.values() for l in t]
    ctx.check("lanes", len(lanes) == len(every) and all(x is s for _, x in lanes) and all(any(l is k for k, _ in lanes) for l in every))
    ctx.check("vehicles", [v for v, _ in cars] == rd.vehicles and all(x is s for _, x in cars))
    ctx.check("objects", [o for o, _ in things] == rd.objects and all(x is s for _, x in things))
    ctx.check("histories", [v for v, _, _ in past] == (rd.vehicles if rd.record_history else []) and all(f == 7 for _, _, f in past))


COLOURS = {"red": (255, 100, 100), "green": (50, 200, 0), "blue": (100, 200, 255), "yellow": (200, 200, 0)}


def sprite(ctx, kind):
    """A vehicle in view is drawn once, centred on its position, turned by its heading, in the colour of its kind; one out of view is not."""
    from highway_env.vehicle import graphics as vg
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
    from highway_env.vehicle.dynamics import BicycleVehicle
    from highway_env.vehicle.kinematics import Vehicle
    cls = dict(Vehicle=Vehicle, BicycleVehicle=BicycleVehicle, ControlledVehicle=ControlledVehicle, MDPVehicle=MDPVehicle, IDMVehicle=IDMVehicle, LinearVehicle=LinearVehicle)[kind]
    rd = common.road(common.straight_net(2, 100.))
    extra = dict(timer=0.5) if kind in ("IDMVehicle", "LinearVehicle") else {}
    v = common.vehicle(cls, rd, [0., 0.], 0., 20., ("0", "1", 0), **extra)
    s = surface(120, 60)
    s.scaling = ctx.choose("scale", [5.5, 3.])
    s.origin = m.arr([ctx.real("ox", -100, 100), ctx.real("oy", -100, 100)])
    v.position = m.arr([ctx.real("x", -100, 100), ctx.real("y", -100, 100)])
    v.heading = ctx.real("h", -7, 7)
    ctx.assume(m.absv(m.absv(v.heading) - 2 * math.pi / 180) > 1e-3)
    v.action = {"steering": 0.1, "acceleration": 0.}
    v.crashed = ctx.choose("crashed", [False, True])
    if ctx.choose("painted", [False, True]):
        v.color = (1, 2, 3)
    ghost = ctx.choose("ghost", [False, True])
    calls = []
    with Patched((vg.VehicleGraphics, "blit_rotate", staticmethod(lambda surf, image, pos, angle, *a, **k: calls.append((surf, image, pos, angle))))):
        vg.VehicleGraphics.display(v, s, transparent=ghost, offscreen=True)
    calls = [c for c in calls if c[0] is s]
    if not bool(s.is_visible(v.position)):
        ctx.check("not drawn", not calls)
        return
    ctx.check("drawn once", len(calls) == 1)
    _, image, pos, angle = calls[0]
    px = s.vec2pix(v.position)
    for k in (0, 1):
        ctx.eq("at its position", pos[k], px[k])
    ctx.eq("turned", angle, m.ite(m.absv(v.heading) > 2 * math.pi / 180, -v.heading * 180 / math.pi, 0.))
    want = (1, 2, 3) if getattr(v, "color", None) else COLOURS["red"] if v.crashed else COLOURS[dict(LinearVehicle="yellow", IDMVehicle="blue", MDPVehicle="green").get(kind, "yellow")]
    w, h = image.get_size()
    got = image.get_at((w // 2, h // 2))
    ctx.check("colour", tuple(got)[:3] == want and got[3] == (30 if ghost else 255))
    ctx.check("large enough", w >= int(v.LENGTH * s.scaling) and w == h)
    # the rectangle of the vehicle: as long and as wide as it is
    row = [image.get_at((i, h // 2))[3] > 0 for i in range(w)]
    column = [image.get_at((w // 2, j))[3] > 0 for j in range(h)]
    ctx.check("as long", abs(sum(row) - v.LENGTH * s.scaling) <= 1.01)
    ctx.check("as wide", abs(sum(column) - v.WIDTH * s.scaling) <= 1.01)
    mid = lambda z: (z.index(True) + len(z) - z[::-1].index(True)) / 2.
    ctx.check("in the middle of the sprite", abs(mid(row) - w / 2.) <= 2 and abs(mid(column) - h / 2.) <= 2)


def thing(ctx, kind):
    from highway_env.road import graphics as rg
    from highway_env.road.objects import Landmark, Obstacle
    o = dict(Landmark=Landmark, Obstacle=Obstacle)[kind](common.road(common.straight_net(2, 100.)), [0., 0.])
    s = surface(120, 60)
    s.scaling = ctx.choose("scale", [5.5, 13.])
    s.origin = m.arr([ctx.real("ox", -100, 100), ctx.real("oy", -100, 100)])
    o.position = m.arr([ctx.real("x", -100, 100), ctx.real("y", -100, 100)])
    o.heading = ctx.real("h", -7, 7)
    ctx.assume(m.absv(m.absv(o.heading) - 2 * math.pi / 180) > 1e-3)
    o.hit = ctx.choose("hit", [False, True])
    ghost = ctx.choose("ghost", [False, True])
    calls = []
    with Patched((rg.RoadObjectGraphics, "blit_rotate", staticmethod(lambda surf, image, pos, angle, *a, **k: calls.append((surf, image, pos, angle))))):
        rg.RoadObjectGraphics.display(o, s, transparent=ghost, offscreen=True)
    ctx.check("drawn once", len(calls) == 1 and calls[0][0] is s)
    _, image, pos, angle = calls[0]
    px = s.vec2pix(o.position)
    for k in (0, 1):
        ctx.eq("at its position", pos[k], px[k])
    ctx.eq("turned", angle, m.ite(m.absv(o.heading) > 2 * math.pi / 180, -o.heading * 180 / math.pi, 0.))
    want = COLOURS[dict(Landmark=("blue", "green"), Obstacle=("yellow", "red"))[kind][o.hit]]
    w, h = image.get_size()
    got = image.get_at((w // 2, h // 2))
    ctx.check("colour", tuple(got)[:3] == want and got[3] == (30 if ghost else 255))
    ctx.check("size", abs(w - o.LENGTH * s.scaling) <= 1 and w == h)


class Vec(object):
    """pygame.math.Vector2, over the solver's numbers."""

    def __init__(self, x, y=None):
        self.v = (x, y) if y is not None else (x[0], x[1])

    def __getitem__(self, k):
        return self.v[k]

    def __sub__(self, o):
        return Vec(self.v[0] - o[0], self.v[1] - o[1])

    def __add__(self, o):
        return Vec(self.v[0] + o[0], self.v[1] + o[1])

    x = property(lambda s: s.v[0])
    y = property(lambda s: s.v[1])

    def rotate(self, degrees):
        a = degrees * math.pi / 180
        c, s = m.cos(a), m.sin(a)
        return Vec(self.v[0] * c - self.v[1] * s, self.v[0] * s + self.v[1] * c)


def rotated(ctx, which, quadrant):
    """A sprite turned by any angle is blitted with its middle at the given pixel."""
    from highway_env.road import graphics as rg
    from highway_env.vehicle import graphics as vg
    cls = dict(vehicle=vg.VehicleGraphics, thing=rg.RoadObjectGraphics)[which]
    w, h = ctx.real("w", 1, 100), ctx.real("h", 1, 100)
    t = ctx.angle("turn", quadrant * math.pi / 2, (quadrant + 1) * math.pi / 2)
    ctx.assume(m.And(t > quadrant * math.pi / 2 + 1e-3, t < (quadrant + 1) * math.pi / 2 - 1e-3))
    pos = [ctx.real("px", -500, 500), ctx.real("py", -500, 500)]
    log = []
    image = type("I", (), {"get_size": lambda self: (w, h)})()
    target = type("S", (), {"blit": lambda self, i, at: log.append((i, at))})()
    with Patched((pygame.math, "Vector2", Vec), (pygame.transform, "rotate", lambda i, a: ("rotated", i, a))):
        cls.blit_rotate(target, image, pos, t * 180 / math.pi)
    ctx.check("once", len(log) == 1 and log[0][0][0] == "rotated" and log[0][0][1] is image)
    ctx.eq("turned", log[0][0][2], t * 180 / math.pi)
    c, s = m.cos(t), m.sin(t)
    sc, ss = (1, -1, -1, 1)[quadrant % 4], (1, 1, -1, -1)[quadrant % 4]
    # pygame's turned image is the bounding box of the turned rectangle
    size = sc * c * w + ss * s * h, ss * s * w + sc * c * h
    for k in (0, 1):
        ctx.eq("middle", log[0][1][k] + size[k] / 2, pos[k])


def trail(ctx):
    """Histories show past states at the asked rate and no further back than asked; trajectories show every state."""
    from collections import deque
    from highway_env.vehicle import graphics as vg
    v = type("V", (), {})()
    n = ctx.choose("states", [0, 1, 7, 30])
    v.history = deque(range(n), maxlen=30)
    sim, f, dur = ctx.choose("simulation", [15, 5, 10]), ctx.choose("frequency", [3, 1, 5]), ctx.choose("duration", [2, 1, 0.5])
    log = []
    with Patched((vg.VehicleGraphics, "display", classmethod(lambda c, x, surf, transparent=False, **k: log.append((x, surf, transparent))))):
        vg.VehicleGraphics.display_history(v, "surface", frequency=f, duration=dur, simulation=sim)
        ctx.check("history", log == [(k, "surface", True) for k in range(n) if k < int(sim * dur) and k % int(sim / f) == 0])
        del log[:]
        vg.VehicleGraphics.display_trajectory(list(range(n)), "surface")
        ctx.check("trajectory", log == [(k, "surface", True) for k in range(n)])


def frame(ctx, planned):
    """A frame: the window follows the ego, then roads, plan, objects and traffic, in this order."""
    from highway_env.envs.common import graphics as eg
    from highway_env.vehicle.kinematics import Vehicle
    rd = common.road(common.straight_net(2, 100.))
    ego = common.vehicle(Vehicle, rd, [0., 0.], 0., 20., ("0", "1", 0)) if ctx.choose("ego", [True, False]) else None
    if ego:
        ego.position = m.arr([ctx.real("x", -100, 100), ctx.real("y", -100, 100)])
    rd.vehicles = [common.vehicle(Vehicle, rd, [50., 0.], 0., 20., ("0", "1", 0))] + ([ego] if ego else [])
    env = common.env_of("HighwayEnv", {}, rd, [ego] if ego else [])
    env.config.update(simulation_frequency=7, screen_width=120, screen_height=60, real_time_rendering=False)
    v = eg.EnvViewer.__new__(eg.EnvViewer)
    v.env, v.offscreen, v.enabled, v.agent_display, v.vehicle_trajectory = env, True, True, None, ["plan"] if planned else None
    v.sim_surface = surface(120, 60)
    v.sim_surface.scaling, v.sim_surface.centering_position = ctx.real("scale", 1, 20), [0.3, 0.5]
    v.directory, v.frame = None, 0
    log = []
    note = lambda name: staticmethod(lambda x, surf, *a, **k: log.append((name, x, surf, k.get("simulation_frequency"), [surf.origin[0], surf.origin[1]])))
    with Patched((eg.RoadGraphics, "display", note("road")), (eg.RoadGraphics, "display_traffic", note("traffic")), (eg.RoadGraphics, "display_road_objects", note("objects")),
                 (eg.VehicleGraphics, "display_trajectory", note("plan"))):
        v.display()
    ctx.check("layers", [l[0] for l in log] == ["road"] + (["plan"] if planned else []) + ["objects", "traffic"])
    for name, x, surf, f, origin in log:
        ctx.check("of this scene", (x is rd if name != "plan" else x == ["plan"]) and surf is v.sim_surface)
        for k in (0, 1):
            ctx.eq("around the ego", ((ego.position[k] if ego else 0.) - origin[k]) * v.sim_surface.scaling, [0.3 * 120, 0.5 * 60][k])
        if name == "traffic":
            ctx.check("at the simulation frequency", f == 7)


def cases(tier):
    big = tier == "thorough"
    cs = []
    for size in ((600, 150), (60, 40)):
        for f in (mapping, visible, centred):
            cs.append(Case("%s-%dx%d" % ((f.__name__,) + size), f, dict(size=size)))
    for n in (1, 2) + ((3,) if big else ()):
        cs.append(Case("keys-%d" % n, keys, dict(n=n), cost=n))
    types = [("STRIPED", "CONTINUOUS_LINE"), ("CONTINUOUS", "STRIPED"), ("NONE", "STRIPED"), ("CONTINUOUS_LINE", "NONE"), ("CONTINUOUS", "CONTINUOUS"), ("NONE", "NONE")]
    sizes = [(60, 40), (120, 50)] + ([(110, 100)] if big else [])
    for k, dr in enumerate(sorted(DIRECTIONS)):
        for j, ty in enumerate(types):
            for z, size in enumerate(sizes):
                if not big and (j + k + z) % 2:
                    continue
                length, origin = [(100., (30., 50.)), (100., (-25., 5.)), (60., (45., 75.)), (20., (-10., 20.))][(j + k // 2) % 4]
                cs.append(Case("marking-%s-%s-%dx%d" % ((dr, "-".join(ty)) + size), marking, dict(direction=dr, length=length, types=ty, size=size, origin=origin), cost=4))
        cs.append(Case("marking-%s-cut" % dr, marking, dict(direction=dr, length=(22., 21.7, 22.5, 57.)[k], types=("STRIPED", "STRIPED"), size=(60, 40),
                                                            origin=(-10., 20.) if k < 3 else (45., 70.)), cost=4))
        cs.append(Case("gaps-%s" % dr, gaps, dict(direction=dr, length=60., size=(60, 40), origin=(10., 30.)), cost=2))
    cs.append(Case("road", road, {}))
    for kind in ("Vehicle", "BicycleVehicle", "ControlledVehicle", "MDPVehicle", "IDMVehicle", "LinearVehicle"):
        cs.append(Case("sprite-" + kind, sprite, dict(kind=kind), cost=3))
    for kind in ("Landmark", "Obstacle"):
        cs.append(Case("thing-" + kind, thing, dict(kind=kind)))
    for which in ("vehicle", "thing"):
        for q in range(-2, 2):
            cs.append(Case("rotated-%s-%d" % (which, q), rotated, dict(which=which, quadrant=q)))
    cs.append(Case("trail", trail, {}))
    for p in (False, True):
        cs.append(Case("frame-%s" % ("planned" if p else "plain"), frame, dict(planned=p)))
    return cs
