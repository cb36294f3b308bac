"""Shared pieces of the harnesses."""
import math

import numpy as np

from symx import m


def straight_net(n=3, length=1000., y0=0., x0=0., width=4., forbidden=(), a="0", b="1"):
    """n parallel straight lanes along x."""
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    add_straight(net, a, b, n, x0, x0 + length, y0, width, forbidden)
    return net


def add_straight(net, a, b, n, x0, x1, y0=0., width=4., forbidden=(), **kw):
    from highway_env.road.lane import StraightLane
    for i in range(n):
        net.add_lane(a, b, StraightLane([x0, y0 + 4. * i], [x1, y0 + 4. * i], width=width, forbidden=i in forbidden, **kw))


def road(net, vehicles=(), objects=(), np_random=None, cls=None):
    from highway_env.road.road import Road
    cls = cls or Road
    return cls(net, list(vehicles), list(objects), np_random or np.random.RandomState(0))


def vehicle(cls, road, pos, heading=0., speed=0., lane_index=None, **kw):
    """A vehicle in a given state: built without a road (construction looks for the closest lane) and put on it."""
    v = cls(None, m.arr(list(pos)), heading=heading, speed=speed, **kw)
    v.road = road
    if lane_index is not None:
        v.lane_index = lane_index
        v.lane = road.network.get_lane(lane_index)
        if hasattr(v, "target_lane_index") and "target_lane_index" not in kw:
            v.target_lane_index = lane_index
    return v


def mdp_vehicle(road, pos, heading, speed, lane_index, speed_index=1, target_lane_index=None, route=None, cls=None):
    from highway_env.vehicle.controller import MDPVehicle
    v = vehicle(cls or MDPVehicle, road, pos, heading, 25., lane_index, target_speed=25.)
    v.speed = speed
    v.speed_index = speed_index
    v.target_speed = v.index_to_speed(speed_index)
    v.target_lane_index = target_lane_index or lane_index
    v.route = route
    return v


def env_of(name, config=None, road=None, vehicles=None):
    """An environment object whose scene is set by the harness (the constructor's random scene is not run)."""
    import highway_env.envs as envs
    cls = getattr(envs, name)
    env = cls.__new__(cls)
    env.config = env.default_config()
    env.config.update(config or {})
    env.np_random = np.random.RandomState(0)
    env.road = road
    env.controlled_vehicles = list(vehicles or [])
    env.time = env.steps = 0
    env.done = False
    env.viewer = None
    env.automatic_rendering_callback = None
    env.should_update_rendering = True
    env.rendering_mode = "human"
    env.enable_auto_render = False
    env.action_type = env.observation_type = None
    return env


def network_of(name):
    """The road network of one of the environments."""
    env = env_of(name)
    if hasattr(env, "_create_road"):
        env._create_road()
    else:
        env._make_road()
    return env.road.network


def same(a, b):
    """Exact equality of discrete values."""
    return a == b


def wrap(x):
    """Angle difference reduced to [-pi, pi): specification of wrap_to_pi."""
    return (x + math.pi) % (2 * math.pi) - math.pi


class Rand(object):
    """A random source every draw of which is an input of the harness (named draw0, draw1, ...)."""

    def __init__(self, ctx, normal=3., name="draw"):
        self.ctx, self.k, self.normal_bound, self.name = ctx, [0], normal, name

    def __deepcopy__(self, memo):
        return self

    def _n(self):
        self.k[0] += 1
        return "%s%d" % (self.name, self.k[0] - 1)

    def _fill(self, size, one):
        if size is None:
            return one()
        n = int(np.prod(size))
        return m.arr([one() for _ in range(n)]).reshape(size)

    def rand(self, *size):
        return self._fill(size or None, lambda: self.ctx.real(self._n(), 0, 1))

    def random_sample(self, size=None):
        return self._fill(size, lambda: self.ctx.real(self._n(), 0, 1))

    random = random_sample

    def uniform(self, low=0., high=1., size=None):
        # unit draws: the bounds themselves may be terms
        return self._fill(size, lambda: low + (high - low) * self.ctx.real(self._n(), 0, 1))

    def randn(self, *size):
        b = self.normal_bound
        return self._fill(size or None, lambda: self.ctx.real(self._n(), -b, b))

    def standard_normal(self, size=None):
        return self.randn(*([] if size is None else [size]))

    def normal(self, loc=0., scale=1., size=None):
        b = self.normal_bound
        return self._fill(size, lambda: loc + scale * self.ctx.real(self._n(), -b, b))

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        return self._fill(size, lambda: self.ctx.choose(self._n(), range(int(low), int(high))))

    def choice(self, a, size=None, replace=True, p=None):
        pool = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return self.ctx.choose(self._n(), pool)
        out = []
        for _ in range(int(np.prod(size))):
            i = self.ctx.choose(self._n(), range(len(pool)))
            out.append(pool[i])
            if not replace:
                pool = pool[:i] + pool[i + 1:]
        return np.array(out) if all(isinstance(x, (int, float)) for x in out) else out

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.ctx.choose(self._n(), range(i + 1))
            if j != i:
                t = x[i].copy() if hasattr(x[i], "copy") else x[i]
                x[i] = x[j]
                x[j] = t

    def permutation(self, x):
        y = list(range(x)) if isinstance(x, int) else list(x)
        self.shuffle(y)
        return y

    def seed(self, *a):
        return None
