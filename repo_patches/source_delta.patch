From 37ab33272a0ce91a0d894b46b0bd780504caa4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 01/46] fix: rotate points into the rectangle's frame by the
 opposite of its angle

---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 0ef7112..f4cda83 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -64,7 +64,7 @@ def point_in_rotated_rectangle(point: np.ndarray, center: np.ndarray, length: fl
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])  # world to rectangle frame
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length/2, -width/2), (length/2, width/2))
 
-- 
2.43.0


From b589bea868cb17a6c30acec73c8815753dbbd4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 02/46] fix: detect rectangles that cross each other without a
 corner inside

---
 highway_env/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index f4cda83..c0581f8 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -95,7 +95,18 @@ def rotated_rectangles_intersect(rect1: Tuple[Vector, float, float, float],
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    (c1, l1, w1, a1) = rect1
+    (c2, l2, w2, a2) = rect2
+    delta = np.array(c2) - np.array(c1)
+    sides = [(np.cos(a1), np.sin(a1), l1), (-np.sin(a1), np.cos(a1), w1),
+             (np.cos(a2), np.sin(a2), l2), (-np.sin(a2), np.cos(a2), w2)]
+    # Two rectangles are disjoint iff their projections are, along one of the directions of their sides. Looking for
+    # corners of one inside the other is not enough: rectangles crossing each other may have none.
+    for x, y, _ in sides:
+        reach = sum(size / 2 * abs(x * side_x + y * side_y) for side_x, side_y, size in sides)
+        if abs(x * delta[0] + y * delta[1]) > reach:
+            return False
+    return True
 
 
 def has_corner_inside(rect1: Tuple[Vector, float, float, float],
-- 
2.43.0


From 5fd212b3a3dfe84a8b65364e4f08fc7b7506bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 03/46] fix: predict constant-speed trajectories from the
 current lane at the end of a lane

---
 highway_env/vehicle/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fdbc86c..032d893 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -193,6 +193,8 @@ class ControlledVehicle(Vehicle):
         """
         coordinates = self.lane.local_coordinates(self.position)
         route = self.route or [self.lane_index]
+        if route[0][:2] != self.lane_index[:2] and route[0][0] == self.lane_index[1]:
+            route = [self.lane_index] + route  # The next lane is already targeted, but the current one is not finished
         return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                      for t in times]))
 
-- 
2.43.0


From 4f1d71897c27c8d97355ecf327c1a0e70d96b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 04/46] fix: bring vehicles back to the maximum reverse speed,
 not to the forward one

---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 22f81ed..01ebc5d 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -146,7 +146,7 @@ class Vehicle(object):
         if self.speed > self.MAX_SPEED:
             self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
         elif self.speed < -self.MAX_SPEED:
-            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
+            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
 
     def on_state_update(self) -> None:
         if self.road:
-- 
2.43.0


From 04bfc7e7287c54b8c8c6acf89196415ebe27fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 05/46] fix: let vehicles follow a route that asks for the
 first lane

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 122c82e..86b6c01 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -249,7 +249,7 @@ class IDMVehicle(ControlledVehicle):
         # Do I have a planned route for a specific lane which is safe for me to access?
         old_preceding, old_following = self.road.neighbour_vehicles(self)
         self_pred_a = self.acceleration(ego_vehicle=self, front_vehicle=new_preceding)
-        if self.route and self.route[0][2]:
+        if self.route and self.route[0][2] is not None:
             # Wrong direction
             if np.sign(lane_index[2] - self.target_lane_index[2]) != np.sign(self.route[0][2] - self.target_lane_index[2]):
                 return False
-- 
2.43.0


From 65b85bdd3e9d20d29cff23d10e31d58b8bedc0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 06/46] fix: let linear vehicles judge followers that are
 obstacles or have no target speed

---
 highway_env/vehicle/behavior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 86b6c01..b86b682 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -358,8 +358,8 @@ class LinearVehicle(IDMVehicle):
                               front_vehicle: Vehicle = None,
                               rear_vehicle: Vehicle = None) -> np.ndarray:
         vt, dv, dp = 0, 0, 0
-        if ego_vehicle:
-            vt = ego_vehicle.target_speed - ego_vehicle.speed
+        if ego_vehicle and not isinstance(ego_vehicle, RoadObject):
+            vt = getattr(ego_vehicle, "target_speed", 0) - ego_vehicle.speed
             d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED
             if front_vehicle:
                 d = ego_vehicle.lane_distance_to(front_vehicle)
-- 
2.43.0


From 073bcd749eb855c436c7e52c07404b894d503ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 07/46] fix: count both front tires in the yaw response of the
 linearised bicycle model

---
 highway_env/vehicle/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/dynamics.py b/highway_env/vehicle/dynamics.py
index 455d096..288153a 100644
--- a/highway_env/vehicle/dynamics.py
+++ b/highway_env/vehicle/dynamics.py
@@ -113,7 +113,7 @@ class BicycleVehicle(Vehicle):
         """
         B = np.array([
             [2*self.FRICTION_FRONT / self.MASS],
-            [self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
+            [2*self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
         ])
 
         speed_body_x = self.speed
-- 
2.43.0


From 80d851148b2242c959fb0a0eed1784b408cdf78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 08/46] fix: return no vehicle when zero close vehicles are
 asked for

---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index dcc3fbc..2e56e3f 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -263,7 +263,7 @@ class Road(object):
                     and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]
 
         vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
-        if count:
+        if count is not None:
             vehicles = vehicles[:count]
         return vehicles
 
-- 
2.43.0


From cb61c51d51ec7aed3f7506783b2ebd45dc0998aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 09/46] fix: accept zero as a target speed or lane-change timer

---
 highway_env/vehicle/behavior.py   | 2 +-
 highway_env/vehicle/controller.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index b86b682..6a61f04 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -55,7 +55,7 @@ class IDMVehicle(ControlledVehicle):
                  timer: float = None):
         super().__init__(road, position, heading, speed, target_lane_index, target_speed, route)
         self.enable_lane_change = enable_lane_change
-        self.timer = timer or (np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY
+        self.timer = timer if timer is not None else (np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY
 
     def randomize_behavior(self):
         pass
diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 032d893..fef4dc9 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -38,7 +38,7 @@ class ControlledVehicle(Vehicle):
                  route: Route = None):
         super().__init__(road, position, heading, speed)
         self.target_lane_index = target_lane_index or self.lane_index
-        self.target_speed = target_speed or self.speed
+        self.target_speed = target_speed if target_speed is not None else self.speed
         self.route = route
 
     @classmethod
-- 
2.43.0


From 29ddd4a03c69c5681a32959fb79859a1633f5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 10/46] fix: give a vehicle created from another one its own
 route

---
 highway_env/vehicle/behavior.py               | 3 ++-
 highway_env/vehicle/controller.py             | 2 +-
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 6a61f04..1e6a21d 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Tuple, Union
 
 import numpy as np
@@ -72,7 +73,7 @@ class IDMVehicle(ControlledVehicle):
         """
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
                 target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
-                route=vehicle.route, timer=getattr(vehicle, 'timer', None))
+                route=copy.copy(vehicle.route), timer=getattr(vehicle, 'timer', None))
         return v
 
     def act(self, action: Union[dict, str] = None):
diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fef4dc9..6f191b9 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -53,7 +53,7 @@ class ControlledVehicle(Vehicle):
         """
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
                 target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
-                route=vehicle.route)
+                route=copy.copy(vehicle.route))
         return v
 
     def plan_route_to(self, destination: str) -> "ControlledVehicle":
diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 79785a7..e3fdfc8 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -71,7 +71,7 @@ class IntervalVehicle(LinearVehicle):
                 speed=vehicle.speed,
                 target_lane_index=getattr(vehicle, 'target_lane_index', None),
                 target_speed=getattr(vehicle, 'target_speed', None),
-                route=getattr(vehicle, 'route', None),
+                route=copy.copy(getattr(vehicle, 'route', None)),
                 timer=getattr(vehicle, 'timer', None),
                 theta_a_i=getattr(vehicle, 'theta_a_i', None),
                 theta_b_i=getattr(vehicle, 'theta_b_i', None),
-- 
2.43.0


From d243e6602e188279bcee8b4283b1a83f60bad8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 11/46] fix: build the time-to-collision grid on the observer's
 own road

---
 highway_env/envs/common/finite_mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 938e9ac..6c9e273 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -95,7 +95,7 @@ def compute_ttc_grid(env: 'AbstractEnv',
     :return: the time-co-collision grid, with axes SPEED x LANES x TIME
     """
     vehicle = vehicle or env.vehicle
-    road_lanes = env.road.network.all_side_lanes(env.vehicle.lane_index)
+    road_lanes = env.road.network.all_side_lanes(vehicle.lane_index)
     grid = np.zeros((vehicle.SPEED_COUNT, len(road_lanes), int(horizon / time_quantization)))
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
-- 
2.43.0


From 356d59574c4fff5c68c816b83d89f3cdec1fbbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 12/46] fix: observe three speeds around a single speed
 set-point too

---
 highway_env/envs/common/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index db0571a..2dda1a2 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -110,7 +110,8 @@ class TimeToCollisionObservation(ObservationType):
         lf = grid.shape[1] + self.observer_vehicle.lane_index[2] + obs_lanes // 2
         clamped_grid = padded_grid[:, l0:lf+1, :]
         repeats = np.ones(clamped_grid.shape[0])
-        repeats[np.array([0, -1])] += clamped_grid.shape[0]
+        repeats[0] += clamped_grid.shape[0]
+        repeats[-1] += clamped_grid.shape[0]
         padded_grid = np.repeat(clamped_grid, repeats.astype(int), axis=0)
         obs_speeds = 3
         v0 = grid.shape[0] + self.observer_vehicle.speed_index - obs_speeds // 2
-- 
2.43.0


From fe27108068774bbfaa681a36ec8d0c10cb4d2f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 13/46] fix: use the default step of the occupancy grid when
 none is given

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 2dda1a2..acd7ed7 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -243,7 +243,7 @@ class OccupancyGridObservation(ObservationType):
         self.features = features if features is not None else self.FEATURES
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
-        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / grid_step), dtype=np.int)
+        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
         self.grid = np.zeros((len(self.features), *grid_shape))
         self.features_range = features_range
         self.absolute = absolute
-- 
2.43.0


From 4ddc9986246a47a1e703843138a24ee41ff46116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 14/46] fix: give the occupancy grid its rows along y and
 columns along x

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index acd7ed7..31abf25 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -244,7 +244,7 @@ class OccupancyGridObservation(ObservationType):
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
         grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
-        self.grid = np.zeros((len(self.features), *grid_shape))
+        self.grid = np.zeros((len(self.features), *grid_shape[::-1]))
         self.features_range = features_range
         self.absolute = absolute
 
-- 
2.43.0


From b31bc9e3f964f3b4629d09a97206839b0230c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 15/46] fix: leave vehicles just below the occupancy grid out
 of its first cells

---
 highway_env/envs/common/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 31abf25..9204f95 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -290,8 +290,8 @@ class OccupancyGridObservation(ObservationType):
                         x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                     if "y" in self.features_range:
                         y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
-                    cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),
-                            int((y - self.grid_size[1, 0]) / self.grid_step[1]))
+                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
+                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                     if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                         self.grid[layer, cell[1], cell[0]] = vehicle[feature]
             # Clip
-- 
2.43.0


From b5930c8364ab8ec8721291f9e65570bcd924513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 16/46] fix: orient objects made on a lane along it instead of
 giving them a speed

---
 highway_env/road/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/objects.py b/highway_env/road/objects.py
index 146e6bd..55f291f 100644
--- a/highway_env/road/objects.py
+++ b/highway_env/road/objects.py
@@ -43,7 +43,7 @@ class RoadObject(ABC):
         :return: An object with at the specified position
         """
         lane = road.network.get_lane(lane_index)
-        return cls(road, lane.position(longitudinal, 0), lane.heading_at(longitudinal))
+        return cls(road, lane.position(longitudinal, 0), heading=lane.heading_at(longitudinal))
 
     # Just added for sake of compatibility
     def to_dict(self, origin_vehicle=None, observe_intentions=True):
-- 
2.43.0


From c0382ac8fd588f3188c50e0f24f53ec4e3a188b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 17/46] fix: describe the heading of road objects like that of
 vehicles

---
 highway_env/road/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/road/objects.py b/highway_env/road/objects.py
index 55f291f..8aa2705 100644
--- a/highway_env/road/objects.py
+++ b/highway_env/road/objects.py
@@ -53,6 +53,7 @@ class RoadObject(ABC):
             'y': self.position[1],
             'vx': 0.,
             'vy': 0.,
+            'heading': self.heading,
             'cos_h': np.cos(self.heading),
             'sin_h': np.sin(self.heading),
             'cos_d': 0.,
-- 
2.43.0


From f7e128670998094971952aa5c91d1f4e47c582ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 18/46] fix: keep the pixels of grayscale observations of wide
 screens in place

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 9204f95..a19183c 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -83,7 +83,7 @@ class GrayscaleObservation(ObservationType):
 
     def _record_to_grayscale(self) -> np.ndarray:
         #TODO: center rendering on the observer vehicle
-        raw_rgb = self.env.render('rgb_array')
+        raw_rgb = np.moveaxis(self.env.render('rgb_array'), 0, 1)  # (H, W, C) to (W, H, C)
         return np.dot(raw_rgb[..., :3], self.config['weights'])
 
 
-- 
2.43.0


From 26bde96fb0e9099d6ef9f17b86804b9f99cfbe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 19/46] fix: declare the range of values grayscale observations
 have

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index a19183c..13d871f 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -69,7 +69,7 @@ class GrayscaleObservation(ObservationType):
     def space(self) -> spaces.Space:
         try:
             return spaces.Box(shape=self.shape,
-                              low=0, high=1,
+                              low=0, high=255,
                               dtype=np.float32)
         except AttributeError:
             return spaces.Space()
-- 
2.43.0


From 9f68114ae1b33831d5d82de83d816ce7386f7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 20/46] fix: ignore the lane change key when lane changes are
 disabled

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c64ec74..f391703 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -174,7 +174,7 @@ class EventHandler(object):
                 action_type.act(action_type.actions_indexes["SLOWER"])
             if event.key == pygame.K_DOWN and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_RIGHT"])
-            if event.key == pygame.K_UP:
+            if event.key == pygame.K_UP and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_LEFT"])
 
     @classmethod
-- 
2.43.0


From f104fda488183f8cecee35e38109828b29b32445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 21/46] fix: look the displayed actions up in the environment's
 action type

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index f391703..2b9ecd4 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -73,7 +73,7 @@ class EnvViewer(object):
         :param actions: list of action, following the env's action space specification
         """
         if isinstance(self.env.action_space, Discrete):
-            actions = [self.env.ACTIONS[a] for a in actions]
+            actions = [self.env.action_type.actions[a] for a in actions]
         if len(actions) > 1:
             self.vehicle_trajectory = self.env.vehicle.predict_trajectory(actions,
                                                                           1 / self.env.config["policy_frequency"],
-- 
2.43.0


From f4568740e0c18887c38d65043ff7373333398c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 22/46] fix: early collision filters of the intersection and
 summon scenes skipped the vehicle after each removed one

---
 highway_env/envs/intersection_env.py | 2 +-
 highway_env/envs/summon_env.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 5e54e2a..08c87b6 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -194,7 +194,7 @@ class IntersectionEnv(AbstractEnv):
 
             self.road.vehicles.append(ego_vehicle)
             self.controlled_vehicles.append(ego_vehicle)
-            for v in self.road.vehicles:  # Prevent early collisions
+            for v in list(self.road.vehicles):  # Prevent early collisions
                 if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:
                     self.road.vehicles.remove(v)
 
diff --git a/highway_env/envs/summon_env.py b/highway_env/envs/summon_env.py
index 08afc8e..405ea7f 100644
--- a/highway_env/envs/summon_env.py
+++ b/highway_env/envs/summon_env.py
@@ -98,7 +98,7 @@ class SummonEnv(ParkingEnv):
                 lane = ("a", "b", i) if self.np_random.rand() >= 0.5 else ("b", "c", i)
                 self.road.vehicles.append(Vehicle.make_on_lane(self.road, lane, 4, speed=0))
 
-        for v in self.road.vehicles:  # Prevent early collisions
+        for v in list(self.road.vehicles):  # Prevent early collisions
             if v is not self.vehicle and np.linalg.norm(v.position - self.vehicle.position) < 20:
                 self.road.vehicles.remove(v)
 
-- 
2.43.0


From 8b33d4bb0de2f925be36e16fd771d0ff44472cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 23/46] fix: the roundabout scene changed the target speeds of
 the ego-vehicles of all environments

---
 highway_env/envs/roundabout_env.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 5c1fa97..68dd25d 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -10,6 +10,15 @@ from highway_env.road.road import Road, RoadNetwork
 from highway_env.vehicle.controller import MDPVehicle
 
 
+class RoundaboutVehicle(MDPVehicle):
+
+    """The range of target speeds allowed in the roundabout."""
+
+    SPEED_COUNT: int = 3  # []
+    SPEED_MIN: float = 0  # [m/s]
+    SPEED_MAX: float = 16  # [m/s]
+
+
 class RoundaboutEnv(AbstractEnv):
 
     COLLISION_REWARD: float = -1
@@ -40,7 +49,8 @@ class RoundaboutEnv(AbstractEnv):
     def _reward(self, action: int) -> float:
         lane_change = action == 0 or action == 2
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
-                 + self.HIGH_SPEED_REWARD * MDPVehicle.get_speed_index(self.vehicle) / max(MDPVehicle.SPEED_COUNT - 1, 1) \
+                 + self.HIGH_SPEED_REWARD * RoundaboutVehicle.get_speed_index(self.vehicle) \
+                 / max(RoundaboutVehicle.SPEED_COUNT - 1, 1) \
                  + self.LANE_CHANGE_REWARD * lane_change
         return utils.lmap(reward, [self.COLLISION_REWARD + self.LANE_CHANGE_REWARD, self.HIGH_SPEED_REWARD], [0, 1])
 
@@ -138,9 +148,12 @@ class RoundaboutEnv(AbstractEnv):
             ego_vehicle.plan_route_to("nxs")
         except AttributeError:
             pass
-        MDPVehicle.SPEED_MIN = 0
-        MDPVehicle.SPEED_MAX = 16
-        MDPVehicle.SPEED_COUNT = 3
+        ego_vehicle.SPEED_MIN = RoundaboutVehicle.SPEED_MIN
+        ego_vehicle.SPEED_MAX = RoundaboutVehicle.SPEED_MAX
+        ego_vehicle.SPEED_COUNT = RoundaboutVehicle.SPEED_COUNT
+        if isinstance(ego_vehicle, MDPVehicle):
+            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_vehicle.speed)
+            ego_vehicle.target_speed = ego_vehicle.index_to_speed(ego_vehicle.speed_index)
         self.road.vehicles.append(ego_vehicle)
         self.vehicle = ego_vehicle
 
-- 
2.43.0


From 6f6e36ac76de767116917ab31536ca66e8b44ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 24/46] fix: set_vehicle_field also changed the ego-vehicle of
 the copy

---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index ccbcf9a..35e37fd 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -360,7 +360,7 @@ class AbstractEnv(gym.Env):
         field, value = args
         env_copy = copy.deepcopy(self)
         for v in env_copy.road.vehicles:
-            if v is not self.vehicle:
+            if v is not env_copy.vehicle:
                 setattr(v, field, value)
         return env_copy
 
-- 
2.43.0


From c1820c7126825f07e7eacc1257b387992b40fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 25/46] fix: set_preferred_lane ignored lane 0 and failed for
 vehicles without a route

---
 highway_env/envs/common/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 35e37fd..0288158 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -341,10 +341,10 @@ class AbstractEnv(gym.Env):
 
     def set_preferred_lane(self, preferred_lane: int = None) -> 'AbstractEnv':
         env_copy = copy.deepcopy(self)
-        if preferred_lane:
+        if preferred_lane is not None:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
-                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route]
+                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
                     # Vehicle with lane preference are also less cautious
                     v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
         return env_copy
-- 
2.43.0


From b6d7671772e5c2453d3e472e0ba1c33d01729cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 26/46] fix: LPV default control is a column vector, as its
 control matrix needs

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1f227fe..b76185d 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -180,7 +180,7 @@ class LPV(object):
         self.b = np.array(b) if b is not None else np.zeros((*self.x0.shape, 1))
         self.d = np.array(d) if d is not None else np.zeros((*self.x0.shape, 1))
         self.omega_i = np.array(omega_i) if omega_i is not None else np.zeros((2, 1))
-        self.u = np.array(u) if u is not None else np.zeros((1,))
+        self.u = np.array(u) if u is not None else np.zeros((self.b.shape[1], 1))
         self.k = np.array(k) if k is not None else np.zeros((self.b.shape[1], self.b.shape[0]))
         self.center = np.array(center) if center is not None else np.zeros(self.x0.shape)
 
-- 
2.43.0


From 9335620cc9bfc926e881202bc3ad7a4b04c409e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 27/46] fix: LPV changes of coordinates keep their argument,
 and handle lists and single states

---
 highway_env/interval.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index b76185d..3892589 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -245,12 +245,12 @@ class LPV(object):
         transformation, transformation_inv = self.coordinates
         if interval:
             if back:
-                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze() + \
+                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze(-1) + \
                         offset * np.array([self.center, self.center])
                 return value
             else:
                 value = value - offset * np.array([self.center, self.center])
-                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze()
+                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze(-1)
                 return value
         elif matrix:  # Matrix
             if back:
@@ -258,16 +258,16 @@ class LPV(object):
             else:
                 return transformation_inv @ value @ transformation
         elif isinstance(value, list):  # List
-            return [self.change_coordinates(v, back) for v in value]
+            return [self.change_coordinates(v, back=back, offset=offset) for v in value]
         else:
             if back:
                 value = transformation @ value
                 if offset:
-                    value += self.center
+                    value = value + self.center
                 return value
             else:
                 if offset:
-                    value -= self.center
+                    value = value - self.center
                 return transformation_inv @ value
 
     def step(self, dt: float) -> None:
-- 
2.43.0


From 64a6c3153428657d79cc1064caf22f2373046f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 28/46] fix: LPV perturbations, nominal state, initial interval
 and centering share the model coordinates

---
 highway_env/interval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 3892589..3239e31 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -189,8 +189,8 @@ class LPV(object):
 
         self.coordinates = None
 
-        self.x_t = self.x0
         self.x_i = np.array(x_i) if x_i is not None else np.array([self.x0, self.x0])
+        self.x_t = None
         self.x_i_t = None
 
         self.update_coordinates_frame(self.a0)
@@ -213,14 +213,16 @@ class LPV(object):
                     pass
             if not self.coordinates:
                 print("Non Metzler A0 with eigenvalues: ", eig_v)
-        else:
+        if not self.coordinates:  # No suitable rotation: centering only
             self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))
 
         # Forward coordinates change of states and models
         self.a0 = self.change_coordinates(self.a0, matrix=True)
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
-        self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
+        self.d = self.change_coordinates(self.d, offset=False)
+        self.x_t = self.change_coordinates(self.x0)
+        self.x_i_t = self.change_coordinates(self.x_i, interval=True)
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
-- 
2.43.0


From ad2b91e025729c48065cee095b4c2e55ddcfac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 29/46] fix: LinearVehicle structure dropped the front distance
 control even when it is active

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 1e6a21d..912d734 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -432,7 +432,7 @@ class LinearVehicle(IDMVehicle):
         # Disable front position control
         if front_vehicle:
             d = self.lane_distance_to(front_vehicle)
-            if d != self.DISTANCE_WANTED + self.TIME_WANTED * self.speed:
+            if d > self.DISTANCE_WANTED + self.TIME_WANTED * self.speed:
                 phi2 *= 0
         else:
             phi2 *= 0
-- 
2.43.0


From 4a4a42fbacdbd44d43a8f02cc3c77a0be6b5c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 30/46] fix: confidence polytope did not contain the confidence
 ellipsoid it is built around

---
 highway_env/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index c0581f8..05904b1 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -164,8 +164,9 @@ def confidence_polytope(data: dict, parameter_box: np.ndarray) -> Tuple[np.ndarr
     param_bound = np.amax(np.abs(parameter_box))
     theta_n_lambda, g_n_lambda, beta_n = confidence_ellipsoid(data, param_bound=param_bound)
 
-    values, pp = np.linalg.eig(g_n_lambda)
-    radius_matrix = np.sqrt(beta_n) * np.linalg.inv(pp) @ np.diag(np.sqrt(1 / values))
+    # Box along the axes of the ellipsoid ||theta - theta_n_lambda||_G <= beta_n
+    values, pp = np.linalg.eigh(g_n_lambda)
+    radius_matrix = beta_n * pp @ np.diag(np.sqrt(1 / values))
     h = np.array(list(itertools.product([-1, 1], repeat=theta_n_lambda.shape[0])))
     d_theta = np.array([radius_matrix @ h_k for h_k in h])
 
-- 
2.43.0


From 5ff7cef886c1c4ccbce09d234a6fdf0d918da1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:11 +0000
Subject: [PATCH 31/46] fix: predict the heading of an interval vehicle
 relative to its target lane

---
 highway_env/vehicle/uncertainty/prediction.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index e3fdfc8..d88c4b2 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -192,10 +192,8 @@ class IntervalVehicle(LinearVehicle):
         if self.target_lane_index != self.previous_target_lane_index:
             position_i = self.interval.position
             target_lane = self.road.network.get_lane(self.target_lane_index)
-            previous_target_lane = self.road.network.get_lane(self.previous_target_lane_index)
             longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
-            psi_i = self.interval.heading + \
-                    target_lane.heading_at(longi_i.mean()) - previous_target_lane.heading_at(longi_i.mean())
+            psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
             x_i_local_unrotated = np.transpose([lat_i, psi_i])
             new_x_i_t = self.lateral_lpv.change_coordinates(x_i_local_unrotated, back=False, interval=True)
             delta = new_x_i_t.mean(axis=0) - self.lateral_lpv.x_i_t.mean(axis=0)
@@ -223,7 +221,7 @@ class IntervalVehicle(LinearVehicle):
         position_i = interval_local_to_absolute(x_i_long[:, 0], x_i_lat[:, 0], target_lane)
         self.interval.position = position_i
         self.interval.speed = x_i_long[:, 2]
-        self.interval.heading = x_i_lat[:, 1]
+        self.interval.heading = x_i_lat[:, 1] + target_lane.heading_at(x_i_long[:, 0].mean())
 
     def predictor_init(self) -> None:
         """Initialize the LPV models used for interval prediction."""
@@ -231,7 +229,7 @@ class IntervalVehicle(LinearVehicle):
         target_lane = self.road.network.get_lane(self.target_lane_index)
         longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
         v_i = self.interval.speed
-        psi_i = self.interval.heading - self.lane.heading_at(longi_i.mean())
+        psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
 
         # Longitudinal predictor
         if not self.longitudinal_lpv:
-- 
2.43.0


From 6c91f4fcf6f0aa5784ec13d45a4ab3c07dd145eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 32/46] fix: interval observer encloses headings of any number
 of turns

---
 highway_env/vehicle/uncertainty/prediction.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index d88c4b2..11d8076 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -154,16 +154,22 @@ class IntervalVehicle(LinearVehicle):
         keep_stability = True
         if keep_stability:
             delta_psi = list(map(utils.wrap_to_pi, psi_i - lane_psi))
-            d_psi_i = integrator_interval(delta_psi, self.theta_b_i[:, 0])
+            if delta_psi[0] <= delta_psi[1] and psi_i[1] - psi_i[0] < 2*np.pi:
+                d_psi_i = integrator_interval(delta_psi, self.theta_b_i[:, 0])
+            else:  # The headings include the opposite of the lane heading, where the deviation jumps
+                d_psi_i = intervals_product(self.theta_b_i[:, 0], np.array([-np.pi, np.pi]))
         else:
             d_psi_i = intervals_product(self.theta_b_i[:, 0], lane_psi - np.flip(psi_i, 0))
         d_psi_i += b_i
 
         # Position interval
-        cos_i = [-1 if psi_i[0] <= np.pi <= psi_i[1] else min(map(np.cos, psi_i)),
-                 1 if psi_i[0] <= 0 <= psi_i[1] else max(map(np.cos, psi_i))]
-        sin_i = [-1 if psi_i[0] <= -np.pi/2 <= psi_i[1] else min(map(np.sin, psi_i)),
-                 1 if psi_i[0] <= np.pi/2 <= psi_i[1] else max(map(np.sin, psi_i))]
+        def contains(angle: float) -> bool:
+            """Whether an angle is in psi_i, up to a number of turns."""
+            return psi_i[0] + (angle - psi_i[0]) % (2 * np.pi) <= psi_i[1]
+        cos_i = [-1 if contains(np.pi) else min(map(np.cos, psi_i)),
+                 1 if contains(0) else max(map(np.cos, psi_i))]
+        sin_i = [-1 if contains(-np.pi/2) else min(map(np.sin, psi_i)),
+                 1 if contains(np.pi/2) else max(map(np.sin, psi_i))]
         dx_i = intervals_product(v_i, cos_i)
         dy_i = intervals_product(v_i, sin_i)
 
-- 
2.43.0


From 14ede19b411035598319eace6f486415b90288f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 33/46] fix: interval predictor measures heading deviations
 modulo full turns

---
 highway_env/vehicle/uncertainty/prediction.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 11d8076..be88328 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -6,6 +6,7 @@ from highway_env import utils
 from highway_env.interval import polytope, vector_interval_section, integrator_interval, \
     interval_negative_part, intervals_diff, intervals_product, LPV, interval_absolute_to_local, \
     interval_local_to_absolute
+from highway_env.road.lane import AbstractLane
 from highway_env.road.road import Route, LaneIndex, Road
 from highway_env.types import Vector
 from highway_env.vehicle.behavior import LinearVehicle
@@ -199,7 +200,7 @@ class IntervalVehicle(LinearVehicle):
             position_i = self.interval.position
             target_lane = self.road.network.get_lane(self.target_lane_index)
             longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
-            psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
+            psi_i = self.relative_heading_interval(target_lane, longi_i)
             x_i_local_unrotated = np.transpose([lat_i, psi_i])
             new_x_i_t = self.lateral_lpv.change_coordinates(x_i_local_unrotated, back=False, interval=True)
             delta = new_x_i_t.mean(axis=0) - self.lateral_lpv.x_i_t.mean(axis=0)
@@ -229,13 +230,24 @@ class IntervalVehicle(LinearVehicle):
         self.interval.speed = x_i_long[:, 2]
         self.interval.heading = x_i_lat[:, 1] + target_lane.heading_at(x_i_long[:, 0].mean())
 
+    def relative_heading_interval(self, lane: AbstractLane, longitudinal_interval: np.ndarray) -> np.ndarray:
+        """
+        Get the interval of headings with respect to a lane, around the direction of that lane.
+
+        :param lane: a lane
+        :param longitudinal_interval: the longitudinal positions on this lane
+        :return: the interval of heading deviations
+        """
+        psi_i = self.interval.heading - lane.heading_at(longitudinal_interval.mean())
+        return psi_i - psi_i.mean() + utils.wrap_to_pi(psi_i.mean())
+
     def predictor_init(self) -> None:
         """Initialize the LPV models used for interval prediction."""
         position_i = self.interval.position
         target_lane = self.road.network.get_lane(self.target_lane_index)
         longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
         v_i = self.interval.speed
-        psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
+        psi_i = self.relative_heading_interval(target_lane, longi_i)
 
         # Longitudinal predictor
         if not self.longitudinal_lpv:
-- 
2.43.0


From 98cc1bb0e9ae7c1f2b7a204ea4cbd47c01695a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:58 +0000
Subject: [PATCH 34/46] fix: moving a view changed the centring of the other
 views and of the configuration

---
 highway_env/road/graphics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index 85de007..7771972 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -95,9 +95,9 @@ class WorldSurface(pygame.Surface):
             if event.key == pygame.K_o:
                 self.scaling *= self.SCALING_FACTOR
             if event.key == pygame.K_m:
-                self.centering_position[0] -= self.MOVING_FACTOR
+                self.centering_position = [self.centering_position[0] - self.MOVING_FACTOR, self.centering_position[1]]
             if event.key == pygame.K_k:
-                self.centering_position[0] += self.MOVING_FACTOR
+                self.centering_position = [self.centering_position[0] + self.MOVING_FACTOR, self.centering_position[1]]
 
 
 class LaneGraphics(object):
-- 
2.43.0


From c9f015699445432aa2b8b01c0ea5e39f146dfeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 35/46] fix: consider possible routes without changing the
 planned one

---
 highway_env/vehicle/uncertainty/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ec6a504..dd6e440 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -67,8 +67,8 @@ class MultipleModelVehicle(LinearVehicle):
 
         for route in self.get_routes_at_intersection():  # Candidates
             # Unknown lane -> first lane
-            for i, lane_index in enumerate(route):
-                route[i] = lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+            route = [lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+                     for lane_index in route]
             # Is this route already considered, or a suffix of a route already considered ?
             for known_route, _ in self.data:
                 if known_route == route:
-- 
2.43.0


From bcce5421a360dc9420878066312674619d56a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 36/46] fix: keep following the last lane of a possible route

---
 highway_env/vehicle/uncertainty/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index dd6e440..c228477 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -81,7 +81,7 @@ class MultipleModelVehicle(LinearVehicle):
 
         # Step the lane being followed in each possible route
         for route, _ in self.data:
-            if self.road.network.get_lane(route[0]).after_end(self.position):
+            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                 route.pop(0)
 
         # Reject inconsistent hypotheses
-- 
2.43.0


From 99907cb0d57ec9804745bd5df119f2b27eca5cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:21 +0000
Subject: [PATCH 37/46] fix: assume a route without sharing it with the
 hypotheses

---
 highway_env/vehicle/uncertainty/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index c228477..d8f4659 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Callable, Union
 
 import numpy as np
@@ -103,6 +104,6 @@ class MultipleModelVehicle(LinearVehicle):
         route, data = self.data[index]
         vehicle = RegressionVehicle.create_from(self)
         vehicle.target_lane_index = route[0]
-        vehicle.route = route
-        vehicle.data = data
+        vehicle.route = route.copy()
+        vehicle.data = copy.deepcopy(data)
         return vehicle
-- 
2.43.0


From f6a73508f03b5389abd032ee699bb8223151ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:43 +0000
Subject: [PATCH 38/46] fix: reward a vehicle on the single opposite lane of
 the two-way road

---
 highway_env/envs/two_way_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/two_way_env.py b/highway_env/envs/two_way_env.py
index 7d05371..ee5f5b2 100644
--- a/highway_env/envs/two_way_env.py
+++ b/highway_env/envs/two_way_env.py
@@ -47,7 +47,7 @@ class TwoWayEnv(AbstractEnv):
         neighbours = self.road.network.all_side_lanes(self.vehicle.lane_index)
 
         reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1) \
-                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / (len(neighbours) - 1)
+                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / max(len(neighbours) - 1, 1)
         return reward
 
     def _is_terminal(self) -> bool:
-- 
2.43.0


From 4cd6c51f29b482ecb3a073953a9f48982fc7be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:39 +0000
Subject: [PATCH 39/46] fix: keep the vehicles whose called method returns
 nothing

---
 highway_env/envs/common/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 0288158..8ba814d 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -369,7 +369,9 @@ class AbstractEnv(gym.Env):
         env_copy = copy.deepcopy(self)
         for i, v in enumerate(env_copy.road.vehicles):
             if hasattr(v, method):
-                env_copy.road.vehicles[i] = getattr(v, method)(*method_args)
+                result = getattr(v, method)(*method_args)
+                if result is not None:
+                    env_copy.road.vehicles[i] = result
         return env_copy
 
     def randomize_behaviour(self) -> 'AbstractEnv':
-- 
2.43.0


From 24905c988cc5e4b9de853ae0c7d841c080c89e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:56 +0000
Subject: [PATCH 40/46] fix: interval vehicles created without data record
 their observations (acting raised TypeError)

---
 highway_env/vehicle/uncertainty/prediction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index be88328..7afb0d0 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -54,10 +54,10 @@ class IntervalVehicle(LinearVehicle):
                          target_speed,
                          route,
                          enable_lane_change,
-                         timer)
+                         timer,
+                         data)
         self.theta_a_i = theta_a_i if theta_a_i is not None else LinearVehicle.ACCELERATION_RANGE
         self.theta_b_i = theta_b_i if theta_b_i is not None else LinearVehicle.STEERING_RANGE
-        self.data = data
         self.interval = VehicleInterval(self)
         self.trajectory = []
         self.interval_trajectory = []
-- 
2.43.0


From d1c3bc4c2b9b96a7c6dcdd29d00d39b6ac323acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:56 +0000
Subject: [PATCH 41/46] fix: regression vehicles without data fall back to the
 prior parameter box (KeyError)

---
 highway_env/vehicle/uncertainty/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index d8f4659..782f94a 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -15,10 +15,10 @@ class RegressionVehicle(IntervalVehicle):
     """Estimator for the parameter of a LinearVehicle."""
 
     def longitudinal_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["longitudinal"], self.theta_a_i, self.longitudinal_structure)
+        return self.polytope_from_estimation(self.data.get("longitudinal"), self.theta_a_i, self.longitudinal_structure)
 
     def lateral_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["lateral"], self.theta_b_i, self.lateral_structure)
+        return self.polytope_from_estimation(self.data.get("lateral"), self.theta_b_i, self.lateral_structure)
 
     def polytope_from_estimation(self, data: dict, parameter_box: np.ndarray, structure: Callable[[], Polytope])\
             -> Polytope:
-- 
2.43.0


From ebf55b0f58e874583a48c45d85ed81750a923330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 42/46] fix: route hypotheses only follow existing lanes (a
 required lane missing on the next road raised IndexError)

---
 highway_env/vehicle/uncertainty/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 782f94a..b173911 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -67,9 +67,9 @@ class MultipleModelVehicle(LinearVehicle):
         """
 
         for route in self.get_routes_at_intersection():  # Candidates
-            # Unknown lane -> first lane
-            route = [lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
-                     for lane_index in route]
+            # Unknown lane -> first lane, missing lane -> last lane
+            route = [(_from, _to, min(_id or 0, len(self.road.network.graph[_from][_to]) - 1))
+                     for _from, _to, _id in route]
             # Is this route already considered, or a suffix of a route already considered ?
             for known_route, _ in self.data:
                 if known_route == route:
-- 
2.43.0


From c3a29ecf05b7277e643148a950b0a735c9da2d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:19 +0000
Subject: [PATCH 43/46] fix: rendering an image no longer fails when the window
 is closed meanwhile

---
 highway_env/envs/common/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 8ba814d..1481395 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -246,10 +246,11 @@ class AbstractEnv(gym.Env):
         if self.should_update_rendering:
             self.viewer.display()
 
+        # Get the image first: handling the events can close the viewer
+        image = self.viewer.get_image() if mode == 'rgb_array' else None
         if not self.viewer.offscreen:
             self.viewer.handle_events()
         if mode == 'rgb_array':
-            image = self.viewer.get_image()
             return image
         self.should_update_rendering = False
 
-- 
2.43.0


From d252e28d52422ecb0bb6fba1829333f42c1aa778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:50 +0000
Subject: [PATCH 44/46] fix: render shows the current scene (it kept the
 earlier frame after resets, new viewers, and steps without automatic
 rendering)

---
 highway_env/envs/common/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 1481395..2525e45 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -162,6 +162,7 @@ class AbstractEnv(gym.Env):
         self.define_spaces()  # First, to set the controlled vehicle class depending on action space
         self.time = self.steps = 0
         self.done = False
+        self.should_update_rendering = True
         self._reset()
         self.define_spaces()  # Second, to link the obs and actions to the vehicles once the scene is created
         return self.observation_type.observe()
@@ -218,6 +219,7 @@ class AbstractEnv(gym.Env):
             self.road.act()
             self.road.step(1 / self.config["simulation_frequency"])
             self.time += 1
+            self.should_update_rendering = True
 
             # Automatically render intermediate simulation steps if a viewer has been launched
             # Ignored if the rendering is done offscreen
@@ -239,6 +241,7 @@ class AbstractEnv(gym.Env):
 
         if self.viewer is None:
             self.viewer = EnvViewer(self)
+            self.should_update_rendering = True
 
         self.enable_auto_render = True
 
-- 
2.43.0


From 71d0a965d91dda4616a3eefc46842a39789c8268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 45/46] fix: the time-to-collision grid left out oncoming
 vehicles driving at exactly the considered speed

---
 highway_env/envs/common/finite_mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 6c9e273..56a07de 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -100,13 +100,13 @@ def compute_ttc_grid(env: 'AbstractEnv',
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
         for other in env.road.vehicles:
-            if (other is vehicle) or (ego_speed == other.speed):
+            other_projected_speed = other.speed * np.dot(other.direction, vehicle.direction)
+            if (other is vehicle) or (ego_speed == other_projected_speed):
                 continue
             margin = other.LENGTH / 2 + vehicle.LENGTH / 2
             collision_points = [(0, 1), (-margin, 0.5), (margin, 0.5)]
             for m, cost in collision_points:
                 distance = vehicle.lane_distance_to(other) + m
-                other_projected_speed = other.speed * np.dot(other.direction, vehicle.direction)
                 time_to_collision = distance / utils.not_zero(ego_speed - other_projected_speed)
                 if time_to_collision < 0:
                     continue
-- 
2.43.0


From 4913b2e6519b05db603cb695f67eeb70b95285b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 46/46] fix: regulated roads divided by zero at simulation
 frequencies below the regulation frequency

---
 highway_env/road/regulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/regulation.py b/highway_env/road/regulation.py
index 0681a61..2c90dcd 100644
--- a/highway_env/road/regulation.py
+++ b/highway_env/road/regulation.py
@@ -20,7 +20,7 @@ class RegulatedRoad(Road):
 
     def step(self, dt: float) -> None:
         self.steps += 1
-        if self.steps % int(1 / dt / self.REGULATION_FREQUENCY) == 0:
+        if self.steps % max(int(1 / dt / self.REGULATION_FREQUENCY), 1) == 0:
             self.enforce_road_rules()
         return super().step(dt)
 
-- 
2.43.0

