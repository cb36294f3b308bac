"""The properties: one record each.  mech: (name, file under highway_env/, text found there)."""

PROPS = []
NA = {}


def P(id, title, statement, over, text, why, mech, note="", observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, note=note, observe=observe))


# ---------------------------------------------------------------------------------------------------------- roads
P("R01", "Lane coordinates and world coordinates are inverse of each other",
  "On every straight, sine and circular lane, converting lane coordinates (longitudinal, lateral) to a world position and back gives the "
  "same coordinates, and converting a world position to lane coordinates and back gives the same position. Longitudinal coordinates "
  "start at 0 at the start of the lane and reach the lane's length at its end, positive lateral offsets are on the lane's right-hand "
  "normal, and the lane's heading at a longitudinal coordinate is the direction of its centre line there.",
  ["inputs", "configurations"], "every lane geometry of the three kinds and every position around it",
  "The tests convert two or three positions on one lane of each kind; the identities quantify over all geometries, both turning "
  "directions, and angles on both sides of every wrap-around.",
  [("straight lane frame", "road/lane.py", "class StraightLane"), ("sine lane frame", "road/lane.py", "class SineLane"),
   ("circular lane frame", "road/lane.py", "class CircularLane"), ("angle wrapping", "utils.py", "def wrap_to_pi")])
P("R02", "Lane membership and distance are functions of the lane coordinates",
  "A position is on a lane exactly when its lateral offset is within half the lane width (plus the given margin) and its longitudinal "
  "coordinate is from one vehicle length (5 m) before the start to one vehicle length after the end; a lane is reachable from a position "
  "exactly when it is not forbidden, the position is within twice its width, and alongside the lane (up to a vehicle length past its "
  "end); a position is past the end of a lane exactly when less than half a vehicle length of it remains. The distance to a lane is the absolute lateral offset plus "
  "the longitudinal excess beyond either end, to which the heading-aware distance adds the weighted absolute angle between the given "
  "heading and the lane's, reduced to at most half a turn.",
  ["inputs", "configurations"], "every lane, position, heading, margin and weight",
  "Only a handful of on-lane and reachability values are sampled by the tests; the boundaries, margins, forbidden lanes and angle "
  "wrap-around are not.",
  [("membership", "road/lane.py", "def on_lane"), ("reachability", "road/lane.py", "def is_reachable_from"),
   ("end of the lane", "road/lane.py", "def after_end"), ("distance", "road/lane.py", "def distance(")])
P("R03", "A position is attributed to the closest lane of the network",
  "The lane a road user is located on, for a position and optionally a heading, is always a lane of the network and none of the "
  "network's lanes is closer in the (heading-aware, when a heading is given) lane distance.",
  ["inputs", "configurations"], "every position and heading, every value of the lane distances",
  "Tests locate a vehicle in one or two spots; attribution must be optimal wherever a vehicle drives, on every network.",
  [("closest lane search", "road/road.py", "def get_closest_lane_index"), ("lane distance", "road/lane.py", "def distance_with_heading")])
P("R04", "Leader and follower are the nearest occupants ahead and behind on the lane",
  "The leader (follower) reported for a vehicle on a lane - its own or any requested one - is another vehicle or obstacle located on that "
  "lane (within 1 m of its borders) at a longitudinal coordinate not behind (strictly behind) the vehicle's, and no other such vehicle or obstacle is nearer; none is reported "
  "exactly when there is no such occupant. Landmarks and the vehicle itself are never reported.",
  ["inputs", "configurations"], "every placement of the vehicles and objects, every requested lane",
  "One placement of three vehicles is tested; car-following and lane changes rely on it in every traffic state.",
  [("neighbour search", "road/road.py", "def neighbour_vehicles")])
P("R05", "Planned routes are shortest chains of existing roads",
  "A planned route goes from the end of the vehicle's current road to the requested destination through existing roads, each starting "
  "where the previous one ends, with no shorter alternative; it starts with the vehicle's current lane and imposes no lane on the "
  "others. If the destination cannot be reached, or is where the current road ends, the route is the current lane alone.",
  ["configurations", "inputs"], "every road graph of up to 4 nodes (5 thorough), every start and destination",
  "The tests plan no route except inside one environment; optimality and emptiness quantify over all graphs.",
  [("search", "road/road.py", "def bfs_paths"), ("shortest path", "road/road.py", "def shortest_path"),
   ("planning", "vehicle/controller.py", "def plan_route_to")])
P("R06", "At the end of a lane vehicles continue on a sensible connected lane",
  "The lane that follows a lane is an existing lane of a road starting where it ends: the road the planned route asks for if that road "
  "exists, otherwise any outgoing one, each of them possible. It keeps the lane number when both roads have as many lanes, and is else the lane of the new road closest to the "
  "vehicle; a dead end keeps the vehicle on its lane. A controlled vehicle switches to it exactly when it passes the end of its target lane, and "
  "route steps are dropped exactly when they are completed.",
  ["inputs", "configurations"], "every route, random draw, lane count and lane distance in the stated topologies",
  "Tests contain one network transition; routes with missing, foreign or exhausted steps and random choices are not sampled.",
  [("next lane", "road/road.py", "def next_lane"), ("following the road", "vehicle/controller.py", "def follow_road")])
P("R07", "Positions along a route and constant-speed predictions follow the route",
  "A longitudinal coordinate beyond the end of a lane is carried over to the following lanes of the route one lane length at a time, "
  "and gives the position and heading on the lane where it falls (extrapolated on the last lane, or on the first for negative "
  "coordinates). A vehicle's constant-speed prediction at each requested instant is the position and heading, on the lane's centre line, "
  "reached after travelling its current speed times the time along its route from where it is; predicting changes neither the vehicle nor its route.",
  ["inputs", "configurations"], "every route of up to four lanes of any lengths, vehicle state and prediction time",
  "No test predicts a trajectory; off-by-one lane errors only show when a prediction crosses lane ends.",
  [("position along a route", "road/road.py", "def position_heading_along_route"),
   ("prediction", "vehicle/controller.py", "def predict_trajectory_constant_speed")])
P("R08", "At regulated intersections conflicting vehicles are arbitrated by right of way",
  "Two vehicles conflict when their constant-speed predictions over the next 3 s overlap (no overlap of the footprints is ever missed, and courses whose "
  "footprints, enlarged by half, stay apart never conflict). Of two conflicting vehicles exactly one yields: the one on the lane with the lower "
  "priority or, at equal priorities, the one behind. A yielding traffic vehicle is set to stop, keeps yielding for the yield duration, then resumes its lane's "
  "speed limit; vehicles driven by an agent are never forced to yield, and traffic without conflicts is never stopped.",
  ["inputs", "schedules"], "every priority, relative pose, timer value and conflict pattern of up to three vehicles",
  "The regulated road is only run for a few random seconds by the tests, with no assertion on who yields.",
  [("enforcement", "road/regulation.py", "def enforce_road_rules"), ("priority", "road/regulation.py", "def respect_priorities"),
   ("conflict", "road/regulation.py", "def is_conflict_possible")])

# ---------------------------------------------------------------------------------------------------------- vehicles
P("V01", "A vehicle step is one step of the slip-angle bicycle model",
  "Stepping a vehicle moves it by speed times time step in the direction of its heading plus the slip angle atan(tan(steering)/2), turns "
  "its heading by speed times the sine of the slip angle over half its length times the time step, and changes its speed by "
  "acceleration times the time step, all from the state before the step. Without steering it drives straight; the commanded action is kept until replaced; and after the "
  "step the vehicle's lane is the closest lane to its new pose.",
  ["inputs", "histories"], "every vehicle state, command and time step",
  "The tests integrate two or three trajectories with special values (zero steering, one speed).",
  [("integration", "vehicle/kinematics.py", "def step"), ("lane update", "vehicle/kinematics.py", "def on_state_update")])
P("V02", "Excess speed decays and crashed vehicles brake to a stop in a straight line",
  "A vehicle faster than its maximum speed, forwards or in reverse, is decelerated at least at the rate of its excess speed whatever "
  "the command, and a vehicle within the limits executes its command unchanged. A crashed vehicle ignores its commands: it does not "
  "steer and it brakes proportionally to its speed until it stops.",
  ["inputs", "histories"], "every state and command, forwards and in reverse",
  "Tests check one braking trajectory; the reverse limit, and crashed vehicles with arbitrary commands, are not reached.",
  [("action clipping", "vehicle/kinematics.py", "def clip_actions"), ("dynamic vehicles", "vehicle/dynamics.py", "class BicycleVehicle")])
P("V03", "Two road users collide exactly when their footprints overlap",
  "A collision between a vehicle and another vehicle, obstacle or landmark is detected if and only if their rectangular footprints "
  "(90% of their length and width), placed at their positions and oriented along their headings, overlap. The underlying geometric tests (point in a rotated "
  "rectangle, intersection of two rotated rectangles) are exact for all sizes and angles.",
  ["inputs"], "every relative position, every pair of headings, every size",
  "Tests check four rectangle pairs; crossing rectangles and general orientations are not among them.",
  [("collision detection", "vehicle/kinematics.py", "def _is_colliding"), ("rectangle intersection", "utils.py", "def rotated_rectangles_intersect"),
   ("point membership", "utils.py", "def point_in_rotated_rectangle")])
P("V04", "Collisions crash both vehicles and are always noticed",
  "When two vehicles in contact are checked and neither has collisions disabled, both become crashed and take the slower of the two speeds; "
  "a vehicle touching an obstacle becomes crashed, stops, and the obstacle is marked as hit; a landmark is marked as hit and "
  "the vehicle is unaffected. Nothing changes without contact, no vehicle collides with itself, and after every simulation step each vehicle in contact "
  "with another one or with an obstacle is crashed, whatever their order.",
  ["inputs", "configurations"], "every relative position, speed, crash state and collision switch; every scene of up to 3 vehicles and an obstacle",
  "One head-on crash is tested; the response quantifies over all contacts, orders and speeds.",
  [("response", "vehicle/kinematics.py", "def check_collision"), ("simulation step", "road/road.py", "vehicle.check_collision(other)")])
P("R09", "Route choices at an intersection are the roads leaving the next junction",
  "The alternatives offered to a vehicle with a planned route are one route per road leaving the end of the first of the route's next three lanes from which several "
  "roads leave, in the order of the network: the planned route up to there, followed by that road with the lane requirement of the last step; just the planned route when none of "
  "these lanes ends at such a junction, and none at all without route. Asking changes nothing; choosing alternative k (or one at random) makes exactly that alternative the planned route.",
  ["configurations", "inputs"], "every planned route of up to four steps and pattern of outgoing roads, every requested alternative",
  "Tests never change a route at an intersection.",
  [("alternatives", "vehicle/controller.py", "def get_routes_at_intersection"), ("choice", "vehicle/controller.py", "def set_route_at_intersection")])
P("R10", "Lane relations and the vehicles nearby are those of their definition",
  "The side lanes of a lane are the existing lanes of its road just left and right of it; two lanes are connected at a depth (with same-lane "
  "restriction or not) when one of their roads leads to the other through at most that many roads of the route or, without route, of the network. The vehicles close to a vehicle within a "
  "distance are exactly the other vehicles nearer than it (those more than two of its lengths behind excluded on demand), nearest first along the lane, and at most the requested number of "
  "them, zero included.",
  ["configurations", "inputs"], "every lane and pair of lanes of small networks, every placement of two or three other vehicles",
  "One connected-road example is tested; the number of close vehicles and the exclusion of those behind are not.",
  [("side lanes", "road/road.py", "def side_lanes"), ("connection", "road/road.py", "def is_connected_road"),
   ("close vehicles", "road/road.py", "def close_vehicles_to")])
P("V05", "Bounded steering to the target lane, proportional speed control",
  "The steering command of a controlled vehicle is that of the cascaded controller - lateral offset to lateral speed command, to a heading correction of at most 45 degrees, to a heading rate "
  "towards the lane's heading a pursuit time ahead, to a slip angle - and never exceeds 60 degrees; it steers towards the "
  "lane's heading when centred and towards its centre line when aligned. The commanded acceleration is proportional to the difference between target speed and speed, and both are computed for the "
  "vehicle's target lane.",
  ["inputs"], "every lane-relative pose, speed and target speed",
  "Tests drive one lane change and one speed change; bounds and signs over all states, reversing included, are not sampled.",
  [("steering", "vehicle/controller.py", "def steering_control"), ("speed", "vehicle/controller.py", "def speed_control")])
P("V06", "Meta-actions change one lane or one speed step, and only to reachable lanes",
  "LANE_LEFT and LANE_RIGHT move the target lane of a controlled vehicle by exactly one lane to the left or right if that lane exists on the target lane's road and "
  "is reachable from the vehicle's position (not forbidden, within reach), and otherwise leave it unchanged; FASTER and SLOWER change the target speed by the fixed increment, and IDLE "
  "changes nothing. The target lane is always an existing lane, and no meta-action moves the vehicle by itself.",
  ["inputs", "histories"], "every position, speed, lane and sequence of two (thorough: three) actions on roads of 1 to 4 lanes",
  "Tests take one lane change; forbidden lanes, outermost lanes and out-of-reach positions are not sampled.",
  [("meta-actions", "vehicle/controller.py", "def act(")])
P("V07", "Agents' vehicles only target the set-points of their speed grid",
  "The set-points of an agent's vehicle are evenly spread from its minimum to its maximum speed; the index of a speed is that of the closest set-point, at the borders for "
  "speeds outside the range, and index and speed conversions agree. FASTER (SLOWER) selects the set-point after (before) the one closest to the current speed, staying on the grid; other actions "
  "keep the selected set-point, and the target speed is always that of the selected one.",
  ["inputs", "histories", "configurations"], "every grid of up to six set-points, speed and sequence of up to three actions",
  "Tests use one grid with one speed; ties, bounds, one-point grids and speeds outside the range are not sampled.",
  [("index", "vehicle/controller.py", "def speed_to_index"), ("set-point", "vehicle/controller.py", "def index_to_speed"),
   ("actions", "vehicle/controller.py", "class MDPVehicle")])
P("V08", "Traffic follows the intelligent driver model within its acceleration limits",
  "The acceleration of a traffic vehicle is the free-road term 3(1-(v/v0)^4) minus the interaction term 3(gap*/gap)^2 with the vehicle ahead on its lane, where the desired gap is 10 m plus 1.5 s of "
  "speed plus speed times the approach speed (projected on the vehicle's direction) over 2 sqrt(15); a leader at that gap or any other never increases it. The leader is the nearest one ahead on "
  "the vehicle's own lane; the command is limited to 6 m/s2 either way, steering follows the target lane, and a crashed vehicle decides nothing.",
  ["inputs", "schedules"], "every pair of speeds, target speed, gap, heading; every placement of two other vehicles on three lanes",
  "Tests check that two vehicles do not collide in one scenario; the law over all states and leaders is not sampled.",
  [("car following", "vehicle/behavior.py", "def acceleration"), ("gap", "vehicle/behavior.py", "def desired_gap"),
   ("decision", "vehicle/behavior.py", "def act(")])
P("V09", "Traffic changes lane only when safe, worth it, reachable and not too often",
  "A traffic vehicle considers a lane change at most once per second, only to an adjacent reachable lane, and makes it only if it does not make the new follower brake harder "
  "than 2 m/s2 and, when its route asks for a lane, the lane is on the way and is not dangerous for itself, and otherwise when its gain plus politeness times that of its old and new followers is at least 0.2 "
  "m/s2. A change in progress is given up exactly when another traffic vehicle not yet in that lane, aiming for it too, is ahead within its desired gap.",
  ["inputs", "schedules"], "every predicted acceleration of the vehicle and its neighbours, every timer, position and route requirement",
  "No test reaches the lane-change decision with assertions.",
  [("decision rule", "vehicle/behavior.py", "def mobil"), ("policy", "vehicle/behavior.py", "def change_lane_policy"),
   ("timer", "vehicle/behavior.py", "def step")])
P("V10", "Linear traffic vehicles apply the stated features weighted by their parameters",
  "The acceleration of a linear vehicle is the weighted sum of the speed gap to its target, the speed gap to a slower leader and the missing "
  "distance to it (10 m plus 2.5 s of speed); its steering is the weighted sum of the heading and lateral features of its pursuit point. Commands are limited as for other traffic "
  "vehicles, recorded samples (added to the data set the vehicle was given, if any) are the features and outputs actually used, and random parameters stay within their ranges without affecting other vehicles.",
  ["inputs", "configurations"], "every parameter vector, speed, distance, heading and lane offset",
  "Only a data-collection smoke run exists; the features are never checked.",
  [("longitudinal", "vehicle/behavior.py", "def acceleration_features"), ("lateral", "vehicle/behavior.py", "def steering_features"),
   ("sampling", "vehicle/behavior.py", "def collect_data")])
P("V11", "The dynamic bicycle model and its linearisation agree",
  "The state derivative of the dynamic bicycle vehicle is that of the slip-tyre model (forces proportional to tyre slip angles, decoupled damping at "
  "low speed); a step is its explicit Euler step; yaw rate and steering are limited; and the linearised derivative, the lateral matrices and the full "
  "lateral structure all describe that same model linearised in its slip angles.",
  ["inputs"], "every state, command and time step, on both sides of the low-speed switch",
  "One test runs a partially observable bicycle; derivative, linearisation and matrices are never compared.",
  [("derivative", "vehicle/dynamics.py", "def derivative("), ("linearisation", "vehicle/dynamics.py", "def derivative_linear"),
   ("structure", "vehicle/dynamics.py", "def lateral_lpv_structure")])
P("V12", "Copies and predictions start from the vehicle's state and leave it alone",
  "A vehicle created from another one has its class but the other's position, heading, speed and road, and for driven vehicles its target lane, target speed (the closest set-point for agents' "
  "vehicles), route and lane-change timer - zero values included; from then on neither affects the other. Predicting the trajectory of an agent's vehicle under a sequence of actions gives "
  "exactly the states it goes through when it executes them, one per saving period, and leaves the vehicle, its route and its road untouched. A road that records histories keeps such a copy of each vehicle at each state update: its last 30, latest first.",
  ["inputs", "histories"], "every vehicle state and plan, every pair of classes, several action sequences and periods",
  "No test creates a vehicle from another one or predicts actions; aliasing between copies only shows in long histories.",
  [("copies", "vehicle/controller.py", "def create_from"), ("traffic copies", "vehicle/behavior.py", "def create_from"),
   ("prediction of actions", "vehicle/controller.py", "def predict_trajectory(")])

# ----------------------------------------------------------------------------------------------------- observations
P("O01", "Kinematic observations describe the observer, then the closest vehicles",
  "The kinematic observation has a fixed number of rows. The first is the observer's features; the following ones those of the other vehicles within 180 m (unless asked to see behind, not more than two vehicle lengths "
  "behind), nearest first, as many as fit, relative to the observer's unless absolute ones are asked for; remaining rows are zero. With normalisation each feature's range (those configured, others raw; by default those of position and velocity) is mapped "
  "linearly to [-1, 1], and cut to it when clipping. Intentions are zero unless requested for vehicles other than the observer, and shuffling only permutes the rows after the first.",
  ["inputs", "configurations"], "every position, speed and heading of up to three other vehicles, every option stated",
  "Tests only check the shape of observations; contents, order, padding, clipping and ranges are never compared.",
  [("features", "vehicle/kinematics.py", "def to_dict"), ("observation", "envs/common/observation.py", "class KinematicObservation"),
   ("selection", "road/road.py", "def close_vehicles_to")])
P("O02", "The time-to-collision grid marks exactly the predicted encounters",
  "A cell of the time-to-collision grid (observer speed, lane, time) is marked exactly when a vehicle on that lane of the observer's road, or of the next three its route (past its end, any) takes, or of one leading into those, is met within that time step if the observer "
  "drives at that speed and the vehicle keeps its own: with 1 for an encounter with its centre, 0.5 for one with its front or rear only. Vehicles of the same velocity along the road, or on unconnected roads, are not marked. The "
  "observation is the window of three speeds and three lanes around the observer's; lanes off the road read as collisions.",
  ["inputs", "configurations"], "every position and speed of the vehicles, on one road or those after it, every lane and speed of the observer",
  "Tests only check the shape of the grid; what is marked, on which lane and when, is never compared.",
  [("grid", "envs/common/finite_mdp.py", "def compute_ttc_grid"), ("window", "envs/common/observation.py", "class TimeToCollisionObservation")])
P("O03", "The occupancy grid shows every vehicle in its cell and nothing else",
  "The occupancy grid has one layer per feature, one row per lateral and one column per longitudinal step of the requested area around the observer. The cell containing a vehicle's position relative to the "
  "observer (the observer included) holds its features, relative to the observer, scaled by their ranges and cut to [-1, 1] - those of the last listed vehicle when several share it; all other cells are zero, and vehicles "
  "outside the area, or seen in earlier observations, leave no trace.",
  ["inputs", "configurations", "histories"], "every relative position, speed and heading of the vehicles, grids of several shapes, default options",
  "No test uses the occupancy grid.",
  [("grid", "envs/common/observation.py", "class OccupancyGridObservation"), ("features", "vehicle/kinematics.py", "def to_dict")])
P("O04", "Goal tasks observe, reward and end by the distance to the goal",
  "In goal tasks the observation holds the observing agent's features and, as desired goal, the same features of the goal, each divided by its scale. The parking reward is minus the square root of the weighted (1, 0.3, 0, "
  "0, 0.02, 0.02) absolute differences of achieved and desired goals, summed over the agents, with 5 less after a collision in the summon task; an agent succeeds exactly when its own reward is above -0.12, which a step reports; "
  "the episode ends exactly when the duration is over, an agent crashed or all succeed. Agents start at rest 20 m apart; the goal is the middle of a parking spot.",
  ["inputs", "configurations"], "every pose of agents and goal, every observed goal pair, every random draw of the scene",
  "Tests only run the parking environment; rewards, success and termination are never compared.",
  [("goal observation", "envs/common/observation.py", "class KinematicsGoalObservation"), ("reward", "envs/parking_env.py", "def compute_reward"),
   ("termination", "envs/parking_env.py", "def _is_terminal")])
P("O05", "Several agents each observe from and drive their own vehicle",
  "With several agents, observations and actions are tuples with one entry per controlled vehicle, in order: each entry of the observation is what the configured observation shows with that vehicle as the observer (itself first, "
  "the others relative to it, grids centred on it, its own achieved goal), and each entry of the action commands that vehicle only. Attribute observations are exactly the named attributes of the environment.",
  ["inputs", "configurations"], "every state of two or three agents and another vehicle, every pair of actions, several kinds of observation",
  "No test uses several agents.",
  [("observations", "envs/common/observation.py", "class MultiAgentObservation"), ("actions", "envs/common/action.py", "class MultiAgentAction")])
P("O06", "Grayscale observations stack the last rendered frames in order",
  "A grayscale observation has the requested width, height and number of frames; each frame holds at (x, y) the weighted sum of the colour components the renderer gave for that pixel, the newest frame is the last one, "
  "preceded by the previous ones in order and by black ones at the start. Observing renders once, never changes observations given before, is not shared between environments, and stays in the declared range.",
  ["inputs", "histories"], "every image content and weight vector, sequences of up to five frames of small images of several shapes",
  "Tests only check the shape of one grayscale observation.",
  [("stack", "envs/common/observation.py", "class GrayscaleObservation")])

# ---------------------------------------------------------------------------------------------------------- actions
P("A01", "Continuous actions map linearly to the configured command ranges",
  "Each component of a continuous action, cut to [-1, 1] unless clipping is disabled, is mapped linearly to the acceleration range (first component, when longitudinal control is enabled) or the steering range (last one, when "
  "lateral control is enabled); a disabled axis is commanded 0. The driven vehicle, and only it, is given that command and executes it during the whole policy step; the action passed in is not modified.",
  ["inputs", "configurations", "histories"], "every action vector, range and combination of options",
  "Tests send random actions without looking at the command.",
  [("mapping", "envs/common/action.py", "class ContinuousAction"), ("scaling", "utils.py", "def lmap")])
P("A02", "Meta-actions reach the vehicle and the available ones are the effective ones",
  "A discrete action is forwarded once, under its label, to the driven vehicle. The available actions are IDLE, the lane changes (if lateral actions are enabled) to lanes that exist beside the vehicle's and are reachable, and "
  "(if longitudinal actions are enabled) FASTER below the highest and SLOWER above the lowest set-point, each once; for a vehicle on its target lane and at its set-point, an action that is not available would have no effect.",
  ["inputs", "configurations"], "every position, lane, set-point and set of forbidden lanes on roads of 1 to 3 lanes (thorough 4)",
  "Tests never look at the available actions.",
  [("forwarding", "envs/common/action.py", "class DiscreteMetaAction"), ("availability", "envs/common/abstract.py", "def get_available_actions")])

# ----------------------------------------------------------------------------------------------------- environments
P("E01", "A step applies one action for one policy period; a reset relinks everything",
  "A step forwards its action exactly once, before the first of simulation_frequency // policy_frequency rounds of acting and stepping the road by 1/simulation_frequency seconds (no action is forwarded under manual control), "
  "stops after the first round that ends the episode, then observes the resulting state and returns its reward and end, with the ego's speed, crash flag, the action and, when defined, the cost; without a scene it is refused. "
  "A reset zeroes the clocks before building the scene, and links observations, actions and the declared spaces to the new vehicles.",
  ["inputs", "configurations", "histories"], "every pair of frequencies in the bounds, every instant of termination, sequences of up to three steps, every kind of observation and action",
  "Tests only run default frequencies and look at observation shapes.",
  [("step", "envs/common/abstract.py", "def step"), ("simulation", "envs/common/abstract.py", "def _simulate"), ("reset", "envs/common/abstract.py", "def reset")])
P("E02", "Highway rewards are the documented, normalised combination",
  "The highway reward is 0 off the road, otherwise collision_reward on a crash + 0.1 times the relative index of the (target) lane from the left + 0.4 times the speed mapped linearly from reward_speed_range to [0, 1] and cut there, "
  "the whole mapped linearly from [collision_reward, 0.5] to [0, 1]; it lies in [0, 1]. The episode ends exactly on a crash, after the configured duration, or off the road when offroad_terminal is set. The cost is 1 on a crash, else 0.",
  ["inputs", "configurations"], "every state, target lane, reward weights, speed range, collision reward and duration within the bounds",
  "A test only checks that three rewards of one run lie in [0, 1].",
  [("reward", "envs/highway_env.py", "def _reward"), ("end", "envs/highway_env.py", "def _is_terminal")])
P("E03", "Intersections reward, end and populate as documented",
  "An agent of the intersection gets 1 on arrival (25 m into a leaving lane), otherwise collision_reward on a crash plus 1 at the top set-point, rescaled to [0, 1] if asked; the reward is the mean over agents. The episode ends when any "
  "agent crashed, all arrived or the duration is over, and a step reports each agent's reward and end. Traffic is spawned with the given probability on an entering lane, never within 15 m of a vehicle, and removed when leaving; agents never are, "
  "start with set-points 0, 4.5 and 9 m/s and with no other vehicle within 20 m.",
  ["inputs", "configurations", "histories"], "every state of up to three agents on all arms, every random draw, every configuration of rewards and durations",
  "Tests only step the environment with random actions.",
  [("reward", "envs/intersection_env.py", "def _agent_reward"), ("traffic", "envs/intersection_env.py", "def _spawn_vehicle"), ("arrival", "envs/intersection_env.py", "def has_arrived")])
P("E04", "Merge, roundabout, two-way and lane-keeping tasks score as documented",
  "Merge: -1 on a crash, +0.1 times the number of the current lane, +0.2 times the relative set-point, -0.05 for lane changes, -0.5 times the relative speed deficit of each controlled vehicle on the merging lane, mapped from [-1.5, 0.3] to [0, 1]; ends on a crash or beyond "
  "370 m. Roundabout: the same without lane and altruistic terms, mapped from [-1.05, 0.2]; its agent heads for nxs, its incoming vehicle for the configured exit (any if None). Two-way: 0.8 times the relative set-point + 0.2 on the left target lane (of two); cost: crash + 1/15 on the left lane. Lane keeping: 1 - (lateral/width)^2 to the followed "
  "lane, with references on it and observations within the configured noise.",
  ["inputs", "configurations"], "every state, action, set-point and noise draw; up to two other vehicles in the merge",
  "No test compares these rewards.",
  [("merge", "envs/merge_env.py", "def _reward"), ("roundabout", "envs/roundabout_env.py", "def _reward"), ("two-way", "envs/two_way_env.py", "def _reward"), ("lane keeping", "envs/lane_keeping_env.py", "def _reward")])
P("E06", "Modified copies of an environment leave the original untouched",
  "Deep copies, simplify, change_vehicles, set_preferred_lane, set_route_at_intersection, set_vehicle_field, call_vehicle_method and randomize_behaviour return an independent environment (own road, vehicles, objects, configuration, observing and driving "
  "its own ego, no window) and leave the original unchanged. The copy differs only as named: distant vehicles removed; other vehicles replaced by the class, in the same state and with the same intentions; routes on the preferred lane; the field set on all but the ego; called vehicles replaced by what the method returns, if anything.",
  ["inputs", "configurations", "histories"], "every state of the ego and two (thorough three) vehicles of mixed kinds, with and without routes, on a two-section road",
  "One test calls each of them once, without looking at the result.",
  [("copies", "envs/common/abstract.py", "def __deepcopy__"), ("modifications", "envs/common/abstract.py", "def change_vehicles"), ("simplification", "envs/common/abstract.py", "def simplify")])
P("E07", "Vehicles and objects are created where asked, apart from the others",
  "A random vehicle has the requested lane and speed (or drawn ones, speeds in [23, 25]), is centred on the lane and aligned with it, and stands 0.9 to 1.1 times the requested spacing beyond all vehicles already there; so the vehicles of a highway scene - "
  "as many agents and others as configured - are pairwise separated. Vehicles and objects made on a lane are at the given longitudinal, on its centre line, along its heading, at the given speed (its limit if None). Summon scenes have parked vehicles in "
  "their own spots and nobody within 20 m of the agent.",
  ["inputs", "configurations"], "every requested value, random draw and position of up to two (thorough three) earlier vehicles, on roads of 1 to 4 lanes",
  "Tests only create default scenes.",
  [("random vehicle", "vehicle/kinematics.py", "def create_random"), ("on a lane", "vehicle/kinematics.py", "def make_on_lane"), ("summon", "envs/summon_env.py", "def _create_vehicles")])
P("E08", "Scenes depend on configuration and draws only and leave nothing behind",
  "A reset with the same random draws gives the same scene (vehicles, kinds, states, set-points, routes, parameters, objects), in a new environment as in one that was used before, all draws being made from the seeded source of the environment. "
  "Resetting an environment changes no class attribute, default argument or module constant, hence no other environment; configurations and given options are not shared or modified.",
  ["configurations", "histories"], "every environment, every random draw of its scene within the bounds, continuous and discrete actions",
  "Tests run environments one after the other without comparing them.",
  [("roundabout", "envs/roundabout_env.py", "def _make_vehicles"), ("intersection", "envs/intersection_env.py", "def _make_vehicles"), ("configuration", "envs/common/abstract.py", "def default_config")])

# ----------------------------------------------------------------------------------------------------- intervals
P("I01", "Interval arithmetic encloses every point computation",
  "Products of intervals (scalars, vectors, matrices with vectors), scaling of interval vectors by signed scalars and matrices, differences, negative parts, sections along a direction and the boundary rates of integrators contain the result of the same computation on every "
  "choice of members, and all but mixed-sign products are exactly that range, lower bound first. A matrix is Metzler exactly when its off-diagonal entries are non-negative (up to the tolerance).",
  ["inputs"], "every interval and member, of the shapes in the bounds",
  "Tests check a couple of numeric products.",
  [("products", "interval.py", "def intervals_product"), ("differences", "interval.py", "def intervals_diff"), ("sections", "interval.py", "def vector_interval_section")])
P("I02", "Boxes convert between world and lane coordinates without losing positions",
  "For every box of world positions, its longitudinal and lateral intervals in a straight lane are exactly the ranges over the positions of the box; for every pair of lane intervals, the world box is exactly the range of the positions with such coordinates; a box taken to the lane and back "
  "contains itself. On curved lanes both span the images of the four corners.",
  ["inputs"], "every box on every straight lane, and on the curved lanes in the bounds",
  "No test covers these conversions.",
  [("to lane", "interval.py", "def interval_absolute_to_local"), ("to world", "interval.py", "def interval_local_to_absolute")])
P("I03", "Linear systems with uncertain matrices stay in their predicted box",
  "For every matrix of the polytope (centre matrix and deviations), initial state of the initial box, control and perturbation within bounds, the state after a step of the system lies in the predicted box, also after several steps; changes of coordinates are inverse to each "
  "other on states and enclosing on boxes, and leave their argument alone; the nominal state follows the centre matrix, the feedback is applied as given.",
  ["inputs", "histories"], "every state, perturbation and deviation share on the systems in the bounds",
  "Tests plot two trajectories.",
  [("system", "interval.py", "class LPV"), ("step", "interval.py", "def step"), ("coordinates", "interval.py", "def change_coordinates")])
P("I04", "Linear vehicle structures and polytopes describe the vehicles' actual commands",
  "The structure of a linear vehicle (constant matrix and one matrix per parameter) evaluated at its parameters is the matrix of its closed-loop motion, front-vehicle terms included exactly when they act; the polytope of a family of matrices over a parameter box is centred, with one deviation per "
  "corner, and encloses the matrix of every parameter of the box; vehicles with data use the region estimated from their own data within their own box, and that box without data.",
  ["inputs"], "every parameter box, state and leader within the bounds",
  "No test covers these structures.",
  [("longitudinal", "vehicle/behavior.py", "def longitudinal_structure"), ("lateral", "vehicle/behavior.py", "def lateral_structure"), ("polytope", "interval.py", "def polytope")])
P("I05", "Parameter regression returns the estimate and a region that contains the truth's",
  "The estimate solves the regularised normal equations of the dataset, the radius is the documented confidence radius, the polytope contains the confidence ellipsoid unless the prior box cuts it and never leaves that box; observations explained by a parameter of the ellipsoid are "
  "valid, those off by more than the bound are not; a dataset is consistent when its last observation is valid for the others; datasets are not modified.",
  ["inputs"], "every output, noise and parameter for the given features",
  "No test covers the regression.",
  [("ellipsoid", "utils.py", "def confidence_ellipsoid"), ("polytope", "utils.py", "def confidence_polytope"), ("validity", "utils.py", "def is_valid_observation")])
P("I06", "Interval vehicles enclose every vehicle they stand for",
  "A new interval vehicle knows its state exactly; it decides and records as any linear vehicle does. After an observer or predictor step, its position, speed and heading intervals contain those of every vehicle with state in the previous intervals and parameters in their box that moves as modelled, headings counted modulo full turns; "
  "the boundary observer merges the two boundary parts. Agents collide with it exactly when they touch a position of its interval; changing target lane moves nothing.",
  ["inputs", "histories"], "every member state, parameter corner, leader, perturbation and agent position within the bounds",
  "No test runs interval vehicles.",
  [("observer", "vehicle/uncertainty/prediction.py", "def observer_step"), ("predictor", "vehicle/uncertainty/prediction.py", "def predictor_step"), ("collision", "vehicle/uncertainty/prediction.py", "def check_collision")])
P("E09", "The finite MDP of an environment is its time-to-collision grid, as a game",
  "to_finite_mdp states: (speed index, lane, 0) is the current one; every action moves one instant on, LANE_LEFT and LANE_RIGHT one lane, FASTER and SLOWER one set-point at the first instant only, all cut at the grid's borders; the reward is collision_reward times the cell, plus "
  "the right-lane reward times the relative lane, the high-speed reward times the relative set-point and the lane-change reward for lane changes; a state is terminal exactly when its collision is certain or time is over. Grid cells last one policy period over 10 s.",
  ["inputs", "configurations"], "every state and action, grid contents, weights, and shapes within the bounds",
  "The finite_mdp package is not installed: no test makes the conversion.",
  [("conversion", "envs/common/finite_mdp.py", "def finite_mdp"), ("transitions", "envs/common/finite_mdp.py", "def transition_model"), ("borders", "envs/common/finite_mdp.py", "def clip_position")])
P("E10", "Keyboard events and displayed plans act on the driven vehicle as labelled",
  "Pressing an arrow key commands FASTER (right), SLOWER (left), LANE_LEFT (up), LANE_RIGHT (down) for discrete actions, or sets steering to +-0.7 (right/left) and acceleration to +-0.7 (up/down) for continuous ones, its release setting that axis to 0, the other axis keeping its "
  "value; keys of disabled axes, other keys and releases of discrete actions do nothing; only the driven vehicle is commanded. Events reach view and control once each. A plan of several actions is shown as the ego's predicted trajectory, one action per policy period.",
  ["inputs", "configurations", "histories"], "every sequence of events, previous action, range and frequency within the bounds",
  "No test sends events.",
  [("events", "envs/common/graphics.py", "class EventHandler"), ("plan", "envs/common/graphics.py", "def set_agent_action_sequence"), ("window", "envs/common/graphics.py", "def handle_events")])
P("E12", "Rendering shows the current scene and takes no part in the simulation",
  "Rendering opens one window on first use and keeps it until the environment is closed, by the program or by the user, even while rendering; a copy opens its own. Each rendering shows the scene as it is after the last simulation round or reset, and in rgb_array mode returns the "
  "image of it; events are handled unless offscreen. In the step after a rendering every intermediate frame is rendered in the same mode, or handed to the recording callback once; other steps render nothing. Steps simulate the same rounds with and without rendering, unless the window is closed meanwhile.",
  ["histories", "configurations"], "every sequence of steps, resets, renderings, closings and copies, number of rounds, terminal round and instant of closing within the bounds",
  "Tests render a few frames and only look at the image's shape.",
  [("rendering", "envs/common/abstract.py", "def render("), ("automatic rendering", "envs/common/abstract.py", "def _automatic_rendering"), ("copies", "envs/common/abstract.py", "def __deepcopy__")])
P("G01", "The view draws roads, vehicles and objects where they are",
  "World positions map to pixels by the view's scale and origin; the window is centred on the ego (at the configured centring); zoom and move keys change that view only. Lane markings lie on the lane edges, within the lane, striped (3 m every 5 m), continuous or absent as typed, wherever in view. "
  "Every vehicle in view and every object is drawn once, centred on its position, turned by its heading (0 below 2 degrees), in its size and colour: own colour, else red if crashed, yellow linear, blue IDM, green ego; objects by whether hit.",
  ["inputs", "configurations"], "every position, heading, scale, origin and centring within the bounds",
  "Tests only check the shape of images.",
  [("mapping", "road/graphics.py", "class WorldSurface"), ("markings", "road/graphics.py", "class LaneGraphics"), ("vehicles", "vehicle/graphics.py", "def display"), ("viewer", "envs/common/graphics.py", "class EnvViewer")])
P("E11", "The roads built by the scenes fit together",
  "In the merge, roundabout, intersection and lane-keeping scenes, a vehicle leaving a lane at any lateral position is, on the lane that prolongs it (the one next_lane gives), at the same place with the same heading; lane i+1 of a road lies one width to the right of lane i, all along. "
  "The branches of the intersection and roundabout are quarter-turn images of each other; priorities at the intersection are 3/1 (horizontal/vertical), one less for left turns. Straight networks have the given lanes, length and angle; parking (and summon) rows face each other over adjacent spots, the summon lanes between them, all along; the left lane of the two-way road is the oncoming lane reversed. The merging lane is closed by an obstacle at its end.",
  ["inputs", "configurations"], "every longitudinal and lateral position on every such lane, road length and angle",
  "Tests drive the built roads from a few starting points.",
  [("merge", "envs/merge_env.py", "def _make_road"), ("roundabout", "envs/roundabout_env.py", "def _make_road"), ("intersection", "envs/intersection_env.py", "def _make_road"), ("straight", "road/road.py", "def straight_road_network"), ("parking", "envs/parking_env.py", "def _create_road")])
P("I07", "Route hypotheses: one per possible route, with its own observations",
  "The hypotheses of a multiple-model vehicle contain each possible route at its next junction exactly once (lanes not asked for as first lanes, missing ones as last lanes), those that continue an earlier one keeping its observations; a lane is dropped once passed (never the last), and hypotheses with inconsistent "
  "observed steering are rejected. Each records the features of its own lane and the actual commands. Assuming one gives a vehicle in the same state following its route with its observations; neither this nor considering routes changes the vehicle's own route or the hypotheses.",
  ["inputs", "histories"], "every junction, lane requirement, earlier hypotheses, consistency verdict and feature value within the bounds",
  "No test runs multiple-model vehicles.",
  [("routes", "vehicle/uncertainty/estimation.py", "def update_possible_routes"), ("observations", "vehicle/uncertainty/estimation.py", "def collect_data"), ("assumption", "vehicle/uncertainty/estimation.py", "def assume_model_is_valid")])
