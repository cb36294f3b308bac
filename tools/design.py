"""Regenerates the per-property part of DESIGN.md (between the markers) from props_meta, the harnesses and the notes below."""
import ast, glob, json, os, re, sys
ROOT = "/verif/"
sys.path.insert(0, ROOT + "tools")
import props_meta  # noqa

HOW = {
 "R01": "The lane classes are executed on symbolic coordinates; composing position() with local_coordinates() (and back) must be the identity, and heading_at() the direction of a symbolic finite difference. Straight: any start/direction; circular: cos/sin of the phase are a unit pair of the solver, arctan2 by its defining relation; sine: amplitude, pulsation and phase symbolic, exact in s.",
 "R02": "Each predicate is run on symbolic positions of every kind of lane and compared with its formula in (s, r); distances against the specification terms.",
 "R03": "get_closest_lane_index over networks whose lanes report arbitrary symbolic distances (any history of lanes): the returned one must be minimal, over headings too; then with real straight lanes.",
 "R04": "neighbour_vehicles with every occupant at a symbolic place; the answer must be an on-lane occupant with no other one between (a universally quantified specification expanded over the finite scene).",
 "R05": "Graph edges are boolean inputs (any directed graph of the stated size): shortest_path runs over the symbolic adjacency and the answer is judged against all simple paths; plan_route_to likewise.",
 "R06": "next_lane/follow_road on networks with symbolic geometry, any route, any lane, random draws as inputs.",
 "R07": "position_heading_along_route and predict_trajectory_constant_speed over chains of lanes of symbolic lengths; specification = walking the chain.",
 "R08": "respect_priorities, enforce_road_rules and is_conflict_possible with symbolic priorities, positions and predicted poses; overlap as a separating-axis specification.",
 "R09": "Intersection routes on symbolic lane requirements (get_route-like lane ids are terms) for MultipleModel/regulated vehicles; both sides are compared as lists of the same lanes.",
 "R10": "side_lanes, all_side_lanes, is_*_road, is_connected_road (any graph up to the bounds as boolean edges, unrolled to the depth) and close_vehicles_to with symbolic positions.",
 "V01": "Vehicle.step with symbolic state, command and dt against the slip-angle bicycle equations; tan/arctan through defining relations; the real replays validate the encoding.",
 "V02": "clip_actions and step on any speed/command: monotone decrease of the excess (both signs), crash braking.",
 "V03": "The collision predicates on two symbolic oriented boxes: soundness (reported => no separating side direction) and completeness (unreported => a separating side direction exists), decided as nonlinear real arithmetic split by sign quadrants.",
 "V04": "check_collision and Road.step on symbolic scenes with aligned footprints: both crashed, both at the slower speed, obstacles and landmarks by their flags.",
 "V05": "steering_control/speed_control with symbolic gains' inputs against the documented cascade; contraction facts for convergence.",
 "V06": "ControlledVehicle/MDPVehicle.act for every label, lane, speed; lane reachability symbolic.",
 "V07": "speed_to_index, index_to_speed and act for any grid of 1 to 5 set-points and any speed.",
 "V08": "IDM acceleration against its closed form (powers as defining relations), with and without leader, and monotonicity between two symbolic leaders.",
 "V09": "mobil() with arbitrary predicted accelerations (stubs returning solver variables), change_lane_policy over symbolic timers and lanes.",
 "V10": "LinearVehicle features and commands as linear forms in symbolic parameters; randomisation draws and data collection included.",
 "V11": "BicycleVehicle derivative, Euler step, clipping, linearisation and structure matrices as polynomial identities.",
 "V12": "create_from/deepcopy of every vehicle class with symbolic state, then arbitrary actions on either; predicted states are compared with an execution of the same code on the vehicle (two symbolic runs in one query: a 2-safety property).",
 "O01": "KinematicObservation.observe for symbolic vehicles; rows compared with the closest-first specification and the affine scaling.",
 "O02": "compute_ttc_grid cell by cell against 'is met within this cell', then the windowing for every speed/lane index.",
 "O03": "OccupancyGridObservation over symbolic positions: each cell's value must be the feature of a vehicle inside its square, zero if there is none.",
 "O04": "Parking observation, reward, success and lot creation on symbolic states, goals and draws.",
 "O05": "Tuples of observations/actions over agents in symbolic states.",
 "O06": "Gray weights and stacking over symbolic pixels (the renderer is a stub that yields solver variables), histories of up to the stated frames.",
 "A01": "ContinuousAction.act on any vector, for all option combinations and symbolic ranges; a policy step carries the command to the vehicle.",
 "A02": "DiscreteMetaAction.act and get_available_actions; an action is effective iff executing it (second symbolic run) changes the target.",
 "E01": "AbstractEnv.step/_simulate/reset with recording stubs: symbolic frequencies, termination instant as a solver variable.",
 "E02": "HighwayEnv reward/terminal/cost as functions of symbolic state, weights and configuration.",
 "E03": "IntersectionEnv on the real junction geometry with symbolic agent positions and all random draws as inputs.",
 "E04": "The remaining tasks' rewards, ends, costs and scenes likewise.",
 "E06": "Each modifier is run on an environment with symbolic vehicle states; snapshots of every reachable attribute of the original before/after are compared term by term, and the copy against its specification.",
 "E07": "Creation with every random draw an input; pairwise separation in generated scenes.",
 "E08": "Two runs with the same symbolic draws (2-safety): equal scenes; snapshots of class attributes, defaults and module constants before/after a reset.",
 "E09": "to_finite_mdp over a grid of solver variables (the optional finite_mdp package is a stand-in that stores its arguments); transition_model on integer solver variables.",
 "E10": "EventHandler and EnvViewer on symbolic previous actions, ranges and frequencies; the sequences of events are enumerated, values are solved.",
 "E11": "The networks are built by the real code and positions of their lanes compared for every longitudinal and lateral coordinate: across joints, with the neighbouring lane, and with the branches they are turned images of.",
 "I07": "update_possible_routes on symbolic junctions (R09's network), with earlier hypotheses, ends of lanes and consistency verdicts as inputs, against the set of possible routes; recorded observations are terms.",
 "E12": "the real render, close, reset, _simulate, _automatic_rendering and __deepcopy__ run on a probe scene with a recording viewer; sequences of operations, rounds per step, terminal round and instant of closing are inputs of the path search, the solver deciding which are feasible; each rendering is compared with the version of the scene",
"G01": "Surface mapping and drawing code run on symbolic positions, scales and origins; pygame's primitives are replaced by recorders, pixels themselves are not modelled; the universally quantified 'every visible point of a marking is drawn' is a symbolic point.",
 "I01": "Interval functions on symbolic bounds and members: enclosure by the solver; exactness against the min/max of the vertex values (a multi-affine function takes its extremes at vertices).",
 "I02": "The conversions on symbolic boxes and symbolic straight lanes: ranges of linear forms.",
 "I03": "LPV: one step from ANY box containing ANY state (an inductive step, hence any number of steps) for the deviations' vertices (the motion is affine in each share, so none/all are the extremes); coordinates, feedback and nominal motion as identities.",
 "I04": "polytope() over symbolic families; the vehicles' structures compared with the features of their commands.",
 "I05": "Ridge estimate through the normal equations, the ellipsoid parametrised by a unit ball member; the feature matrices are concrete (their eigen-decompositions are numeric), outputs, noise and parameters are symbolic.",
 "I06": "observer_step/predictor_step from any box, any member state and corner parameters (motion linear in them); cosine and sine of the heading are any pair in the exact range over the heading interval.",
}

rows = []
for pid, p in props_meta.PROPS.items() if isinstance(props_meta.PROPS, dict) else [(q["id"], q) for q in props_meta.PROPS]:
    src = open(ROOT + "props/%s.py" % pid.lower()).read()
    t = ast.parse(src)
    bounds = next(ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS")
    ev = ROOT + "evidence/%s.json" % pid
    cost = ""
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e["coverage"]
        if e["tier"] == "quick":
            cost = "%d cases, %d paths, %d obligations (%d by the solver after simplification), about %d s" % (c["cases"], c["paths_explored"], c["obligations"], c["obligations_discharged_by_solver"], max(5, round(e["wall_s"] / 5.) * 5))
    rows.append((pid, p, HOW[pid], bounds, cost))
out = ["## Properties: how each is decided", "",
       "Oracle = the statement in `properties.jsonl`, written as terms in `props/<id>.py` independently of the code (closed forms, quantified specifications, or a second symbolic run for 2-safety). Cost is that of the quick tier on 8 cores.", ""]
for pid, p, how, bounds, cost in rows:
    out += ["### %s %s" % (pid, p["title"]), how, "", "*Bounds*: %s." % re.sub(r"\s+", " ", bounds).rstrip("."), "*Cost*: %s." % cost if cost else "", ""]
d = open(ROOT + "DESIGN.md").read()
A, B = "<!-- properties -->", "<!-- /properties -->"
if A not in d:
    d = d.rstrip() + "\n\n" + A + "\n" + B + "\n"
i, j = d.index(A), d.index(B)
open(ROOT + "DESIGN.md", "w").write(d[:i] + A + "\n" + "\n".join(out) + d[j:])

# ---- appendices: defects, planted bugs
LATE = {  # planted bugs that the check missed when they were written, and what was added for them
 "v08-leader-target-lane": "leaders aiming at another lane", "r07-predict-on-target": "vehicles on one lane aiming at another", "v06-lane-count-of-current-road": "target roads with other lane counts than the current one",
 "v10-class-parameters-recorded": "recorded features of vehicles with their own parameters", "e07-spacing-from-last": "vehicles not in order of position", "g01-stripe-end-lane": "lane lengths with a partial last stripe",
 "i07-observed-lane": "routes whose first lanes differ", "o05-first-agent-route": "agents with different routes", "e06-preferred-lane-of-target": "target lane on another road than the vehicle",
}
LATE.update({k: v for k, v in json.load(open(ROOT + "tools/late.json")).items()} if os.path.exists(ROOT + "tools/late.json") else {})
out = ["", "## Defects found in the code", "",
       "Each was reported by a check, replayed on the real code, and repaired by a minimal `fix:` commit (the same list, machine-readable, is `known-findings.txt`).", "", "| property | commit | what failed |", "|---|---|---|"]
known = {}
for l in open(ROOT + "known-findings.txt"):
    g = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if g:
        out.append("| %s | %s | %s |" % g.groups())
    g = re.match(r"known: property=(\w+) case=(\S+) check=(\S+) :: (.*)", l)
    if g:
        known.setdefault(g.group(1), []).append(g.groups()[1:])
out += ["", "Recorded, not repaired (reported as KNOWN-FINDING):", ""]
for k, v in known.items():
    out.append("- %s: %s; likewise COMFORT_ACC_MAX and COMFORT_ACC_MIN, and in MultiAgentIntersectionEnv." % (k, v[0][2].strip().rstrip(".")))
out += ["", "## Planted bugs", "",
        "Written from the property and the code; each compiles, passes the stable tests, and has a demonstration. `tools/caught.py` runs the quick check of its property on a copy with the bug: all are reported. "
        "Those marked * were missed when written; the check was then extended by what is in brackets.", "", "| bug | property | what it needs |", "|---|---|---|"]
base = ROOT + "seeded/"
for i in sorted(os.listdir(base)) if os.path.isdir(base) else []:
    j = json.load(open(base + i + "/meta.json"))
    out.append("| %s%s | %s | %s%s |" % (i, "*" if i in LATE else "", j["property"], j["needs"].replace("|", "/").replace("\n", " "), " [%s]" % LATE[i] if i in LATE else ""))
out += ["", "## How the checks themselves were tested", "",
"* `tools/selftest.py`: the executor (dispatch, operators, numpy stand-ins, path search) against CPython on concrete inputs, and wrong claims that it has to refute.",
"* Every violation is replayed on the uninstrumented code with the inputs of the model before it is reported; every harness also has some of its paths replayed concretely when it passes (`validated` in the evidence), which ties the encoding to the code.",
"* Mutation: four rounds of hand-written mutants (about 300, one wrong object, stale value, alias, bound, lane or vehicle at a time, `tools/mut.py`), and random campaigns of operator and constant mutants (`tools/campaign.py`). "
"Survivors were read one by one: equivalent on reachable states, or a case was added (the starred bugs above are of this kind).",
"* Refactoring: `tools/refactor.py` rewrites whole modules without changing their behaviour (comprehensions to loops and back, conditional expressions to branches, helpers and lambdas extracted, tuples unpacked, aliases, enumerate, negated and chained conditions, "
"De Morgan, early returns, `norm`/`square`/`clip`/`dot`/`min`/`max` spelled differently, commuted operands, statements that do nothing); the checks stay quiet on all of them.", ""]
d = open(ROOT + "DESIGN.md").read()
A, B = "<!-- appendices -->", "<!-- /appendices -->"
if A not in d:
    d = d.rstrip() + "\n\n" + A + "\n" + B + "\n"
i, j = d.index(A), d.index(B)
open(ROOT + "DESIGN.md", "w").write(d[:i] + A + "\n".join(out) + "\n" + d[j:])
