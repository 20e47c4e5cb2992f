#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/trajopt/"
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

U = I + "util/TrajoptUtil.hpp"; PB = I + "path/SwervePathBuilder.hpp"; GEN = "src/SwerveTrajectoryGenerator.cpp"
C = I + "constraint/"
G = I + "geometry/"
PROPS = [
 P("C01", "Sample index of a waypoint/segment sample is the prefix sum of samples",
   "For any list of per-segment sample counts, the flat index of sample s of waypoint w is s when w is 0, and otherwise 1 plus the sum of the counts of the first w-1 segments plus s. Hence the first waypoint owns one sample, segment k owns exactly its count of samples, and the total is 1 plus the sum of all counts.",
   ["inputs"], "every list of counts (any length, sum within size_t), every waypoint index and sample index",
   "the unit test checks two hand-written lists; the identity must hold for every list length and every index",
   [U], [("flat index computation", U + " GetIndex")], observe=["returned index"]),
 P("C02", "Linspace is evenly spaced, ends at the end value and has exactly n values",
   "Linear spacing returns exactly n values, and the k-th of them (from 0) is start + (k+1)(end-start)/n; in particular the last one equals the end value and the start value itself is not among them unless the two are equal.",
   ["inputs"], "every start/end value, every n",
   "the unit test checks a few example calls; the formula must hold for all n and end points",
   [U], [("linear spacing", U + " Linspace")], observe=["returned values"]),
 P("C03", "Angle interpolation takes the shortest way round and ends on the end heading",
   "Angular spacing returns exactly n angles, equally spaced with a step equal to the end-minus-start difference wrapped into a half turn, divided by n; so the last angle is congruent to the end angle modulo a full turn and the total turn never exceeds half a turn.",
   ["inputs"], "every start/end angle (any number of turns), every n",
   "no unit test calls it; the wrap must be right for every pair of angles, including ones several turns apart and negative ones",
   [U], [("angle wrap", U + " AngleModulus/AngleLinspace")]),
 P("C04", "Linear initial guess visits every waypoint and interpolates straight between",
   "The generated initial guess has exactly 1 + sum of control intervals samples, one entry per sample in each of its pose channels, and the last sample of each segment equals that waypoint's last initial guess point. Between successive guess points the position is interpolated linearly, and heading is interpolated the shortest way round with cosine and sine channels being those of the heading; every waypoint's intermediate guess points are visited in order.",
   ["inputs"], "every number of waypoints, guess points per waypoint and control intervals per segment",
   "no existing test covers it; the identity quantifies over lists of lists and over the remainder of an integer division",
   [I + "util/GenerateLinearInitialGuess.hpp", U], [("interpolation over guess points", I + "util/GenerateLinearInitialGuess.hpp GenerateLinearInitialGuess")]),
 P("C05", "Path builder keeps path and control-interval bookkeeping well formed",
   "A builder call that mentions waypoint indexes extends the path just far enough to contain the largest one, each new waypoint starting with no constraints, one zero guess pose and (unless it is the very first) a default count of 40 control intervals for its segment, and never shrinks it. A waypoint guess replaces only the last guess pose of its waypoint, segment guesses are put in order before the guess poses of the segment's end waypoint, and drivetrain, control interval counts, bumpers and callbacks are stored exactly as given. No call alters waypoints, guesses or settings it does not address.",
   ["histories", "inputs"], "every sequence of builder calls with any indexes and arguments",
   "there is no unit test of the path builder; the invariant quantifies over every call history",
   [PB, "src/path/SwervePathBuilder.cpp"], [("growth on demand", "src/path/SwervePathBuilder.cpp NewWpts")]),
 P("C06", "Constraints are attached at exactly the requested waypoint or segment range",
   "Adding a waypoint constraint appends that constraint to the constraints of that waypoint only; adding a segment constraint over a range of waypoints appends it to the waypoint constraints of every waypoint in the range and to the segment constraints of every segment in between, and to nothing else. Pose and translation waypoints append one equality constraint for exactly the given pose or position and set that pose as the waypoint's guess.",
   ["inputs", "histories"], "every pair of indexes from < to, every constraint kind, every prior path",
   "there is no unit test of the path builder; the placement must be right for every index pair and prior path",
   [PB, "src/path/SwervePathBuilder.cpp"], [("placement", "src/path/SwervePathBuilder.cpp WptConstraint/SgmtConstraint")]),
 P("C07", "Obstacles keep every bumper edge and corner clear of every obstacle edge and corner",
   "Adding an obstacle at a waypoint or over a segment range adds, for every bumper, a minimum-distance constraint with distance safety distance + obstacle safety distance between every bumper corner and every obstacle corner-or-edge and between every bumper edge and every obstacle corner, all edges of both outlines (including the closing edge) being covered. No bumper and no edge is skipped, whatever the number of corners on either side.",
   ["inputs"], "every number of bumpers, bumper corners and obstacle corners >= 1",
   "the obstacle examples are integration programs that need the solver and only check that it runs; coverage quantifies over all polygon sizes",
   ["src/path/SwervePathBuilder.cpp"], [("obstacle expansion", "src/path/SwervePathBuilder.cpp WptObstacle/SgmtObstacle")]),
 P("C08", "Distance constraints mean Euclidean point/segment distance of the moving robot point",
   "The point-point, line-point and point-line distance constraints admit a robot pose exactly when the Euclidean distance between the robot-fixed point or segment (moved by the pose) and the field point or segment is at least the given distance. Every point of the segment counts, not only its end points or its infinite extension.",
   ["inputs"], "every pose, every robot point/segment, every field point/segment, every distance >= 0",
   "the only tests of constraints need the solver; the equivalence is over a continuum of poses and shapes",
   [C + "PointPointConstraint.hpp", C + "LinePointConstraint.hpp", C + "PointLineConstraint.hpp", C + "detail/LinePointDistance.hpp"],
   [("distance to a segment", C + "detail/LinePointDistance.hpp"), ("inequalities", C + "*Constraint.hpp Apply")]),
 P("C09", "Velocity and acceleration limits mean what they say",
   "A maximum linear or angular velocity or acceleration constraint admits a state exactly when the magnitude does not exceed the limit, a limit of zero meaning exactly zero; the velocity direction constraint admits exactly the velocities parallel to the given heading. Nothing else about the state is restricted.",
   ["inputs"], "every limit >= 0 and every velocity/acceleration value",
   "constraints are only exercised through the solver; the equivalence is over a continuum of values",
   [C + "LinearVelocityMaxMagnitudeConstraint.hpp", C + "LinearAccelerationMaxMagnitudeConstraint.hpp", C + "AngularVelocityMaxMagnitudeConstraint.hpp", C + "LinearVelocityDirectionConstraint.hpp"],
   [("Apply", C + "*MaxMagnitudeConstraint.hpp")]),
 P("C10", "Pose, translation and point-at constraints fix exactly what they name",
   "A pose equality constraint admits exactly the poses at the given position whose heading is the given one up to half a turn (the documented ambiguity), a translation equality constraint admits exactly the given position, and a point-at constraint admits exactly the poses whose heading is within the tolerance of the direction to the given point. Nothing else about the state is restricted.",
   ["inputs"], "every target, tolerance in [0, half turn] and pose",
   "constraints are only exercised through the solver; the equivalence is over a continuum of poses",
   [C + "PoseEqualityConstraint.hpp", C + "TranslationEqualityConstraint.hpp", C + "PointAtConstraint.hpp"],
   [("Apply", C + "PoseEqualityConstraint.hpp and siblings")]),
 P("C11", "Geometry types implement planar rigid-body algebra",
   "Translations form a vector space with the usual dot, cross and norm; rotations compose by angle addition, invert under negation and act on translations by rotation; poses combine them, for numeric and for symbolic coordinates and for mixed operands alike. Equality relations of symbolic values hold exactly when positions agree and headings agree up to half a turn (the documented ambiguity).",
   ["inputs"], "every value of every operand and every combination of numeric and symbolic operands",
   "there is no unit test of geometry; algebraic identities quantify over all reals",
   [G + "Translation2.hpp", G + "Rotation2.hpp", G + "Pose2.hpp"],
   [("operators", G + "Translation2.hpp"), ("operators", G + "Rotation2.hpp"), ("operators", G + "Pose2.hpp")]),
 P("C12", "Consecutive samples are linked by the kinematics of the robot",
   "In the optimization problem built for any path, every pair of consecutive samples in the same segment is linked by backward-Euler kinematics with that segment's time step: position by velocity, heading by angular velocity, velocity by acceleration, angular velocity by angular acceleration; the first sample of a segment is linked to the last of the one before. No pair is left unlinked or linked twice with a different time step.",
   ["inputs"], "every path: any number of waypoints, segments and samples per segment",
   "the generator is not even built in the existing suite; the transcription quantifies over the number of segments and samples",
   [GEN], [("kinematics transcription", GEN + " SwerveTrajectoryGenerator constructor")]),
 P("C13", "Forces, torque and wheel speed of every module are limited at every sample",
   "At every sample the net force equals mass times acceleration, the net torque of all modules about the robot centre equals moment of inertia times angular acceleration, every module's wheel speed (from translation and rotation of the robot) is at most wheel radius times maximum angular velocity, and every module's force is at most maximum torque over wheel radius. No sample and no module is exempt.",
   ["inputs"], "every number of modules, every module geometry, every sample",
   "the generator is not built in the existing suite; quantifies over modules, samples and reals",
   [GEN], [("dynamics transcription", GEN + " SwerveTrajectoryGenerator constructor")]),
 P("C14", "User constraints are imposed at exactly the samples they cover",
   "Every waypoint constraint is imposed once, on the last sample of its waypoint (the only sample for the first waypoint), and every segment constraint is imposed once on each sample of its segment, each time on the state variables of that very sample. No other sample is restricted by it.",
   ["inputs"], "every path and every list of constraints of every kind",
   "the generator is not built in the existing suite; quantifies over waypoints, constraints and samples",
   [GEN], [("constraint imposition", GEN + " SwerveTrajectoryGenerator constructor")]),
 P("C15", "Total time is minimised with non-negative, width-limited time steps",
   "The objective is the sum over segments of sample count times that segment's time step, every time step is constrained to be non-negative, and in one time step no wheel may travel further than the smallest non-zero axis distance between any two modules. The bound does not depend on the order in which modules are listed, and no bound is imposed when there is no such pair.",
   ["inputs"], "every number of segments and every module list in every order",
   "the generator is not built in the existing suite; quantifies over segment and module lists",
   [GEN], [("objective and time step bounds", GEN + " SwerveTrajectoryGenerator constructor")]),
 P("C16", "Solver starts from the initial guess and its finite-difference derivatives",
   "Before solving, every sample's pose variables hold the initial guess, and velocities and accelerations hold the backward differences of the guess over its time steps, with the first sample at rest; each segment's time step starts at a positive value.",
   ["inputs"], "every path and every initial guess",
   "the generator is not built in the existing suite; quantifies over samples",
   [GEN], [("initial guess", GEN + " ApplyInitialGuess")]),
 P("C17", "The reported solution is the solver's values, sample by sample",
   "The solution handed to callbacks and returned to the caller has in every channel one entry per sample, in sample order, equal to the value of the corresponding optimization variable; its time-step channel repeats each segment's time step once per sample of that segment, and module forces are grouped per sample in module order.",
   ["inputs"], "every path and every variable assignment",
   "the generator is not built in the existing suite; quantifies over samples, segments and modules",
   [GEN], [("solution read-out", GEN + " ConstructSwerveSolution")]),
 P("C18", "Success, failure and cancellation are reported truthfully",
   "Generation returns a solution exactly when the solver reports a non-failing exit other than a requested stop, and otherwise an error carrying the solver's message for that exit. A cancellation requested while generating stops the solver at the next iteration, a request made before generating starts does not, and every registered callback is given the current solution and the generator's handle.",
   ["histories", "inputs"], "every exit condition, every number of callbacks, every moment of cancellation",
   "the generator is not built in the existing suite; quantifies over exit conditions and histories",
   [GEN, "src/util/Cancellation.cpp", I + "util/Cancellation.hpp"], [("outcome mapping", GEN + " Generate"), ("cancellation flag", "src/util/Cancellation.cpp")]),
 P("C19", "A trajectory built from a solution is the solution's samples on its own clock",
   "A holonomic trajectory built from a solution has one sample per solution sample in order, whose timestamp is zero for the first sample and otherwise the sum of the time steps listed for all preceding samples, whose position, velocities and module forces are those of the solution, and whose heading is the angle of its cosine/sine pair. A trajectory built from samples contains exactly those samples.",
   ["inputs"], "every solution of any length and any number of modules",
   "no unit test builds a trajectory; quantifies over lengths and over prefix sums",
   [I + "trajectory/HolonomicTrajectory.hpp", I + "trajectory/HolonomicTrajectorySample.hpp"],
   [("conversion", I + "trajectory/HolonomicTrajectory.hpp")]),
 P("C20", "The foreign-function C++ layer forwards every argument unchanged",
   "Every call on the foreign-function path builder has exactly the effect of the corresponding native builder call with the same arguments in the same roles (positions, headings, distances, tolerances, indexes, mass properties and module lists), polygon coordinate lists of different length describe no polygon and change nothing, and trajectories and errors are handed back unchanged in content, order and role.",
   ["inputs", "histories"], "every argument value and every prior state",
   "the layer is not built in the existing suite; argument mix-ups compile silently since all arguments are numbers",
   ["src/RustFFI.cpp", "src/RustFFI.hpp"], [("forwarding", "src/RustFFI.cpp SwervePathBuilder methods")]),
 P("C21", "The Rust API forwards every argument to the foreign-function layer unchanged",
   "Every method of the public Rust path builder calls the corresponding foreign-function operation exactly once with the same arguments in the same order, and reports the generated trajectory or the error string it received.",
   ["inputs"], "every argument value",
   "no Rust test runs here; argument mix-ups compile silently since all arguments are numbers",
   ["src/lib.rs"], [("forwarding", "src/lib.rs impl SwervePathBuilder")]),
]
LEVEL_NOTE = ("proof: every obligation generated from the clang AST of /repo's current sources (weakest-precondition style symbolic execution with loop summaries/inductive invariants, no bound) is discharged by z3; "
  "assumes doubles behave as reals, machine integers with explicit overflow obligations, the std:: models and the Sleipnir interface of /verif/shim where it is used; a bounded runtime contract replays and searches failing inputs and is not counted as proof")
TECH = "contract-based deductive verification of the real C++ (function contracts, VCs from the clang AST, z3) with runtime-contract replay"
CLAIMED = {}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    i = p["id"]
    if i in CLAIMED:
        c = dict(CLAIMED[i] or {})
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i,
          "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
          "evidence_file": "evidence/%s.json" % i,
          "technique": c.get("technique", TECH), "level": c.get("level", "proof"), "level_note": c.get("note", LEVEL_NOTE)})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet (planned, see DESIGN.md)")} for p in PROPS if p["id"] not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
