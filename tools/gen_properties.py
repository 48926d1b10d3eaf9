#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

I = "include/hpp/bezier-com-traj/"
W = I + "waypoints/"
WPS = [W + f for f in ("waypoints_c0_dc0_c1.hh", "waypoints_c0_dc0_dc1.hh", "waypoints_c0_dc0_dc1_c1.hh",
       "waypoints_c0_dc0_ddc0.hh", "waypoints_c0_dc0_ddc0_c1.hh", "waypoints_c0_dc0_ddc0_dc1_c1.hh",
       "waypoints_c0_dc0_ddc0_ddc1_dc1_c1.hh")]
JWPS = [W + f for f in ("waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh", "waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh",
        "waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh")]

prop("C01", "Every returned CoM trajectory meets exactly the requested boundary conditions",
     "Whenever a centre-of-mass planning call (fixed number of points, time step, or continuous) reports success, the returned curve is a finite 3D curve defined on exactly [0, sum of the phase durations] that starts and ends with every position, velocity and acceleration the request selected. "
     "The final velocity and acceleration reported next to the curve are those of the curve, the free control point reported is the one used in the curve, and the angular momentum rate curve is zero over the same interval.",
     ["inputs", "configurations"],
     "For all eight supported combinations of boundary constraints, all cost functions, formulations and solvers, any number of contact phases and durations, any boundary values (including zero and values at the world origin).",
     "The tests plan a handful of flat/platform motions with zero boundary velocities/accelerations and compare only the curve's time interval; they never evaluate velocity or acceleration at the ends and never use non-zero final values.",
     ["src/computeCOMTraj.cpp", "src/waypoints_definition.cpp", I + "utils.hh"] + WPS,
     [("constant control points per flag", "computeConstantWaypoints in include/hpp/bezier-com-traj/waypoints/*"), ("curve assembly", "computeBezierCurve in utils.hh, genTraj in src/computeCOMTraj.cpp")],
     observe=["ResultDataCOMTraj c_of_t_, dc1_, ddc1_, x, dL_of_t_"])
prop("C02", "A returned CoM trajectory is dynamically feasible in every contact phase",
     "Whenever planning succeeds, at every time the chosen formulation covers (each discretisation instant, both contact configurations at a contact switch; or every instant for the continuous formulation) the gravito-inertial wrench of the trajectory can be produced by admissible contact forces of the contact configuration active then. "
     "In the double-description representation it additionally keeps at least the requested robustness margin to every face of the wrench cone.",
     ["inputs", "configurations"],
     "For all contact sequences (any number of phases, flat or inclined contacts, changing or disjoint contact sets), masses, gravity vectors, durations, boundary values, flags, costs, formulations, solvers and margins.",
     "Tests sample a few fixed motions with one mass, symmetric three-phase sequences and a single discretisation; they cannot cover other phase structures, time grids, flags with non-zero velocities, or instants between samples in general.",
     ["src/computeCOMTraj.cpp", "src/common_solve_methods.cpp", "src/waypoints_definition.cpp"] + WPS,
     [("wrench curve control points", "computeWwaypoints in waypoints headers"), ("cone rows per instant / control point", "assignStabilityConstraints*, computeConstraintsContinuous, updateH in src/computeCOMTraj.cpp"), ("phase switch bookkeeping", "stepIdPerPhase, computeNumIneq, computeNumEqContinuous")],
     observe=["c_of_t_ evaluated against an independent wrench cone membership test on the contact generators"])
prop("C03", "A returned CoM trajectory respects each phase's kinematic limits",
     "Whenever planning succeeds, at every time the chosen formulation covers the centre of mass satisfies all kinematic inequalities of the contact phase active at that time, and of both phases at a contact switch.",
     ["inputs", "configurations"],
     "For all kinematic polytopes (any number of rows per phase, none in some phases, different row counts in neighbouring phases), phase sequences, durations, flags, costs, formulations and solvers.",
     "Tests use the same box polytope for every foot and one time grid, in motions where the kinematic limits are hardly ever active.",
     ["src/computeCOMTraj.cpp", "src/common_solve_methods.cpp", I + "common_solve_methods.hh"],
     [("kinematic rows", "assignKinematicConstraints, computeConstraintsContinuous in src/computeCOMTraj.cpp")],
     observe=["c_of_t_ against Kin_ c <= kin_"])
prop("C04", "Acceleration limits hold when requested and do nothing when not requested",
     "When an acceleration limit is requested and planning succeeds, every component of the acceleration stays within plus or minus that limit at every time the formulation covers. "
     "When it is not requested, the value of the limit has no influence on any result.",
     ["inputs", "configurations"],
     "For all limit values (tight to loose), flags, formulations, solvers, phase sequences, durations and boundary values.",
     "Tests only check whether planning succeeds or fails for a few limits, and never evaluate the acceleration of the result; the not-requested case is only run with the default limit.",
     ["src/computeCOMTraj.cpp", "src/waypoints_definition.cpp"] + WPS,
     [("discretised acceleration rows", "assignAccelerationConstraints in src/computeCOMTraj.cpp"), ("continuous acceleration rows", "computeConstraintsContinuous, computeNumIneqContinuous")],
     observe=["second derivative of c_of_t_; equality of results under a change of the unused limit"])
prop("C05", "Planning fails only when the requested problem is infeasible",
     "If a planning call reports failure, then no position of the free control point satisfies the requested boundary conditions together with the dynamic, kinematic and (if requested) acceleration constraints of the chosen formulation (for the linear solver: or its linear objective is unbounded below on them). "
     "In particular no constraint that was not asked for may make a feasible request fail.",
     ["inputs", "configurations"],
     "For all requests as in C02 whose feasibility margin is not negligible, over all flags, costs, formulations and solvers.",
     "A test asserts success only for the few motions it knows to be feasible; a spurious extra constraint, a wrong sign in a rarely used control point or a solver giving up early shows only on other inputs.",
     ["src/computeCOMTraj.cpp", "src/solver-abstract.cpp", "src/eiquadprog-fast.cpp", "src/glpk-wrapper.cpp", "src/waypoints_definition.cpp"] + WPS,
     [("constraint assembly", "computeConstraintsOneStep, computeConstraintsContinuous in src/computeCOMTraj.cpp"), ("solver status mapping", "solve in src/solver-abstract.cpp")],
     observe=["success_ against an independent feasibility computation on the reference formulation"])
prop("C06", "A returned CoM trajectory minimises the selected cost",
     "Whenever planning succeeds with the quadratic solver, no other feasible trajectory of the same formulation has a lower value of the selected objective: summed squared acceleration over the time samples, distance of the free control point to the middle of the start and goal positions, or deviation of the final velocity from the target velocity (in the force-based representation, up to its small regularisation of the contact forces). "
     "The reported cost is the value of that objective at the reported solution, up to its constant term.",
     ["inputs", "configurations"],
     "For all three objectives, all flags they apply to, formulations, phase sequences, time grids, durations and boundary values; with and without active constraints.",
     "No test looks at the cost or at the optimality of any result; two of the three objectives are never used in a test.",
     ["src/costfunction_definition.cpp", "src/computeCOMTraj.cpp", "src/eiquadprog-fast.cpp", "src/waypoints_definition.cpp"] + WPS,
     [("objective assembly", "genCostFunction in src/costfunction_definition.cpp"), ("final velocity expression", "computeFinalVelocityPoint in waypoints headers")],
     observe=["x and cost_ against an independent constrained least-squares solution"])
prop("C07", "Zero-step capturability answers are correct, with and without angular momentum",
     "When the zero-step capturability query succeeds, the returned trajectory starts from the given position and velocity, comes to rest at its end, its gravito-inertial wrench (including the returned angular momentum rate, when that is enabled) is feasible for the contacts at all times covered, the kinematic limits hold at the rest position and the angular-momentum limits at the free momentum point, and it minimises the documented objective whose value is reported. "
     "When it reports failure, no such motion exists in the formulation.",
     ["inputs", "configurations"],
     "For all initial positions, velocities and angular momenta, durations, time steps (continuous or discretised), contact sets, kinematic and angular-momentum polytopes.",
     "The only tests of this query draw random inputs, are not part of the reliable suite, and never use angular-momentum limits or check the angular momentum curve.",
     ["src/solve_0_step.cpp", "src/common_solve_methods.cpp", I + "solve.hh"],
     [("wrench control points", "w0..w4, u0..u4 in src/solve_0_step.cpp"), ("constraint assembly", "compute6dControlPointInequalities, addKinematic, addAngularMomentum in src/common_solve_methods.cpp"), ("curves and cost", "computeC_of_T, computedL_of_T, computeRealCost in src/solve_0_step.cpp")],
     observe=["result of solve0step"])
prop("C08", "End-effector trajectories meet all boundary conditions and minimise their cost",
     "A successful end-effector plan is a curve on [0, T] whose position, velocity, acceleration and jerk at both ends equal the requested ones, whose free control points are not below the lower of the two end heights, and which, within the built-in limits of 10000 on the control points of velocity, acceleration and jerk, minimises the weighted sum of the (normalised) smoothness (velocity) cost and distance to the given path. It fails only if no such curve exists. "
     "The boundary rows, distance-cost and velocity-cost matrices offered to callers describe that same curve.",
     ["inputs", "configurations"],
     "For one, three and five free control points, all durations, boundary values, path functions and weights in [0,1].",
     "No test calls any of the end-effector functions.",
     [I + "solve_end_effector.hh", "src/waypoints_definition.cpp"] + JWPS,
     [("constraint rows", "computeConstraintsMatrix in solve_end_effector.hh"), ("costs", "computeDistanceCostFunction, computeEndEffectorCost, computeVelocityCost"), ("curve", "computeC_of_T in solve_end_effector.hh")],
     observe=["result of solveEndEffector, computeEndEffectorConstraints, computeDistanceCostFunction, computeVelocityCost"])
prop("C09", "Symbolic control points and evaluations describe the true curve",
     "For every supported set of boundary constraints, the symbolic expressions the library offers (constant control points, their symbolic form, position, velocity, acceleration and jerk expressions at a time, derivative control points, gravito-inertial wrench control points, final velocity) equal those of the unique polynomial curve meeting the boundary conditions, for every value of the free control points.",
     ["inputs", "configurations"],
     "For all boundary values, durations, gravity vectors, evaluation times and values of the free control points, over all ten sets of constraints.",
     "The tests compare a few sampled evaluations of four of the ten constraint sets; the formulas are hundreds of machine-generated coefficients, any one of which may be wrong for inputs not sampled.",
     ["src/waypoints_definition.cpp", I + "utils.hh"] + WPS + JWPS,
     [("per-flag formulas", "waypoints headers"), ("dispatch tables", "src/waypoints_definition.cpp")],
     observe=["evaluate*AtTime, compute*Waypoints*, computeWwaypoints, computeFinalVelocityPoint"])
prop("C10", "The optimisation front end solves every small problem correctly",
     "For a convex quadratic (or linear) program with inequality constraints, linearly independent equality constraints and optional bounds, the solver front end reports success exactly when a bounded optimum exists, and then returns a feasible point, optimal within numerical tolerance, together with the objective value at that point. "
     "It always terminates, never modifies its inputs, ignores bounds that mean unbounded, and a solver object can be reused for problems of any size without its past affecting the answer.",
     ["inputs", "histories"],
     "For all problem sizes, including no constraints, redundant, degenerate, parallel or contradictory constraints, equality-only problems, one-sided and two-sided bounds, many constraints; and all sequences of problems given to one solver object.",
     "No test calls the solver with equalities or bounds of its own, nor examines degenerate or infeasible systems; trajectories in the tests exercise one shape of problem.",
     ["src/solver-abstract.cpp", "src/eiquadprog-fast.cpp", "src/glpk-wrapper.cpp", I + "solver/solver-abstract.hpp", I + "solver/eiquadprog-fast.hpp"],
     [("front end and bounds", "src/solver-abstract.cpp"), ("active set method", "src/eiquadprog-fast.cpp"), ("simplex wrapper", "src/glpk-wrapper.cpp")],
     observe=["solvers::solve, tsid::solvers::EiquadprogFast"])
prop("C11", "Requests the library cannot honour are rejected with an error",
     "A request with a combination of boundary constraints that is not implemented, an unknown objective, an unknown solver, a number of durations different from the number of contact phases, a non-zero final velocity where only zero is supported, a planning call without contact phase, a zero-step query without exactly one contact phase and duration, or a final-velocity objective together with a final-velocity constraint raises an error and never returns a trajectory. "
     "Conversely every implemented combination is accepted.",
     ["configurations", "inputs"],
     "For all 8192 constraint combinations, all objective and solver codes, all mismatched phase counts, through every public entry point that depends on them.",
     "Tests never submit an unsupported request.",
     ["src/waypoints_definition.cpp", "src/costfunction_definition.cpp", "src/computeCOMTraj.cpp", "src/solver-abstract.cpp", I + "utils.hh", W + "waypoints_c0_dc0_dc1.hh"],
     [("dispatch tables with throw", "src/waypoints_definition.cpp"), ("objective table", "src/costfunction_definition.cpp"), ("size check", "src/computeCOMTraj.cpp")],
     observe=["exceptions thrown by computeCOMTraj, computeCOMTrajFixedSize, solveEndEffector and the symbolic functions"])
prop("C12", "Time grids cover every contact phase in order",
     "The discretised time grid of a motion starts at 0 and ends exactly at the total duration, never goes backwards, contains both ends of every phase, does not repeat an instant within a phase, labels every instant with the phase it belongs to, and leaves no gap larger than the requested step (or has exactly the requested number of points in every phase).",
     ["inputs"],
     "For any number of phases, any positive durations (equal, tiny, huge, non-representable), any step or number of points per phase.",
     "Tests re-implement the grid for one duration pattern and compare only its end.",
     ["src/utils.cpp", I + "utils.hh"],
     [("grids", "computeDiscretizedTime, computeDiscretizedTimeFixed in src/utils.cpp")],
     observe=["returned list of (time, phase)"])
prop("C13", "Results depend only on the request, not on what happened before",
     "A call's result is a function of the values in its request alone: earlier successful, failing or rejected calls, other problem descriptions being copied, edited or discarded, and the order of calls never change it. "
     "No call modifies its request, and a copied problem or contact description is independent of the one it was copied from.",
     ["histories"],
     "For all sequences of planning calls (all entry points, solvers and formulations), edits and copies up to a bounded length, on shared and separate problem objects.",
     "Each test makes one or two calls on a fresh problem; carry-over between calls or aliasing between copies needs particular sequences.",
     ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "src/eiquadprog-fast.cpp", "src/glpk-wrapper.cpp", I + "data.hh", I + "solve_end_effector.hh"],
     [("const request, local working data", "src/computeCOMTraj.cpp"), ("deep copy of contact data", "ContactData copy constructor in data.hh"), ("fresh solver per call", "src/solver-abstract.cpp")],
     observe=["bitwise comparison of results along histories; deep comparison of requests"])
prop("C14", "Planning calls may run concurrently",
     "Planning calls made at the same time from several threads, on separate or on one shared read-only problem description, each return exactly what they return when run alone, under every interleaving of their memory accesses.",
     ["schedules"],
     "For all pairs (and same-call pairs) of entry points, and all thread schedules.",
     "No test uses threads, and a race on hidden shared state shows only under particular schedules.",
     ["src/computeCOMTraj.cpp", "src/solve_0_step.cpp", "src/eiquadprog-fast.cpp", "src/solver-abstract.cpp", "src/glpk-wrapper.cpp", "src/waypoints_definition.cpp", "src/costfunction_definition.cpp", "src/utils.cpp"],
     [("no writable shared state", "all sources; static tables are initialised before main")],
     observe=["shared memory accesses of every call; results under controlled schedules"])
prop("C15", "Constraint selections combine as sets",
     "Selections of boundary constraints combine like sets: union, intersection, difference and complement, in both their value and in-place forms, select exactly the expected constraints, and the number of free variables a selection implies is the one it names.",
     ["configurations"],
     "For all pairs of the 8192 selections.",
     "Tests combine two or three flags.",
     [I + "flags.hh", "src/waypoints_definition.cpp"],
     [("bit operators", "flags.hh"), ("free variable count", "dimVar in src/waypoints_definition.cpp")],
     observe=["operator results"])
prop("C16", "Equivalent formulations and solvers agree",
     "For the same request, the force-based and the double-description continuous formulations (with no robustness margin) agree on feasibility and on the optimal objective value, and the linear and quadratic solvers agree on feasibility. "
     "A motion found by the continuous formulation is also accepted by every discretised formulation of the same request.",
     ["inputs", "configurations"],
     "For all contact sequences, flags, durations and boundary values whose feasibility margin is not negligible.",
     "Tests only check that both formulations succeed on a few motions, never that they agree on harder or infeasible ones.",
     ["src/computeCOMTraj.cpp", "src/solver-abstract.cpp", "src/glpk-wrapper.cpp", "src/eiquadprog-fast.cpp"],
     [("two constraint encodings", "computeConstraintsContinuous in src/computeCOMTraj.cpp")],
     observe=["success_, x and objective of paired calls"])
prop("C17", "Planning does not depend on the choice of frame, units or mass",
     "Translating the whole problem, turning or mirroring it about the vertical, rescaling lengths and times consistently, or changing the robot mass transforms the answer accordingly and changes nothing else: feasibility is unchanged and the trajectory is transformed in the same way. "
     "It holds for the planning of the centre of mass; capturability queries and end effector motions (horizontal frames) obey it too. "
     "This includes frames in which a boundary position lies at the origin.",
     ["inputs", "configurations"],
     "For all requests without robustness margin, all transformations in a finite generating set and their compositions, all flags, costs, formulations and solvers.",
     "Every test uses one frame, one mass and nearly one time scale.",
     ["src/computeCOMTraj.cpp", "src/waypoints_definition.cpp", "src/costfunction_definition.cpp", "src/solve_0_step.cpp", "include/hpp/bezier-com-traj/solve_end_effector.hh"] + WPS,
     [("frame independent formulas", "waypoints headers"), ("free control point identification", "computeConstantWaypointsSymbolic in src/waypoints_definition.cpp")],
     observe=["paired calls on original and transformed request"])
prop("C18", "The Python interface returns what the C++ library computes",
     "Every value set through the Python interface reaches the planner unchanged and can be read back, and every planning, capturability and end-effector function called from Python returns the same status, solution, cost and curves as the corresponding C++ call with the same data; attributes that are not defined raise an error, and an object obtained from another one stays valid whatever becomes of that one.",
     ["inputs", "histories", "configurations"],
     "For all sequences of attribute assignments, contact operations and object destructions up to a bounded length and all entry points, flags, objectives, representations and solvers exposed.",
     "The Python test is not part of the reliable suite; it sets each attribute once and checks only that one motion and one query succeed.",
     ["python/bezier_com_traj.cpp"],
     [("accessors and wrappers", "python/bezier_com_traj.cpp")],
     observe=["attribute reads and call results in Python, compared with the C++ library"])
prop("C19", "No well-formed request makes the library access memory it does not own",
     "Every well-formed request, whatever its size (number of phases, inequalities, time points, variables), runs to completion without out-of-bounds access, use of uninitialised or freed memory, arithmetic undefined behaviour, stack overflow or endless loop.",
     ["inputs", "configurations", "histories"],
     "For all request sizes from none to large in each dimension, and all pairs of size choices, through every public entry point and solver.",
     "Tests run a few sizes in an optimised build in which such accesses go unnoticed.",
     ["src/computeCOMTraj.cpp", "src/common_solve_methods.cpp", "src/solver-abstract.cpp", "src/glpk-wrapper.cpp", "src/eiquadprog-fast.cpp", "src/solve_0_step.cpp", "src/utils.cpp", I + "data.hh", I + "solve_end_effector.hh"],
     [("block writes into preallocated matrices", "src/computeCOMTraj.cpp, src/common_solve_methods.cpp"), ("fixed size buffers", "src/glpk-wrapper.cpp")],
     observe=["sanitizer reports, Eigen index assertions, watchdog"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, p["title"]
