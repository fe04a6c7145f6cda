#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ("The 12 existing tests exercise only block-matrix construction, matrix concatenation, Euler-angle conversion and one "
     "triple integrator on fixed data; ")
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, tech=tech, note=note))

p("C01", "Every constraint form keeps its meaning in every solver representation",
  "Whatever form a task uses to state its constraints (dense, sub-block, indexed or gain-weighted indexed; two-sided, lower, upper, equality or equality to zero), converting it to dense two-sided, dense lower-bounded, dense equality or indexed-bounds form yields rows that describe exactly the same set of points, in the rows reserved for it and nowhere else. "
  "Conversions that a form does not support, and tasks whose matrices and bounds have mismatching sizes, are rejected with an error. "
  "Intersecting indexed bounds gives for each variable the tightest lower and upper bound, infinite where nothing constrains it, and contradictory bounds are rejected.",
  ["inputs", "configurations"], "All 20 constraint forms, any sizes (including zero rows), offsets, repeated indices, gains, bounds, mixed on one level in any order.",
  T + "none of them builds a constraint.",
  ["core/include/humoto/constraints.h", "core/include/humoto/constraints_base.h", "core/include/humoto/constraints_mixins.h", "core/include/humoto/hierarchy_level.h", "core/include/humoto/qp_problem.h"],
  [("conversion mixins", "core/include/humoto/constraints_base.h"), ("bounds and body mixins", "core/include/humoto/constraints_mixins.h"), ("bound intersection", "core/include/humoto/constraints_base.h")],
  tech="generated levels of mixed constraint forms against a dense reference model of each row (row-by-row comparison plus membership of random points)")

p("C02", "The optimisation objective is the sum of squared task residuals",
  "For a level made of equality tasks of any form, the quadratic objective handed to a solver equals, up to a constant, half the sum of squared residuals of all tasks at every point, with a symmetric matrix when the full matrix is requested and a correct lower triangle otherwise. "
  "The declared matrix structure (diagonal, generic, lower triangular) is true of the matrix, and a level containing an inequality is rejected as an objective. Reusing one problem object for successive problems gives the same objective as a fresh one.",
  ["inputs", "histories"], "Any sequence of levels with any mixture and order of equality forms, sizes, offsets, repeated indices and gains.",
  T + "no objective is ever formed.",
  ["core/include/humoto/qp_problem.h", "core/include/humoto/hierarchy_level.h", "core/include/humoto/constraints.h", "core/include/humoto/constraints_mixins.h", "core/include/eigentools/eigentools.h"],
  [("sum of A'A and A'b over tasks", "core/include/humoto/hierarchy_level.h"), ("objective initialisation", "core/include/humoto/qp_problem.h")],
  tech="generated levels; differential comparison with a dense least-squares reference and finite evaluation at random points; reuse of one object over a history")

p("C03", "Reported violations and active sets agree with the constraints",
  "For any solution vector, the violation reported for each constraint is the signed amount by which its value leaves its bounds (negative below the lower bound, positive above the upper bound, zero inside, the residual for an equality). "
  "The determined activation of each constraint is equality for equalities and coinciding bounds, lower or upper when the value is at or beyond that bound, undefined for contradictory bounds and inactive otherwise, at the place that the hierarchy assigns to the constraint.",
  ["inputs"], "Any hierarchy of mixed constraint forms, any solution vector, including vectors exactly on bounds.",
  T + "none evaluates a constraint.",
  ["core/include/humoto/constraints_mixins.h", "core/include/humoto/violations.h", "core/include/humoto/active_set.h", "core/include/humoto/hierarchy.h", "core/include/humoto/hierarchy_level.h"],
  [("violation computation", "core/include/humoto/constraints_mixins.h"), ("active set determination", "core/include/humoto/constraints_mixins.h"), ("violation storage", "core/include/humoto/violations.h")],
  tech="generated hierarchies and points (dyadic data so that on-bound cases are exact) against an independent evaluator")

p("C04", "Hierarchy bookkeeping is consistent over any history of formings",
  "After a hierarchy is formed, the places of its tasks on each level are disjoint, cover exactly all constraints of the level and put general constraints before simple ones, and all reported counts match. "
  "The active-set guess of a task is its own previous actual active set if the task declared itself unchanged and one is available, otherwise equality or inactive by kind; an actual active set given back reaches every task unchanged at its own place. "
  "This holds after any sequence of forming (with or without guesses), task size changes, task parameter changes and hierarchy resets.",
  ["histories", "inputs"], "Any sequence of form / resize / change gain / mark unmodified / give back active set / reset operations on any hierarchy.",
  T + "no test forms a hierarchy.",
  ["core/include/humoto/hierarchy.h", "core/include/humoto/hierarchy_level.h", "core/include/humoto/task.h", "core/include/humoto/task_generic.h", "core/include/humoto/active_set.h"],
  [("forming and locating tasks", "core/include/humoto/hierarchy_level.h"), ("guessing and write-back of active sets", "core/include/humoto/task.h"), ("change tracking of generic tasks", "core/include/humoto/task_generic.h")],
  tech="stateful model-based generation: operation sequences on a hierarchy against an in-memory model")

p("C05", "The equality-constrained solver returns the constrained minimiser",
  "For every one- or two-level hierarchy of equality tasks with a unique solution, the built-in solver returns the point that satisfies the first level and minimises the squared residuals of the last one, by every solution method that applies, and reports success. "
  "The result does not depend on what the same solver object solved before. Hierarchies that it cannot handle (inequalities, more than two levels, a non-diagonal objective for the elimination method) are rejected with an error.",
  ["inputs", "histories"], "Any sequence of well-posed equality hierarchies, of any sizes, on one solver object; all three methods.",
  T + "no test calls a solver.",
  ["core/include/kktsolver.h", "core/include/humoto/solver.h", "core/include/humoto/hierarchy.h", "core/include/humoto/qp_problem.h"],
  [("direct KKT solution and elimination", "core/include/kktsolver.h"), ("problem extraction", "core/include/humoto/hierarchy.h")],
  tech="generated well-conditioned hierarchies; null-space reference solver and optimality conditions; history on one solver object against fresh objects")

p("C06", "Solution parts are disjoint, contiguous and carried over by name",
  "The parts of a solution occupy consecutive, non-overlapping ranges in the order in which they were added and cover all variables; reading or writing a part by name touches exactly its range, and an unknown name denotes an empty part. "
  "A guess initialised from an older solution copies every part that has the same name and length in both and is zero everywhere else.",
  ["inputs", "histories"], "Any sequence of structures, part names and lengths (including zero-length parts), any data.",
  T + "the solution class is not tested.",
  ["core/include/humoto/solution.h", "core/include/humoto/control_problem.h", "core/include/humoto/utility.h"],
  [("part map", "core/include/humoto/solution.h"), ("location arithmetic", "core/include/humoto/utility.h")],
  tech="generated structures and histories against a map-based model")

p("C07", "Condensed prediction matrices reproduce step-by-step simulation",
  "For any linear time-varying system, the condensed state and output matrices applied to an initial state and a control sequence give exactly the states and outputs of simulating the system step by step, for every storage variant (block, dense, time-invariant, several control groups) and any horizon length from one. "
  "All variants agree with each other and system matrices of mismatching number or size are rejected.",
  ["inputs"], "Any horizon length, state, control and output dimensions, any matrices, any control sequence.",
  T + "condensing is not tested.",
  ["core/include/humoto/control_problem.h", "core/include/eigentools/blockmatrix_base.h"],
  [("condensing", "core/include/humoto/control_problem.h")],
  tech="generated systems; differential comparison with direct simulation, and between variants")

p("C08", "Block matrices behave like the dense matrices they stand for",
  "Every block matrix kind (generic, block diagonal, block lower triangular, Kronecker with identity) evaluates to the dense matrix with its blocks in place and zeros elsewhere, and products with matrices, vectors and block matrices, access to and updates of blocks, block rows and block columns, selection of one row of every block, and copies equal the same operation on the dense matrices, for fixed and dynamic block sizes and whatever the output held before. "
  "Matrices that do not consist of whole blocks, and block diagonal factors of a mismatching size, are rejected instead of giving a result.",
  ["inputs", "programs"], "Any block sizes (including non-square), numbers of blocks, contents and operand kinds.",
  "The existing block-matrix tests use a few fixed sizes and mostly check creation and element access.",
  ["core/include/eigentools/blockmatrix_base.h", "core/include/eigentools/blockmatrix.h", "core/include/eigentools/blockmatrix_kronecker.h"],
  [("block matrix operators", "core/include/eigentools/blockmatrix_base.h"), ("Kronecker products", "core/include/eigentools/blockmatrix_kronecker.h")],
  tech="generated block matrices and operations; every result compared with the same operation on dense expansions")

p("C09", "Matrix utilities compute what they name, for every shape",
  "The linear-algebra helpers (symmetrisation, normal-matrix products with offset, row and column removal, concatenation, block diagonal and Kronecker assembly, cross products, point transformation, row selection) return the mathematically defined result for every admissible shape including empty and one-element operands, and touch nothing else. Out-of-range indices and operands of mismatching sizes are rejected.",
  ["inputs"], "Any matrix shapes and contents, any offsets and indices.",
  "The existing tests cover concatenation on three fixed examples.",
  ["core/include/eigentools/eigentools.h", "core/include/eigentools/cross_product.h"],
  [("helpers", "core/include/eigentools/eigentools.h"), ("cross product matrix", "core/include/eigentools/cross_product.h")],
  tech="generated matrices against naive reference implementations and algebraic laws")

p("C10", "Anything written as configuration reads back identical",
  "For every configurable object of the library and its modules, writing it to a configuration file and reading that file into another object of the same type, whatever that object held before, restores every configured value exactly, including vectors, matrices of any shape, strings, enumerations and nested objects. "
  "Several objects written to one file under different names do not disturb each other, in whatever order they are read.",
  ["inputs", "histories"], "All configurable classes, any field values, any number and order of sections in one file.",
  T + "no test touches configuration.",
  ["core/include/config.h", "core/include/config/define_accessors.h", "bridges/config_msgpack/interface/config_msgpack/reader.h", "bridges/config_msgpack/interface/config_msgpack/writer.h", "core/include/rigid_body", "modules/wpg04/include/wpg04/common.h", "modules/wpg04/include/wpg04/model_state.h", "modules/pepper_mpc/include/pepper_mpc/common.h", "modules/pepper_mpc/include/pepper_mpc/model_state.h"],
  [("entry macros", "core/include/config/define_accessors.h"), ("msgpack writer and reader", "bridges/config_msgpack/interface/config_msgpack")],
  tech="write/read round trip over generated objects and multi-section files, checked field by field")

p("C11", "Missing, partial or malformed configuration is defaulted or rejected cleanly",
  "Reading a section that is absent or lacks an entry fails with an error in strict mode and otherwise leaves exactly the missing values at their defaults and takes all present values. "
  "An entry of the wrong type or size, a truncated file or arbitrary bytes lead to an error or to defaults, never to a crash, a hang or an out-of-bounds access. A failed read leaves the reader usable for the other sections of the file.",
  ["inputs", "fault_sequences"], "Any subset of entries removed, any entry replaced by any other type or size, any truncation or byte corruption of a file.",
  T + "no malformed input is ever tried.",
  ["core/include/config.h", "core/include/config/define_accessors.h", "bridges/config_msgpack/interface/config_msgpack/reader.h", "core/include/rigid_body", "core/include/humoto/task.h", "modules/wpg04/include/wpg04/common.h", "modules/wpg04/include/wpg04/model_state.h", "modules/pepper_mpc/include/pepper_mpc/common.h", "modules/pepper_mpc/include/pepper_mpc/model_state.h"],
  [("strict and relaxed reading", "core/include/config.h"), ("node access", "bridges/config_msgpack/interface/config_msgpack/reader.h")],
  tech="structured mutation and byte-level fuzzing of configuration files under address and undefined-behaviour sanitizers with a reference expectation per field")

p("C12", "A hierarchy described by configuration is the hierarchy that was written",
  "An optimisation problem whose hierarchy, task names and task parameters are read from configuration contains on every level exactly the named tasks with the configured parameters, and writing it and reading it back gives the same hierarchy. "
  "An unknown task name or an inconsistent description is rejected with an error, and a later read fully replaces what an earlier one set up. Where a description need not be complete, an absent parameter of a walking task has the value that a newly created task has.",
  ["inputs", "histories"], "Any hierarchy over the available tasks, any parameters, any sequence of reads and writes.",
  T + "configurable problems are not tested.",
  ["core/include/humoto/configurable_optimization_problem.h", "modules/wpg04/include/wpg04/configurable_optimization_problem.h", "modules/pepper_mpc/include/pepper_mpc/configurable_optimization_problem.h"],
  [("reading tasks by name", "core/include/humoto/configurable_optimization_problem.h")],
  tech="generated hierarchies; round trip and comparison with the generated description")

p("C13", "The log contains every entry, complete, in order and in the documented format",
  "Everything logged by one thread appears in the output exactly once, unchanged and in the order in which it was logged, and nothing is lost when the logger is destroyed or switched to another output while messages are still queued. "
  "Parsing the output as the documented assignment syntax gives back the logged names and, to the printed precision, the logged scalars, strings, vectors and matrices with their shape.",
  ["schedules", "histories", "inputs"], "Any sequence of values and names, any pauses between them, any moment of destruction or of a switch of output, threaded and single-threaded logging.",
  T + "the logger is not tested.",
  ["core/include/humoto/logger.h"],
  [("message queue and writer thread", "core/include/humoto/logger.h"), ("entry names", "core/include/humoto/logger.h")],
  tech="generated logging histories with random pauses; the output is parsed back and compared with the history")

p("C14", "Rotation conversions, errors and integration are mutually consistent",
  "Conversions between rotation matrices and Euler angles of every supported sequence are inverse to each other as rotations, and converting between sequences preserves the rotation. "
  "The angle-rate transformation maps angle rates to the angular velocity of the corresponding rotation, for rotations less than half a turn apart the rotation error vanishes only when they are equal and has the direction and sign that reduces it, and integrating an angular velocity yields an orientation that agrees with exact integration to the order of the method.",
  ["inputs"], "Any angles (near-singular ones as rotations only), any angular velocity, any time step.",
  "The existing test converts three fixed sets of angles.",
  ["core/include/rigid_body/rotary_state.h", "core/include/rigid_body/rigid_body_state.h"],
  [("conversions and integration", "core/include/rigid_body/rotary_state.h")],
  tech="generated rotations against elementary rotation matrices, axis-angle and numerical differentiation")

p("C15", "Integrator models and polynomials satisfy their defining equations",
  "For each control type of the triple integrator (jerk, acceleration, velocity, position), one step brings the controlled quantity to its commanded value (or applies the jerk) and moves the state exactly as a constant jerk would; sub-step evaluation at the end of the step equals the full step and at its beginning leaves the state unchanged. "
  "Cubic polynomials take the prescribed values and derivatives at both ends and their velocity and acceleration are the derivatives of their position everywhere.",
  ["inputs"], "Any step, sub-step, state and control; any boundary values and durations.",
  "The existing test checks one state and one step.",
  ["core/include/rigid_body/triple_integrator.h", "core/include/rigid_body/cubic_polynomial.h"],
  [("closed-form matrices", "core/include/rigid_body/triple_integrator.h"), ("coefficients", "core/include/rigid_body/cubic_polynomial.h")],
  tech="generated steps against exact constant-jerk integration and boundary conditions")

p("C16", "The stance sequence is a legal walk and its preview is its future",
  "For any walk parameters, the stance sequence starts in the chosen stance (double support by default), ends in double support, separates single supports by transitional double supports, alternates the supporting foot from the chosen first one, contains exactly the requested number of steps, and each stance lasts as configured. "
  "Advancing time in any increments leads to the same stance and remaining time as advancing at once, and a preview lists exactly the stances and durations that actually follow without changing the walk.",
  ["histories", "configurations"], "Any parameters, any split of time into increments, any preview length.",
  T + "walking is not tested.",
  ["core/include/walking/stance_finite_state_machine.h"],
  [("state switching", "core/include/walking/stance_finite_state_machine.h"), ("time shifting and preview", "core/include/walking/stance_finite_state_machine.h")],
  tech="stateful generation: time-advance and preview histories against a stance-list model")

p("C17", "Foot trajectories connect the prescribed states smoothly",
  "A swing-foot trajectory starts at the initial and ends at the final pose with the prescribed velocities (zero unless given), reaches the step height in the middle, and is continuous; at every moment the reported velocity and acceleration are the time derivatives of the reported position.",
  ["inputs"], "Any initial and final poses, step height, duration, and evaluation time.",
  T + "trajectories are not tested.",
  ["core/include/walking/foot_trajectory.h", "core/include/rigid_body/cubic_polynomial.h"],
  [("piecewise cubic", "core/include/walking/foot_trajectory.h")],
  tech="generated trajectories checked at boundaries and against numerical differentiation")

p("C18", "The point-mass walking model follows inverted-pendulum dynamics",
  "One step of the model with a constant centre-of-pressure velocity moves the mass exactly as the inverted pendulum equation prescribes: the resulting centre of pressure is the commanded one, two half steps equal one full step, and evaluation within a step agrees with it at both ends. "
  "The centre of pressure reported for a state is position minus height over gravity times acceleration.",
  ["inputs"], "Any height, gravity-compatible time constant, time step, sub-step, state and command.",
  T + "the model is not tested.",
  ["core/include/walking/point_mass_model_6z.h"],
  [("closed-form matrices", "core/include/walking/point_mass_model_6z.h")],
  tech="generated states and steps against high-order numerical integration of the pendulum equation and composition laws")

p("C19", "Foot geometry is mirror symmetric and position transforms invert",
  "The bounds on foot positions and centre of pressure derived from foot parameters are mirror images for the left and right foot, contain the admissible set described by the parameters, and do not depend on how often they are derived. Converting a foot position to the average double-support position and back returns the original, for both feet.",
  ["inputs", "configurations"], "Any foot parameters, any foot poses.",
  T + "foot parameters are not tested.",
  ["core/include/walking/robot_foot_parameters.h", "core/include/humoto/leftright.h"],
  [("derived bounds", "core/include/walking/robot_foot_parameters.h"), ("left-right container", "core/include/humoto/leftright.h")],
  tech="generated parameters; mirror relation, inverse relation and reference formulas")

p("C20", "The walking preview horizon matches the stance schedule",
  "The preview horizon of the walking controller has exactly the configured number of intervals, each with the stance type, orientation and reference that the stance schedule prescribes for its time, with times that add up without gaps; the variable steps and intervals refer to each other consistently. "
  "This holds after any history of time shifts and updates.",
  ["histories", "configurations"], "Any walk and controller parameters, any history of updates.",
  T + "the controller is not tested.",
  ["modules/wpg04/include/wpg04/preview_horizon.h", "modules/wpg04/include/wpg04/mpc_wpg.h", "core/include/walking/stance_finite_state_machine.h"],
  [("forming the preview horizon", "modules/wpg04/include/wpg04/preview_horizon.h")],
  tech="stateful generation over walks against the independent stance model")

p("C21", "Walking controller predictions equal the motion that is then executed",
  "For any solution vector, the predicted centre-of-pressure, centre-of-mass and footstep trajectories of the walking controller are those obtained by simulating the pendulum model interval by interval from the current state; the next state and the interpolated states it returns lie on that prediction. "
  "Over a closed-loop walk the predicted motion does not change when the horizon is shifted and the solution is shifted with it, and the feet alternate with landings where predicted. The solution guess for the next iteration moves centres of pressure by one interval and keeps the footsteps that are still to be made; it takes what it can from a solution of another walk or horizon. Predictions beyond the horizon or before a solution is given are refused.",
  ["histories", "inputs"], "Any walk parameters, states and solution vectors along closed-loop histories.",
  T + "the controller is not tested.",
  ["modules/wpg04/include/wpg04/mpc_wpg.h", "modules/wpg04/include/wpg04/model.h", "modules/wpg04/include/wpg04/model_state.h", "core/include/walking/point_mass_model_6z.h"],
  [("prediction matrices", "modules/wpg04/include/wpg04/mpc_wpg.h"), ("state update", "modules/wpg04/include/wpg04/model.h")],
  tech="closed-loop histories with generated solution vectors; predictions against interval-by-interval simulation")

p("C22", "Walking tasks express exactly their stated goals",
  "Each task of the walking controller, evaluated at any solution, has as residual the gain-weighted difference between the predicted quantity it names (centre-of-mass velocity, centre-of-pressure position or velocity) and its reference, or as bounds exactly the limits it names (centre of pressure inside the supporting feet, footsteps inside the reachable area, terminal condition); fixed footsteps are the longest ones with the smallest distance between the feet. The guessed activation of the bounds follows the previous active set as time advances by one interval and stays valid when another walk begins.",
  ["inputs", "histories"], "Any walk, state, gains and solution vector.",
  T + "tasks are not tested.",
  ["modules/wpg04/include/wpg04/task_comvelocity.h", "modules/wpg04/include/wpg04/task_copbounds.h", "modules/wpg04/include/wpg04/task_copposition.h", "modules/wpg04/include/wpg04/task_copvelocity.h", "modules/wpg04/include/wpg04/task_footstepbounds.h", "modules/wpg04/include/wpg04/task_terminalconstraint.h"],
  [("task forming", "modules/wpg04/include/wpg04")],
  tech="task rows evaluated at generated solutions against quantities recomputed by direct simulation")

p("C23", "The mobile-base model obeys its dynamics and pressure-point equation",
  "One step of the base (velocity-controlled) and the body (jerk-controlled) of the mobile robot model follows constant-jerk motion exactly and brings the base to the commanded velocity; evaluation within a step agrees with it at both ends. "
  "The centre of pressure is that of the two point masses with their masses, heights and accelerations, and the masses and heights of the model survive any sequence of state updates.",
  ["inputs", "histories"], "Any masses, heights, states, controls and step; any update history.",
  T + "the model is not tested.",
  ["modules/pepper_mpc/include/pepper_mpc/two_point_mass_model.h", "modules/pepper_mpc/include/pepper_mpc/model.h", "modules/pepper_mpc/include/pepper_mpc/model_state.h"],
  [("model matrices", "modules/pepper_mpc/include/pepper_mpc/two_point_mass_model.h"), ("state update", "modules/pepper_mpc/include/pepper_mpc/model.h")],
  tech="generated states and histories against exact constant-jerk motion and the two-mass moment balance")

p("C24", "The mobile-base preview horizon follows the commanded motion queue",
  "The preview horizon of the mobile-base controller has exactly the configured number of intervals, and each interval takes its references, times and bounds from the commanded motion active at its time; an interval follows the motion that is active at its end, and a queue that ends before the horizon stops the controller. Shifting time by any number of intervals gives the horizon that was previewed, and shifting by any time leaves exactly the rest of the queue.",
  ["histories", "inputs"], "Any queue of motions, any parameters, any history of shifts.",
  T + "the controller is not tested.",
  ["modules/pepper_mpc/include/pepper_mpc/preview_horizon.h", "modules/pepper_mpc/include/pepper_mpc/common.h"],
  [("horizon forming and shifting", "modules/pepper_mpc/include/pepper_mpc/preview_horizon.h")],
  tech="generated motion queues and shift histories against a list model")

p("C25", "Mobile-base controller predictions equal the motion that is then executed",
  "For any solution vector, the predicted positions, velocities, accelerations, jerks and centre of pressure of the mobile-base controller are those obtained by simulating the model interval by interval; states queried at any time within the horizon, at the end of any interval, and as the next state lie on that prediction. The solution guess for the next iteration is the current solution shifted by one interval, cut or filled with zeros if the horizon has another length.",
  ["histories", "inputs"], "Any parameters, states, motions and solution vectors along closed-loop histories; any query time.",
  T + "the controller is not tested.",
  ["modules/pepper_mpc/include/pepper_mpc/mpc_mg.h", "modules/pepper_mpc/include/pepper_mpc/model.h"],
  [("prediction matrices and state queries", "modules/pepper_mpc/include/pepper_mpc/mpc_mg.h")],
  tech="closed-loop histories with generated solution vectors; predictions against interval-by-interval simulation")

p("C26", "Mobile-base tasks express exactly their stated goals",
  "Each task of the mobile-base controller, evaluated at any solution, has as residual the gain-weighted difference between the predicted quantity it names (base position, base velocity, body position, jerk, centre of pressure) and its reference, or as bounds exactly the limits it names (velocity, acceleration, body position, centre of pressure) at every interval. The guessed activation of the bounds is the previous active set shifted by one interval.",
  ["inputs", "histories"], "Any parameters, states, motions, gains and solution vectors.",
  T + "tasks are not tested.",
  ["modules/pepper_mpc/include/pepper_mpc"],
  [("task forming", "modules/pepper_mpc/include/pepper_mpc")],
  tech="task rows evaluated at generated solutions against quantities recomputed by direct simulation")

p("C27", "QP solver bridges hand over the hierarchy and hand back the result",
  "For every hierarchy that a QP solver can handle, each solver bridge gives its solver library a problem whose objective is, up to a constant, half the sum of squared residuals of the last level (plus half the configured regularisation times the squared norm) and whose admissible points are exactly those of the first level, and returns the point found by the library unchanged. "
  "Success, iteration limit and any other failure of the library are reported as such and, if so configured, raised as an error. Configured options, limits, solution guesses and active-set guesses reach the library in its own convention and are used for that call only; the returned working set is reported for each constraint of the hierarchy at its place, with only the tightest of several bounds on a variable active. Unsuitable hierarchies and parameters are rejected. None of this depends on what the solver object solved before.",
  ["inputs", "histories", "configurations"], "Any one- or two-level hierarchy of mixed constraint forms, any parameters, guesses and library results; any sequence of problems through one solver object; qpOASES, qpmad and QuadProg++ bridges.",
  T + "the solver libraries are not even available here, so that the bridges are not compiled.",
  ["bridges/qpOASES/interface/qpoases/solver.h", "bridges/qpmad/interface/qpmad/solver.h", "bridges/QuadProgpp/interface/quadprogpp/solver.h", "bridges/qpOASES/interface/qpoases/solution.h", "bridges/qpmad/interface/qpmad/solution.h", "bridges/QuadProgpp/interface/quadprogpp/solution.h", "core/include/humoto/solver.h", "core/include/humoto/qp_problem.h"],
  [("qpOASES bridge", "bridges/qpOASES/interface/qpoases/solver.h"), ("qpmad bridge", "bridges/qpmad/interface/qpmad/solver.h"), ("QuadProg++ bridge", "bridges/QuadProgpp/interface/quadprogpp/solver.h"), ("solver front end", "core/include/humoto/solver.h")],
  tech="the bridges compiled against recording stand-ins for the solver libraries; generated hierarchies compared pointwise with the recorded problem, exact minimisers by enumeration of working sets, scripted library results")

p("C28", "Kinematics of the rigid-body bridge are those of the loaded model",
  "For every kinematic tree and configuration, positions, orientations and poses that the rigid-body bridge reports for links, points on links and centres of mass (of one link, of a set of links, of the whole model) are those of the tree; Jacobians are the derivatives of these positions and the angular velocities, and masses are those of the links, where a movable link carries the links that are fixed to it. Results follow the last configuration that was set. "
  "Models that cannot be read and links that do not exist are rejected with an error.",
  ["inputs", "histories"], "Any tree of fixed and movable links with any joints, any configuration, link, point and set of links; any sequence of updates.",
  T + "the kinematics library is not available here, so that the bridge is not compiled.",
  ["bridges/rbdl/interface/rbdl/model.h", "bridges/rbdl/interface/rbdl/tag.h", "bridges/rbdl/interface/rbdl/spatial_transform.h"],
  [("tags and queries", "bridges/rbdl/interface/rbdl/model.h")],
  tech="generated kinematic trees in a stand-in for RBDL (validated against reference values of the repository); results against an independent forward kinematics")

p("C29", "The humanoid model reports its own kinematics and only executable commands",
  "For each variant of the humanoid inverse-kinematics model (root at the torso, at the tibia, planar root), at any configuration and after any updates, the reported centres of mass, masses, poses, Jacobians and deviations from the desired motion are those of the robot in that configuration, and the description of the robot (order and limits of joints, root pose accessors, reordering between variants) agrees with the robot model that is shipped with it; poses that a planar root cannot have are rejected. "
  "The command for a motion contains the target joint angles, the velocity of the base and the wheel velocities that roll without slipping to produce it; following the command for its whole interval leads to the target, and for a part of it to the corresponding part. Commands and transitions beyond joint position, joint velocity or wheel velocity limits, with undefined values, with root motion where it is not allowed, or without a saved state are rejected, all others are accepted.",
  ["inputs", "histories"], "Any robot of this structure, any configurations, motions and intervals; three model variants.",
  T + "the kinematics library is not available here, so that the module is not compiled.",
  ["modules/pepper_ik/include/pepper_ik/model.h", "modules/pepper_ik/include/pepper_ik/model_description.h", "modules/pepper_ik/include/pepper_ik/generalized_coordinates.h"],
  [("queries, commands and checks", "modules/pepper_ik/include/pepper_ik/model.h"), ("joint order, limits, wheels", "modules/pepper_ik/include/pepper_ik/model_description.h")],
  tech="the shipped robot and generated variations of it; results against an independent forward kinematics, no-slip equations of the wheels of the shipped robot, and limit predicates")

p("C30", "Inverse-kinematics tasks express exactly their stated goals",
  "Each task of the whole-body inverse-kinematics controller, evaluated at any increment of the configuration, has as residual the gain-weighted difference between the resulting displacement of the quantity it names (centre of mass of base or body along the chosen axes, orientation of the base, joint angles, orientation, velocity or pose of a link) and the prescribed fraction of its error, or as bounds exactly the distances to the joint limits; fixed arms and head do not move. This holds for any model variant, for tasks constructed or configured, and for tasks that are reused with another configuration, link or model. "
  "Velocities prescribed for a link in its own frame are converted to the velocity of that link in the global frame and, over the control interval, to its prescribed pose. The next configuration is the current one plus the solution, and a solution is used at most once. Unknown links and axes are rejected.",
  ["inputs", "histories", "configurations"], "Any configuration, gains, references, links and solution; any sequence of iterations, reconfigurations and models; three model variants.",
  T + "the kinematics library is not available here, so that the module is not compiled.",
  ["modules/pepper_ik/include/pepper_ik/whole_body_controller.h", "modules/pepper_ik/include/pepper_ik/task_tagpose.h", "modules/pepper_ik/include/pepper_ik/task_bodycom.h", "modules/pepper_ik/include/pepper_ik/task_baseorient.h", "modules/pepper_ik/include/pepper_ik/task_jointsref.h"],
  [("task forming", "modules/pepper_ik/include/pepper_ik"), ("prescribed velocities and poses of links", "modules/pepper_ik/include/pepper_ik/whole_body_controller.h")],
  tech="histories of iterations; task rows evaluated at generated solutions against quantities of an independent forward kinematics")

p("C31", "Every way of calling a solver checks, initialises, solves and reports",
  "Whichever entry point of the solver interface is used (with or without parameters, a solution guess, an active-set guess, a returned active set) and whatever was solved before, a solver built on it refuses hierarchies it does not support without solving them, is initialised for this problem before anything else, is given exactly the guesses of this call, solves once with the parameters last given, and returns its own point, status and active set. A status other than success is raised as an error, with the description of the status, if and only if the parameters say so. Setting parameters resets the solver. A QP solver accepts only one- or two-level hierarchies with an equality objective, and only when that interpretation is enabled.",
  ["inputs", "histories", "configurations"], "Any sequence of calls through any entry point on one user-defined solver object of each of the five kinds, any parameters, guesses, statuses and hierarchies.",
  T + "no test calls a solver.",
  ["core/include/humoto/solver.h", "core/include/humoto/solution.h", "core/include/humoto/active_set.h"],
  [("solver front end", "core/include/humoto/solver.h")],
  tech="call histories on user-defined solvers that record and check what the front end tells them, against a model of the contract")

p("C32", "YAML configuration is read back, defaulted or rejected like any other",
  "For every configurable object, writing it with the YAML bridge and reading that file into another object, whatever that held before, restores every configured value (numbers to the 15 digits that are written), alone or together with other objects in one file, in any order, whether flushed or not, and the file is valid YAML with exactly the described entries. Files written by other tools, with entries in any order, are read alike, and values pass unchanged through both bridges. An absent section or entry is an error in strict mode and leaves the default otherwise; entries of the wrong kind or size, damaged files, missing files and files that cannot be written are reported without a crash and without effect on later reads of other sections. The configuration files that come with the library, in whatever order and style their entries are written, are read by the classes they are meant for (in strict mode, except for core/config/qpoases.yaml, which leaves parameters at their defaults), every one of their entries is understood, and in strict mode none of them may be missing.",
  ["inputs", "histories", "configurations"], "All configurable classes, any finite values and printable texts, any set and order of sections, any damage to the file.",
  T + "the YAML library version it needs is not available here, so that the bridge is not compiled.",
  ["bridges/config_yaml/interface/config_yaml/reader.h", "bridges/config_yaml/interface/config_yaml/writer.h", "bridges/config_yaml/interface/config_yaml.h", "core/include/config.h", "core/include/config/define_accessors.h"],
  [("YAML reader", "bridges/config_yaml/interface/config_yaml/reader.h"), ("YAML writer", "bridges/config_yaml/interface/config_yaml/writer.h")],
  tech="round trips through the YAML bridge, an independent YAML reader and writer and the other bridge; generated omissions, wrong entries and damage")

p("C33", "The log of an object shows what the object contains",
  "Whenever an object of the framework is logged (states of masses and rigid bodies, foot parameters, stances, hierarchies and their tasks, active sets, violations, solutions, quadratic programs, solvers, previews, models, controllers, commands), under its default or any other name and below any parent, through a given or the global logger, the log contains exactly one entry for each of its quantities, named after that quantity below the requested name, with the value that the quantity has in the object; elements of lists are numbered from one and complete.",
  ["inputs", "histories", "configurations"], "Any state of any loggable object, any names and parents.",
  T + "log output is never examined by a test.",
  ["core/include/humoto/logger.h", "core/include/humoto/task.h", "core/include/humoto/hierarchy.h", "core/include/humoto/hierarchy_level.h", "core/include/humoto/constraints_base.h", "core/include/humoto/constraints_mixins.h", "core/include/humoto/qp_problem.h", "core/include/humoto/active_set.h", "core/include/humoto/violations.h", "core/include/humoto/solution.h", "core/include/rigid_body/rigid_body_state.h", "core/include/rigid_body/point_mass_state.h", "core/include/rigid_body/rotary_state.h", "core/include/walking/robot_foot_parameters.h", "core/include/walking/stance_finite_state_machine.h", "core/include/kktsolver.h", "modules/wpg04/include/wpg04/mpc_wpg.h", "modules/wpg04/include/wpg04/model.h", "modules/wpg04/include/wpg04/model_state.h", "modules/wpg04/include/wpg04/preview_horizon.h", "modules/pepper_mpc/include/pepper_mpc/mpc_mg.h", "modules/pepper_mpc/include/pepper_mpc/preview_horizon.h", "modules/pepper_mpc/include/pepper_mpc/model.h", "modules/pepper_mpc/include/pepper_mpc/model_state.h", "modules/pepper_ik/include/pepper_ik/model.h", "modules/pepper_ik/include/pepper_ik/generalized_coordinates.h", "bridges/qpOASES/interface/qpoases/solution.h", "bridges/qpmad/interface/qpmad/solution.h", "bridges/QuadProgpp/interface/quadprogpp/solution.h"],
  [("log methods", "core/include/humoto"), ("log methods of modules", "modules/wpg04/include/wpg04")],
  tech="generated objects logged under generated names; a parser of the documented format and a comparison with the contents of the object")

p("C34", "Units, ranges, sides, stopwatches and obstacles hold what they are given",
  "Milliseconds converted to seconds and back are unchanged, seconds are rounded to the nearest or truncated to the elapsed millisecond as named, degrees and radians convert into each other without loss, and the square inscribed in a circle has its corners on it. "
  "A range fits into a given number of elements exactly if it ends within them (a range that wraps around fits nowhere); a container of left and right data returns for each side what was last stored or copied there, and rejects anything that is not a side. "
  "A stopwatch reports the time between its last start and its stop, whatever happened before, and prints it without changing the format of the stream. An obstacle has exactly the state it was last given (zero where nothing was given), also after it is stored in and read from a configuration file.",
  ["inputs", "histories"], "Any quantities, any sequence of stores and copies, any history of the clock.",
  T + "these conversions and containers are not tested.",
  ["core/include/humoto/time.h", "core/include/humoto/utility.h", "core/include/humoto/leftright.h", "bridges/obstacle_avoidance/obstacles/obstacle_base.h"],
  [("unit conversions and stopwatch", "core/include/humoto/time.h"), ("ranges and geometry", "core/include/humoto/utility.h"), ("left and right", "core/include/humoto/leftright.h"), ("obstacle state", "bridges/obstacle_avoidance/obstacles/obstacle_base.h")],
  tech="generated quantities and operation histories against exact references; a generated clock behind gettimeofday")

CLAIMED = [l.strip() for l in open(os.path.join(V, "tools", "claimed.txt")) if l.strip()]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "hook_needed": None}
        if q["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]]
        if q["observe"]: a["observe_at"] = list(q["observe"])
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": q["id"], "quick_cmd": "python3 check.py %s quick" % q["id"], "thorough_cmd": "python3 check.py %s thorough" % q["id"],
                 "technique": "property-based testing: " + q["tech"], "level": "exploration",
                 "level_note": q["note"] or "Generated-input search against an explicit oracle on the real headers; no absence claim beyond the generated cases."} for q in P if q["id"] in CLAIMED],
     "not_applicable": [{"property": q["id"], "reason": "check not built yet"} for q in P if q["id"] not in CLAIMED]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
