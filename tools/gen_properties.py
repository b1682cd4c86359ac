#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Thrust is applied along the steepest descent of Q",
 "For every osculating orbit, target, weighting and set of law parameters at which the control direction is defined, the thrust direction given by the steering angles is the unit vector opposite to Gauss's influence matrix transposed times the gradient of the Lyapunov function Q. Thrusting along it changes Q at the rate -(thrust acceleration)*|D|, which is never positive when propagating forward and which no other unit direction undercuts, and the rate of Q reported for the step has exactly that magnitude.",
 ["inputs"], "all elliptic osculating elements, targets, non-negative weights, law parameters and thrust accelerations of either sign with a non-zero projected gradient",
 "Tests call the angle conversion once without asserting anything and otherwise only check that a few transfers converge; a sign or quadrant slip in one component still converges for favourable cases, and the claim ranges over a continuum of vectors in all octants.",
 ["pyqlaw/_lyapunov.py", "pyqlaw/_symbolic.py", "pyqlaw/_qlaw.py"],
 [("raw direction from influence matrix and gradient", "pyqlaw/_symbolic.py ux,uy,uz in quotient()"),
  ("direction to angles, rate of Q", "pyqlaw/_lyapunov.py _u_to_thrust_angles, lyapunov_control_angles"),
  ("angles back to RTN thrust vector", "pyqlaw/_qlaw.py QLaw.solve (u = accel_thrust*[...])")],
 observe=["return value of pyqlaw.lyapunov_control_angles", "control handed to the integrator in QLaw.solve"])

prop("C02", "Steering uses the exact gradient of Q in every generated evaluator",
 "In both element formulations the Lyapunov gradient returned with the control is the exact partial derivative of the returned Q with respect to each of the five targeted elements. All evaluators generated for one law (control, influence matrix, gradient, rate), with or without common-subexpression elimination, agree with each other: the raw direction is the influence matrix transposed times that gradient and the rate evaluator returns acceleration times its norm.",
 ["inputs", "configurations"], "all elliptic osculating elements, targets, weights and law parameters; both element sets; cse on and off",
 "test_symbolic only checks that generation does not raise; no test differentiates Q, and a wrong derivative in one element is invisible in transfers where that element hardly moves.",
 ["pyqlaw/_symbolic.py"],
 [("symbolic differentiation and code generation", "pyqlaw/_symbolic.py symbolic_qlaw_keplerian.quotient, symbolic_qlaw_mee_with_a.quotient")],
 observe=["the four callables returned by symbolic_qlaw_keplerian / symbolic_qlaw_mee_with_a"])

prop("C03", "Q is the documented proximity quotient and a valid Lyapunov candidate",
 "For both element sets the value Q equals the documented quotient (periapsis penalty, semi-major-axis scaling with |a-aT|, squared element errors over their maximal rates, angular errors taken modulo one turn). It is finite and non-negative for every elliptic non-singular orbit, does not depend on elements whose weight is zero, and is zero exactly when all positively weighted elements are on target.",
 ["inputs"], "all elliptic non-singular osculating elements (e>0, and sin i != 0 for Keplerian), targets, non-negative weights and law parameters, including elements that start exactly on target",
 "No test looks at the value of Q; the claim is an identity and a sign over a ten-plus dimensional continuum including the on-target boundary.",
 ["pyqlaw/_symbolic.py", "docs/source/theory.rst"],
 [("assembly of Q", "pyqlaw/_symbolic.py quotient() in both generators")],
 observe=["third component returned by the generated control function"])

prop("C04", "Equations of motion reproduce Newtonian motion under RTN acceleration",
 "For every elliptic non-singular orbit, gravitational parameter and radial-transverse-normal acceleration, the element rates produced by the equations of motion with the law's influence matrix, pushed through the element-to-Cartesian map, equal velocity and two-body gravity plus that acceleration. This holds for Keplerian elements, modified equinoctial elements and their semi-major-axis variant, in all quadrants of the eccentricity vector, and with control and perturbation entering identically.",
 ["inputs"], "all elliptic states (MEE sets including f<0, f=0), mu>0, control and perturbing accelerations in R^3",
 "Tests evaluate one state per element set, and their assertion compares a reduced boolean so it cannot fail; sign errors in other quadrants are outside the samples.",
 ["pyqlaw/_eom.py", "pyqlaw/_symbolic.py"],
 [("Gauss variational equations", "pyqlaw/_eom.py eom_kep_gauss, eom_mee_gauss, eom_mee_with_a_gauss"),
  ("influence-matrix columns", "pyqlaw/_symbolic.py psi in both generators")],
 observe=["return value of the equations of motion", "influence matrix returned by the generated functions"])

prop("C05", "Keplerian, MEE and SMA-MEE conversions are mutually inverse",
 "Converting any elliptic orbit between Keplerian elements, modified equinoctial elements and the semi-major-axis variant and back returns the same orbit and the same position on it, angles taken modulo one turn. This includes circular and equatorial orbits, for which the recovered angles still describe the same orbit and true longitude, and composite conversions agree with the chained elementary ones.",
 ["inputs"], "all a>0, 0<=e<1, 0<=i<pi and all angles",
 "Tests convert four hand-picked inclined eccentric orbits; quadrants, circular and equatorial cases are never exercised.",
 ["pyqlaw/_elements.py"],
 [("conversions", "pyqlaw/_elements.py kep2mee, mee2kep, mee2mee_with_a, mee_with_a2mee, kep2mee_with_a, mee_with_a2kep")],
 observe=["return values of the conversion functions"])

prop("C06", "Cartesian conversions describe the same orbit and are invertible",
 "For every elliptic orbit, the Cartesian state built from elements has the angular momentum, eccentricity vector, energy and position that the elements define, and extracting elements from that state (together or one by one, plus the period) returns the original ones modulo one turn, never NaN for a well-defined orbit. SMA-MEE to Cartesian gives the same state as going through Keplerian elements, also for circular and equatorial orbits, and sampled orbit coordinates all lie on that orbit and span one full revolution.",
 ["inputs"], "all a>0, 0<e<1, 0<i<pi (and the equatorial/circular cases where stated), all angles, mu>0",
 "Tests cover three orbits sharing inclination and node; boundary arguments such as zero argument of periapsis, retrograde and equatorial orbits are untested.",
 ["pyqlaw/_elements.py", "pyqlaw/_transformations.py"],
 [("elements <-> state", "pyqlaw/_elements.py kep2sv, sv2kep, get_*, mee_with_a2sv, get_orbit_coordinates"),
  ("elementary rotations", "pyqlaw/_transformations.py rotmat1, rotmat3")],
 observe=["return values of the conversion functions"])

prop("C07", "True-to-eccentric anomaly conversion is geometrically exact",
 "For every elliptic orbit and every true anomaly, the eccentric anomaly returned (from true anomaly or from equinoctial elements) satisfies r = a(1 - e cos E) with the same sine sign as the true anomaly, i.e. it names the same point of the orbit, modulo one turn.",
 ["inputs"], "0<=e<1, all true anomalies/longitudes, all orientations of the eccentricity vector",
 "One orbit is tested, comparing the two functions with each other rather than with geometry.",
 ["pyqlaw/_elements.py"],
 [("anomaly conversion", "pyqlaw/_elements.py ta2ea, mee2ea")], observe=["return values of ta2ea and mee2ea"])

prop("C08", "Integrators are consistent Runge-Kutta methods of their stated order",
 "For every right-hand side, time, step (either sign), state and parameter, one rk4 step is an explicit Runge-Kutta step meeting all order-four conditions, and one rkf45 step returns an order-four solution with an embedded order-five estimate driving the suggested step. Stages evaluate the right-hand side at the times and states of that method with the parameters passed through, and the input state is left untouched.",
 ["inputs", "programs"], "all right-hand-side functions, times, step sizes, states and parameters",
 "The test compares the two integrators on one smooth problem at one tiny step with a tolerance that hides a wrong order and even an inconsistent weight.",
 ["pyqlaw/_integrate.py"],
 [("RK tableaux", "pyqlaw/_integrate.py rk4, rkf45")], observe=["return values and right-hand-side calls of rk4 and rkf45"])

prop("C09", "Convergence tests and safeguards decide exactly what they document",
 "The convergence tests report success exactly when every element with non-zero weight is within its tolerance of the target, node and periapsis angles compared modulo one turn, and never for undefined (NaN) elements. The safeguard returns each of the five slow elements moved to the nearest value within its bounds, leaves the rest unchanged, and does not modify the caller's array.",
 ["inputs"], "all osculating and target elements, weights, tolerances and bounds",
 "One element set and two tolerances are tested, with all weights one and equal errors in all elements; wrap-around and zero weights never occur, and the safeguard's result is not asserted.",
 ["pyqlaw/_convergence.py"],
 [("convergence predicates, clamp", "pyqlaw/_convergence.py check_convergence_keplerian, check_convergence_mee, elements_safety")],
 observe=["return values and the argument arrays"])

prop("C10", "Recorded history is a contiguous one-step trajectory",
 "After any solve, times, states, masses and battery have one more entry than controls, efficiencies, bounds, Q and rate histories, and start with the given initial condition at time zero. Each further entry is one integrator step of the recorded time increment from the previous (safeguarded) state under the law's influence matrix at that state, exactly the recorded control at thrust-to-current-mass acceleration (zero when throttled off) plus the perturbation evaluated there; times advance strictly in the direction of the requested step and stop at most one step past the allotted time.",
 ["inputs", "histories", "configurations"], "all problems, settings (element set, integrator, Sundman, perturbations, duty, battery, efficiency settings), directions and numbers of steps",
 "Tests run a handful of complete transfers and check only the convergence flag; the step relation must hold at every step of every run.",
 ["pyqlaw/_qlaw.py"],
 [("propagation loop", "pyqlaw/_qlaw.py QLaw.solve")],
 state=[("times/states/masses/controls/battery/...", "history lists of the last solve", "pyqlaw/_qlaw.py QLaw.solve")],
 observe=["QLaw.times, states, masses, controls, etas, etas_bounds, Qs, dQdts, battery after solve()"])

prop("C11", "Propellant is accounted exactly",
 "At every step of every solve, mass changes by exactly the mass-flow rate times the actual elapsed time when thrusting and not at all when coasting, so forward propagation never gains mass. The acceleration used by the control law and the dynamics is maximum thrust over the current mass, signed with the direction of propagation, and no step is taken from a mass at or below the minimum once propagation has begun.",
 ["inputs", "histories", "configurations"], "all problems, settings and numbers of steps",
 "Only the final exit code of one depleted run is asserted; bookkeeping at each step under duty cycling, battery truncation and both integrators is not.",
 ["pyqlaw/_qlaw.py"], [("mass update and depletion test", "pyqlaw/_qlaw.py QLaw.solve")],
 observe=["QLaw.masses, times, controls after solve()"])

prop("C12", "Exit status truthfully describes the run just made",
 "After every solve, including repeated solves and re-set problems on one object, the exit code is non-zero and the converged flag is set exactly for codes 1 and 2. Code 1 means the last recorded state meets the tolerance; 2 that it meets the relaxed tolerance and that tolerance has been met the configured number of times; -1 that the last mass is at or below the minimum; -2 that the allotted time was used up without meeting the others; -3 that the control was undefined more often than allowed.",
 ["inputs", "histories", "configurations"], "all problems, all sequences of set_problem/solve calls on one object",
 "Every test solves once on a fresh object and checks one code; stale status after a second solve, relaxed exits and undefined-angle exits are never reached.",
 ["pyqlaw/_qlaw.py"], [("exit logic", "pyqlaw/_qlaw.py QLaw.solve")],
 state=[("exitcode/converge", "status of the last solve", "pyqlaw/_qlaw.py QLaw.__init__, QLaw.solve")],
 observe=["QLaw.exitcode, QLaw.converge after solve()"])

prop("C13", "Thrust respects the duty cycle",
 "In forward and backward propagation alike, no thrusting step starts more than the ON duration after the start of its ON arc, and once an ON arc has expired no thrusting step starts before the OFF duration has elapsed. Outside expiry, battery depletion or recharge the duty cycle never withholds thrust.",
 ["inputs", "histories", "configurations"], "all problems, ON/OFF durations, step sizes of either sign, battery settings",
 "One example uses a duty cycle and asserts nothing about it; the claim concerns every prefix of every run and both propagation directions.",
 ["pyqlaw/_qlaw.py"], [("duty-cycle state machine", "pyqlaw/_qlaw.py QLaw.solve (duty, t_last_ON, t_last_OFF)")],
 state=[("duty, t_last_ON, t_last_OFF", "duty-cycle phase", "pyqlaw/_qlaw.py QLaw.solve locals")],
 observe=["QLaw.controls (throttle) against QLaw.times"])

prop("C14", "Battery level is physical and gates thrust",
 "For an initial level within capacity, the recorded battery level stays within capacity, and in forward propagation every step changes it by minus the discharge rate or plus the charge rate times the elapsed time, saturating only when full. No step thrusts from an empty battery or for longer than the stored charge allows, and when full recharge is required no thrust occurs between depletion and the next full level.",
 ["inputs", "histories", "configurations"], "all problems with charge/discharge rates >= 0, capacities and step sizes, both integrators, Sundman on and off",
 "Two examples run with a battery without asserting its history; saturation, truncation of the last step and recharge phases depend on long histories.",
 ["pyqlaw/_qlaw.py"], [("battery bookkeeping and gating", "pyqlaw/_qlaw.py QLaw.solve (battery_iter, charging)")],
 state=[("battery_iter, charging", "battery level and recharge phase", "pyqlaw/_qlaw.py QLaw.solve locals")],
 observe=["QLaw.battery, controls, times after solve()"])

prop("C15", "Coasting follows the effectivity thresholds",
 "Whenever thrust is available and a threshold is positive, the step thrusts exactly if absolute and relative effectivity both reach their thresholds; they compare the current |dQ/dt| with its largest and smallest magnitude over one revolution of the osculating orbit sampled including the current position, so both lie in [0,1], forward and backward. Thresholds given as callables are evaluated with the current time, elements, mass and battery, the values used are the ones recorded, and invalid threshold types are rejected.",
 ["inputs", "histories", "configurations"], "all problems, constant or callable thresholds, grid sizes, both directions and element sets",
 "The eta tests run one transfer to completion without asserting effectivities or coasting decisions; backward propagation with thresholds only checks convergence.",
 ["pyqlaw/_qlaw.py"], [("effectivity evaluation", "pyqlaw/_qlaw.py QLaw.evaluate_osculating_qdot"), ("coasting decision", "pyqlaw/_qlaw.py QLaw.solve")],
 observe=["QLaw.etas, etas_bounds, controls; return value of evaluate_osculating_qdot"])

prop("C16", "Sundman steps advance the eccentric anomaly by the requested angle",
 "With the Sundman option every full step lasts exactly the time the osculating two-body orbit needs to sweep the requested eccentric-anomaly increment according to Kepler's equation, for both element sets, any position on the orbit and either sign of the increment; its sign is the sign of the increment. Without the option every full step has the requested length, and only an emptying battery may shorten a step.",
 ["inputs", "configurations"], "all elliptic osculating orbits, all increments of either sign",
 "Sundman runs are only checked for convergence, forward in time.",
 ["pyqlaw/_qlaw.py", "pyqlaw/_elements.py"], [("step-size selection", "pyqlaw/_qlaw.py QLaw.solve (use_sundman branch)")],
 observe=["increments of QLaw.times"])

prop("C17", "Perturbing accelerations are the physical ones, in the RTN frame",
 "The J2 acceleration is the gradient of the J2 potential about the given pole, the third-body acceleration equals direct minus indirect point-mass attraction, and the radiation term points away from the Sun and falls with the inverse square of distance, for all positions. The inertial-to-RTN matrix is a proper rotation onto the radial, transverse and normal directions, and the total perturbation is the rotated sum of exactly the enabled terms for either element set.",
 ["inputs", "configurations"], "all positions r != 0, body positions, pole orientations, unit scalings, flag combinations and third-body lists",
 "No stable test touches perturbations: the examples that do need ephemeris kernels and are skipped.",
 ["pyqlaw/_perturbations.py"],
 [("acceleration models", "pyqlaw/_perturbations.py perturbation_third_body_battin, perturbation_J2, perturbation_SRP"),
  ("frame and assembly", "pyqlaw/_perturbations.py pxformECI2RTN, SpicePerturbations.get_perturbations_RTN")],
 observe=["return values"])

prop("C18", "Exports and Cartesian histories represent the recorded solution",
 "The exported dictionary lists, for every recorded time, the equinoctial elements of the recorded state and its mass for either element set, and the recorded control as the same unit RTN direction (or angles) and throttle that were applied, padded by one coasting entry. The Cartesian history converts every recorded state with the problem's gravitational parameter (or the interpolated states at evenly spaced times spanning the run), and writing the file stores the same data.",
 ["inputs", "histories", "configurations"], "all solved problems of both element sets, all export options",
 "Tests call the export for equinoctial runs and delete the file without reading it.",
 ["pyqlaw/_qlaw.py"], [("export and history", "pyqlaw/_qlaw.py QLaw.save_to_dict, get_cartesian_history, interpolate_states")],
 observe=["returned dictionary, JSON file, returned arrays"])

prop("C19", "Solving and reporting never modify user inputs or recorded results",
 "Setting up, solving and reporting (printing, exporting, converting, plotting) leave the caller's arrays and lists and the problem definition unchanged. Entries already recorded during a solve are never altered afterwards, and reporting leaves the whole recorded solution and status untouched.",
 ["inputs", "histories", "configurations"], "all problems and all sequences of solve and reporting calls",
 "Tests never compare inputs or histories before and after a call.",
 ["pyqlaw/_qlaw.py", "pyqlaw/_convergence.py", "pyqlaw/_plot_methods.py"],
 [("propagation and reporting", "pyqlaw/_qlaw.py QLaw methods"), ("safeguard", "pyqlaw/_convergence.py elements_safety"), ("plotting", "pyqlaw/_plot_methods.py")],
 observe=["caller's arrays, QLaw attributes before and after calls"])

prop("C20", "Settings reach the control law under their own names; invalid ones are refused",
 "Every user setting (gravitational parameter, periapsis limit and its gain, scaling and penalty parameters, weights, target, tolerances, bounds, thresholds) is used by the control law, the effectivity evaluation, the dynamics and the convergence tests in its own role at every step, never swapped, stale or defaulted. Non-positive gravitational parameters, unknown element sets or integrators, wrong-length elements, weights or tolerances, too small minimum masses, relaxation factors below one and solving before a problem is set are rejected.",
 ["inputs", "histories", "configurations"], "all constructor and set_problem arguments, all steps of all runs",
 "Tests use default law parameters almost everywhere, so swapped parameters with equal or irrelevant values go unnoticed, and no rejection is tested.",
 ["pyqlaw/_qlaw.py", "pyqlaw/_lyapunov.py"], [("parameter plumbing", "pyqlaw/_qlaw.py QLaw.__init__, set_problem, solve, evaluate_osculating_qdot"), ("argument order", "pyqlaw/_lyapunov.py lyapunov_control_angles")],
 observe=["arguments received by the generated control function, integrator and convergence test; raised exceptions"])

prop("C21", "Angle wrapping, rotations and plot geometry are exact",
 "Wrapping returns the unique equivalent angle in [-pi, pi) for every angle. The elementary rotation matrices are proper rotations about their axis by the given angle that compose additively, sphere and ellipsoid coordinates lie on the surface with the given centre and radii, and equal-axis limits give the same span on every axis and contain the requested ranges for scale at least one.",
 ["inputs"], "all angles, radii, centres, ranges",
 "No test looks at these values; plots are generated and closed.",
 ["pyqlaw/_transformations.py", "pyqlaw/_plot_helper.py"],
 [("helpers", "pyqlaw/_transformations.py wrap, rotmat1-3; pyqlaw/_plot_helper.py")], observe=["return values, axis limits"])

prop("C22", "Undefined control directions are coasted through, counted and bounded",
 "Whenever the control angles come out undefined (NaN), that step coasts: zero thrust, zero throttle, no propellant, finite recorded angles. The run continues as long as such steps do not outnumber the configured allowance and stops with code -3, without recording the offending step, at the first one beyond it; coasting before the first thrust arc is handled the same way and never raises.",
 ["inputs", "histories", "configurations"], "all problems, allowances and patterns of undefined directions, including from the very first step",
 "The test for undefined angles is commented out in the repository; no test reaches this path.",
 ["pyqlaw/_qlaw.py"], [("NaN policy", "pyqlaw/_qlaw.py QLaw.solve")],
 observe=["QLaw.controls, masses, exitcode after solve()"])

prop("C23", "A solve depends only on the current problem and settings",
 "The histories, status and exports produced by a solve are a function of the constructor settings, the current problem definition and the thresholds passed; earlier solves, earlier problems and reporting calls on the same object have no influence, and repeating a solve reproduces it exactly.",
 ["histories", "configurations"], "all sequences of set_problem, solve and reporting calls before a solve",
 "Each test uses each object for one solve.",
 ["pyqlaw/_qlaw.py"], [("initialisation of run state", "pyqlaw/_qlaw.py QLaw.solve prologue")],
 observe=["all QLaw result attributes"])

prop("C24", "Reachable targets are reached",
 "For targets within the spacecraft's control authority and non-singular transfers, propagation under the control law converges to the target within the allotted time.",
 ["inputs", "configurations"], "all problems with low control authority and non-singular elements",
 "Tests sample about ten transfers.",
 ["pyqlaw/_qlaw.py", "pyqlaw/_symbolic.py"], [("closed loop", "pyqlaw/_qlaw.py QLaw.solve")], observe=["QLaw.converge"])

prop("C25", "Propagation error is controlled by the step size in floating point",
 "The propagated elements of a coasting or constant-thrust arc differ from the exact solution by no more than a bound that shrinks with the step size until rounding dominates.",
 ["inputs", "configurations"], "all arcs and step sizes in IEEE double precision",
 "Tests compare two integrators at one step.",
 ["pyqlaw/_integrate.py", "pyqlaw/_eom.py"], [("integration in double precision", "pyqlaw/_integrate.py")], observe=["QLaw.states"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
