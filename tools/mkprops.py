import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"where":Q+": QLaw"} for x in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
Q="pyqlaw/_qlaw.py"
add("C01","Recorded histories are complete, aligned and start at the stated problem",
"After every solve, whatever ended it, the time, state, mass and battery histories have one more entry than the control, efficiency, threshold, Lyapunov-value and Lyapunov-rate histories, and every executed step contributes exactly one entry to each. The first entries are time zero and the initial elements (Keplerian: after the safety bounds), mass and battery that were set; the recorded times run strictly in the direction of the step size. Solving never crashes on a problem whose thruster happens to be disabled from the first step on.",
["inputs","configurations","histories"],"for every accepted problem, option set and termination cause, including runs that end before the first step or start with the thruster disabled",
"Tests only look at the convergence flag of a few successful runs; no test looks at the histories of runs ended by mass, time, NaN or a depleted battery.",
[Q],[("solve loop bookkeeping",Q+": QLaw.solve")],["times","states","masses","controls","etas","etas_bounds","Qs","dQdts","battery"],["return of solve()"])
add("C02","The reported verdict is true of the final recorded state",
"After every solve the exit code tells the truth: 1 only if the final state meets the tolerances, 2 only if the relaxed tolerances (tolerance times the relaxation factor) were met at the final state and on the configured number of steps in total, -1 only if the final mass is at or below the minimum mass, -2 only if the allotted time is used up without any of these, -3 only if the steering angles were undefined more often than allowed. The converged flag is true exactly for codes 1 and 2. When several causes coincide on the last step the code is the first of tolerance, relaxed tolerance, mass, time.",
["inputs","configurations","histories"],"for every problem, tolerance, relaxation setting, and every history of steps and coincidence of terminal causes",
"Tests assert the flag on a few converging runs and the mass exit once; the relaxed count, coincident causes and their ordering are never reached.",
[Q,"pyqlaw/_convergence.py"],[("exit code assignment",Q+": QLaw.solve"),("convergence test","pyqlaw/_convergence.py")],["exitcode","converge"],["return of solve()"])
add("C03","A solve stops at the first terminal condition, never earlier or later",
"No state recorded before the last one already meets the tolerances, the relaxed-tolerance count, the mass limit or the time limit, and the run does not continue past a state that does. A run never stops without one of the documented causes. With a non-zero step every run ends, and it overshoots the allotted time by less than one step.",
["inputs","configurations","histories"],"for every problem and every interleaving of convergence, relaxed convergence, propellant use and time along the trajectory, in both time directions",
"A test sees one trajectory and its final flag; a loop that runs one step too far or stops one step early still converges.",
[Q],[("loop guard and break conditions",Q+": QLaw.solve")],["times","masses","states","exitcode"],["return of solve()"])
add("C04","Mass changes exactly by the mass-flow rate while thrusting",
"Over every step in which the thruster fires the recorded mass changes by exactly the mass-flow rate times the signed length of that step, and over every coasting step it does not change at all; the recorded throttle is 1 for firing steps and 0 otherwise. This holds for both integrators, both element sets, shortened and anomaly-based steps, and both time directions. Total propellant used therefore equals mass-flow rate times total thrusting time.",
["inputs","configurations","histories"],"for every history of thrusting, efficiency coasts, duty-cycle coasts, battery coasts and undefined-steering steps",
"The only mass test checks that a run ends when mass runs out, not by how much mass changes on which step.",
[Q],[("mass update",Q+": QLaw.solve")],["masses","controls","times"],["return of solve()"])
add("C05","Thruster duty cycle respects its ON and OFF windows",
"With a duty cycle given, the thruster is enabled from time zero, is disabled at the first step boundary at which more than the ON time has elapsed since it was last enabled, and is enabled again at the first step boundary at which more than the OFF time has elapsed since it was last disabled; battery depletion counts as being disabled at that moment. While disabled the vehicle never thrusts and consumes no propellant. The windows are measured in elapsed time, so they hold in both time directions and for variable step lengths.",
["inputs","configurations","histories"],"for every ON/OFF pair, step size, number of cycles, time direction and interaction with the battery",
"One example runs a duty cycle and only asserts convergence; a shifted, stretched, one-shot or ignored window still converges.",
[Q],[("duty-cycle toggles",Q+": QLaw.solve")],["controls","etas_bounds","times"],["return of solve()","threshold callables"])
add("C06","Battery level follows its energy balance and stays within capacity",
"Over every forward step the battery drops by the discharge rate times the step length when the thruster is enabled (also when it is enabled but coasting for efficiency) and rises by the charge rate times the step length when it is disabled, clipped to the stated minimum and maximum capacity. The step length used is the one the state was propagated over, for either integrator. The battery is therefore within its capacity bounds after every step.",
["inputs","configurations","histories"],"for every capacity, rates, initial level, step length, integrator and thrust/coast history in forward time",
"The battery example asserts only convergence; wrong rates, swapped rates or missing clipping do not prevent convergence.",
[Q],[("battery update",Q+": QLaw.solve")],["battery","times","controls"],["return of solve()"])
add("C07","No thrust on an empty battery; full recharge is honoured when required",
"On a step that starts with the battery at its minimum capacity the thruster is disabled, and with a positive discharge rate no enabled step uses more energy than is available above the minimum. If full recharge is required, then after depletion the thruster stays disabled until the battery has reached maximum capacity; if it is not required, the thruster becomes available again as soon as the battery is above minimum and the OFF time has passed.",
["inputs","configurations","histories"],"for every history of depletion and recharge events, with and without required full recharge, combined with duty cycles",
"The example asserts only convergence; nothing checks the hysteresis between depletion and full recharge.",
[Q],[("depletion and recharge gates",Q+": QLaw.solve")],["battery","controls","etas_bounds"],["return of solve()","threshold callables"])
add("C08","Coasting is decided by the efficiency thresholds, and by nothing else",
"On every enabled step with defined steering the vehicle coasts exactly when the absolute efficiency (current Lyapunov rate over the best rate around the orbit) or the relative efficiency (current minus worst, over best minus worst rate) is below its threshold, where best and worst are taken over the configured number of evenly spaced points of the current osculating orbit; with both thresholds zero it never coasts for efficiency. Thresholds may be numbers or functions, and functions are evaluated at each such step with the current time, elements, mass and battery. The recorded efficiencies and thresholds are those used in the decision, and they are undefined on steps where the thruster is disabled.",
["inputs","configurations","histories"],"for every state along every trajectory, threshold pair (constant or function of time, state, mass, battery), grid size and time direction",
"One test passes functions for the thresholds and asserts convergence; wrong arguments, swapped thresholds or a wrong best/worst rate still converge.",
[Q],[("efficiency gate",Q+": QLaw.solve"),("rates around the orbit",Q+": QLaw.evaluate_osculating_qdot")],["etas","etas_bounds","controls"],["return of solve()","threshold callables"])
add("C09","Each step advances by the configured time or eccentric-anomaly increment",
"Each step has exactly the configured length, or, with anomaly-based stepping, the Keplerian time needed to advance the eccentric anomaly by the configured (signed) increment from the current osculating orbit. The only exception is a step that would take an enabled thruster below the minimum battery level: it is shortened to end exactly at that level.",
["inputs","configurations","histories"],"for every step of every trajectory, both element sets, any eccentricity and position on the orbit, either sign of the increment, and every battery history",
"One test runs anomaly stepping on one orbit and asserts convergence; wrong step lengths change only how densely the path is sampled.",
[Q,"pyqlaw/_elements.py"],[("step length selection",Q+": QLaw.solve"),("eccentric anomaly","pyqlaw/_elements.py: ta2ea, mee2ea")],["times","states","battery"],["return of solve()"])
add("C10","Steering is the steepest descent of the documented Lyapunov function",
"At every state the thrust direction minimises the instantaneous rate of the documented proximity quotient (weighted, scaled squared distances over maximal element rates, times the periapsis penalty) at fixed acceleration, for all supported parameter values and both element sets. The recorded Lyapunov value equals that quotient, and the recorded Lyapunov rate has the magnitude of the acceleration times the norm of its gradient in thrust space, the achievable rate of decrease (positive in forward, negative in backward runs). Elements with zero weight do not influence the steering.",
["inputs","configurations"],"for every non-singular state, target, weights, periapsis and scaling parameters, gravitational parameter, acceleration and both element sets",
"Tests only check that a few transfers converge; a wrong term in the quotient or its gradient still drives toward the target.",
["pyqlaw/_symbolic.py","pyqlaw/_lyapunov.py",Q],[("symbolic quotient and gradient","pyqlaw/_symbolic.py"),("thrust angles","pyqlaw/_lyapunov.py")],["Qs","dQdts","controls"],["lyapunov_control_angles","return of solve()"])
add("C11","The recorded controls reproduce the recorded trajectory",
"Starting from any recorded state, applying for that step the recorded direction with acceleration of maximum thrust over recorded mass (nothing when the recorded throttle is 0), plus the configured perturbation evaluated once at the start of the step, and integrating the element equations with the selected integrator over the recorded time step gives the next recorded state; the effect of acceleration on the five slow elements is the one at the start of the step. Steps recorded as coasting move only under gravity and perturbations. In backward runs the applied acceleration is the reverse of the recorded direction.",
["inputs","configurations","histories"],"for every step of every recorded trajectory, both element sets, both integrators, with and without perturbations, in both time directions",
"Tests never replay a recorded control; an inconsistency between recorded and applied control is invisible to a convergence flag.",
[Q,"pyqlaw/_eom.py","pyqlaw/_integrate.py"],[("control application and propagation",Q+": QLaw.solve")],["states","controls","masses","times"],["return of solve()","perturbations object"])
add("C12","Element conversions preserve the orbit and round-trip",
"Converting between Cartesian state, Keplerian elements, modified equinoctial elements and the semimajor-axis variant, in any order and any number of times, preserves position, velocity, energy, angular momentum and eccentricity vector; angles may differ by whole turns only. Individual element extractors, the orbital period, the anomaly conversions and the sampled orbit agree with the same orbit. This holds for every bounded non-degenerate orbit in every quadrant, including circular or equatorial ones and ones whose periapsis lies on the line of nodes, and for any gravitational parameter.",
["inputs","histories"],"for every elliptic orbit and anomaly, any gravitational parameter, and every chain of conversions",
"Tests convert a few hand-picked orbits with angles in the first quadrant and unit gravitational parameter.",
["pyqlaw/_elements.py","pyqlaw/_transformations.py"],[("conversion functions","pyqlaw/_elements.py"),("rotation matrices","pyqlaw/_transformations.py")],None,["public conversion functions"])
add("C13","Element rates are the physical effect of acceleration on the orbit",
"For both element sets the rate of change of all six elements under a radial-transverse-normal acceleration equals the derivative of those elements along Newtonian motion with that acceleration, and without acceleration five elements are constant and the anomaly or longitude advances at the Keplerian rate. The sensitivity columns returned with the steering law are those of the current state. This holds in every quadrant of every angle and for any gravitational parameter.",
["inputs"],"for every non-singular bounded orbit, every acceleration vector and any gravitational parameter",
"Tests compare with stored numbers at one state in the first quadrant.",
["pyqlaw/_eom.py","pyqlaw/_symbolic.py"],[("Gauss equations","pyqlaw/_eom.py"),("sensitivity columns","pyqlaw/_symbolic.py")],None,["equations of motion functions","symbolic sensitivity functions"])
add("C14","Integrator steps have their stated order and error control",
"One step of the fixed-step integrator is the classical fourth-order Runge-Kutta step and one step of the adaptive one is the fourth-order Fehlberg step, for any right-hand side (including explicitly time-dependent ones), state dimension, step size and sign. The suggested next step equals the current one times 0.84 times the fourth root of tolerance over the norm of the embedded fourth/fifth-order difference, and a vanishing difference is not an error.",
["inputs","programs"],"for every right-hand side, start time, state, parameter, step size of either sign and tolerance",
"The test integrates one autonomous problem and compares with loose tolerance, so a wrong coefficient or stage time passes.",
["pyqlaw/_integrate.py"],[("Runge-Kutta steps","pyqlaw/_integrate.py")],None,["rk4, rkf45"])
add("C15","Perturbing accelerations match their physical models",
"The third-body, oblateness and solar-pressure accelerations equal the corresponding physical model (difference of point-mass attractions, gradient of the oblateness potential in body axes rotated back, inverse-square push away from the Sun) for any geometry, and the radial-transverse-normal frame is orthonormal, right-handed and aligned with position and angular momentum. The combined perturbation is the sum of exactly the enabled terms at the epoch given by reference time plus elapsed time in the stated units, expressed in that frame. No third bodies is a valid configuration.",
["inputs","configurations"],"for every spacecraft and body geometry, body rotation, unit scaling, epoch and combination of enabled terms",
"There is no reliable test of the perturbation code at all (the example needs kernel files that are not available).",
["pyqlaw/_perturbations.py"],[("perturbation models","pyqlaw/_perturbations.py")],None,["perturbation functions","get_perturbations_RTN"])
add("C16","Convergence is judged per element, by weight, tolerance and wrapped angle",
"A state counts as converged exactly when every element with non-zero weight is within its own tolerance of the target (inclusive); elements with zero weight never matter. Keplerian node and periapsis angles are compared modulo a full turn along the shorter way round; all other elements are compared by plain absolute difference, and the anomaly is ignored.",
["inputs","configurations"],"for every state, target, weight pattern and tolerance vector, on either side of each boundary and any number of turns",
"One test checks a single case; boundary, sign, wrap and weight combinations are not sampled.",
["pyqlaw/_convergence.py",Q],[("convergence predicates","pyqlaw/_convergence.py")],None,["check_convergence_*","return of solve()"])
add("C17","Safety bounds keep the Keplerian iteration inside its limits",
"In Keplerian runs each of the five slow elements is clamped into its configured minimum and maximum before every step, so every step starts inside the bounds; elements inside the bounds and the anomaly are never altered. Equinoctial runs are never clamped. User-supplied bounds replace the defaults.",
["inputs","configurations","histories"],"for every state and bound vector, including infinite bounds, and every step of a run that drifts out of bounds",
"No test drives a run out of bounds or gives its own bounds.",
["pyqlaw/_convergence.py",Q],[("clamping","pyqlaw/_convergence.py: elements_safety"),("use in loop",Q+": QLaw.solve")],["states"],["elements_safety","return of solve()"])
add("C18","Runs are repeatable, independent and leave user data untouched",
"Solving the same problem again, on the same object or a fresh one, after any other sequence of setting problems, solving, plotting, printing or exporting, gives identical histories and verdict. Nothing the user passed in is modified, objects do not influence each other, and neither verbosity nor reporting or plotting changes any result. Solving before a problem has been set is refused.",
["histories","configurations"],"for every sequence of public calls on one or several objects",
"Each test builds one object, solves once and stops; call sequences and shared arrays are never exercised.",
[Q],[("state initialisation",Q+": QLaw.__init__, set_problem, solve")],["all recorded histories","exitcode","converge"],["return of every public call"])
add("C19","Exports and Cartesian histories describe the recorded trajectory",
"The exported dictionary and file contain the recorded times and final time, the recorded states as modified equinoctial elements of the same orbits with the recorded masses appended, and one control row per time (angles and throttle, or the equivalent radial-transverse-normal unit vector and throttle, closed by the zero-angle row), with file and dictionary equal. The Cartesian history gives for every recorded time the position and velocity of the recorded elements; the interpolated version passes through the recorded states at their times and covers exactly the transfer interval. Exporting does not alter the recorded data.",
["inputs","configurations","histories"],"for every solved run, both element sets, any gravitational parameter, export option and interpolation setting",
"No test looks at exported or Cartesian data.",
[Q,"pyqlaw/_elements.py"],[("export",Q+": save_to_dict"),("Cartesian history",Q+": get_cartesian_history, interpolate_states")],["times","states","masses","controls"],["save_to_dict","get_cartesian_history"])
add("C20","Undefined steering is tolerated exactly as often as configured",
"On a step whose steering is undefined the vehicle coasts with zero angles, uses no propellant, and the run goes on; only when the number of such steps exceeds the configured allowance does the run end, with its own exit code and without recording the step that exceeded it. Steps with defined steering or a disabled thruster never count.",
["inputs","configurations","histories"],"for every allowance and every pattern of undefined-steering steps among thrusting, coasting and disabled steps",
"No test reaches an undefined steering angle.",
[Q],[("undefined-angle handling",Q+": QLaw.solve")],["controls","exitcode","masses"],["return of solve()"])
add("C21","Invalid configurations are refused, valid ones take effect as documented",
"Non-positive gravitational parameter, unknown element set or integrator, wrong number of elements, weights or tolerances, a relaxation factor below one, a too small minimum mass, or a threshold that is neither a float nor a function is refused with an error and is never silently ignored. Every documented option of a valid configuration takes effect with its documented default, including a six-component target (its anomaly is dropped), the default tolerances, weights and element bounds.",
["inputs","configurations"],"for every combination of valid and invalid arguments to construction, problem setting and solving",
"Tests only use valid configurations and never vary most options.",
[Q],[("argument checks and defaults",Q+": QLaw.__init__, set_problem, solve")],None,["construction, set_problem, solve","attribute assignment"])
add("C22","Plots and reports depict the recorded history",
"The plotted curves are the recorded histories (elements, converted elements, mass, battery, controls, efficiencies, Lyapunov values, trajectory with initial and final orbit) in the requested units, and angles shown wrapped lie in minus pi to pi and differ from the recorded ones by whole turns. Sphere and ellipsoid helpers return points on the requested surface, and equal-axis limits are centred on the data with one common range. The printed reports show the problem's and the final state's actual values.",
["inputs","configurations","histories"],"for every solved run, both element sets, unit scaling and plot option, and every helper argument",
"Tests and examples only call the plot functions; nothing looks at what is drawn or printed.",
["pyqlaw/_plot_methods.py","pyqlaw/_plot_helper.py","pyqlaw/_transformations.py",Q],[("plot methods","pyqlaw/_plot_methods.py"),("helpers","pyqlaw/_plot_helper.py"),("reports",Q+": pretty*")],None,["returned figure and axes","standard output"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
