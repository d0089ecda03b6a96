prop("C01", "Isentropic ratios, their inverses and the flow velocity obey the energy law",
     "For every Mach number and specific heat ratio, the stagnation to static temperature ratio is 1+(gamma-1)/2 M^2 and the pressure ratio its isentropic power. "
     "The Mach number recovered from either ratio is the non-negative one that gives the ratio back, and the velocity computed from Mach number and total temperature is Mach times the local speed of sound of the gas asked for.",
     ["inputs"], "all Mach numbers >= 0, specific heat ratios > 1, gas constants and temperatures, scalar or array, gamma given or defaulted",
     "Existing tests do not exercise the isentropic module directly except through a few values at gamma 1.4; the law must hold for all gamma and Mach and any array shape.",
     ["aerokit/aero/Isentropic.py"], [("closed-form ratios and inverses", "aerokit/aero/Isentropic.py")])
prop("C02", "Section ratio and mass flow are consistent and inverted on the asked branch",
     "The ratio of a section to the sonic section and the mass flow per unit area are those of the isentropic flow, so that their product is the choked mass flow at every Mach number. "
     "The subsonic (supersonic) Mach number computed from a section ratio is on that branch and gives the ratio back; given a guess per point, each point stays on the branch of its guess.",
     ["inputs"], "all Mach numbers, section ratios >= 1, specific heat ratios 1.05..2.5 (supersonic inverse: gamma >= 1.1, Mach <= 6), scalar or array",
     "Tests compare a handful of values at gamma 1.4; convergence of the inverse and the branch depend on every (ratio, gamma) pair.",
     ["aerokit/aero/MassFlow.py"], [("Newton iteration from a branch-dependent initial guess", "aerokit/aero/MassFlow.py")])
prop("C03", "A normal shock conserves mass, momentum and energy and obeys the second law",
     "For every upstream Mach number above 1 and every specific heat ratio, the pressure, density, temperature, Mach number and total pressure behind a normal shock conserve mass, momentum and energy and do not decrease entropy. "
     "The Mach numbers recovered from a static or total pressure ratio give that ratio back, and a stronger shock always compresses and loses more.",
     ["inputs"], "all upstream Mach numbers >= 1 and specific heat ratios 1.05..2.5, scalar or array; total pressure inverse for 1.03 <= Mach <= 6",
     "Tests compare a few values, mostly for gamma 1.4, and never the conservation laws or entropy.",
     ["aerokit/aero/ShockWave.py"], [("Rankine-Hugoniot closed forms", "aerokit/aero/ShockWave.py"), ("secant inverse of the total pressure ratio", "aerokit/aero/IterativeSolve.py")])
prop("C04", "Oblique shock angles, deflections and limits belong to one shock polar",
     "The deflection of an oblique shock conserves tangential velocity and, given instead by its pressure ratio, also gives a downstream Mach number of unchanged total temperature. "
     "Weak, strong and iterative shock angles give the deflection back on their own branch and on the side of the deflection, and the maximum-deflection and sonic limits are those of the polar. Beyond the maximum the closed forms return a wave that does not turn the flow: the Mach wave, the normal shock.",
     ["inputs"], "Mach 1.05..15, gamma 1.05..2, every angle between the Mach angle and 90 degrees, deflections of both signs up to 0.97 of the maximum",
     "Tests use a few Mach/angle pairs; convergence, branch choice and symmetry have to hold for every pair and gamma.",
     ["aerokit/aero/ShockWave.py", "aerokit/aero/degree.py", "aerokit/aero/IterativeSolve.py"],
     [("deflection law, cubic weak/strong solution, secant iteration, closed-form limits", "aerokit/aero/ShockWave.py")])
prop("C05", "Conical shock, cone angle and Mach number satisfy the Taylor-Maccoll flow",
     "The cone angle computed for a Mach number and a shock angle is the one whose surface the flow behind the shock is tangent to, and lies between the wedge deflection of the same shock and the shock. "
     "The shock angle computed for a cone and the Mach number computed for a cone and a shock belong to the same solution.",
     ["inputs"], "gamma 1.1..5/3, Mach 1.1..12, shock angles over the polar (inverses on the attached weak branch)",
     "Two tests check a single Mach number; the adaptive integration and both inverse iterations have to be right for all inputs.",
     ["aerokit/aero/ShockWave.py", "aerokit/common/_ode.py"], [("adaptive integration from the shock to the wall", "aerokit/aero/ShockWave.py"), ("secant inverses", "aerokit/aero/IterativeSolve.py")])
prop("C06", "Prandtl-Meyer angle, its inverses and isentropic turning are consistent",
     "The Prandtl-Meyer angle is that of the gas asked for and both of its inverses (from the angle, and from the angle minus the Mach angle) give it back with a supersonic Mach number. "
     "The turning of an isentropic pressure ratio and the pressure ratio of a turning connect two states of equal total pressure whose Prandtl-Meyer angles differ by the turning.",
     ["inputs"], "gamma 1.05..2.5, Mach 1..40, expansions and compressions, scalar or array",
     "Tests cover a few angles at gamma 1.4; the inverse must converge for every angle and gamma.",
     ["aerokit/aero/Supersonic.py"], [("closed form and Newton inverse with a fitted initial guess", "aerokit/aero/Supersonic.py")])
prop("C07", "Fanno ratios describe one duct flow of constant mass flow and total temperature",
     "At every Mach number the ratios to the sonic state satisfy the state equation, constant mass flow, constant total temperature, and the entropy and total pressure of that state. "
     "Friction drives the flow towards Mach 1: the friction parameter is positive, vanishes at Mach 1, and decreases while entropy rises and total pressure drops.",
     ["inputs"], "Mach 0.01..10, gamma 1.05..2.5, scalar or array, gamma given or defaulted",
     "Tests compare a few values of each ratio separately; they never relate the ratios to each other.",
     ["aerokit/aero/Fanno.py"], [("closed-form ratios", "aerokit/aero/Fanno.py")])
prop("C08", "Rayleigh ratios describe one duct flow of constant mass flow and impulse",
     "At every Mach number the ratios to the sonic state satisfy the state equation, constant mass flow, constant impulse, and the total temperature, total pressure and entropy of that state; the maximum heating ratio is the inverse of the total temperature ratio. "
     "The subsonic and supersonic Mach numbers of a total temperature ratio give it back on their branch, and heating always raises entropy and lowers total pressure.",
     ["inputs"], "Mach 0.01..10, gamma 1.05..2.5, scalar or array, gamma given or defaulted",
     "Tests compare a few values of each ratio separately, and pin one wrong value of the heating ratio.",
     ["aerokit/aero/Rayleigh.py"], [("closed-form ratios and inverses", "aerokit/aero/Rayleigh.py")])
HIST = "Histories generated by a Quint state machine (quint run --mbt) replayed into the code; the recorded behaviours are validated by a Quint specification"
prop("C09", "1D flow states stay consistent and independent through every operation",
     "Creating, copying, mirroring, transforming (normal shock, isentropic) and recomputing 1D flow states always gives the state that the operation's conservation law asks for, with the specific heat ratio of the gas it started from. "
     "Operations on one state never change another, and the derived quantities (speed of sound, Mach, acoustic speeds, mass flow, total quantities) always describe the current state.",
     ["histories", "inputs"], "histories of create/copy/mirror/jump/isentropic/recompute/query on several states of both classes, scalar and array, all gammas",
     "Tests check single calls on fresh states with gamma 1.4; loss of gamma or sharing of arrays only shows after a sequence of operations.",
     ["aerokit/aero/model1D.py", "aerokit/aero/unsteady1D.py"],
     [("state.state_RH, state_isentropic_Mach, compute_from_*", "aerokit/aero/model1D.py"), ("copy, copysymmetric, wave relations", "aerokit/aero/unsteady1D.py")],
     state=[("rho, u, p, _gamma", "primitive state and specific heat ratio of one object", "aerokit/aero/model1D.py")], technique=HIST)
prop("C10", "The solution of a Riemann problem satisfies the exact wave relations",
     "For every pair of left and right gas states that does not create vacuum, the star states share one pressure and one velocity, each is connected to its initial state by a shock satisfying the conservation laws or by an isentropic expansion keeping the Riemann invariant, and the reported fastest wave speeds are those of these waves. "
     "Mirroring the problem, or adding a uniform velocity, mirrors or shifts the solution.",
     ["inputs"], "left/right states over wide ranges of pressure, density, velocity and gamma (different on both sides), star pressure not vanishing",
     "Tests solve a few symmetric or Sod-like problems; convergence of the star pressure iteration depends on every pair of states.",
     ["aerokit/instance/riemann.py", "aerokit/aero/unsteady1D.py"],
     [("star pressure Newton iteration, wave speeds", "aerokit/instance/riemann.py"), ("shock and expansion relations", "aerokit/aero/unsteady1D.py")])
prop("C11", "A sampled Riemann solution is the self-similar profile of its waves",
     "The state sampled at any x/t is the one of the region this ray is in: undisturbed state, expansion fan, star state left or right of the contact, with the gas (gamma) of that side. "
     "It does not depend on the order or number of the samples, nor on what becomes of the states the problem was built from, and the samples are not modified.",
     ["inputs"], "every x/t including in, on and around each wave, every configuration of waves, any order of samples",
     "Tests sample one or two configurations; a wrong region or a wrong fan relation only shows at rays inside the corresponding wave.",
     ["aerokit/instance/riemann.py"], [("riemann_pb.qsol region selection", "aerokit/instance/riemann.py")])
prop("C12", "The unsteady inflow solution matches total conditions, waves and outer state",
     "When a downstream state is put in contact with an inflow of given total pressure and temperature, the solution has one pressure and velocity at the contact, the inflow side has exactly the imposed total conditions, and the downstream side is connected to its initial state by a shock or an isentropic expansion. "
     "The specific heat ratio of the gas is kept on both sides.",
     ["inputs"], "total conditions and downstream states giving a subsonic inflow, compression or expansion, all gammas",
     "Tests check a single case; the iteration has to converge for all pairs of conditions.",
     ["aerokit/instance/unsteady_inflow.py", "aerokit/aero/unsteady1D.py"], [("inflow_pb secant/newton solve", "aerokit/instance/unsteady_inflow.py")])
prop("C13", "Nozzle regime limits and exit Mach numbers follow the pressure ratio",
     "For every exit to throat section ratio the three limit pressure ratios are ordered and are those of the choked subsonic flow, of a shock at the exit and of the supersonic flow. "
     "The exit Mach number and the Mach number of the jet adapted to the ambient pressure are, for every pressure ratio, those of the regime it falls in: isentropic subsonic, shock in the diffuser with conserved mass flow, oblique shock in the jet, or isentropic expansion.",
     ["inputs"], "section ratios 1 to 40, every pressure ratio above 1 in and around every regime, default gas",
     "Tests check one section ratio and four pressure ratios; regime selection and each regime's law depend on the pair.",
     ["aerokit/instance/nozzle.py", "aerokit/aero/nozzle.py"], [("NPR limits and regime selection", "aerokit/instance/nozzle.py")])
prop("C14", "Nozzle distributions are the flow of the last pressure ratio set",
     "Whatever nozzles were built and pressure ratios set before, the Mach number, static and total pressure distributions of a nozzle are those of its own section law, gas and last pressure ratio: isentropic relations and one mass flow in all sections, sonic throat and supersonic diffuser when choked, at most one normal shock placed where its loss belongs, exit at the ambient pressure. "
     "Section arrays and distributions handed out earlier are not modified.",
     ["histories", "inputs"], "histories of build/set/set again/read on two nozzles, section laws of many shapes (convergent, divergent, straight throat, given As/Ac), gamma 1.1 to 2",
     "Tests only check that values are not NaN for one nozzle and one pressure ratio.",
     ["aerokit/instance/nozzle.py", "aerokit/aero/MassFlow.py"],
     [("set_NPR regime selection, shock location", "aerokit/instance/nozzle.py")], state=[("_M, _Ps, _Pt", "distributions along the nozzle", "aerokit/instance/nozzle.py")], technique=HIST)
prop("C15", "The default gas is the one last set or restored, whatever else is called",
     "The default specific heat ratio and gas constant are those last set, and restoring gives back exactly those of the last save, any number of times. "
     "No other library call, successful or failing, with or without an explicit gas, changes them, and functions called without a gas use the default gas.",
     ["histories"], "histories of set/save/restore interleaved with calls of all the modules, also failing ones",
     "Tests do one save and one restore; a leak of a temporary gas only shows for a call in between, in particular one that fails.",
     ["aerokit/common/defaultgas.py", "aerokit/instance/nozzle.py"], [("module level default gas and its saved copy", "aerokit/common/defaultgas.py")],
     state=[("_gamma, _r, _saved_gamma, _saved_r", "default gas and saved copy", "aerokit/common/defaultgas.py")], observe=["defaultgas.gamma(), defaultgas.r_ideal()"],
     level="model_checking", technique="Quint state machine of the default gas checked exhaustively with TLC; histories generated from it replayed into the code and validated (quint run)",
     note="The machine (a few levels of gamma and r) is explored completely by TLC; its conformance with the code is checked on generated histories. Restoring before any save is outside.")
prop("C16", "Variable denominations follow the selected software and the changes made since",
     "A variable name gives the denomination of the selected software's table with the additions and changes made since it was selected, ignoring capital letters when there is no exact name. "
     "Refused operations (unknown software or name, name already there) and queries change nothing, selecting a software again gives its original table, and the extended expressions evaluate to the physical quantities from the current denominations.",
     ["histories"], "histories of select (all aliases), add, change, lookup (three ways), print and expressions",
     "There is no test of these modules; sharing between tables or a half-applied refused operation only shows after a sequence of operations.",
     ["aerokit/common/dicovar.py", "aerokit/common/extendvar.py"], [("current table and software", "aerokit/common/dicovar.py"), ("expressions built from the current table", "aerokit/common/extendvar.py")],
     state=[("_dv, _softName", "current table", "aerokit/common/dicovar.py")], level="model_checking",
     technique="Quint state machine of the table checked exhaustively with TLC; histories generated from it replayed into the code and validated (quint run)",
     note="The machine on six names and two new values is explored completely by TLC; conformance on generated histories, the complete table compared after every operation.")
prop("C17", "Chebyshev collocation is exact for polynomials on any interval",
     "On any interval and number of points, the points of a collocation operator are the Chebyshev points of that interval, its differentiation matrices of order 1 to 4 differentiate polynomials exactly, and interpolation reproduces a polynomial at any place. "
     "The fit of scattered polynomial data is that polynomial, and the fit of any data is the closest polynomial.",
     ["inputs"], "2 to 40 points, any interval (also reversed, default ends), orders 1 to 4, polynomials of degree up to 5, any shape of the positions",
     "Tests check one or two functions on the default interval; a wrong scaling of an interval, order or end point needs other intervals and orders.",
     ["aerokit/common/numspectral.py"], [("ChebCollocation", "aerokit/common/numspectral.py")])
prop("C18", "Collocation operators answer the same whatever was asked before",
     "Points, differentiation matrices of any order asked in any sequence, interpolation and fit depend only on the description of the operator, not on earlier requests, refused requests or other operators, and what was handed out is not modified. "
     "A lazy property is computed once per object and never shared between objects.",
     ["histories"], "histories of orders 1 to 4 in any sequence, points, interpolation, fit and refused orders on two operators",
     "Tests ask each operator for one order; a wrongly built cache only shows for a particular sequence of orders.",
     ["aerokit/common/numspectral.py", "aerokit/common/_dev.py"], [("list of cached matrices filled up to the order asked", "aerokit/common/numspectral.py"), ("lazyprop", "aerokit/common/_dev.py")],
     state=[("_der, _xi", "cached matrices and points", "aerokit/common/numspectral.py")], technique=HIST)
prop("C19", "Stability operators follow their base state and boundary conditions",
     "The matrices and eigenvalues of a stability operator are always those of the base state and boundary conditions last accepted, whatever was requested, refused or failed before, and the user's description of boundary conditions is left as given. "
     "Requests without a usable description are refused, each time, and a refused description changes nothing.",
     ["histories"], "histories of base state, boundary conditions (also unknown, incoherent or incomplete ones), matrices, eigenvalues and selection on Euler and Orr-Sommerfeld operators",
     "Tests build an operator, set it up once and solve once; stale matrices need a change after a first use.",
     ["aerokit/stability/_base.py", "aerokit/stability/Euler.py", "aerokit/stability/OrrSommerfeld.py"],
     [("matrices computed on request and kept", "aerokit/stability/_base.py")], state=[("_B, _At, _basestate, _BC_type, _vals", "description and cached results", "aerokit/stability/_base.py")],
     level="model_checking", technique="Quint state machine of the operators checked exhaustively with TLC; histories generated from it replayed into the code and validated (quint run)",
     note="One operator of each kind explored completely by TLC (no stale cache); conformance on generated histories with three operators, every matrix judged against the equations of the current description.")
prop("C20", "The 1D stability operator is the linearised Euler operator of its base state",
     "Applied to any perturbation, the matrices of the 1D compressible stability model give the linearised Euler equations about the given non-uniform base state inside the domain. "
     "At the ends they express exactly the condition asked: symmetry, periodicity, or the linearised jump relations of a moving shock.",
     ["inputs"], "base states and perturbations polynomial in x, all intervals, gammas (scalar or array) and boundary conditions; shock at the left end with given upstream Mach gradient",
     "Tests use uniform states only: every term with a gradient of the base state is multiplied by zero there.",
     ["aerokit/stability/Euler.py"], [("compute_operators, setBC_sym, setBC_per, setBC_RH", "aerokit/stability/Euler.py")])
prop("C21", "The incompressible stability operator is the Orr-Sommerfeld operator",
     "Applied to any perturbation, the matrices of the incompressible stability model give the Orr-Sommerfeld equation of the given profile, wave number (real or complex) and Reynolds number, with no motion and no slope at both walls. "
     "An incomplete description of the flow is refused.",
     ["inputs"], "parabolic profiles on any interval, real and complex wave numbers, Reynolds 1 to 6e7, perturbations of degree 5",
     "Tests compare two eigenvalues of one flow to three digits; terms vanishing for that flow are not seen.",
     ["aerokit/stability/OrrSommerfeld.py"], [("compute_operators, setBC_wall", "aerokit/stability/OrrSommerfeld.py")])
prop("C22", "Computed eigenvalues are modes of the flow; selection and convergence keep them",
     "Every finite eigenvalue and vector of a stability operator satisfies the linearised equations and boundary conditions, and the exact spectra of uniform ducts and streams and the published channel values are found. "
     "Selection returns exactly the eigenvalues of the window in the order asked with their own vectors, and an approximate eigenpair converges to the eigenvalue.",
     ["inputs"], "random non-uniform flows, uniform ducts (periodic, closed) and viscous streams of any speed, wave number and Reynolds number, random selection windows",
     "Tests compare a few eigenvalues of three flows and never an eigenvector.",
     ["aerokit/stability/_base.py"], [("solve_eig, select_and_sort, converge_eigenpair", "aerokit/stability/_base.py")])
prop("C23", "Integrators take the steps they announce and end at the end of the range",
     "A fixed step integration advances by fourth order Runge-Kutta steps of the length asked, the last one shortened; an adaptive one by fifth order steps whose estimated error is within the tolerance. "
     "Both start from the initial values, never leave the range, forwards or backwards and whatever the first step asked, and end exactly at its end.",
     ["inputs"], "systems of two equations with bilinear and polynomial terms, random ranges, steps longer or not dividing the range, tolerances 1e-9 to 1e-3, both directions",
     "There is no test of the integrators: only one step of one of them is used inside the conical shock.",
     ["aerokit/common/_ode.py"], [("RK4, RKF45: step control and last step", "aerokit/common/_ode.py")])
prop("C24", "The secant iteration finds the abscissa of a monotonic function",
     "For any value and any start close enough, zero and tiny starts included, the abscissa found by the secant iteration is the solution within the tolerance asked, for every element of array arguments, whatever the scalar or array form of value and start.",
     ["inputs"], "straight, cubic, exponential and root functions, starts within 0.3 of the solution, tolerances 1e-9 to 1e-2, scalar and array forms",
     "Tests reach it only through a few Mach number inversions with fixed starts.",
     ["aerokit/aero/IterativeSolve.py"], [("secant_solve", "aerokit/aero/IterativeSolve.py")])
prop("C25", "Engine states satisfy the balances of their components",
     "After an update, the state of a gas generator, turbojet or turbofan satisfies the flow, energy, shaft and polytropic balances of all its components for the parameters and flight conditions of that update, whatever was computed before and whatever other engines exist. "
     "Works, thrusts, efficiencies and consumption are those of that state.",
     ["histories"], "histories of making, flying, changing any parameter, updating and reading three engines; random gases and efficiencies, arrays of parameters, nozzles without expansion",
     "There is no test of the engines.",
     ["aerokit/engine/gasgenerator.py", "aerokit/engine/turbojet.py", "aerokit/engine/turbofan.py"],
     [("base.update, turbojet_opt.update, turbofan_adapt.update", "aerokit/engine")], state=[("Tt0 ... V19", "state of the last update", "aerokit/engine/gasgenerator.py")], technique=HIST)
prop("C26", "Staged turbofan cycles compute in order and end at the complete cycle",
     "In any sequence of operations on staged turbofan cycles, a stage is computed exactly when the stages it starts from have been since the last start, from the current parameters, and a refused stage changes nothing. "
     "Completing from anywhere gives the performance of the whole cycle of one set of conditions, and the functional cycles and the optimal fan agree with it.",
     ["histories"], "histories of stages, completions, prints and restarts with changed parameters on pairs of cycles of three kinds; random functional cycles",
     "There is no test of the cycles; values mixed from two starts only show for a particular order of stages and restarts.",
     ["aerokit/engine/Cycle_Turbofan.py", "aerokit/engine/propu_be.py", "aerokit/engine/propu_be_double_corps.py"],
     [("current_stage_corps, current_stage_fan", "aerokit/engine/Cycle_Turbofan.py")], state=[("current_stage_corps, current_stage_fan, Pt0 ... eta", "stage reached and values", "aerokit/engine/Cycle_Turbofan.py")],
     level="model_checking", technique="Quint state machine of the stages checked exhaustively with TLC (no value of an earlier start, completion from anywhere); histories generated from it replayed into the code and validated (quint run)",
     note="The machine of the stages with up to three starts is explored completely by TLC; conformance on generated histories, every value of every stage judged.")
prop("C27", "Air and kerosene properties derive from one specific heat law each",
     "At every temperature, the enthalpy and the entropy function of real air and of kerosene are the integrals of their specific heat, the ratio of specific heats of air follows from it, and the heating value of the fuel follows its enthalpy.",
     ["inputs"], "air from 150 to 6000 K, kerosene from 250 to 1800 K, intervals of 1 to 30 K",
     "There is no test of these modules; relations between the polynomials must hold at every temperature.",
     ["aerokit/aero/ThermoRealGas.py", "aerokit/aero/ThermoKerosen.py"], [("Cp, Enthalpy, Phi, Gamma, Pc_eff", "aerokit/aero")])
prop("C28", "Legacy and alias interfaces answer as the functions they stand for",
     "Every legacy compressible flow function gives the documented relation for the gas it is given, or gamma 1.4 whatever the default gas, in scalar and array form. "
     "The aliases and the legacy nozzle and Riemann modules give the results of the functions they stand for and nothing of them is missing.",
     ["inputs"], "all legacy functions and aliases, arguments scalar or array, gas given by position, keyword or not, default gas changed or not",
     "Tests call the current names only.",
     ["aerokit/aero/CompressibleFlow.py", "aerokit/aero/nozzle.py", "aerokit/aero/riemann.py", "aerokit/aero/Isentropic.py", "aerokit/aero/ShockWave.py"],
     [("one line wrappers with their own defaults", "aerokit/aero/CompressibleFlow.py"), ("aliases at the end of the modules", "aerokit/aero/ShockWave.py")])
prop("C29", "The same question always has the same answer, in any form and at any time",
     "The value answered by a function for given arguments is the same whether a point is asked alone or in an array of any shape, at any place and next to any other points, with a number for the argument all points share, before or after any other calls. "
     "Arguments are not modified, answers handed out earlier are not modified, writing in them does not change later answers, failed calls leave nothing behind, and results have the shape of the arguments.",
     ["histories", "inputs"], "histories of calls of three functions of all modules at a time, on repeated points and gases in ten forms, with changes of the default gas, failing calls and writing in results in between",
     "Tests call each function once or twice on one form of argument; caches, shared arrays, or iterations that mix the points of an array only show for a second call or a particular array.",
     ["aerokit/aero/Isentropic.py", "aerokit/aero/MassFlow.py", "aerokit/aero/ShockWave.py", "aerokit/aero/Supersonic.py", "aerokit/aero/Fanno.py", "aerokit/aero/Rayleigh.py", "aerokit/aero/degree.py",
      "aerokit/aero/CompressibleFlow.py", "aerokit/aero/Propulsion.py", "aerokit/aero/IterativeSolve.py", "aerokit/instance/nozzle.py"],
     [("iterations on all the elements of an array at once", "aerokit/aero/IterativeSolve.py"), ("branches chosen per element", "aerokit/aero/ShockWave.py")], technique=HIST)
prop("C30", "Polar plots draw the shock and isentropic polars of the flow asked",
     "Every point drawn by the polar plots is a state reached by an oblique shock, or isentropically, from the flow, reference state and side asked; the marks of largest deviation and sonic downstream flow are those states. "
     "The number of points and curves is the one asked.",
     ["inputs"], "Mach 1.05 to 20 (isentropic polars 8), gamma 1.1 to 1.67 or the default, any number of points, reference state, side and marks",
     "There is no test of the plots.",
     ["aerokit/aero/plot/shockpolar.py"], [("plot functions", "aerokit/aero/plot/shockpolar.py")], observe=["data of the curves of the figure"])
prop("C31", "Trigonometry in degrees",
     "For every angle in degrees the sine, cosine and tangent are those of the angle and the inverse functions give the principal angle in degrees, in every quadrant for two arguments, in scalar and array form.",
     ["inputs"], "multiples of 15 degrees and any angle up to 1e5 degrees, points in all directions and on the axes, scalars and arrays",
     "Tests reach these functions only through angles of shocks between 0 and 90 degrees.",
     ["aerokit/aero/degree.py"], [("one line wrappers", "aerokit/aero/degree.py")])
prop("C32", "The thrust function is the impulse of the flow and is inverted on its branch",
     "The thrust function of a Mach number is the impulse of the isentropic flow there, related to the total pressure at the throat, for the gas asked. "
     "The Mach number found from a thrust function and a start of one branch gives the function back on that branch.",
     ["inputs"], "Mach 0.05 to 12 (6 below gamma 1.2), gamma 1.1 to 1.67 or the default; inverse for Mach 1.25 to 3 (start 2) and 0.4 to 0.8 (start 0.5), scalar or array",
     "There is no test of this module.",
     ["aerokit/aero/Propulsion.py"], [("thrust function and Newton inverse", "aerokit/aero/Propulsion.py")])
prop("C33", "A stream led through shocks, turns, sections and ducts stays one consistent flow",
     "Led through any sequence of normal and oblique shocks, isentropic turns, pressures and sections, and ducts with friction or heat, each computed with the functions of its module, a stream keeps its mass flow, "
     "keeps its total temperature but for the heat added, loses total pressure only, and obeys momentum and entropy balances at every element; its section, turning, duct length and total state measured by the library are those of the stream.",
     ["histories", "inputs"], "two streams of numbers or arrays, Mach 0.1 to 7, gamma 1.1 to 5/3, up to 25 elements, through the current, legacy and state interfaces of the modules",
     "Tests exercise the modules one by one; that their references, branches and gases agree when they follow each other is only visible in composition.",
     ["aerokit/aero/Isentropic.py", "aerokit/aero/MassFlow.py", "aerokit/aero/ShockWave.py", "aerokit/aero/Supersonic.py", "aerokit/aero/Fanno.py", "aerokit/aero/Rayleigh.py", "aerokit/aero/model1D.py",
      "aerokit/aero/unsteady1D.py", "aerokit/aero/CompressibleFlow.py", "aerokit/aero/Propulsion.py"],
     [("ratios to the sonic, total or upstream state, one convention per module", "aerokit/aero")], technique=HIST)
prop("C34", "Waves in a tube: the solution of one problem is a valid start of the next",
     "Led through any sequence of Riemann problems, walls (a state against its mirror image), reservoirs opened at an end, mirror images and moving frames, the cells of a tube stay consistent: solving again between two states already joined "
     "by one wave gives this wave alone, nothing flows through a wall, each wave conserves mass, momentum and energy or entropy, the profile between two cells holds exactly the mass, momentum and energy that flowed in, "
     "and solving changes none of the states given.",
     ["histories", "inputs"], "tubes of 2 to 7 cells of one or two gases, gamma 1.1 to 2, up to 20 steps; pressures within 1/900 to 900 times the star pressure (100 times for two gases), no vacuum",
     "Tests solve a few isolated problems; vanishing waves, walls and states given by the library itself only come up in sequences, and the conservation over a whole profile holds for every pair of states.",
     ["aerokit/instance/riemann.py", "aerokit/instance/unsteady_inflow.py", "aerokit/aero/unsteady1D.py", "aerokit/aero/model1D.py"],
     [("Riemann solver, its waves and its profile", "aerokit/instance/riemann.py"), ("inflow from a reservoir", "aerokit/instance/unsteady_inflow.py"), ("mirror images and jumps of states", "aerokit/aero/unsteady1D.py")], technique=HIST, level="model_checking")
