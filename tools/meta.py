#!/opt/venv/bin/python
"""Single source of properties.jsonl and MANIFEST.json:  tools/meta.py writes both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/quocslib/"
OA, DC, DS = S + "optimizationalgorithms/OptimizationAlgorithm.py", S + "optimizationalgorithms/dCRABAlgorithm.py", \
    S + "optimizationalgorithms/DirectSearchAlgorithm.py"
GR, AD = S + "optimizationalgorithms/GRAPEAlgorithm.py", S + "optimizationalgorithms/ADAlgorithm.py"
CM, BP, CT = S + "communication/AllInOneCommunication.py", S + "pulses/BasePulse.py", S + "Controls.py"
NM, CMA = S + "gradientfreemethods/NelderMead.py", S + "gradientfreemethods/CMAES.py"
SC, NMS, CMS = S + "stoppingcriteria/StoppingCriteria.py", S + "stoppingcriteria/NelderMeadStoppingCriteria.py", \
    S + "stoppingcriteria/CMAESStoppingCriteria.py"
BD, FU = S + "utils/BestDump.py", S + "utils/FilesUpdateFom.py"

P = []


def p(id, title, statement, over, q, why, files, mech, technique, level_note, observe=None, state=None,
      level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  technique=technique, level_note=level_note, observe=observe or [], state=state or [], level=level))


p("C01", "Emitted pulses respect their amplitude limits",
  "When a pulse's shaping ends with the limiting step (the default does), every sample handed to the figure of merit or "
  "reported as best lies between the pulse's two amplitude limits, whichever order they were given in. Clipping leaves "
  "in-range samples unchanged and moves out-of-range samples to the nearer limit. With the shrink option an in-range "
  "pulse is unchanged, a pulse wholly beyond one limit is set to that limit, and any other is rescaled affinely so that "
  "its maximum and minimum are moved onto the limits they exceed and no further.",
  ["inputs", "configurations", "histories"],
  "every basis, guess, scaling function, limit pair, shrink flag, control vector and every evaluation of a run",
  "tests run a few fixed configurations and only one looks at the limits (shrink, one pulse); the set of pulses, "
  "limits and control vectors is unbounded",
  [BP, CT], [("limit_pulse / _get_limited_pulse / _shrink_pulse_2", BP)],
  "Hypothesis-generated pulses and runs; invariant plus exact limiting oracle",
  "random search over configurations, control vectors and whole runs; float tolerance 1e-9 relative")

p("C02", "Optimised parameters stay within limits and start at their value",
  "Every value of an optimised parameter that reaches the figure of merit or a result lies within its limits: a value "
  "proposed by the search inside the limits is passed on unchanged and one outside is replaced by the nearest limit. "
  "The first evaluation of a dCRAB or direct-search run uses the configured initial values.",
  ["inputs", "configurations", "histories"],
  "every set of parameters, limits, initial values and variations, every proposed vector and every evaluation of a run",
  "tests use one Rosenbrock configuration and never look at proposed values outside the limits",
  [S + "parameters/BaseParameter.py", CT], [("_check_limits", S + "parameters/BaseParameter.py")],
  "Hypothesis-generated parameters and runs; invariant plus exact clipping oracle",
  "random search; runs with dCRAB, direct search, NelderMead and CMA-ES")

p("C03", "The reported best is the true best over the whole run",
  "At the end of every run without drift compensation or re-evaluation, the reported figure of merit is the best value "
  "(lowest when minimising, highest when maximising) that the figure of merit returned in any evaluation, and the "
  "best-controls file holds exactly the pulses, time grids, parameters and evaluation number of the first evaluation "
  "that reached it. The best controls that can be queried after a dCRAB, direct-search or GRAPE run, and the parameters "
  "reported by a direct search, are those of that evaluation, and its bare pulses are what the configured guess, scaling and "
  "limits turn into them.",
  ["histories", "configurations", "inputs"],
  "every algorithm, search method, basis, direction, dump format, number of super-iterations and sequence of returned "
  "values (also ones that are unrelated to the controls)",
  "tests check single final numbers for fixed problems; which evaluation wins depends on the whole history",
  [OA, DC, DS, GR, AD, CM, BD], [("_get_response_for_client", DC), ("_update_base_pulses", DC),
                                 ("get_best_controls", OA)],
  "generated runs with scripted figures of merit; invariant over the recorded evaluation history",
  "random search over runs; AD comparisons at single precision")

p("C04", "At every moment between evaluations the file describes the best so far",
  "Whenever the figure of merit is called, i.e. at every point where the process could be killed between evaluations, "
  "the best-controls file is complete and readable and holds the pulses, time grids, parameters, evaluation number and "
  "(in the minimised sign convention) the value of the best evaluation finished so far; before the first evaluation "
  "there is none. This holds for both dump formats and both optimisation directions.",
  ["crash_points", "histories", "configurations"],
  "every evaluation index of every generated run as the crash point",
  "tests read the file only after the end of complete runs",
  [BD, CM, DC, DS, GR], [("dump_controls on record", BD), ("send_FoM_response", CM)],
  "generated runs; file snapshot at every evaluation compared with a model of the history",
  "every evaluation boundary of each generated run is examined; crashes inside a file write are out of scope",
  level="fault_enumeration")

p("C05", "Evaluation budgets and super-iteration counts are honoured",
  "No run evaluates the figure of merit more often than the maximum total number of evaluations, a gradient-free run "
  "that is not stopped for another reason uses exactly that many or finishes all its super-iterations, and at most the "
  "configured number of super-iterations is performed. A Nelder-Mead or CMA-ES search with a maximum number of "
  "evaluations per search ends at the first end of an iteration (generation) at which that number has been reached, and "
  "the reported number of evaluations is the number actually made.",
  ["configurations", "histories"],
  "all combinations of total budget, per-search budget, super-iterations, dimensions, search methods and returned values",
  "tests try a handful of budgets on one problem with loose bounds",
  [OA, DC, DS, NM, CMA, SC], [("_routine_call budget check", OA), ("check_func_eval_single_direct_search", SC)],
  "generated runs; counting oracle over recorded evaluations",
  "random search over configurations; per-search counts derived from the observable super-iteration of each record")

p("C06", "The run stops at the goal, not before and not after",
  "When a goal is set, no evaluation is made after the first one whose figure of merit reaches it (at or below it when "
  "minimising, at or above it when maximising), that evaluation is reported as best, and a run whose values never reach "
  "the goal makes exactly the same evaluations as without a goal. With re-evaluation or drift compensation the value "
  "of the record (C21, C22) takes the place of the value of a single evaluation.",
  ["histories", "configurations"],
  "every goal (also negative, zero and exactly equal to a returned value), direction, algorithm and history of values",
  "tests use one goal on one problem",
  [OA], [("FoM_goal check in _routine_call", OA)],
  "generated scripted runs; prefix oracle against the run without goal",
  "random search; goals drawn from and around the values of the history")

p("C07", "A stop request ends the run cleanly at any point",
  "When the user stops the run (through the exit handler or Ctrl-C) during any evaluation, or the figure of merit "
  "returns a non-zero status code, no further evaluation is made, the run ends normally and writes its results, and "
  "the reported best is the best among the evaluations finished with status zero (the value returned with a non-zero "
  "status is not used; the one returned during a user stop is). A run stopped before its first evaluation makes none "
  "and still ends normally.",
  ["fault_sequences", "crash_points", "histories"],
  "every evaluation index and kind of stop, algorithm, search method, drift compensation and re-evaluation settings",
  "no test interrupts a run",
  [OA, CM, DC, DS, GR, AD, NM, CMA, S + "handleexit/HandleExit.py"],
  [("get_user_running checks", OA), ("handle_user_cancellation", OA), ("status_code handling", CM)],
  "fault injection at generated evaluation indices; model of the surviving history",
  "random search over stop points; SIGINT is delivered for real to the worker process",
  level="fault_enumeration")

p("C08", "Time limits stop the run on time and only then",
  "No evaluation starts once the total time limit has passed since the start of the run, and a run is not stopped for "
  "that reason earlier. A direct search with its own time limit ends at the first iteration end at which that much time "
  "has passed since this search started, and the next super-iteration gets the full time again.",
  ["schedules", "configurations", "histories"],
  "every sequence of evaluation durations, limits and super-iteration structure",
  "tests sleep for real and check one limit loosely",
  [OA, DC, NM, CMA, SC], [("total_time_lim check", OA), ("reset_direct_search_start_time", SC),
                          ("check_direct_search_time_out", SC)],
  "generated evaluation durations under a virtual clock; reference model of the limits",
  "clocks seen by the library are replaced by a virtual clock")

p("C09", "Maximising f and minimising -f are the same optimisation",
  "Running the same configuration with the direction set to maximisation and a figure of merit f makes the same "
  "evaluations as minimising -f: same controls, same stops, same evaluation numbers, and the same best controls, with "
  "every reported figure of merit of opposite sign. This includes goals (given in the sign of f), re-evaluation, drift "
  "compensation and the history of values.",
  ["configurations", "histories", "inputs"],
  "every gradient-free configuration and history",
  "tests run each direction once with loose final checks",
  [OA, CM, DC, DS], [("FoM_factor", OA), ("FoM_factor", CM)],
  "metamorphic pairs of generated runs",
  "random search over pairs of runs")

p("C10", "A seeded run is reproducible",
  "A dCRAB, GRAPE or AD run that sets a random seed makes exactly the same evaluations and reports the same results "
  "whenever it is repeated with an equal configuration and figure of merit, whatever the state of the process-wide "
  "random generators and whatever ran before. This holds for every search method, and different seeds give different "
  "searches.",
  ["configurations", "histories"],
  "every seeded configuration, state of the global generators and preceding activity",
  "no test compares two runs with the same seed",
  [S + "tools/randomgenerator.py", DC, GR, AD, CMA, S + "pulses/superparameter/Uniform.py",
   S + "tools/linearalgebra.py"],
  [("RandomNumberGenerator", S + "tools/randomgenerator.py"), ("rng passed to Controls and simplex_creation", DC)],
  "metamorphic pairs of generated runs under perturbed global generators",
  "random search over pairs of runs")

p("C11", "Each super-iteration starts from the best controls found so far",
  "In a dCRAB run (with a shaping that adds the base pulse and the update) the first evaluation of every super-iteration "
  "after the first is made with exactly the controls of the best evaluation so far (with re-evaluation or drift "
  "compensation: of the record in the best-controls file), and the first evaluation of the run "
  "with the initial guess (scaled and limited) and the initial parameter values. With the overwrite option set for a "
  "pulse, the base pulse is only the update found in the last super-iteration. The first evaluation of a gradient-based "
  "(GRAPE or AD) search is made within one amplitude variation per coefficient of the initial controls, for AD's later "
  "super-iterations of the best so far.",
  ["histories", "configurations"],
  "every basis mix, search method, limits, number of super-iterations and history of values, including "
  "super-iterations that bring no improvement",
  "tests never look at the controls at super-iteration boundaries",
  [DC, AD, GR, CT, BP], [("_update_base_pulses", DC), ("set_base_pulse", BP), ("get_mean_value", CT)],
  "generated multi-super-iteration runs; invariant at each boundary",
  "random search over runs")

p("C12", "Basis expansions follow their definitions",
  "For each basis the unshaped pulse is the defined function of its own control parameters, random super-parameters, "
  "time grid and final time: Fourier, Chebyshev, sinc, piecewise constant, and the sigmoid families with fixed or "
  "variable switching times and widths. Each basis reports the matching number of control parameters and a start "
  "scale per parameter derived from the amplitude variation.",
  ["inputs", "configurations"],
  "every basis, number of basis vectors, control vector, super-parameter vector, bins, final time and basis options",
  "tests run two or three bases with fixed settings and never compare with the formula",
  [S + "pulses/basis/" + x for x in ("Fourier.py", "Chebyshev.py", "Sinc.py", "PiecewiseBasis.py", "Sigmoid.py",
                                     "SigmoidTimeDep.py", "SigmoidSigmas.py", "SigmoidAllParas.py")],
  [("_get_shaped_pulse", S + "pulses/basis")],
  "differential testing against independent formulas on generated inputs",
  "random search; tolerance 1e-9")

p("C13", "Shaping applies the configured steps in the configured order",
  "The pulse handed to the figure of merit is the result of applying the configured shaping steps, each as often as it "
  "is listed and in the listed order, to a zero pulse: adding the limited initial guess, adding the base pulse, adding "
  "the update, scaling (by a function of time, of time and pulse, or by a list) and limiting. Without configured steps "
  "the order is guess, base, update, scaling, limit.",
  ["inputs", "configurations", "histories"],
  "every list of steps (with repetitions, omissions and permutations), guess, scaling, limits, base history and vector",
  "tests run the default order and a few custom builds without checking values",
  [BP], [("_get_build_pulse", BP), ("shaping_option_dict", BP), ("scale_pulse", BP)],
  "differential testing against a reference pipeline on generated inputs",
  "random search; tolerance 1e-9")

p("C14", "Guess and scaling mean the same however they are supplied",
  "An initial guess or scaling function gives the same pulses when supplied as a lambda, as the list of its values on "
  "the time grid, or as a function in a Python file addressed by relative or absolute path, with or without the .py "
  "suffix, and whatever a function does to the array of times it is given. A missing guess means zero and a missing scaling "
  "means one, and a missing file falls back to these.",
  ["inputs", "configurations"],
  "every function, time grid, pulse and way of supplying it",
  "tests check one file function in each mode for not crashing",
  [BP], [("initial guess / scaling function parsing in __init__", BP)],
  "metamorphic variants of generated configurations",
  "random search over equivalent configurations")

p("C15", "Every control owns its slice of the search vector and its time grid",
  "The search vector is partitioned among pulses and then parameters in configuration order, with one disjoint slice "
  "per control of exactly its number of control parameters: changing the entries of one control changes no other "
  "control, and start values and start scales sit in the matching slices, before and after each basis selection. Each "
  "pulse is sampled on its number of bins, evenly spaced from zero to the value of its own named time.",
  ["inputs", "configurations"],
  "every mix of pulses, bases, parameters and times and every vector",
  "tests count controls for a few fixed dictionaries",
  [CT, BP], [("control_parameters_list / map_index", BP), ("_update_control_parameter_indexes", CT)],
  "generated control sets; independence (perturbation) and composition oracles",
  "random search")

p("C16", "Random super-parameters are stratified, redrawn and recorded",
  "At every super-iteration each randomised basis draws a new super-parameter vector whose i-th entry is uniform in the "
  "i-th of equally wide strata of its configured interval, and it stays fixed during the super-iteration. The results "
  "list, per super-iteration, the super-parameters and the best control vector, and these rebuild the recorded "
  "controls.",
  ["inputs", "histories", "configurations"],
  "every interval, number of vectors, seed and super-iteration",
  "tests never look at super-parameters",
  [S + "pulses/superparameter/Uniform.py", CT, DC],
  [("set_random_super_parameter", S + "pulses/superparameter/Uniform.py"), ("select_basis", CT),
   ("_update_base_pulses", DC)],
  "generated distributions and runs; range, freshness, statistical and reconstruction oracles",
  "random search; statistical tests at p < 1e-9")

p("C17", "The start simplex is centred, scaled and non-degenerate",
  "The start simplex of a direct search has one vertex at the start point, and the displacements of the others, divided "
  "by the start scale of each coordinate, form an orthonormal set; inputs are not modified. In a run these are exactly "
  "the first evaluations of each search.",
  ["inputs", "configurations"],
  "every dimension, start point, scale and random draw",
  "tests never inspect the simplex",
  [S + "tools/linearalgebra.py", DC, DS], [("simplex_creation / gram_schmidt", S + "tools/linearalgebra.py")],
  "generated inputs; geometric invariant",
  "random search")

p("C18", "Nelder-Mead follows the standard algorithm exactly",
  "The points evaluated by the Nelder-Mead search, standard and adaptive, are those of the reference algorithm "
  "(SciPy's) from the same start simplex, for any sequence of returned values including ties, and the search returns "
  "the best vertex, its value and the number of evaluations made.",
  ["inputs", "histories", "configurations"],
  "every objective (also scripted value sequences), dimension, start simplex, variant and evaluation cut-off",
  "tests run one quadratic function with a loose tolerance",
  [NM], [("run_dsm", NM)],
  "differential testing against scipy.optimize on generated objectives",
  "SciPy's implementation is trusted as reference")

p("C19", "CMA-ES samples and adapts as specified",
  "A CMA-ES search evaluates the start point and then whole generations of the configured or default population size, "
  "sampled from a normal distribution whose mean is the weighted mean of the best half of the last generation and "
  "whose covariance and step size follow the standard adaptation rules from the given start scales. It depends on the "
  "objective only through the ranking of values, returns the best point of its last generation, and ends only at "
  "generation ends.",
  ["inputs", "histories", "configurations"],
  "every dimension, population size, start scale, objective and random draw",
  "tests check one quadratic with a loose tolerance",
  [CMA], [("run_dsm", CMA)],
  "generated searches; statistical whitening test against a reference adaptation, metamorphic rank invariance",
  "statistical part decides at p < 1e-9 over pooled samples")

p("C20", "Stopping criteria fire exactly when their condition holds, with true reasons",
  "A Nelder-Mead search ends at the first iteration end at which the evaluation limit is reached, the simplex is within "
  "xatol of its best vertex, the standard deviation of its values is at most fatol or the search time is over; CMA-ES "
  "likewise without the simplex condition; and the change-based criterion ends a search once the linear trend over its "
  "window of last values is below the threshold. A search ends for no other reason than these, a global limit or a "
  "stop, and the reported reason names the condition that ended it.",
  ["histories", "inputs", "configurations"],
  "every combination of criteria and thresholds and every history of values",
  "tests check a few thresholds on one problem",
  [SC, NMS, CMS, NM, CMA, OA], [("check_stopping_criteria", NMS), ("_check_cbs_stopping_crit", SC)],
  "generated runs; independent evaluation of each criterion on the recorded history",
  "random search")

p("C21", "Drift compensation re-measures the best and nothing else",
  "With compensation after each super-iteration, every super-iteration after the first begins with the configured number "
  "of extra evaluations of exactly the best controls so far, and their average becomes the value against which records "
  "are judged. With periodic compensation the best point of the current simplex of Nelder-Mead is re-measured that often "
  "at iteration ends once the interval has passed since the last one or since the start of the search, and at no other "
  "time, and the other values of the simplex shift by the same amount. Without compensation there are no extra "
  "evaluations.",
  ["histories", "schedules", "configurations"],
  "every drift of the values over time, interval, averaging number and super-iteration structure",
  "one test with a fixed linear drift and no check of what is re-measured",
  [DC, NM], [("_update_FoM", DC), ("drift compensation block", NM)],
  "generated drifting runs under a virtual clock; reference model",
  "random search")

p("C22", "Re-evaluation promotes a record only on sufficient statistics",
  "With re-evaluation steps, a candidate is measured again exactly while the probability that it beats the current "
  "record, computed from the averages of all its values and standard deviations so far, is at least the step's "
  "threshold, the first evaluation of the run excepted; it becomes the record only if the final probability exceeds the "
  "last threshold. The record's value and uncertainty are the averages over all its measurements, the search is given "
  "that average, and the file holds the record's controls.",
  ["histories", "inputs", "configurations"],
  "every threshold list, noise sequence, standard deviations and direction",
  "one noisy test without check of the decisions",
  [DC, DS], [("_inner_routine_call", DC), ("_probabnormx1betterx2", DC), ("_get_average_FoM_std", DC)],
  "generated noisy runs; reference decision model",
  "random search")

p("C23", "Recorded histories and signals match the evaluations made",
  "After a run the list of figures of merit (in the user's sign) and the list of evaluation numbers contain exactly the "
  "evaluations finished with status zero, in order, numbered from one without gaps. An attached interface receives the "
  "start message once, one controls update before each evaluation with exactly the controls evaluated, and one value "
  "per evaluation with its number in order.",
  ["histories", "fault_sequences", "configurations"],
  "every run, with and without stops, in every algorithm",
  "tests use the list in one or two cases",
  [CM, DC, DS, GR, AD], [("FoM_list / iteration_number_list", DC), ("emit calls", CM)],
  "generated runs with recording signals; equality with the recorded history",
  "random search")

p("C24", "Dumped controls and results round-trip",
  "Whatever pulses, time grids, parameters, names and extra information are dumped as best controls, in npz or json, can "
  "be read back with equal values, each under its own name and none lost, also when names repeat or look alike; a dump "
  "that is not a record leaves the file untouched. Result dictionaries with Python or NumPy scalars and arrays of any "
  "standard type are written as valid json with equal values.",
  ["inputs", "histories"],
  "every set of names, values, types, sequence of dumps and format",
  "tests dump two fixed dictionaries",
  [BD, S + "utils/inputoutput.py"], [("dump_controls", BD), ("NumpyEncoder", BD)],
  "generated dumps; round-trip oracle, stateful sequences",
  "random search")

p("C25", "The optimisation dictionary is recorded faithfully and can be rerun",
  "The dictionary file in the results folder parses as json and holds every setting the user gave with the same value, "
  "and running again from that file gives the same evaluations. Reading back a json settings file written by the "
  "library returns equal content, and a malformed or missing file gives None instead of an exception.",
  ["configurations", "inputs"],
  "every valid configuration",
  "tests read fixed json files only",
  [S + "utils/inputoutput.py", CM, S + "Optimizer.py"], [("print_optimization_dictionary", CM),
                                                         ("readjson / writejsonfile", S + "utils/inputoutput.py")],
  "generated configurations; round trip and rerun differential",
  "random search")

p("C26", "Every run has its own results folder and never overwrites another",
  "Each run creates one new folder named after its start time and client name under QuOCS_Results in the working "
  "directory and, when runs are made one after the other, writes only there; a log file exists only if requested. Starting a run whose folder name is taken "
  "fails with FileExistsError and leaves every existing file unchanged, and the microsecond option keeps runs started "
  "within one second apart.",
  ["schedules", "configurations", "histories"],
  "every sequence of starts, times, names and options",
  "tests start runs seconds apart and ignore the folder",
  [CM, S + "tools/logger.py", S + "Optimizer.py"], [("results_path creation", CM), ("create_logger", S + "tools/logger.py")],
  "generated sequences of runs under a virtual clock; file-system model",
  "random search")

p("C27", "File-based evaluation exchanges exact controls and fresh values",
  "With the file-exchange figure of merit, the controls file written before waiting holds the controls of this "
  "evaluation (json exactly, txt to its printed precision, in pulse/time-grid/parameter order), and the value returned "
  "is the one the experiment wrote after the controls, never one left from before. If nothing arrives within the "
  "maximum time, or what arrives is not a number, the run ends cleanly with the corresponding status and keeps its best "
  "so far, and a value that arrives in time is never discarded.",
  ["schedules", "fault_sequences", "histories"],
  "every delay, order and content of the answers, stale files, formats and timeouts",
  "no test covers file exchange",
  [FU, CM], [("get_FoM / read_FoM_values", FU), ("get_data", CM)],
  "simulated experiment on a virtual clock; protocol oracle",
  "the partner acts during the library's own sleeps, on a virtual clock",
  level="fault_enumeration")

p("C28", "GRAPE gradients are the gradients of the figure of merit",
  "For any Hermitian drift and control Hamiltonian, pure initial and target state and pulse, the gradient GRAPE passes to its "
  "optimiser agrees with the derivative of the figure of merit (minus the overlap) with respect to each time slice, up to "
  "the error of a first-order formula: dt^2 times the commutator of the Hamiltonian of that slice with the control. The optimiser is given the value and gradient of the same controls.",
  ["inputs", "configurations"],
  "every system, pulse, duration and number of slices",
  "tests run one Ising model and look at the final value",
  [GR, S + "timeevolution/piecewise_integrator.py"], [("get_gradient", GR)],
  "differential testing against finite differences on generated systems",
  "first-order accuracy in dt is what the method promises; bound is derived from commutator norms")

p("C29", "AD gradients are the gradients of the figure of merit",
  "For any differentiable figure of merit, pulses, parameters and direction, the gradient the automatic-differentiation "
  "algorithm gives its optimiser equals, to single precision, the derivative of the (sign-adjusted) figure of merit with "
  "respect to every control parameter, through guess, scaling, limits, base pulse and parameter limits.",
  ["inputs", "configurations"],
  "every control set with jax-compatible functions and every vector away from kinks",
  "tests run one Ising model and look at the final value",
  [AD, CT, BP], [("get_gradient", AD), ("_get_controls_jax_obj", CT)],
  "differential testing against finite differences of an independent double-precision model",
  "single precision; points within 1e-3 of a kink are skipped")

p("C30", "Piecewise time evolution is exact, unitary and composable",
  "The piecewise-constant propagators are the exponentials of -i dt (drift + sum of drive times control), in time order, "
  "for every list of controls, unitary for Hermitian input; the final evolution equals their ordered product applied to "
  "the given start, in the NumPy and in the jax version, and evolving two parts one after the other equals evolving the "
  "whole. Inputs are not modified.",
  ["inputs"],
  "every Hamiltonian, drive, slice number, time step and start propagator",
  "tests use it inside one Ising model",
  [S + "timeevolution/piecewise_integrator.py", S + "timeevolution/piecewise_integrator_AD.py"],
  [("pw_evolution / pw_final_evolution", S + "timeevolution/piecewise_integrator.py")],
  "differential and metamorphic testing on generated Hamiltonians",
  "eigendecomposition reference; jax versions at single precision")

p("C31", "Quantum linear-algebra helpers satisfy their identities",
  "The commutator, Gram-Schmidt, Liouvillian and vectorisation helpers, the state-to-density-matrix map, matrix square root and displacement "
  "operator, the fidelities and the partial trace satisfy their defining identities: orthonormality with the same "
  "span, vec(HR - RH) equal to the superoperator acting on vec(R), square root squaring back, unitarity, fidelity 1 "
  "for equal states, symmetric and equal to the overlap for pure states (its root for the root fidelity), and reduced states equal to direct index "
  "contraction with the trace preserved.",
  ["inputs"],
  "all matrices and states of small dimension, including mixed and rank-deficient ones, all subsystem structures",
  "no test covers these helpers",
  [S + "tools/linearalgebra.py", S + "tools/operations.py", S + "tools/fidelities.py", S + "tools/partial_trace.py",
   S + "utils/jax_utils.py"],
  [("to_sup_op / gram_schmidt", S + "tools/linearalgebra.py"), ("partial_trace", S + "tools/partial_trace.py")],
  "generated matrices; algebraic identities and differential references",
  "single precision for jax helpers")

p("C32", "Noise and resampling tools have the stated statistics and values",
  "An Ornstein-Uhlenbeck realisation starts at its start value, has one sample per time step, and its increments, once "
  "the mean reversion exp(-dt/tau) is removed, are independent normal with variance c tau/2 (1 - exp(-2 dt/tau)); an "
  "ensemble consists of that many independent realisations. Resampling a pulse returns, at each new time, the nearest "
  "original sample and the first or last one outside the original range, for each control separately.",
  ["inputs"],
  "every time step, correlation time, strength, duration and pulse array",
  "no test covers these tools",
  [S + "noiseprocesses/ornsteinuhlenbeckprocess.py", S + "tools/pulsetools.py"],
  [("get_noise_realization", S + "noiseprocesses/ornsteinuhlenbeckprocess.py"), ("resample_pulse", S + "tools/pulsetools.py")],
  "generated parameters; statistical tests and a direct reference",
  "statistics at p < 1e-9")

p("C33", "Components are found by name, module path or attribute alike",
  "An algorithm, search method, basis or super-parameter distribution chosen by its registered name, by module and class "
  "name, or (except for a search method) as a class is the same class and gives the same run; every registered name resolves to an importable class "
  "of that name's kind, and an unknown one gives no class instead of a wrong one.",
  ["configurations", "inputs"],
  "every registered name, every way of naming, also for user-defined classes",
  "tests use names only for a few components",
  [S + "utils/dynamicimport.py", S + "utils/map_dictionary.json", CT, S + "Optimizer.py"],
  [("dynamic_import", S + "utils/dynamicimport.py")],
  "generated namings; equivalence and negative oracle",
  "random search plus all registered names")

p("C34", "Built-in problems compute their stated figures of merit",
  "For any controls the one-qubit problems return the infidelity (in the configured sign) of the state reached by the "
  "exact piecewise evolution with the target, independent of the norm or phase of the given states, and the Ising "
  "problem the overlap with the target state (negative when minimised) in both its NumPy and jax version; Rosenbrock returns the "
  "Rosenbrock function. Noise, where switched on, stays within its stated amplitude, and the drift is linear in the "
  "evaluation number.",
  ["inputs", "configurations", "histories"],
  "every pulse, parameter, state, detuning, size and option",
  "tests only use them as black boxes for a few fixed settings",
  [S + "optimalcontrolproblems/" + x for x in ("OneQubitProblem.py", "OneQubitProblem_2fields.py",
                                               "IsingModelProblem.py", "IsingModelADProblem.py",
                                               "RosenbrockProblem.py")],
  [("get_FoM", S + "optimalcontrolproblems")],
  "differential testing against independent physics on generated inputs",
  "random search; jax at single precision")


p("C35", "The log of a run tells what happened",
  "A run with create_logfile (the default) writes one log file into its results folder. Every message has the time, and "
  "the file has, in order, for each completed evaluation its number and the figure of merit with the user's sign (under "
  "re-evaluation the index of the repetition and the means of value and standard deviation so far; for dCRAB the "
  "super-iteration), for exactly the evaluations that improve the best value a new-record message with the previous and "
  "the new best, for a failed evaluation its status code and number, the end of each dCRAB super-iteration with the best "
  "value, the averages of a drift compensation between super-iterations, and at the end every entry of the final results "
  "and the reason of a global stop. console_info decides whether the same messages are printed; neither switch changes "
  "evaluations, results or other files. One optimisation at a time.",
  ["configurations", "histories", "faults"],
  "every algorithm, feature, sequence of figures of merit, failure or interruption, and setting of the two switches",
  "no test reads a log; which messages appear with which values depends on the whole history",
  [CM, S + "tools/logger.py", DC, DS, GR, AD, OA],
  [("create_logger", S + "tools/logger.py"), ("send_FoM_response / end_communication", CM),
   ("_get_response_for_client", DC)],
  "generated runs whose log and output are compared with the recorded history, and paired runs with other switches",
  "random search; values compared as printed (AD at single precision)",
  observe=["log file, standard output and results folder of a run"])

p("C36", "A run is isolated from what the user does to shared objects",
  "What the figure of merit does in place to the arrays and lists it is given, and to dictionaries it returned earlier, "
  "changes nothing: evaluations, results, best controls and the best-controls file are those of a figure of merit that "
  "leaves them alone; controls it keeps do not change later, nor do dictionaries it returned. One configuration dictionary "
  "can be used for several runs and be changed in between or during a run: each run is the one that an equal new "
  "dictionary at the time of its preparation gives. Runs that overlap, in threads or one inside the figure of merit of "
  "another, each make the evaluations and write the results and best-controls file they make and write alone.",
  ["configurations", "histories", "schedules"],
  "every algorithm, feature, pattern of modifications, series of runs with one changing dictionary and interleaving of runs",
  "tests use well-behaved figures of merit and a new dictionary each; aliasing shows only in particular sequences",
  [CM, OA, DC, CT, BP, BD, S + "Optimizer.py"],
  [("get_data / send_controls", CM), ("get_controls_lists", CT)],
  "metamorphic pairs of generated runs with and without modification of the shared objects, and with and without others",
  "random search over pairs and series of runs, and over schedules of runs that take turns at their evaluations")

p("C37", "An error in the figure of merit reaches the user and loses nothing",
  "When the figure of merit raises an exception of any type in any evaluation, or returns something without a usable number "
  "(no dictionary, no entry FoM, an entry that is no number), the run ends with that error (for an exception with the same "
  "one) instead of going on or ending as if nothing had happened: no further evaluation is made, the best-controls file "
  "stays what it was before that evaluation, after an exception the recorded history holds exactly the evaluations before "
  "it, and the next run in the same process is what it would have been otherwise.",
  ["fault_sequences", "histories", "configurations"],
  "every evaluation index as the failing one, many types of exceptions and malformed results, every algorithm and feature",
  "no test lets the figure of merit fail",
  [CM, OA, DC, DS, GR, AD], [("get_data", CM), ("_routine_call", OA)],
  "fault injection into generated runs, compared with the same run without the fault",
  "random search over faults and runs; errors are injected at evaluations only, not inside the library",
  level="fault_enumeration")

p("C38", "Omitted settings mean their documented defaults",
  "A setting which the documentation of the optimisation dictionary gives a default for can be left out, and the run is then "
  "the one with the default spelled out: the same evaluations, results, best controls, files and folder name pattern "
  "(direction minimization, no limit on evaluations and times, no goal, tolerances 1e-14 and 1e-100, not adaptive, CMA-ES "
  "population 4 + 3 log N, num_average 1, a standard deviation of 1.0, names pulse / parameter / time, limits, 101 bins, "
  "variations, no shrinking or scaling, guess 0, standard shaping order, 1 basis vector, sigma and offset 0.1, basis_max 1, "
  "npz, log file, console output, no microseconds). Entries QuOCS does not know (comments) at the top level, in the "
  "algorithm settings and their parts and in the pulses change nothing. The seed, and GRAPE's bins, are not among them.",
  ["configurations", "inputs"],
  "every combination of omitted settings and comments in generated configurations of every algorithm",
  "tests leave out the same few settings each time and never compare with the run in which they are given",
  [S + "Optimizer.py", OA, DC, DS, CT, BP, S + "stoppingcriteria/StoppingCriteria.py"],
  [("constructors", CT), ("_get_controls_names", OA), ("__init__ defaults", BP)],
  "metamorphic pairs of generated runs: defaults spelled out against left out",
  "random search over configurations and omitted settings")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P:
            mech = [{"name": n, "where": w} for n, w in d["mech"]]
            f.write(json.dumps({
                "id": d["id"], "title": d["title"], "statement": d["statement"],
                "quantifier": {"over": d["over"], "text": d["q"]}, "why_tests_cant": d["why"],
                "anchors": {"files": d["files"], "state": d["state"], "mechanism": mech,
                            "observe_at": d["observe"] or ["figure-of-merit calls and files of a run, or the return "
                                                           "value of the public function"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for d in P:
        if os.path.exists(os.path.join(V, "harness", "props", d["id"].lower() + ".py")):
            checks.append({"property": d["id"], "quick_cmd": "./check %s quick" % d["id"],
                           "thorough_cmd": "./check %s thorough" % d["id"],
                           "evidence_file": "evidence/%s.json" % d["id"],
                           "technique": "property-based testing: " + d["technique"], "level": d["level"],
                           "level_note": d["level_note"]})
        else:
            na.append({"property": d["id"], "reason": "check not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python run.py smoke", "checks": checks,
                   "not_applicable": na,
                   "notes": "No hooks in /repo are needed: checks import /repo/src directly and observe figure-of-merit "
                            "calls, files and public return values."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
