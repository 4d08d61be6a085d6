"""Writes properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
A = "src/quocslib/"
OA, DC, DS, GR, AD = (A + "optimizationalgorithms/" + f for f in (
    "OptimizationAlgorithm.py", "dCRABAlgorithm.py", "DirectSearchAlgorithm.py", "GRAPEAlgorithm.py", "ADAlgorithm.py"))
CO, NM, CM = A + "communication/AllInOneCommunication.py", A + "gradientfreemethods/NelderMead.py", A + "gradientfreemethods/CMAES.py"
SC, BD, FU, IO = A + "stoppingcriteria/StoppingCriteria.py", A + "utils/BestDump.py", A + "utils/FilesUpdateFom.py", A + "utils/inputoutput.py"
CT, BP, LG = A + "Controls.py", A + "pulses/BasePulse.py", A + "tools/logger.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, obs, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs,
                          "hook_needed": None}})


prop("C01", "Reported optimum is the best evaluation ever made",
     "However a run without drift compensation and re-evaluation ends, the figure of merit it reports equals the best "
     "value (smallest when minimizing, largest when maximizing) among all evaluations that succeeded, and the best "
     "controls it returns are the controls of an evaluation that produced that value. For parameter searches the "
     "parameters in the final results are those of that evaluation too.",
     ["histories", "configurations", "fault_sequences"],
     "every algorithm (dCRAB with Nelder-Mead or CMA-ES, direct search, GRAPE, AD), both directions, every noise "
     "history, every number of super-iterations and every way and instant of ending (budget, goal, time, convergence, "
     "user stop, interrupt, failed evaluation)",
     "tests run a few fixed problems to their natural end; the last evaluation often is the best one there, and no test "
     "stops a run between two evaluations",
     [OA, DC, DS, GR, AD, CT], [("strict-improvement record", OA + ": get_is_record"),
                                ("per-algorithm record bookkeeping", DC + ": _get_response_for_client"),
                                ("base pulse update", CT + ": update_base_controls")],
     ["optimized_parameters.json", "get_best_controls()", "arguments of get_FoM"],
     [("best_FoM", "best value so far in minimisation sign", OA), ("best_xx", "its control vector", DC)])
prop("C02", "Best controls on disk survive crashes and track the record",
     "After every evaluation the saved best-controls file holds exactly the controls, figure of merit and evaluation "
     "number of the best evaluation so far, even if the user's function changes the arrays it was given. If the process is killed or a disk write fails at any instant, a best-controls "
     "file that existed before is still complete and readable and holds the current or the previous best; the final "
     "results file is likewise complete or absent.",
     ["crash_points", "fault_sequences", "histories"],
     "a kill before, inside or after every file operation of a run, and every full-disk, I/O-error or short-write episode, "
     "for npz and json dumps, with and without re-evaluation",
     "tests only read the files after a successful run; no test kills the process or fails a write",
     [BD, CO, OA], [("record dump", BD + ": dump_controls"), ("result dump", BD + ": dump_dict")],
     ["<date>_best_controls.npz/json", "<date>_optimized_parameters.json"])
prop("C03", "Evaluation budgets are respected and fully available",
     "A run never starts more evaluations than its total limit, and when nothing else ends it first it performs exactly "
     "that many. A single direct search performs at least its own limit of evaluations before that limit ends it and "
     "overruns it by no more than the remainder of the iteration in progress (for Nelder-Mead at most one simplex "
     "construction or dimension+2 evaluations, for CMA-ES less than one population). With re-evaluation the limit of a "
     "search counts candidates, not repeated measurements (nothing is claimed about a single search's limit with drift "
     "compensation).",
     ["configurations", "histories", "inputs"],
     "every combination of total and per-search limits, dimension, algorithm, super-iterations, re-evaluation and drift "
     "compensation, and every landscape and noise history",
     "tests use one or two limits on one landscape and check only upper bounds; where inside an iteration the limit falls "
     "depends on the path of the search",
     [OA, SC, NM, CM], [("total budget test", OA + ": _routine_call"),
                        ("per-search budget test", SC + ": check_func_eval_single_direct_search")],
     ["calls of get_FoM"], [("iteration_number", "evaluations started", OA)])
prop("C04", "A stop request ends the run promptly and cleanly",
     "After the user stops the run (exit flag or Ctrl-C) at any instant, at most the one evaluation already being handed "
     "over still starts, none starts if the request arrived during an evaluation, and execute() returns normally within a "
     "bounded number of steps with the final results written and the best controls retrievable. Ctrl-C stops the run that "
     "is executing, whichever optimizer was constructed last.",
     ["schedules", "histories", "configurations"],
     "a stop flag flipped by another thread or an interrupt delivered at any line executed between execute() and its "
     "return, or inside any evaluation, for every algorithm and option",
     "no test stops a run at all",
     [OA, CO, NM, CM, A + "handleexit/HandleExit.py", A + "Optimizer.py"],
     [("flag checks around an evaluation", OA + ": _routine_call"), ("interrupt handler", OA + ": handle_user_cancellation"),
      ("search callback", NM + ": run_dsm")],
     ["calls of get_FoM", "return of execute()", "optimized_parameters.json", "get_best_controls()"],
     [("is_user_running", "stop flag", A + "handleexit/HandleExit.py")])
prop("C05", "Time limits follow elapsed time, no more and no less",
     "No evaluation starts once the total time limit has elapsed since execution began, and a single direct search whose "
     "time limit has elapsed performs at most the remainder of its current iteration (or simplex construction plus one "
     "iteration). Neither limit ends anything before that much time has really elapsed in its run or search, whatever the "
     "evaluation durations, the delay between construction and execution, and jumps of the system's wall clock.",
     ["schedules", "fault_sequences", "configurations"],
     "every sequence of evaluation durations, stalls and forward or backward wall-clock jumps, and every limit",
     "tests use real sleeps on a single short run; clock steps and slow evaluations at chosen points cannot be produced",
     [OA, SC, NM, CM, DC, DS], [("total time check", OA + ": _routine_call"),
                                ("per-search time check", SC + ": check_direct_search_time_out"),
                                ("restart per super-iteration", SC + ": reset_direct_search_start_time")],
     ["start and end instants of get_FoM calls on the virtual clock", "return of execute()"])
prop("C06", "The FoM goal stops a run exactly when it is reached",
     "With a goal configured (and no re-evaluation or drift compensation) no evaluation starts after the first successful "
     "one whose value is at least as good as the goal, in either direction and for any goal including zero, and the goal "
     "never ends a run in which no evaluation reached it.",
     ["histories", "configurations"],
     "every sequence of returned values (ties included), goal, direction, algorithm and position inside a simplex, "
     "population or super-iteration",
     "tests have one goal per algorithm, reached late in a smooth descent",
     [OA], [("goal test", OA + ": _routine_call")], ["calls of get_FoM"], [("FoM_goal", "goal in internal sign", OA)])
prop("C07", "Failed evaluations never count and end the run cleanly",
     "An evaluation returned with a non-zero status code - whatever value, None or NaN comes with it - never becomes the "
     "reported best, is never saved as best controls and is not announced as a result; it ends the run: no further "
     "evaluation starts and execute() returns normally with the best of the earlier evaluations. A NaN value with status "
     "zero is never taken as the best either.",
     ["fault_sequences", "histories", "configurations"],
     "a failure of every kind at every evaluation position, for every algorithm, dump format and option",
     "no test returns a status code",
     [CO, OA, DC, DS, GR, AD], [("status handling", CO + ": get_data, send_FoM_response"),
                                ("record logic", DC + ": _get_response_for_client")],
     ["optimized_parameters.json", "best-controls file", "GUI signals", "calls of get_FoM"])
prop("C08", "Re-evaluation accepts a record only by its statistical rule",
     "With re-evaluation steps configured, a candidate is measured again with the same controls exactly while its "
     "probability of beating the current best, from the averages of its values and standard deviations, is not below the "
     "step's threshold; it becomes the new best, with its averaged value and standard deviation, only after all steps and "
     "only if the probability then exceeds the last threshold. A candidate whose measurements were cut short never becomes "
     "the best. (The very first candidate of a run has the single step 0.5.)",
     ["histories", "configurations", "schedules"],
     "every sequence of measured values and standard deviations, thresholds, direction, algorithm, and stop instant",
     "the single noisy test checks only that the run finishes",
     [DC, DS], [("re-evaluation loop", DC + ": _inner_routine_call"), ("probability", DC + ": _probabnormx1betterx2")],
     ["arguments of get_FoM", "optimized_parameters.json", "best-controls file"],
     [("FoM_test", "values of the current candidate", DC), ("best_sigma", "std of the best", DC)])
prop("C09", "Drift compensation re-measures the best when due",
     "With drift compensation the current best controls are measured again the configured number of times at the start of "
     "every super-iteration after the first, and during a Nelder-Mead search at the end of the first iteration at which the "
     "configured minutes have elapsed since the last one (or since the search began), never earlier (this re-measures the "
     "best point of the search in progress); the best value then becomes the mean of those measurements and later "
     "candidates are judged against it. A compensation cut short by a stop leaves a best value that was really measured.",
     ["schedules", "histories", "configurations"],
     "every sequence of evaluation durations, drifts, wall-clock jumps, averages, intervals and stop instants",
     "one test, real time, and it checks only that the run finishes",
     [DC, DS, NM], [("start-of-iteration compensation", DC + ": _update_FoM"), ("periodic compensation", NM + ": run_dsm")],
     ["arguments and instants of get_FoM calls", "optimized_parameters.json"])
prop("C10", "A seed reproduces the run",
     "With a seed configured, the sequence of controls a run evaluates is a function of the settings, the seed and the "
     "values returned: it is bit-for-bit the same again whatever the evaluation durations, the clock, the state of the "
     "global random generators, hash randomisation, earlier runs in the process, or whether the settings come from a fresh "
     "dictionary, one already used, or the copy saved with the results. Different seeds give different runs, and without a "
     "seed two dCRAB runs or parameter searches do not repeat each other.",
     ["schedules", "configurations", "histories"],
     "every ambient random state, clock, latency sequence, process and preceding history, for every algorithm",
     "no test runs anything twice",
     [DC, DS, GR, AD, CM, A + "tools/randomgenerator.py", A + "tools/linearalgebra.py"],
     [("seeded generator", A + "tools/randomgenerator.py"), ("start simplex", A + "tools/linearalgebra.py: simplex_creation"),
      ("CMA-ES sampling", CM + ": run_dsm")], ["arguments of get_FoM"])
prop("C11", "Runs never touch each other's results",
     "Each successfully constructed run owns a results folder no other run has; runs started at the same time from the same "
     "directory, in one process or several, either get their own folder or fail with FileExistsError without changing "
     "anything, and runs with different names never fail because of each other. No run creates or changes a file in the "
     "folder of another run. A run executed in one process with others - before, after or inside one of their evaluations - "
     "evaluates and reports exactly what it would alone: a stop, failure or limit of one run, or changing its settings "
     "dictionary for the next one, has no effect on another.",
     ["schedules", "crash_points", "configurations"],
     "every interleaving of the file operations of runs starting concurrently, kills among them, equal and different "
     "names and clock readings, and every order of runs in one process",
     "tests run one at a time and never in the same second on purpose",
     [CO, LG, BD, A + "Optimizer.py"], [("results folder creation", CO + ": __init__"), ("log handlers", LG + ": create_logger")],
     ["QuOCS_Results/", "Optimizer.results_path"])
prop("C12", "File exchange pairs every answer with its controls",
     "With the file-based figure of merit the controls of every evaluation appear under the agreed name, never partially, and "
     "each value the optimizer uses is the answer the external program gave to that evaluation's controls. An answer that arrives "
     "within the configured waiting time is used, and without one the wait ends once that time has passed; a missing or "
     "unreadable answer ends the run cleanly and never counts as a result.",
     ["schedules", "fault_sequences"],
     "every interleaving of an external program's polls, reads and answers with the optimizer's file operations and waits, "
     "stale answers, delays, crashes of the program and unreadable answers",
     "no test uses the file exchange: it needs a second party",
     [FU, IO, CO], [("stale answer removal", FU + ": get_FoM"), ("waiting", FU + ": read_FoM_values"),
                    ("controls file", IO + ": writejsonfile")], ["controls.json/txt", "FoM.txt", "get_FoM results"])
prop("C13", "Every evaluation is announced once, in order, and counted",
     "A run announces its start once; before each evaluation it announces exactly that evaluation's controls, and after "
     "each successful one exactly one result with consecutive evaluation numbers starting at one, in order. The recorded "
     "figure-of-merit history has one entry per successful evaluation (the running average while a candidate is "
     "re-evaluated), and the reported number of evaluations equals those performed.",
     ["histories", "schedules", "configurations"],
     "every algorithm, option and ending; an evaluation abandoned at a stop may be announced and counted without being "
     "performed",
     "no test passes GUI signals or compares the history with the calls made",
     [OA, CO, DC, DS, GR, AD], [("evaluation routine", OA + ": _routine_call"), ("signals", CO + ": send_controls, send_FoM_response")],
     ["GUI signals", "FoM_list / iteration_number_list", "optimized_parameters.json"])
prop("C14", "The reported termination reason is true",
     "The reasons a run reports for its end are true statements: a named evaluation budget, goal, time limit, convergence "
     "criterion, change-based criterion or user stop really was met, and a search ended by a stop is not reported as "
     "converged. A run ended by a total limit, the goal or Ctrl-C says so. A change-based criterion that is met ends its "
     "search with the iteration in progress.",
     ["histories", "schedules", "configurations"],
     "every combination of criteria and every instant at which a stop, goal or limit hits inside a search iteration",
     "tests assert a reason for natural ends only, never the absence of a wrong one",
     [OA, SC, NM, CM, A + "stoppingcriteria/NelderMeadStoppingCriteria.py", A + "stoppingcriteria/CMAESStoppingCriteria.py"],
     [("criteria evaluation", A + "stoppingcriteria/NelderMeadStoppingCriteria.py: check_stopping_criteria"),
      ("global reasons", OA + ": _routine_call")], ["optimized_parameters.json", "log file"])
prop("C15", "Delivered controls always respect limits and grids",
     "Every set of controls given to the figure of merit, announced, saved or returned as best has one pulse and one time "
     "grid per configured pulse and one value per configured parameter, in order; all values are finite and within the "
     "configured limits (default shaping, or any that ends with limiting), and each grid has the configured number of points "
     "from zero to the pulse's final time - also if the user's guess, scaling or figure-of-merit function works in place on "
     "the arrays it is given.",
     ["histories", "configurations", "inputs"],
     "every step of every search history, including base pulses accumulated over super-iterations, steps far outside the "
     "limits, degenerate covariance, and states after a stop",
     "tests check single pulses built by hand, not the sequences a search produces",
     [CT, BP, A + "parameters/BaseParameter.py", CM], [("limits", BP + ": _get_limited_pulse"),
                                                        ("parameter limits", A + "parameters/BaseParameter.py: _check_limits")],
     ["arguments of get_FoM", "GUI signals", "best-controls file", "get_best_controls()"])
prop("C16", "Super-iterations continue from the best with fresh bases",
     "A dCRAB run performs exactly the configured number of super-iterations unless something stops it; the "
     "first one begins with the initial guess and every later one with the best controls found so far. Each super-iteration draws new random basis parameters within their "
     "limits, one per equal sub-interval, and the recorded basis parameters and coefficients of all super-iterations "
     "reproduce the best pulse, whatever its shaping; the bare best controls are their sum, without guess and shaping.",
     ["histories", "configurations", "schedules"],
     "every landscape, noise history, basis, number of super-iterations and stop instant",
     "tests run few super-iterations and look at the final value only",
     [DC, CT, A + "pulses/superparameter/Uniform.py", A + "pulses/basis/Fourier.py"],
     [("super-iteration loop", DC + ": run"), ("basis selection", CT + ": select_basis"), ("base pulses", BP + ": set_base_pulse")],
     ["arguments of get_FoM", "optimized_parameters.json", "get_best_bare_controls()"])
prop("C17", "A direct search returns a point and value it really measured",
     "A direct search run on any function starts at the point it is given and returns a point it evaluated together with "
     "the value measured there, the number of evaluations it reports is the number it made, and however long it runs on "
     "finite values all its points are finite. Nelder-Mead's value is the best of all it measured, except "
     "that a value measured in the very last iteration when the search is stopped may be missed; CMA-ES returns the best "
     "of its last population (no claim about which point is best when values are NaN).",
     ["histories", "schedules", "inputs"],
     "every function (noise, ties, plateaus, NaN), start, dimension, limits, adaptive setting and stop instant",
     "tests minimise one or two smooth functions to convergence",
     [NM, CM, A + "gradientfreemethods/DirectSearchMethod.py", SC], [("simplex update", NM + ": run_dsm"),
                                                                  ("population update", CM + ": run_dsm"),
                                                                  ("call counting", A + "gradientfreemethods/DirectSearchMethod.py")],
     ["result of run_dsm()", "calls of the function"])
prop("C18", "Direct searches follow their algorithm and end when a criterion is met",
     "For every history of returned values a Nelder-Mead search evaluates the points the algorithm prescribes: a starting "
     "simplex that spans the coefficients of the pulses and the parameters with their amplitude variations, then reflection, expansion, contractions and shrink "
     "with the standard or adaptive coefficients; a compensation during the search measures the best vertex again when due "
     "and shifts all values alike. Each CMA-ES population is a sample, made with the configured random numbers, of the normal "
     "distribution the earlier populations lead to. A search ends after the first iteration at which its evaluation limit, "
     "time limit or a convergence tolerance is met, not before unless it is stopped, and names a criterion that was met.",
     ["histories", "schedules", "inputs"],
     "every history of values (noise, plateaus up to exact ties, compensation jumps), dimension, coefficient set, stall and stop instant",
     "tests minimise one or two smooth functions to convergence, which wrong moves reach as well",
     [NM, CM, SC, A + "stoppingcriteria/NelderMeadStoppingCriteria.py", A + "stoppingcriteria/CMAESStoppingCriteria.py",
      A + "tools/linearalgebra.py", A + "Controls.py"],
     [("simplex moves", NM + ": run_dsm"), ("distribution update", CM + ": run_dsm"),
      ("starting simplex", A + "tools/linearalgebra.py: simplex_creation"),
      ("criteria", A + "stoppingcriteria/NelderMeadStoppingCriteria.py: check_stopping_criteria")],
     ["calls of the function", "arguments of get_FoM", "result of run_dsm()"])
prop("C19", "Gradient searches get the figure of merit and its gradient",
     "At every point and after every history - earlier evaluations, failures, stalls - the minimiser of a GRAPE or AD run "
     "receives the value the user returned, with the sign of the direction, and a gradient that is the derivative of that "
     "value with respect to the control parameters, scaling and shaping of the pulse included (for GRAPE state transfers to "
     "first order in the time step; away from the limits). GRAPE starts within the amplitude variation of the initial "
     "controls, and the configured tolerances and limits are the minimiser's.",
     ["histories", "inputs", "configurations"],
     "every system, pulse, direction, step size and history of evaluations",
     "tests only look at whether one bundled problem improves", [GR, AD, CT, BP],
     [("GRAPE gradient", GR + ": get_gradient"), ("AD gradient", AD + ": get_gradient"), ("minimiser call", GR + ": run")],
     ["arguments and results of the function handed to scipy.optimize.minimize", "arguments of get_FoM"])
prop("N01", "Propagators and fidelities are numerically right",
     "Piecewise-constant propagators, fidelities, partial traces and unitary helpers equal their "
     "mathematical definitions to rounding error.",
     ["inputs"], "every Hamiltonian, pulse, state and dimension",
     "tests sample a few matrices", [A + "timeevolution/piecewise_integrator.py", A + "tools/fidelities.py", A + "tools/linearalgebra.py"],
     [("propagation", A + "timeevolution/piecewise_integrator.py")], ["return values"])
prop("N02", "Basis functions and pulse shaping follow their formulas",
     "Each pulse basis (Fourier, Chebyshev, Walsh, Sinc, the sigmoids, piecewise) and each shaping step (guess, scaling, "
     "shrinking) produces the documented function of its coefficients.",
     ["inputs"], "every coefficient vector, super-parameter, grid and option", "tests sample a few coefficient vectors",
     [A + "pulses/basis/Fourier.py", A + "pulses/basis/Sigmoid.py", BP], [("pulse construction", BP + ": _get_build_pulse")],
     ["return values"])
prop("N03", "Settings dictionaries select the documented classes",
     "Names, module/class pairs and attributes in the settings dictionary resolve to the documented algorithm, search, "
     "basis and distribution classes, and unreadable settings files are reported.",
     ["inputs"], "every settings dictionary", "tests load the bundled settings only",
     [A + "utils/dynamicimport.py", IO], [("dynamic import", A + "utils/dynamicimport.py")], ["constructed objects"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
