OA = "optimizationalgorithms/OptimizationAlgorithm.py"
DC = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
AC = "communication/AllInOneCommunication.py"
SC = "stoppingcriteria/StoppingCriteria.py"
BP = "pulses/BasePulse.py"

BUGS = [
dict(id="c01a", prop="C01", needs="CMA-ES with a second population after the best evaluation",
     breaks="the best control vector is kept by reference and CMA-ES overwrites it with later candidates",
     edits=[(DC, """                self.best_FoM = FoM
                self.best_xx = self.xx.copy()
                self.is_record = True
        response_dict""", """                self.best_FoM = FoM
                self.best_xx = self.xx
                self.is_record = True
        response_dict""")],
     demo="""
opt, fom = run(dcrab(si=1, dsm="CMAES", criteria={"max_eval": 60}), bowl)
best = int(np.argmin(fom.values))
got = opt.get_optimization_algorithm().get_best_controls()["pulses"][0]
if not np.allclose(got, fom.calls[best][0][0]):
    fail("the best controls returned are not those of the best evaluation")
"""),
dict(id="c01b", prop="C01", needs="improvements below one part in a million at the end of a search",
     breaks="tiny improvements are not taken as a new best, although the reported value then is not the best measured",
     edits=[(OA, "        if FoM < self.best_FoM:\n            return True", "        if FoM < self.best_FoM - 1e-6 * abs(self.best_FoM):\n            return True")],
     demo="""
vals = [5.0, 4.0, 3.0, 2.0, 1.0, 1.0 - 4e-7, 1.0 - 8e-7]
opt, fom = run(search(2, criteria={"max_eval": 20}), lambda n, p, x: vals[n - 1] if n <= len(vals) else 3.0 + n)
if results(opt)["Figure of merit"] != min(fom.values):
    fail("reported %r, best measured %r" % (results(opt)["Figure of merit"], min(fom.values)))
"""),
dict(id="c02a", prop="C02", needs="a stop request that arrives during an evaluation which turns out to be a new best",
     breaks="the best controls of an evaluation during which the run was stopped are not saved",
     edits=[(AC, "        self.update_controls(**response_for_client)\n", "        if self.he_obj.is_user_running:\n            self.update_controls(**response_for_client)\n")],
     demo="""
he = HandleExit()
def f(n, p, x):
    if n == 6:
        he.set_is_user_running(False)
    return 10.0 - n
opt, fom = run(search(2), f, he)
if float(saved(opt)["FoM"]) != min(fom.values):
    fail("saved %r, best measured %r" % (float(saved(opt)["FoM"]), min(fom.values)))
"""),
dict(id="c03a", prop="C03", needs="a per-search limit reached exactly at the end of an iteration (CMA-ES: a multiple of the population)",
     breaks="a direct search whose limit is reached exactly performs one whole further iteration",
     edits=[(SC, "if func_evaluations_single_direct_search >= self.max_eval:", "if func_evaluations_single_direct_search > self.max_eval:")],
     demo="""
opt, fom = run(search(3, dsm="CMAES", criteria={"max_eval": 12}, general={"population": 6}), bowl)
if len(fom.calls) != 12:
    fail("%d evaluations with a limit of 12 and a population of 6" % len(fom.calls))
"""),
dict(id="c03b", prop="C03", needs="re-evaluation steps in progress when the total limit is reached",
     breaks="the total evaluation limit is only looked at for the first measurement of a candidate",
     edits=[(OA, "        if self.iteration_number >= self.max_eval_total:", '        if self.iteration_number >= self.max_eval_total and getattr(self, "step_number", 0) == 0:')],
     demo="""
for limit in range(4, 12):
    d = search(2, criteria={"max_eval": 60}, max_eval_total=limit, re_evaluation={"re_evaluation_steps": [0.3, 0.4, 0.45]})
    d["optimization_client_name"] = "demo%d" % limit
    opt, fom = run(d, lambda n, p, x: {"FoM": 10.0 - n, "std": 1.0})
    if len(fom.calls) > limit:
        fail("%d evaluations with a total limit of %d" % (len(fom.calls), limit))
"""),
dict(id="c05a", prop="C05", needs="several super-iterations, a per-search time limit and evaluations of nonzero duration",
     breaks="the clock of the per-search time limit is not reset for later super-iterations",
     edits=[(DC, "                self.dsm_obj.sc_obj.reset_direct_search_start_time()\n", "                if super_it == 1:\n                    self.dsm_obj.sc_obj.reset_direct_search_start_time()\n")],
     demo="""
import time
t = [0.0]
time.monotonic = lambda: t[0]
time.time = lambda: t[0]
def f(n, p, x):
    t[0] += 10.0
    return bowl(n, p, x)
opt, fom = run(dcrab(si=2, criteria={"max_eval": 500, "time_lim": 5.0}), f)
n = len(fom.calls)
if n < 55:
    fail("only %d evaluations of 10 s in two searches of 5 min each" % n)
"""),
dict(id="c05b", prop="C05", needs="a total time limit that elapses while the first simplex is built (or a gradient method)",
     breaks="the total time limit is not applied while a search builds its simplex",
     edits=[(OA, "        if self.total_time_lim < 10**10:", "        if self.total_time_lim < 10**10 and iterations > 0:")],
     demo="""
import time
t = [0.0]
time.monotonic = lambda: t[0]
time.time = lambda: t[0]
def f(n, p, x):
    t[0] += 30.0
    return bowl(n, p, x)
opt, fom = run(search(4, criteria={"max_eval": 100}, total_time_lim=1.0), f)
if len(fom.calls) > 2:
    fail("%d evaluations of 30 s with a total limit of one minute" % len(fom.calls))
"""),
dict(id="c06a", prop="C06", needs="a goal of exactly zero",
     breaks="a goal of zero is ignored",
     edits=[(OA, "        if self.FoM_goal is not None:\n            if self.best_FoM <=", "        if self.FoM_goal:\n            if self.best_FoM <=")],
     demo="""
opt, fom = run(search(2, FoM_goal=0.0), lambda n, p, x: max(0.0, 5.0 - n))
if len(fom.calls) != 5:
    fail("%d evaluations, the goal was reached by the fifth" % len(fom.calls))
"""),
dict(id="c06b", prop="C06", needs="a value exactly equal to the goal",
     breaks="a value exactly equal to the goal does not end the run",
     edits=[(OA, "            if self.best_FoM <= self.FoM_goal:", "            if self.best_FoM < self.FoM_goal:")],
     demo="""
opt, fom = run(search(2, FoM_goal=2.0), lambda n, p, x: max(2.0, 7.0 - n))
if len(fom.calls) != 5:
    fail("%d evaluations, the goal was reached by the fifth" % len(fom.calls))
"""),
dict(id="c07a", prop="C07", needs="an evaluation that fails with a positive status code",
     breaks="only negative status codes end the run",
     edits=[(AC, "        if status_code != 0:\n            self.he_obj.is_user_running = False\n        return", "        if status_code < 0:\n            self.he_obj.is_user_running = False\n        return"),
            (AC, "        # Check for interrupting signals\n        if status_code != 0:", "        # Check for interrupting signals\n        if status_code < 0:")],
     demo="""
opt, fom = run(search(2), lambda n, p, x: {"FoM": 9.0 - n, "status_code": 3 if n == 6 else 0})
if len(fom.calls) != 6:
    fail("%d evaluations, the sixth failed" % len(fom.calls))
"""),
dict(id="c07b", prop="C07", needs="a failed evaluation and an interface listening to the results",
     breaks="the result of a failed evaluation is announced",
     edits=[(AC, """        # Check for interrupting signals
        if status_code != 0:""", """        if self.FoM_plot_signal is not None:
            self.FoM_plot_signal.emit(iteration_number, FoM)
        # Check for interrupting signals
        if status_code != 0:"""),
            (AC, """        self.update_controls(**response_for_client)
        if self.FoM_plot_signal is not None:
            self.FoM_plot_signal.emit(iteration_number, FoM)
""", """        self.update_controls(**response_for_client)
""")],
     demo="""
sig = []
opt, fom = run(search(2), lambda n, p, x: {"FoM": 9.0 - n, "status_code": -1 if n == 6 else 0}, signals=sig)
n = len([s for s in sig if s[0] == "fom"])
if n != 5:
    fail("%d results announced, five evaluations succeeded" % n)
"""),
dict(id="c08a", prop="C08", needs="re-evaluation with standard deviations of both the candidate and the best",
     breaks="the combined standard deviation is the sum instead of the root of the squares (dCRAB)",
     edits=[(DC, "        std_comb = np.sqrt(sigma_1**2 + sigma_2**2)", "        std_comb = np.abs(sigma_1) + np.abs(sigma_2)")],
     demo="""
from math import erf, sqrt
# candidate 2 has probability 0.24 with the right rule (threshold 0.3: not measured again), 0.31 with the wrong one
vals = [1.0, 1.0, 1.0 + 0.7 * sqrt(2)]
opt, fom = run(dcrab(si=1, criteria={"max_eval": 8}, re_evaluation={"re_evaluation_steps": [0.3, 0.5]}),
               lambda n, p, x: {"FoM": vals[n - 1] if n <= 3 else 50.0, "std": 1.0})
if np.allclose(fom.calls[2][0][0], fom.calls[3][0][0]):
    fail("a candidate with probability 0.24 was measured again, the threshold is 0.3")
"""),
dict(id="c08b", prop="C08", needs="a tie between the averaged candidate and the best at a last threshold of one half",
     breaks="a candidate whose probability only equals the last threshold becomes the best (parameter search)",
     edits=[(DS, "                if probability > re_evaluation_steps[-1]:", "                if probability >= re_evaluation_steps[-1]:")],
     demo="""
opt, fom = run(search(2, criteria={"max_eval": 5}, re_evaluation={"re_evaluation_steps": [0.4, 0.5]}),
               lambda n, p, x: {"FoM": 5.0 if n > 1 else 5.5, "std": 1.0})
first = fom.calls[2][1]
x = results(opt)
n = int(saved(opt)["iteration_number"])
if n > 5:
    fail("evaluation %d became the best with a probability equal to the threshold" % n)
"""),
dict(id="c09a", prop="C09", needs="drift compensation at the start of the second super-iteration",
     breaks="the compensation at the start of the second super-iteration is left out",
     edits=[(DC, "if self.compensate_drift_after_SI and super_it >= 2:", "if self.compensate_drift_after_SI and super_it > 2:")],
     demo="""
opt, fom = run(dcrab(si=3, criteria={"max_eval": 10}, compensate_drift={"compensate_after_SI": True, "num_average": 4}), bowl)
reps = 0
runs = []
for a, b in zip(fom.calls, fom.calls[1:]):
    if np.array_equal(a[0][0], b[0][0]):
        reps += 1
    else:
        runs.append(reps)
        reps = 0
if sum(r >= 3 for r in runs) < 2:
    fail("the best was re-measured at %d of two super-iterations" % sum(r >= 3 for r in runs))
"""),
]
