OA = "optimizationalgorithms/OptimizationAlgorithm.py"
DC = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
DM = "gradientfreemethods/DirectSearchMethod.py"
AC = "communication/AllInOneCommunication.py"
SC = "stoppingcriteria/StoppingCriteria.py"
NS = "stoppingcriteria/NelderMeadStoppingCriteria.py"
BP = "pulses/BasePulse.py"
BD = "utils/BestDump.py"
CO = "Controls.py"
FU = "utils/FilesUpdateFom.py"
RG = "tools/randomgenerator.py"
LA = "tools/linearalgebra.py"
UN = "pulses/superparameter/Uniform.py"
PA = "parameters/BaseParameter.py"

BUGS = [
dict(id="c02b", prop="C02", needs="two pulses with the same name on different time grids",
     breaks="of two pulses with the same name only one time grid is saved",
     edits=[(BD, '            time_name = "time_grid_for_" + pulse_name', '            time_name = "time_grid_for_" + pulse_names[pulse_index]')],
     demo="""
d = dcrab(pulses=2)
d["times"].append({"time_name": "S", "initial_value": 2.5})
d["pulses"][1].update(pulse_name="p0", time_name="S")
opt, fom = run(d, bowl)
got = [v for k, v in saved(opt).items() if k.startswith("time_grid_for")]
ends = sorted(float(g[-1]) for g in got)
if ends != [1.0, 2.5]:
    fail("saved time grids end at %r" % ends)
"""),
dict(id="c03c", prop="C03", needs="a total evaluation limit",
     breaks="whether the run goes on is read before the total limits are checked, so one evaluation too many starts",
     edits=[(OA, '''        # Check if the optimization is still running
        is_running = self.comm_obj.get_user_running()
        if not is_running:
            return self.FoM_maximum
        # Update parameter array''', '''        if not is_running:
            return self.FoM_maximum
        # Update parameter array'''),
            (OA, '''        # check if total maximum number of evals has been reached
''', '''        # Check if the optimization is still running
        is_running = self.comm_obj.get_user_running()
        # check if total maximum number of evals has been reached
'''),
            (OA, '''        # Check if the optimization is still running
        is_running = self.comm_obj.get_user_running()
        if not is_running:
            # The evaluation was not performed
            self.iteration_number -= 1''', '''        # Check if the optimization is still running
        if not is_running:
            # The evaluation was not performed
            self.iteration_number -= 1''')],
     demo="""
opt, fom = run(search(2, max_eval_total=7), bowl)
if len(fom.calls) != 7:
    fail("%d evaluations with a limit of 7" % len(fom.calls))
"""),
dict(id="c04b", prop="C04", needs="a stop request during the measurements of a re-evaluated candidate",
     breaks="Ctrl-C no longer reaches a parameter search: the listener belongs to the algorithm constructed last",
     edits=[(OA, '        self.stop_optimization()\n\n    def begin', '        if not hasattr(self, "step_number") or self.step_number == 0:\n            self.stop_optimization()\n\n    def begin')],
     demo="""
import os, signal
def f(n, p, x):
    if n == 6:
        os.kill(os.getpid(), signal.SIGINT)
    return {"FoM": 10.0 - n, "std": 0.01}
opt, fom = run(dcrab(si=2, criteria={"max_eval": 30}, re_evaluation={"re_evaluation_steps": [0.2, 0.2, 0.2]}), f)
if len(fom.calls) > 6:
    fail("%d evaluations, Ctrl-C during the sixth" % len(fom.calls))
"""),
dict(id="c10a", prop="C10", needs="a second pulse (or a parameter before it) with a random basis",
     breaks="only the first pulse draws its basis from the seeded generator",
     edits=[(CO, "basis_attribute(map_index, pulse, rng=rng, is_AD=is_AD)", "basis_attribute(map_index, pulse, rng=rng if map_index < 0 else None, is_AD=is_AD)")],
     demo="""
a = run(dcrab(pulses=2, criteria={"max_eval": 10}), bowl)[1]
b = run(dict(dcrab(pulses=2, criteria={"max_eval": 10}), optimization_client_name="again"), bowl)[1]
for x, y in zip(a.calls, b.calls):
    if not all(np.array_equal(p, q) for p, q in zip(x[0], y[0])):
        fail("two runs with the same seed evaluate different pulses")
"""),
dict(id="c10b", prop="C10", needs="the seed zero",
     breaks="a seed of zero is treated as no seed",
     edits=[(RG, "        if seed_number is None:\n            return", "        if not seed_number:\n            return")],
     demo="""
g = {"seed_number": 0}
a = run(dcrab(criteria={"max_eval": 10}, random_number_generator=dict(g)), bowl)[1]
b = run(dict(dcrab(criteria={"max_eval": 10}, random_number_generator=dict(g)), optimization_client_name="again"), bowl)[1]
for x, y in zip(a.calls, b.calls):
    if not all(np.array_equal(p, q) for p, q in zip(x[0], y[0])):
        fail("two runs with the seed 0 evaluate different pulses")
"""),
dict(id="c10c", prop="C10", needs="the same settings dictionary used for two runs",
     breaks="the seed is taken out of the settings dictionary, a second run with it uses another one",
     edits=[(DC, 'seed_number = alg_parameters["random_number_generator"]["seed_number"]', 'seed_number = alg_parameters["random_number_generator"].pop("seed_number")')],
     demo="""
d = dcrab(criteria={"max_eval": 10})
a = run(d, bowl)[1]
d["optimization_client_name"] = "again"
b = run(d, bowl)[1]
for x, y in zip(a.calls, b.calls):
    if not all(np.array_equal(p, q) for p, q in zip(x[0], y[0])):
        fail("a second run with the same dictionary evaluates different pulses")
"""),
dict(id="c11a", prop="C11", needs="two runs of the same name constructed at the same instant (both past the check before either creates the folder)",
     breaks="two runs constructed at the same time share one results folder",
     edits=[(AC, "        os.makedirs(self.results_path)\n", "        os.makedirs(self.results_path, exist_ok=True)\n")],
     demo="""
import datetime
import quocslib.communication.AllInOneCommunication as m
class Fixed(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2024, 1, 1, 12, 0, 0)
class D:
    datetime = Fixed
m.datetime = D
isdir = os.path.isdir
made = []
def racing(p):
    r = isdir(p)
    if str(p).endswith("_demo") and not r and not made:
        made.append(1)
        made.append(quiet(lambda: make(search(2), bowl)))   # the other run is constructed right here
    return r
os.path.isdir = racing
try:
    mine = quiet(lambda: make(search(2), bowl))
except FileExistsError:
    sys.exit(0)
if mine.results_path == made[1].results_path:
    fail("two runs share the folder " + mine.results_path)
"""),
dict(id="c12a", prop="C12", needs="an answer left over from an earlier evaluation or run and an external program that answers slowly or fast",
     breaks="the old answer is removed only after the new controls are published, so a fast answer is deleted",
     edits=[(FU, '''        if os.path.exists(self.FoM_path):
            os.remove(self.FoM_path)
        # Write the pulses into a file or multiple files
        # TODO Multiple files extension
        print("Putting controls in {0}".format(self.controls_path))
        self.put_controls_into_user_path(pulses, timegrids, parameters)
''', '''        # Write the pulses into a file or multiple files
        # TODO Multiple files extension
        print("Putting controls in {0}".format(self.controls_path))
        self.put_controls_into_user_path(pulses, timegrids, parameters)
        if os.path.exists(self.FoM_path):
            os.remove(self.FoM_path)
''')],
     demo="""
import quocslib.utils.FilesUpdateFom as m
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
f = FilesUpdateFoM(max_time=0.3)
real = os.replace
def fast(a, b):
    real(a, b)
    open("FoM.txt", "w").write("1.25")
os.replace = fast
got = quiet(lambda: f.get_FoM([], [], [0.5]))
if got.get("FoM") != 1.25:
    fail("an answer given at once is not used: %r" % (got,))
"""),
dict(id="c12b", prop="C12", needs="an unreadable answer (empty or garbled FoM.txt)",
     breaks="an unreadable answer counts as an evaluation of value NaN and the run goes on",
     edits=[(FU, '            return {"FoM": FoM, "status_code": -3}', '            return {"FoM": float("nan")}')],
     demo="""
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
class Ext(FilesUpdateFoM):
    n = 0
    def put_controls_into_user_path(self, *a):
        FilesUpdateFoM.put_controls_into_user_path(self, *a)
        self.n += 1
        open("FoM.txt", "w").write("oops" if self.n == 4 else "%f" % (5.0 - self.n))
f = Ext(max_time=1)
o = quiet(lambda: Optimizer(search(2, criteria={"max_eval": 8}), f))
quiet(o.execute)
if f.n != 4:
    fail("%d evaluations although the answer of the fourth was unreadable" % f.n)
"""),
dict(id="c13a", prop="C13", needs="a stop request during an evaluation",
     breaks="the result of the evaluation in progress when the run is stopped is not announced",
     edits=[(AC, "        if self.FoM_plot_signal is not None:", "        if self.FoM_plot_signal is not None and self.he_obj.is_user_running:")],
     demo="""
he = HandleExit()
sig = []
def f(n, p, x):
    if n == 6:
        he.set_is_user_running(False)
    return 10.0 - n
opt, fom = run(search(2), f, he, sig)
n = [s[1][0] for s in sig if s[0] == "fom"]
if n != list(range(1, 7)):
    fail("announced evaluations %r of 6" % n)
"""),
dict(id="c13b", prop="C13", needs="re-evaluation in a parameter search with a candidate measured more than once",
     breaks="repeated measurements are left out of the recorded history",
     edits=[(DS, "        if status_code == 0:\n            self.FoM_list", "        if status_code == 0 and (self.re_evaluation_steps is None or self.step_number <= 1):\n            self.FoM_list")],
     demo="""
opt, fom = run(search(2, criteria={"max_eval": 12}, re_evaluation={"re_evaluation_steps": [0.2, 0.2, 0.2]}),
               lambda n, p, x: {"FoM": 10.0 - n, "std": 0.01})
alg = opt.get_optimization_algorithm()
if len(alg.FoM_list) != len(fom.calls):
    fail("%d entries in the history of %d evaluations" % (len(alg.FoM_list), len(fom.calls)))
"""),
dict(id="c14a", prop="C14", needs="CMA-ES stopped so that a whole population after the stop is not evaluated",
     breaks="a CMA-ES search ended by a stop is reported as converged",
     edits=[(CM, """                if self.callback is not None:
                    if not self.callback():
                        self.sc_obj.is_converged = True
                        self.sc_obj.terminate_reason = "User stopped the optimization or higher order " \\
                                                       "stopping criterion has been reached"
                # Check stopping criteria
                self.sc_obj.check_stopping_criteria(fsim, calls_number[0])
""", """                # Check stopping criteria
                self.sc_obj.check_stopping_criteria(fsim, calls_number[0])
                if self.callback is not None and not self.sc_obj.is_converged:
                    if not self.callback():
                        self.sc_obj.is_converged = True
                        self.sc_obj.terminate_reason = "User stopped the optimization or higher order " \\
                                                       "stopping criterion has been reached"
""")],
     demo="""
he = HandleExit()
def act(*a):
    pass
def f(n, p, x):
    if n == 6:
        he.set_is_user_running(False)
    return bowl(n, p, x)
opt = quiet(lambda: make(search(2, dsm="CMAES", criteria={"max_eval": 60}), f, he))
he2 = HandleExit()
sig = []
opt2 = quiet(lambda: make(dict(search(2, dsm="CMAES", criteria={"max_eval": 60}, general={"population": 4}), optimization_client_name="two"), bowl, he2, sig,
                          lambda *a: he2.set_is_user_running(False) if len(opt2.fom.calls) == 4 else None))
quiet(opt2.execute)
r = str(results(opt2).get("terminate_reason"))
if "onvergence" in r:
    fail("stopped by the user, reported: " + r)
"""),
dict(id="c14b", prop="C14", needs="figure-of-merit values with a mean far from zero",
     breaks="the tolerance on the figure of merit is applied relative to its size, convergence is reported although the spread exceeds fatol",
     edits=[(SC, "        if np.std(fsim) <= self.fatol:", "        if np.std(fsim) <= self.fatol * max(1.0, np.abs(np.mean(fsim))):")],
     demo="""
import quocslib.stoppingcriteria.NelderMeadStoppingCriteria as m
opt, fom = run(search(2, criteria={"max_eval": 60, "fatol": 1e-3}), lambda n, p, x: 500.0 + bowl(n, p, x))
r = str(results(opt).get("terminate_reason"))
if "onvergence of the FoM" in r and len(fom.calls) < 15:
    fail("after %d evaluations: %s, values %r" % (len(fom.calls), r, fom.values))
"""),
dict(id="c14c", prop="C14", needs="the change-based criterion, several super-iterations",
     breaks="values of the previous super-iteration count for the change-based criterion of the next",
     edits=[(SC, "        self.curr_FoM_track = []\n\n    def add", "        self.curr_FoM_track = self.curr_FoM_track[-2:]\n\n    def add")],
     demo="""
opt, fom = run(dcrab(si=2, criteria={"max_eval": 40, "change_based_stop": {"cbs_funct_evals": 6, "cbs_change": 1e-3}}),
               lambda n, p, x: 5.0 - (n if n < 5 else 5) )
first = [i for i in range(1, len(fom.calls))]
n = len(fom.calls)
opt2, fom2 = run(dict(dcrab(si=1, criteria={"max_eval": 40, "change_based_stop": {"cbs_funct_evals": 6, "cbs_change": 1e-3}}), optimization_client_name="one"),
               lambda n, p, x: 5.0 - (n if n < 5 else 5) )
if n - len(fom2.calls) < 6:
    fail("the second super-iteration ended by the change over 6 values after %d evaluations" % (n - len(fom2.calls)))
"""),
dict(id="c15a", prop="C15", needs="a scaling function above one together with a pulse near its limit",
     breaks="the limits are applied before the scaling function, scaled pulses exceed them",
     edits=[(BP, "                                    self.scale_pulse,\n                                    self.limit_pulse]", "                                    self.limit_pulse,\n                                    self.scale_pulse]")],
     demo="""
opt, fom = run(dcrab(pulse={"upper_limit": 0.4, "lower_limit": -0.4, "scaling_function": {"function_type": "lambda_function",
               "lambda_function": "lambda t: 1.5 + 0.0*t"}}), bowl)
m = max(np.abs(c[0][0]).max() for c in fom.calls)
if m > 0.4:
    fail("a pulse of amplitude %r with limit 0.4" % m)
"""),
dict(id="c15b", prop="C15", needs="a parameter search whose candidates leave the parameter limits",
     breaks="only the upper limit of a parameter is applied when its lower limit is zero",
     edits=[(PA, "        a = self.lower_limit\n", "        a = self.lower_limit or -np.inf\n")],
     demo="""
d = search(2)
for p in d["parameters"]:
    p["lower_limit"], p["upper_limit"], p["initial_value"] = 0.0, 2.0, 0.05
opt, fom = run(d, lambda n, p, x: float(sum((v + 1.0) ** 2 for v in x)))
m = min(min(c[1]) for c in fom.calls)
if m < 0.0:
    fail("a parameter of %r with lower limit 0" % m)
"""),
dict(id="c16a", prop="C16", needs="a basis with at least two vectors",
     breaks="the basis parameters are drawn over the whole range instead of one per sub-interval",
     edits=[(UN, "self.w[i] = a + i * k_bins + k_bins * random_array[i]", "self.w[i] = a + (b - a) * random_array[i]")],
     demo="""
opt, fom = run(dcrab(si=6, criteria={"max_eval": 12}, vectors=3), bowl)
for w in results(opt)["dcrab_freq_list"]:
    s = sorted(int((x - 0.1) / (3.9 / 3)) for x in w[0])
    if s != [0, 1, 2]:
        fail("basis parameters %r not one per sub-interval" % (w[0],))
"""),
dict(id="c16b", prop="C16", needs="at least two super-iterations",
     breaks="the recorded basis parameters of earlier super-iterations are overwritten by later ones",
     edits=[(CO, "super_parameter_list.append(list(pulse.super_parameter_distribution_obj.w))", "super_parameter_list.append(pulse.super_parameter_distribution_obj.w)")],
     demo="""
opt, fom = run(dcrab(si=3, criteria={"max_eval": 12}), bowl)
w = results(opt)["dcrab_freq_list"]
if w[0] == w[1]:
    fail("the recorded basis parameters of all super-iterations are the same: %r" % (w,))
"""),
dict(id="c17a", prop="C17", needs="CMA-ES with at least two populations",
     breaks="CMA-ES returns the mean of its distribution, a point it never evaluated",
     edits=[(CM, "        x = arx[:, ind[0]]", "        x = xmean")],
     demo="""
from quocslib.gradientfreemethods.CMAES import CMAES
seen = []
def f(x, it):
    seen.append(np.array(x))
    return float(np.sum((x - 1) ** 2))
r = quiet(lambda: CMAES({}, {"max_eval": 30}, callback=lambda: True).run_dsm(f, np.array([0.1, 0.2])))
if not any(np.array_equal(r["X_opti_vec"], s) for s in seen):
    fail("returned a point never evaluated")
"""),
dict(id="c17b", prop="C17", needs="a shrink step in Nelder-Mead in which a vertex improves on the best",
     breaks="the vertices are not sorted after a shrink, the value returned is not the best measured",
     edits=[(NM, '''                            fsim[j] = func(sim[j], iterations)
''', '''                            fsim[j] = max(fsim[0], func(sim[j], iterations))
''')],
     demo="""
from quocslib.gradientfreemethods.NelderMead import NelderMead
vals = [1.0, 2.0, 3.0, 4.0, 5.0, 0.5] + [9.0] * 100
seen = []
def f(x, it):
    seen.append((np.array(x), vals[len(seen)]))
    return seen[-1][1]
r = quiet(lambda: NelderMead({}, {"max_eval": 20}, callback=lambda: True).run_dsm(
    f, np.array([0.1, 0.2]), initial_simplex=np.array([[0.1, 0.2], [1.0, 0.2], [0.1, 1.0]])))
ok = [v for x, v in seen if np.array_equal(x, r["X_opti_vec"])]
if r["F_min_val"] != min(v for x, v in seen):
    fail("returned %r, best measured %r" % (r["F_min_val"], min(v for x, v in seen)))
"""),
dict(id="c17c", prop="C17", needs="two searches in one process",
     breaks="the number of evaluations of a search includes those of earlier searches",
     edits=[(DM, "        self.calls_number = [0]\n", "        self.calls_number = Wrap.counter\n"), (DM, "class Wrap:\n", "class Wrap:\n    counter = [0]\n\n")],
     demo="""
from quocslib.gradientfreemethods.NelderMead import NelderMead
for k in range(2):
    seen = []
    def f(x, it):
        seen.append(np.array(x))
        return float(np.sum((x - 1) ** 2))
    r = quiet(lambda: NelderMead({}, {"max_eval": 1000, "xatol": 1e-2}, callback=lambda: True).run_dsm(f, np.array([0.1, 0.2])))
    if r["NfunevalsUsed"] != len(seen):
        fail("search %d made %d evaluations and reports %d" % (k + 1, len(seen), r["NfunevalsUsed"]))
"""),
]
