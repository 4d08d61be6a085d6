"""Planted bugs, sixth batch (found by looking at which mutations the checks missed)."""
DC = "optimizationalgorithms/dCRABAlgorithm.py"
DS = "optimizationalgorithms/DirectSearchAlgorithm.py"
OA = "optimizationalgorithms/OptimizationAlgorithm.py"
AC = "communication/AllInOneCommunication.py"
BUGS = [
dict(id="c04c", prop="C04", needs="a stop of a run whose number of super-iterations is as good as unlimited",
     breaks="after a stop the remaining super-iterations are still gone through",
     edits=[(DC, "            if not self.is_optimization_running():\n                return\n            try:\n",
             "            if super_it == 1 and not self.is_optimization_running():\n                return\n            try:\n")],
     demo="""
import signal
HOLD = []
def f(n, p, x):
    if n == 7:
        he.is_user_running = False
    return bowl(n, p, x)
he = HandleExit()
fom = Fom(f)
def late(*a):
    sys.__stdout__.write("FAIL: still running 40 s after it was stopped\\n")
    sys.__stdout__.flush()
    os._exit(1)
signal.signal(signal.SIGALRM, late)
signal.alarm(40)
opt = Optimizer(dcrab(si=10**7, criteria={"max_eval": 20}), fom)
opt.opt_alg_obj.comm_obj.he_obj = he
quiet(opt.execute)
signal.alarm(0)
if len(fom.calls) != 7:
    fail("%d evaluations" % len(fom.calls))
"""),
dict(id="c03d", prop="C03", needs="a run of more than a thousand evaluations without a total limit",
     breaks="a run without a total evaluation limit ends after a thousand evaluations",
     edits=[(OA, 'alg_parameters.setdefault("max_eval_total", 10**10)', 'alg_parameters.setdefault("max_eval_total", 10**3)')],
     demo="""
opt, fom = run(dcrab(si=45, vectors=1, criteria={"max_eval": 25}), lambda n, p, x: bowl(n, p, x) + 0.1 * np.sin(97.0 * n))
if len(fom.calls) < 45 * 25:
    fail("45 searches of 25 evaluations made only %d" % len(fom.calls))
"""),
dict(id="c05c", prop="C05", needs="a total time limit of a week or more",
     breaks="a total time limit of ten thousand minutes or more is taken for no limit",
     edits=[(OA, "if self.total_time_lim < 10**10:", "if self.total_time_lim < 10**4:")],
     demo="""
import time as _t
clock = [1000.0]
_t.monotonic = lambda: clock[0]
def f(n, p, x):
    clock[0] += 86400.0
    return sum((a - 1.3) ** 2 for a in x)
opt, fom = run(search(2, criteria={"max_eval": 60}, total_time_lim=15000), f)
if len(fom.calls) != 11:
    fail("%d evaluations of a day each within 15000 minutes" % len(fom.calls))
"""),
dict(id="c07c", prop="C07", needs="an evaluation that reports its failure with a positive status code",
     breaks="an evaluation that fails with a positive status code does not end the run (two places that agree)",
     edits=[(AC, '        if status_code != 0:\n            self.he_obj.is_user_running = False\n        return {"FoM_values": FoM_dict}',
             '        if status_code < 0:\n            self.he_obj.is_user_running = False\n        return {"FoM_values": FoM_dict}'),
            (AC, "        # Check for interrupting signals\n        if status_code != 0:",
             "        # Check for interrupting signals\n        if status_code < 0:")],
     demo="""
opt, fom = run(search(2, criteria={"max_eval": 30}),
               lambda n, p, x: {"FoM": -9.0, "status_code": 4} if n == 6 else bowl(n, p, x))
if len(fom.calls) != 6:
    fail("evaluation 6 failed with status 4, there were %d" % len(fom.calls))
"""),
dict(id="c08c", prop="C08", needs="a tie between the averaged candidate and the best at a first threshold of one half",
     breaks="a candidate whose probability equals a threshold is dropped instead of measured again",
     edits=[(DS, "                    if probability < p_level:", "                    if probability <= p_level:")],
     demo="""
opt, fom = run(search(2, criteria={"max_eval": 5}, re_evaluation={"re_evaluation_steps": [0.5, 0.6]}),
               lambda n, p, x: {"FoM": 5.0, "std": 1.0})
pts = [tuple(c[1]) for c in fom.calls]
if not any(pts[i] == pts[i + 1] and i > 1 for i in range(len(pts) - 1)):
    fail("a candidate as probable as the threshold was never measured again")
"""),
dict(id="c09c", prop="C09", needs="a compensation interval below one minute and several super-iterations",
     breaks="the best is not measured again at the start of a super-iteration when the interval is below one minute",
     edits=[(DC, "if self.compensate_drift_after_minutes > 0:", "if self.compensate_drift_after_minutes >= 1:")],
     demo="""
opt, fom = run(dcrab(si=2, criteria={"max_eval": 10}, compensate_drift={"compensate_after_minutes": 0.9, "num_average": 4}), bowl)
rep = [i for i in range(1, len(fom.calls)) if np.array_equal(fom.calls[i][0][0], fom.calls[i - 1][0][0])]
if len(rep) < 3:
    fail("the best was not measured four times at the start of the second super-iteration")
"""),
dict(id="c10e", prop="C10", needs="two seeds that agree in their lowest sixteen bits",
     breaks="only sixteen bits of the seed are used",
     edits=[("tools/randomgenerator.py", "default_rng(seed_number)", "default_rng(seed_number % 2**16)")],
     demo="""
got = []
for k, seed in enumerate((5, 5 + 2**20)):
    d = dcrab(si=1, criteria={"max_eval": 8})
    d["optimization_client_name"] = "demo%d" % k
    d["algorithm_settings"]["random_number_generator"] = {"seed_number": seed}
    got.append(run(d, bowl)[1].calls)
if all(np.array_equal(a[0][0], b[0][0]) for a, b in zip(*got)):
    fail("two different seeds give the same run")
"""),
dict(id="c01d", prop="C01", needs="an improvement in the last digits of a large figure of merit",
     breaks="an improvement below one part in a billion is not a record",
     edits=[(OA, "        if FoM < self.best_FoM:\n            return True", "        if FoM < self.best_FoM - 1e-9 * abs(self.best_FoM):\n            return True")],
     demo="""
opt, fom = run(search(2, criteria={"max_eval": 40}), lambda n, p, x: 1000.0 + 1e-7 * sum((a - 1.3) ** 2 for a in x))
if results(opt)["Figure of merit"] != min(fom.values):
    fail("reported %.12f, the best evaluation has %.12f" % (results(opt)["Figure of merit"], min(fom.values)))
"""),
dict(id="c02d", prop="C02", needs="records late in a run, every one of which counts",
     breaks="a record in an evaluation whose number is a multiple of 64 is not saved",
     edits=[("utils/BestDump.py", "        if not is_record:\n            return\n",
             "        number = kwargs.get(\"iteration_number\", 1)\n        if not is_record or (number % 64 == 0 and number > 0):\n            return\n")],
     demo="""
opt, fom = run(search(2, criteria={"max_eval": 131}), lambda n, p, x: 50.0 - n if n < 129 else 50.0)
if int(saved(opt)["iteration_number"]) != 128:
    fail("the saved record is number %d, the best was 128" % int(saved(opt)["iteration_number"]))
"""),
dict(id="c18h", prop="C18", needs="a CMA-ES search that comes close to the optimum",
     breaks="the step size of CMA-ES never falls below one thousandth",
     edits=[("gradientfreemethods/CMAES.py", "sigma = sigma * np.exp((cs / damps) * (np.linalg.norm(ps) / chiN - 1))",
             "sigma = max(sigma * np.exp((cs / damps) * (np.linalg.norm(ps) / chiN - 1)), 1e-3)")],
     demo="""
from quocslib.gradientfreemethods.CMAES import CMAES
seen = []
def f(x, it):
    seen.append(float(np.sum((x - 1) ** 2)))
    return seen[-1]
class Z:
    rng = np.random.default_rng(3)
np.random.seed(3)
quiet(lambda: CMAES({}, {"max_eval": 600}, callback=lambda: True).run_dsm(f, np.array([0.1, 0.2])))
if min(seen) > 1e-17:
    fail("after %d evaluations of a parabola the best is %g" % (len(seen), min(seen)))
"""),
]
