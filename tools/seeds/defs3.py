DC = "optimizationalgorithms/dCRABAlgorithm.py"
NM = "gradientfreemethods/NelderMead.py"
CM = "gradientfreemethods/CMAES.py"
SC = "stoppingcriteria/StoppingCriteria.py"
LA = "tools/linearalgebra.py"

SCRIPT = """
from quocslib.gradientfreemethods.NelderMead import NelderMead
seen = []
def script(vals, rest=9.0):
    def f(x, it, *drift):
        seen.append(np.array(x))
        return vals[len(seen) - 1] if len(seen) <= len(vals) else rest
    return f
SIM = np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]])
"""

BUGS = [
dict(id="c18a", prop="C18", needs="an expansion that improves on the best vertex but not on the reflection",
     breaks="Nelder-Mead accepts an expansion that is worse than the reflected point",
     edits=[(NM, "if fxe < fxr:", "if fxe < fsim[0]:")],
     demo=SCRIPT + """
quiet(lambda: NelderMead({}, {"max_eval": 6}, callback=lambda: True).run_dsm(script([1.0, 2.0, 3.0, 0.5, 0.7]), np.zeros(2),
                                                                         initial_simplex=SIM))
# reflection (1, -1) is kept: the simplex is now (1, -1), (0, 0), (1, 0) and the next point is the reflection of (1, 0)
if not np.allclose(seen[3], [1, -1]) or not np.allclose(seen[5], [0, -1]):
    fail("evaluated %r" % [s.tolist() for s in seen])
"""),
dict(id="c18b", prop="C18", needs="a compensation during the search that measures a large shift",
     breaks="after a compensation during the search the worst vertex keeps its old value",
     edits=[(NM, "                    for i in range(len(sim)):\n                        if i == 0:",
             "                    for i in range(len(sim) - 1):\n                        if i == 0:")],
     demo=SCRIPT + """
# evaluations: simplex 1 2 3, reflection 1.5 (taken), then the best is measured again as 11: all values move by 10
quiet(lambda: NelderMead({}, {"max_eval": 9}, callback=lambda: True).run_dsm(
    script([1.0, 2.0, 3.0, 1.5, 11.0, 11.0, 11.7, 11.7]), np.zeros(2), initial_simplex=SIM, drift_comp_minutes=1e-12,
    drift_comp_num_average=1))
# simplex (0,0) 11, (1,-1) 11.5, (1,0) 12; the reflection of (1,0) is (0,-1); its value 11.7 lies between: outside contraction
k = [i for i, s in enumerate(seen) if np.allclose(s, [0, -1])]
if not k or not np.allclose(seen[k[0] + 1], [0.25, -0.75]):
    fail("evaluated %r" % [s.tolist() for s in seen])
"""),
dict(id="c18c", prop="C18", needs="CMA-ES with several populations",
     breaks="the rank-mu update measures the spread around the new mean instead of the old one, progress directions shrink",
     edits=[(CM, "np.tile(xold, (mu, 1)).T", "np.tile(xmean, (mu, 1)).T")],
     demo="""
from quocslib.gradientfreemethods.CMAES import CMAES
ratio = []
for seed in range(20):
    np.random.seed(seed)
    seen = []
    def f(x, it):
        seen.append(np.array(x))
        return float(-x[0])
    quiet(lambda: CMAES({"population_number": 12}, {"max_eval": 12 * 40}, callback=lambda: True).run_dsm(
        f, np.zeros(4), sigma_v=np.ones(4)))
    last = np.array(seen[-12:])
    ratio.append(np.std(last[:, 0]) / np.mean(np.std(last[:, 1:], axis=0)))
# on a slope the distribution becomes longest along the slope
if np.median(ratio) < 2.4:
    fail("spread along the slope is %.3f of that across it" % np.median(ratio))
"""),
dict(id="c18d", prop="C18", needs="a simplex whose worst vertex lies next to the best while another does not",
     breaks="the simplex counts as converged when only its worst vertex is close to the best",
     edits=[(SC, "np.abs(sim[1:] - sim[0])", "np.abs(sim[-1] - sim[0])")],
     demo=SCRIPT + """
sim = np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1e-3]])
r = quiet(lambda: NelderMead({}, {"max_eval": 12, "xatol": 0.3}, callback=lambda: True).run_dsm(
    script([1.0, 2.0, 3.0, 5.0, 2.5] + [9.0] * 3 + [5.0] * 10), np.zeros(2), initial_simplex=sim))
if len(seen) <= 5:
    fail("ended after %d evaluations (%s)" % (len(seen), r["terminate_reason"]))
"""),
dict(id="c18e", prop="C18", needs="parameters with different amplitude variations",
     breaks="the starting simplex scales its vertices, not the parameters, with the amplitude variations",
     edits=[(LA, "simplex_matrix_orthonormal @ np.diag(sigma_variation)", "np.diag(sigma_variation) @ simplex_matrix_orthonormal")],
     demo="""
d = search(3, criteria={"max_eval": 6})
for p, a in zip(d["parameters"], (0.01, 0.1, 1.0)):
    p["amplitude_variation"] = a
opt, fom = run(d, bowl)
s = np.array([c[1] for c in fom.calls[:4]])
n = np.sqrt(np.sum((s[1:] - s[0]) ** 2, axis=0))
if not np.allclose(n, [0.01, 0.1, 1.0]):
    fail("the starting simplex extends by %r along the parameters" % n.tolist())
"""),
dict(id="c18f", prop="C18", needs="several super-iterations and a time limit per direct search",
     breaks="the time limit of a direct search is never restarted, it counts from the construction of the run",
     edits=[(DC, "self.dsm_obj.sc_obj.reset_direct_search_start_time()", "self.dsm_obj.reset_direct_search_start_time()")],
     demo="""
import time
now = [1000.0]
time.monotonic = lambda: now[0]
def f(n, p, x):
    now[0] += 6.0
    return bowl(n, p, x)
opt, fom = run(dcrab(si=3, criteria={"max_eval": 8, "time_lim": 1.0}), f)
if len(fom.calls) < 24:
    fail("%d evaluations of 6 s each in three searches of at most 60 s and 8 evaluations" % len(fom.calls))
"""),
]
