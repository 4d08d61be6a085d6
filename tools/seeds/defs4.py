GR = "optimizationalgorithms/GRAPEAlgorithm.py"
AD = "optimizationalgorithms/ADAlgorithm.py"

GRAPE = """
import scipy.optimize
import quocslib.optimizationalgorithms.GRAPEAlgorithm as ga
SX = np.array([[0, 1], [1, 0]], dtype=complex)
SZ = np.array([[1, 0], [0, -1]], dtype=complex)
class Transfer(Fom):
    def get_control_Hamiltonians(self): return 0.5 * SX
    def get_drift_Hamiltonian(self): return 0.3 * SZ
    def get_initial_state(self): return np.diag([1.0 + 0j, 0])
    def get_target_state(self): return np.array([[0.36, 0.48j], [-0.48j, 0.64]])
    def get_propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
        p = np.asarray(pulses_list[0]).real
        dt = float(np.asarray(time_grids_list[0])[-1]) / len(p)
        out = []
        for v in p:
            l, V = np.linalg.eigh(0.3 * SZ + 0.5 * v * SX)
            out.append((V * np.exp(-1j * dt * l)) @ V.conj().T)
        return out
    def infidelity(self, pulse, grid):
        rho = self.get_initial_state()
        for U in self.get_propagator([pulse], [grid]):
            rho = U @ rho @ U.conj().T
        return 1.0 - float(np.real(np.trace(self.get_target_state().conj().T @ rho)))
points, options = [], []
real = scipy.optimize.minimize
def recorder(fun, x0, *a, **k):
    options.append(dict(k.get("options") or {}))
    if k.get("jac") is True:
        def f(x, *b):
            out = fun(x, *b)
            points.append((np.array(x), float(out[0]), np.array(out[1])))
            return out
        return real(f, x0, *a, **k)
    return real(fun, x0, *a, **k)
scipy.optimize.minimize = recorder
if getattr(ga, "minimize", None) is real:
    ga.minimize = recorder
def grape(criteria=None, direction="minimization", bins=40, pulse=None, sign=1, n=8, T=3.0):
    p = {"pulse_name": "p", "upper_limit": 1e4, "lower_limit": -1e4, "bins_number": bins, "time_name": "T", "amplitude_variation": 1.0,
         "basis": {"basis_name": "PiecewiseBasis", "basis_class": "PiecewiseBasis", "basis_module": "quocslib.pulses.basis.PiecewiseBasis",
                   "bins_number": bins}}
    p.update(pulse or {})
    d = {"algorithm_settings": {"algorithm_name": "GRAPE", "optimization_direction": direction, "random_number_generator": {"seed_number": 5},
                                "stopping_criteria": dict({"max_eval_total": n, "ftol": 1e-14, "gtol": 1e-10}, **(criteria or {}))},
         "optimization_client_name": "demo", "console_info": False, "pulses": [p], "parameters": [],
         "times": [{"time_name": "T", "initial_value": T}]}
    def make_fom():
        fom = Transfer(None)
        fom.f = lambda n, pulses, params: sign * fom.infidelity(np.asarray(pulses[0]).real, fom.calls[-1][2][0]) + (0 if sign == 1 else 1)
        return fom
    fom = make_fom()
    opt = quiet(lambda: Optimizer(d, fom))
    opt.fom = fom
    quiet(opt.execute)
    return opt, fom
def check_gradients(fom):
    for k, (x, f, g) in enumerate(points):
        pulses, params, grids = fom.calls[k]
        h, num = 1e-5, []
        for c in range(len(x)):
            e = np.zeros(len(x)); e[c] = h
            num.append((fom.infidelity(pulses[0] + e, grids[0]) - fom.infidelity(pulses[0] - e, grids[0])) / (2 * h))
        # the commutator of drift and control is 0.3: first order in the time step
        dt = float(grids[0][-1]) / len(x)
        if np.max(np.abs(np.array(num) - g)) > 0.31 * dt * dt:
            fail("evaluation %d: gradient %s, derivative %s" % (k + 1, np.round(g[:4], 4), np.round(num[:4], 4)))
"""

AD_HELP = """
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import scipy.optimize
import quocslib.optimizationalgorithms.ADAlgorithm as aa
T = jnp.array([0.9, -0.4, 0.2, 1.3])
class Smooth(AbstractFoM):
    def __init__(self, sign): self.sign, self.opt = sign, None
    def value(self, pulse): return self.sign * jnp.sum((jnp.real(pulse[:4]) - T) ** 2 + 0.3 * jnp.real(pulse[:4]) ** 4)
    def get_FoM(self, pulses=[], parameters=[], timegrids=[]): return {"FoM": self.value(pulses[0])}
def ad(direction="minimization", si=1, n=4):
    d = {"algorithm_settings": {"algorithm_name": "AD", "super_iteration_number": si, "optimization_direction": direction,
                                "random_number_generator": {"seed_number": 5}, "stopping_criteria": {"max_eval_total": n}},
         "optimization_client_name": "demo", "console_info": False, "parameters": [],
         "times": [{"time_name": "T", "initial_value": 3.0}],
         "pulses": [{"pulse_name": "p", "upper_limit": 1e4, "lower_limit": -1e4, "bins_number": 4, "time_name": "T",
                     "amplitude_variation": 1.0, "basis": {"basis_name": "PiecewiseBasis", "basis_class": "PiecewiseBasis",
                     "basis_module": "quocslib.pulses.basis.PiecewiseBasis", "bins_number": 4}}]}
    sign = -1.0 if direction == "maximization" else 1.0
    fom = Smooth(sign)
    opt = quiet(lambda: Optimizer(d, fom))
    points = []
    def value(x):
        return sign * float(fom.value(opt.opt_alg_obj.controls.get_controls_lists(jnp.asarray(x))[0][0]))
    real = scipy.optimize.minimize
    def recorder(fun, x0, *a, **k):
        jac = k.get("jac")
        def g(x, *b):
            out = jac(x, *b)
            h, num = 1e-3, []
            for c in range(len(x)):
                e = np.zeros(len(x)); e[c] = h
                num.append((value(x + e) - value(x - e)) / (2 * h))
            points.append((np.array(num), np.array(out, dtype=float)))
            return out
        return real(fun, x0, *a, **dict(k, jac=g if callable(jac) else jac))
    scipy.optimize.minimize = recorder
    try:
        quiet(opt.execute)
    finally:
        scipy.optimize.minimize = real
    return opt, fom, points
def check(points):
    for k, (num, g) in enumerate(points):
        if np.max(np.abs(num - g)) > 0.02 * max(1.0, np.max(np.abs(num))):
            fail("gradient %d: %s, derivative %s" % (k + 1, np.round(g, 4), np.round(num, 4)))
"""

BUGS = [
dict(id="c19a", prop="C19", needs="a target state with complex coherences",
     breaks="GRAPE propagates the target state with the wrong transpose of the propagators: the gradient is wrong",
     edits=[(GR, "corho_store[t] = U.T.conj() @ corho_store[t + 1] @ U\n", "corho_store[t] = U.T @ corho_store[t + 1] @ U.conj()\n")],
     demo=GRAPE + """
opt, fom = grape()
check_gradients(fom)
"""),
dict(id="c19b", prop="C19", needs="comparing the gradient with the derivative: the time step is too long by one part in the number of bins",
     breaks="GRAPE's gradient uses the distance of two grid points as the time step instead of the duration of a slice",
     edits=[(GR, "dt = time_grid[-1] / len(time_grid)", "dt = time_grid[-1] / (len(time_grid) - 1)")],
     demo=GRAPE + """
opt, fom = grape(bins=3, T=0.5)
check_gradients(fom)
"""),
dict(id="c19c", prop="C19", needs="a GRAPE maximization",
     breaks="GRAPE hands the minimiser a gradient whose sign depends on the direction although the value already is the infidelity's",
     edits=[(GR, "return FoM, grads", "return FoM, self.FoM_factor * grads")],
     demo=GRAPE + """
opt, fom = grape(direction="maximization", sign=-1)
check_gradients(fom)
"""),
dict(id="c19d", prop="C19", needs="a gtol that differs from ftol in an AD or GRAPE run",
     breaks="GRAPE's minimiser gets ftol in place of gtol",
     edits=[(GR, "'gtol': self.gtol,", "'gtol': self.ftol,")],
     demo=GRAPE + """
opt, fom = grape({"ftol": 1e-9, "gtol": 1e-3})
if options[0].get("gtol") != 1e-3 or options[0].get("ftol") != 1e-9:
    fail("configured gtol 1e-3 and ftol 1e-9, the minimiser got %r" % options[0])
"""),
dict(id="c19e", prop="C19", needs="an AD maximization",
     breaks="the gradient of an AD maximization points the wrong way",
     edits=[(AD, "return self.FoM_factor * self.FoM_object.get_FoM(pulses=pulses,", "return self.FoM_object.get_FoM(pulses=pulses,")],
     demo=AD_HELP + """
opt, fom, points = ad(direction="maximization")
check(points)
"""),
dict(id="c19f", prop="C19", needs="an AD run with two super-iterations",
     breaks="the compiled gradient of AD is kept across super-iterations: the second one gets the gradient at the controls of the first",
     edits=[(AD, '''        def get_gradient(x):
            return np.array(jax.jit(jax.grad(self.get_gradient))(x))
''', '''        # Compile the gradient only once
        if not hasattr(self, "_compiled_gradient"):
            self._compiled_gradient = jax.jit(jax.grad(self.get_gradient))

        def get_gradient(x):
            return np.array(self._compiled_gradient(x))
''')],
     demo=AD_HELP + """
opt, fom, points = ad(si=2)
check(points)
"""),
dict(id="c12c", prop="C12", needs="the temporary file of a run that was killed while writing its controls",
     breaks="the controls are never handed over if a killed run left its temporary controls file behind",
     edits=[("utils/inputoutput.py", 'with open(json_file, "w") as fp:', 'with open(json_file, "x") as fp:')],
     demo="""
from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
open("controls.json.tmp", "w").write("{ half")
class Ext(FilesUpdateFoM):
    n = 0
    def put_controls_into_user_path(self, *a):
        FilesUpdateFoM.put_controls_into_user_path(self, *a)
        if os.path.exists("controls.json"):
            self.n += 1
            os.remove("controls.json")
            open("FoM.txt", "w").write("%f" % (5.0 - self.n))
f = Ext(max_time=1)
o = quiet(lambda: Optimizer(search(2, criteria={"max_eval": 8}), f))
quiet(o.execute)
if f.n < 8:
    fail("%d controls were handed over" % f.n)
"""),
]
