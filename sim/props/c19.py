"""C19: GRAPE and AD hand their minimiser the figure of merit and its gradient."""
import sys

from .common import *

RULE = ("seeded GRAPE runs (random one- to two-qubit-sized state transfers, both directions, wide ranges of step sizes) and AD "
        "runs with every kind of failed evaluation, stops, stalls and clock jumps at random instants; what the minimiser "
        "receives is recorded and compared, point by point, with numerical derivatives of the user's figure of merit at the "
        "controls of that point, and its values with the values the user returned; non-trivial = at least three gradients were "
        "compared")
COUNT = {"quick": 900, "thorough": 30000}
JAX = True
ASSUMPTIONS = ["GRAPE gradients are compared up to the first order in the time step: the rigorous bound dt^2 ||[H, B]|| on each "
               "component, and only for components inside the limits",
               "AD components at which the controls are not smooth (limits) are left out"]


def gen(rng, tier, i):
    ad = i % 30 == 7
    scn = build.gen_base(rng, algs=("AD",) if ad else ("GRAPE",), wide=rng.random() < 0.85)
    for k in ("cache", "ripple"):
        scn["fom"].pop(k, None)
    scn["fom"]["offset"] = rng.choice([0.0, 0.0, 1.0, -20.0])
    if scn["fom"].get("ret") in ("np32", "int", "npint"):
        scn["fom"]["ret"] = "float"
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 5), rng.choice([1, 1, 2])
        for p in scn["pulses"]:
            p["bins_number"] = rng.choice([2, 3, 4])
            if rng.random() < 0.5:
                p["scaling"] = rng.choice(["lambda t: 1.0 - 0.1*t", "lambda t: 0.3 + t*t", "lambda t, p: 0.5*p*t + 0.1"])
    else:
        p = scn["pulses"][0]
        if rng.random() < 0.4:
            build.gen_shaping(rng, scn, limit_last=True)
        p["bins_number"] = rng.choice([1, 2, 3, 6, 10, 20])
        scn["gsys"] = {"seed": rng.randrange(1 << 30), "d": rng.choice([2, 2, 3, 4]), "h0": build.r3(10 ** rng.uniform(-1.5, 0.5)),
                       "hc": build.r3(10 ** rng.uniform(-1, 0.5)), "offset": scn["fom"]["offset"]}
        if rng.random() < 0.3:
            scn["gsys"]["plain"] = rng.choice(["int", "float"])
        for t in scn["times"]:
            t["initial_value"] = build.r3(10 ** rng.uniform(-1.5, 1))
        scn["maxfun"] = rng.choice([3, 8, 25, 60])
    for k, v in (("ftol", 10 ** rng.uniform(-14, -2)), ("gtol", 10 ** rng.uniform(-10, -2))):
        scn[k] = build.r3(v) if rng.random() < 0.5 else None
    if rng.random() < 0.4:
        scn["maxls"] = rng.choice([3, 5, 11, 30])
    if rng.random() < 0.1:
        scn["maxfun"] = None if not ad else scn["maxfun"]
    if rng.random() < 0.35:
        scn["faults"].append({"k": "bad", "eval": rng.randint(2, 8), "how": rng.choice(["none", "nan", "better", "worse", "same",
                                                                                       "zero"]), "code": rng.choice([-1, 1, 7])})
    if rng.random() < 0.35:
        g = rand_instant(rng, 10)
        g["act"] = rng.choice(["flag", "sigint", "stall", "jump"])
        if g["act"] in ("stall", "jump"):
            g["delta"] = build.r3(rng.uniform(0, 1000)) * (1 if g["act"] == "stall" else rng.choice([1, -1]))
        scn["faults"].append(g)
    return scn


class Recorder:
    """In place of scipy.optimize.minimize: the real one, with what passes through it written down."""

    def __init__(self, world, scn):
        self.world, self.scn = world, scn
        self.runs, self.points = [], []

    def __enter__(self):
        import scipy.optimize
        self.real = scipy.optimize.minimize
        self.put(self.real, self.minimize)
        return self

    def __exit__(self, *a):
        self.put(self.minimize, self.real)

    def put(self, old, new):
        import scipy.optimize
        for m in [scipy.optimize] + [m for n, m in list(sys.modules.items()) if n.startswith("quocslib") and m is not None]:
            for k, v in list(vars(m).items()):
                if v is old or getattr(v, "__func__", None) is getattr(old, "__func__", old) and getattr(v, "__self__", 0) is self:
                    setattr(m, k, new)

    def minimize(self, fun, x0, args=(), method=None, jac=None, **kw):
        w = self.world
        k = len(self.runs)
        self.runs.append({"x0": np.array(x0, dtype=float), "method": method, "options": dict(kw.get("options") or {}), "tol": kw.get("tol")})

        def f(x, *a):
            x = np.array(x, dtype=float)
            n0, stopped = len(w.evals), w.stop_at is not None
            out = fun(np.array(x), *a)
            p = {"run": k, "x": x, "n": w.evals[n0]["n"] if len(w.evals) == n0 + 1 else None, "stopped": stopped}
            if jac is True:
                p["f"], p["g"] = float(out[0]), np.array(out[1], dtype=float)
            else:
                p["f"], p["g"] = float(out), None
            self.points.append(p)
            self.numeric(p)
            return out

        def j(x, *a):
            g = jac(x, *a)
            p = {"run": k, "x": np.array(x, dtype=float), "n": None, "f": None, "g": np.array(g, dtype=float), "stopped": w.stop_at is not None}
            self.points.append(p)
            self.numeric(p)
            return g

        return self.real(f, x0, args=args, method=method, jac=j if callable(jac) else jac, **kw)

    def numeric(self, p):
        """AD: derivatives along the control parameters, measured now, while the controls are those of this search."""
        if self.scn["alg"] != "AD" or p["g"] is None or len([1 for q in self.points if q.get("num") is not None and q["run"] == p["run"]]) >= 4:
            return
        try:
            import jax.numpy as jnp
            lists = self.world.opt.opt_alg_obj.controls.get_controls_lists
        except AttributeError:
            return
        plain = self.world.plain

        def value(x):
            pulses, grids, params = lists(jnp.asarray(x))
            return float(plain(pulses, params))
        num = []
        comps = range(len(p["x"]))
        if len(comps) > 5:
            comps = [(7 * len(self.points) + 3 * c) % len(p["x"]) for c in range(5)]
        here = value(p["x"])
        for c in comps:
            e = np.zeros(len(p["x"]))
            e[c] = 0.2
            a, b, a2, b2 = value(p["x"] + e), value(p["x"] - e), value(p["x"] + e / 2), value(p["x"] - e / 2)
            num.append((c, (a - b) / 0.4, (a2 - b2) / 0.2, (a - here) / 0.2, (here - b) / 0.2))
        p["num"], p["here"] = num, here


def scale_factor(q, grid):
    """What a change of a control parameter is multiplied with on its way into the pulse."""
    o = q.get("shaping") or ["add_base_pulse", "add_new_update_pulse", "scale_pulse", "add_initial_guess", "limit_pulse"]
    g = q.get("scaling")
    if not g or "scale_pulse" not in o or o.index("scale_pulse") < o.index("add_new_update_pulse"):
        return np.ones(len(grid))
    f = eval(g["expr"] if isinstance(g, dict) else g, {"np": np})
    if f.__code__.co_argcount == 2:
        return f(grid, np.ones(len(grid))) - f(grid, np.zeros(len(grid)))
    return f(grid) * np.ones(len(grid))


def judge_grape(scn, r, run, p, e):
    fom = run.fom
    pulse, grid = np.asarray(e["pulses"][0], dtype=float), np.asarray(e["grids"][0], dtype=float)
    if len(p["g"]) != len(pulse):
        r.bad("shape", "evaluation %d: a gradient of %d components for a pulse of %d", e["n"], len(p["g"]), len(pulse))
        return False
    lo, hi = scn["pulses"][0]["lo"], scn["pulses"][0]["hi"]
    dt = float(grid[-1]) / len(pulse)
    h0, hc = fom.get_drift_Hamiltonian(), fom.get_control_Hamiltonians()
    comm = hc @ h0 - h0 @ hc     # [H, B] = [H0, B]: the control commutes with itself
    bound = dt * dt * float(np.linalg.norm(comm, 2)) * 1.0001
    done = 0
    chain = scale_factor(scn["pulses"][0], grid)
    for c in range(len(pulse)):
        if len(pulse) > 6 and (c * 5 + e["n"]) % (len(pulse) // 3) > 0:
            continue
        if not lo + 1e-3 < pulse[c] < hi - 1e-3:
            continue
        h = 1e-4 / max(1.0, dt)
        a, b = pulse.copy(), pulse.copy()
        a[c] += h
        b[c] -= h
        num = (fom.ideal([a], [], [grid]) - fom.ideal([b], [], [grid])) / (2 * h)
        tol = (bound + 1e-6 * max(1.0, abs(scn["gsys"]["offset"])) * max(1.0, dt)) * max(1.0, abs(chain[c]))
        done += 1
        if abs(num * chain[c] - p["g"][c]) > tol:
            r.bad("gradient", "evaluation %d: component %d of the gradient is %.6g, the derivative is %.6g (first order in the "
                  "time step: within %.2g)", e["n"], c, p["g"][c], num * chain[c], tol)
            return False
    return done > 0


def judge_ad(scn, r, p):
    scale = max([abs(v) for q in p["num"] for v in q[1:3]] + [0.05 * abs(p["here"]), 1e-3])
    done = False
    for c, full, half, right, left in p["num"]:
        if abs(full - half) > 2e-3 * scale:
            continue
        # a kink (a limit) right here: any slope between the one-sided ones will do
        curv = abs(right - left)
        if abs(full - p["g"][c]) > 5e-3 * scale:
            if scn["pulses"] and min(q["hi"] for q in scn["pulses"]) < 1e3 or scn["params"] and curv > 50 * scale:
                continue
            r.bad("gradient", "component %d of the gradient at %r is %.6g, the derivative is %.6g", c, p["x"].tolist(), p["g"][c], full)
            return False
        done = True
    return done


def run(scn):
    r = Result(scn)
    held = {}

    def pre(run):
        held["rec"] = Recorder(run.world, scn)
        held["rec"].__enter__()
        run.world.plain = getattr(run.fom, "plain", None)
    try:
        run = runner.simple_run(scn, pre=pre)
    finally:
        if "rec" in held:
            held["rec"].__exit__()
    r.add(run)
    if not judge_outcome(r, run):
        return r
    rec = held["rec"]
    w = run.world
    if not rec.runs:
        r.probe("not-recorded")
        return r
    factor = -1.0 if scn["direction"] == "maximization" else 1.0
    for o in rec.runs:
        if o["method"] is None or str(o["method"]).upper() != "L-BFGS-B":
            continue
        for key, name in (("ftol", "ftol"), ("gtol", "gtol"), ("maxls", "maxls"), ("maxfun", "maxfun")):
            if scn.get(key) is not None and o["options"].get(name) != scn[key]:
                r.bad("option", "%s=%r is configured, the minimiser gets %r", key, scn[key], o["options"].get(name))
                return r
    good = 0
    evals = {e["n"]: e for e in w.evals}
    for p in rec.points:
        e = evals.get(p["n"])
        if p["g"] is not None and not np.all(np.isfinite(p["g"])):
            r.bad("finite", "a gradient that is not finite: %r", p["g"].tolist())
            return r
        if e is not None and p["f"] is not None and not e["status"] and e["FoM"] is not None and not math.isnan(e["FoM"]) \
                and w.stop_at is None:
            want = factor * e["FoM"]
            if not close(p["f"], want, 1e-6 if scn["alg"] == "AD" else 1e-9):
                r.bad("value", "evaluation %d returned %r (%s), the minimiser gets %r", e["n"], e["FoM"], scn["direction"], p["f"])
                return r
        if p["g"] is None:
            continue
        if scn["alg"] == "AD":
            if p.get("num") is not None:
                good += judge_ad(scn, r, p)
        elif e is not None and good < 25:
            good += judge_grape(scn, r, run, p, e)
        if r.violations:
            return r
    if scn["alg"] == "GRAPE" and w.evals:
        q = scn["pulses"][0]
        first = w.evals[0]
        if q["hi"] > 1e3 and not q.get("guess") and not q.get("scaling"):
            v = np.asarray(first["pulses"][0], dtype=float)
            if np.max(np.abs(v)) > q["amp"] * (1 + 1e-9):
                r.bad("start", "the search starts at %r, further from the initial controls than the amplitude variation %r",
                      v.tolist(), q["amp"])
    if good >= 3:
        r.nontrivial = True
    return r
