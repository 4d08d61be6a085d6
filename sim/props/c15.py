"""C15: delivered controls always respect limits and grids."""
from .common import *

RULE = ("seeded random runs of every algorithm and pulse basis with limits that bite, guesses and scalings (functions and "
        "lists), shrinking, swapped limits, start values outside the limits, flat, steep, noisy, failing and NaN figures of "
        "merit and stops at random instants; every control set handed to the figure of merit, announced, saved or returned "
        "is checked; non-trivial = at least one value was moved onto a limit")
COUNT = {"quick": 1300, "thorough": 30000}
JAX = True
BASES = ("Fourier", "Fourier", "Chebyshev", "Walsh", "Sinc", "Sigmoid", "SigmoidSigmas", "SigmoidTimeDep", "SigmoidAllParas")


def gen(rng, tier, i):
    ad = i % 130 == 11
    long = i % 16 == 5
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "GRAPE"),
                         dsms=("CMAES",) if long else ("NelderMead", "CMAES"),
                         wide=False, evals=(10, 60), bases=BASES, max_pulses=3, max_params=3)
    if ad:
        scn["maxfun"], scn["si"] = 4, rng.choice([1, 2])
    if long and scn["alg"] in ("dCRAB", "DirectSearch"):
        scn["si"], scn["max_eval"] = rng.choice([1, 2]), rng.choice([300, 600, 1200])
        scn["latency"] = {"kind": "const", "a": 0.01}
    T = {t["name"]: t["initial_value"] for t in scn["times"]}
    for p in scn["pulses"]:
        if p["basis"].startswith("Sigmoid") or p["basis"] == "Sinc":
            p["wlo"], p["whi"] = build.r3(0.1 * T[p["time"]]), build.r3(0.9 * T[p["time"]])
        if p["basis"].startswith("Sigmoid"):
            p["extra"] = {"sigma": build.r3(rng.uniform(0.01, 0.1) * T[p["time"]]), "offset": build.r3(0.05 * T[p["time"]])}
            if p["basis"] in ("SigmoidTimeDep", "SigmoidAllParas") and rng.random() < 0.7:
                p["extra"]["tau_variation"] = build.r3(0.2 * T[p["time"]])
            if p["basis"] in ("SigmoidSigmas", "SigmoidAllParas") and rng.random() < 0.7:
                p["extra"]["sigma_variation"] = build.r3(0.1 * T[p["time"]])
        if rng.random() < 0.3 and not ad:
            p["shrink"] = True
        if rng.random() < 0.15:
            p["lo"], p["hi"] = p["hi"], p["lo"]
        if rng.random() < 0.3:
            p["amp"] = build.r3(p["amp"] * 10)
        nb = p["bins_number"]
        x = rng.random()
        if x < 0.15 and not ad:
            p["guess"] = [build.r3(rng.uniform(-2, 2)) for _ in range(nb)]
        elif x < 0.3 and not ad:
            p["guess"] = "lambda t: %s*t - 0.5" % build.r3(rng.uniform(-4, 4))
        x = rng.random()
        if x < 0.12 and not ad:
            p["scaling"] = [build.r3(rng.uniform(0, 2)) for _ in range(nb)]
        elif x < 0.24 and not ad:
            p["scaling"] = "lambda t: %s + 0.2*t" % build.r3(rng.uniform(0.5, 3))
        elif x < 0.3 and not ad:
            p["scaling"] = "lambda t, p: 1.7*p + 0.1*np.sin(t)"
        if rng.random() < 0.12:
            p[rng.choice(["lo", "hi"])] = 0.0
            if p["lo"] == p["hi"]:
                p["hi"] = 0.5
    if not ad and rng.random() < 0.3:
        build.gen_shaping(rng, scn, limit_last=True)
    for x in scn["params"]:
        if rng.random() < 0.2:
            s = rng.choice([-1, 1])
            x["lo"], x["hi"] = (0.0, build.r3(x["hi"] - x["lo"])) if s > 0 else (-build.r3(x["hi"] - x["lo"]), 0.0)
            x["x0"] = build.r3(s * 0.3 * (x["hi"] - x["lo"]))
        if rng.random() < 0.2:
            x["x0"] = build.r3(x["x0"] + rng.choice([-1, 1]) * rng.uniform(0.5, 3))
        if rng.random() < 0.2:
            x["amp"] = build.r3(x["amp"] * 10)
    k = rng.choice(["plain", "far", "far", "flat", "rough"])
    f = scn["fom"]
    if scn["alg"] not in ("GRAPE", "AD"):
        if k == "flat":
            f["digits"] = rng.choice([0, 1])
        elif k == "far":
            f["ptargets"] = [[t[0] * 20, t[1], t[2]] for t in f["ptargets"]]
            f["xtargets"] = [[t[0] * 30, t[1]] for t in f["xtargets"]]
        elif k == "rough":
            f["ripple"] = 2.0
            if rng.random() < 0.5:
                f["script"] = [build.r3(rng.uniform(-5, 5)) for _ in range(rng.choice([1, 2, 7, 50]))]
    x = rng.random()
    if x < 0.2:
        g = rand_instant(rng, 30 if not ad else 3)
        g["act"] = rng.choice(["flag", "sigint"])
        scn["faults"].append(g)
    elif x < 0.35 and not ad:
        scn["faults"].append({"k": "bad", "eval": rng.randint(1, 30), "code": -1, "how": rng.choice(["same", "nan", "none", "nan"])})
    elif x < 0.45 and not ad:
        for _ in range(rng.randint(2, 8)):
            scn["faults"].append({"k": "bad", "eval": rng.randint(1, 60), "how": "nan"})
    if scn["alg"] in ("dCRAB", "DirectSearch") and rng.random() < 0.12:
        scn["drift"] = {"after_SI": True, "num": 2, "minutes": 0.1}
    scn["signals"] = True
    return scn


def check(scn, c, where, r, state):
    """One delivered set of controls."""
    tol = 1e-6 if scn["alg"] == "AD" else 1e-12
    pulses, params = c["pulses"], c.get("params", c.get("parameters"))
    grids = c.get("grids", c.get("timegrids"))
    if (len(pulses), len(grids), len(params)) != (len(scn["pulses"]), len(scn["pulses"]), len(scn["params"])):
        r.bad("number", "%s: %d pulses, %d time grids and %d parameters for %d pulses and %d parameters", where, len(pulses),
              len(grids), len(params), len(scn["pulses"]), len(scn["params"]))
        return
    T = {t["name"]: t["initial_value"] for t in scn["times"]}
    for p, v, g in zip(scn["pulses"], pulses, grids):
        v, g = np.asarray(v), np.asarray(g)
        nb = p["bins_number"]
        if v.shape != (nb,):
            r.bad("shape", "%s: pulse %s has shape %s, configured are %d points", where, p["name"], v.shape, nb)
            continue
        if np.iscomplexobj(v) and np.any(np.abs(v.imag) > tol):
            r.bad("complex", "%s: pulse %s is not real", where, p["name"])
        v = np.real(v)
        if not np.all(np.isfinite(v)):
            r.bad("finite", "%s: pulse %s holds %r", where, p["name"], v[~np.isfinite(v)][0])
            continue
        lo, hi = min(p["lo"], p["hi"]), max(p["lo"], p["hi"])
        slack = tol * max(abs(lo), abs(hi), 1e-3)
        if np.max(v) > hi + slack or np.min(v) < lo - slack:
            r.bad("limits", "%s: pulse %s reaches [%r, %r], its limits are [%r, %r]", where, p["name"], float(np.min(v)),
                  float(np.max(v)), lo, hi)
        if np.any(np.abs(v - hi) <= slack) or np.any(np.abs(v - lo) <= slack):
            state["bite"] += 1
        want = np.linspace(0.0, T[p["time"]], nb)
        if g.shape != (nb,) or not np.all(np.abs(np.real(g) - want) <= max(1e-9, tol) * max(1.0, T[p["time"]])):
            r.bad("grid", "%s: the time grid of pulse %s is %s ... %s (%s points), configured are %d points from 0 to %r", where,
                  p["name"], g.ravel()[:1], g.ravel()[-1:], g.shape, nb, T[p["time"]])
    for x, v in zip(scn["params"], params):
        a = np.asarray(v)
        if a.size != 1:
            r.bad("shape", "%s: parameter %s has %d values", where, x["name"], a.size)
            continue
        v = float(np.real(a.ravel()[0]))
        if not math.isfinite(v):
            r.bad("finite", "%s: parameter %s is %r", where, x["name"], v)
        elif v > x["hi"] + tol * max(1.0, abs(x["hi"])) or v < x["lo"] - tol * max(1.0, abs(x["lo"])):
            r.bad("limits", "%s: parameter %s is %r, its limits are [%r, %r]", where, x["name"], v, x["lo"], x["hi"])
        elif v in (x["hi"], x["lo"]):
            state["bite"] += 1
    state["sets"] += 1


def run(scn):
    r, run = simple(scn)
    w = run.world
    state = {"bite": 0, "sets": 0}
    from .c13 import trim_sig
    from .c02 import trim_saved
    for e in w.evals:
        if len(r.violations) > 3:
            break
        check(scn, e, "evaluation %d" % e["n"], r, state)
    for kind, at, item in w.signals:
        if len(r.violations) > 3:
            break
        if kind == "controls":
            check(scn, trim_sig(scn, item), "the announcement after %d evaluations" % at, r, state)
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    if run.best is not None:
        try:
            c = saved_as_controls(scn, trim_saved(scn, run.best))
        except KeyError as k:
            r.bad("number", "the saved best controls lack %s", k)
        else:
            check(scn, c, "the saved best controls", r, state)
    if run.controls is not None and succ(w.evals):
        check(scn, trim(scn, run.controls), "get_best_controls()", r, state)
    r.probe("control-sets", state["sets"])
    r.nontrivial = state["bite"] > 0
    return r
