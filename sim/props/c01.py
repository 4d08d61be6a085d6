"""C01: the reported optimum is the best evaluation ever made."""
from .common import *

RULE = ("seeded random settings (algorithm, search, controls, figure of merit with noise/drift/ties, limits) with stops, "
        "failed evaluations, stalls and clock jumps at random instants; non-trivial = at least one later evaluation "
        "beat an earlier one and at least two evaluations succeeded")
COUNT = {"quick": 1500, "thorough": 40000}
JAX = True


def gen(rng, tier, i):
    ad = i % 60 == 7
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.8, evals=(4, 40),
                         bases=rng.choice([("Fourier",), ("Fourier", "Chebyshev"), ("Fourier", "Chebyshev", "Walsh", "Sinc")]))
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 5), rng.choice([1, 1, 2, 3])
    f = scn["fom"]
    if not ad and rng.random() < 0.3:
        f["digits"] = rng.choice([0, 1, 2])          # exact ties
    if not ad and rng.random() < 0.15:
        f["script"] = [build.r3(rng.uniform(-2, 2)) for _ in range(rng.randint(3, 30))]
    if rng.random() < 0.2 and not ad:
        f["drift"] = build.r3(rng.uniform(-0.1, 0.1))
    for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < 0.25:
            scn["faults"].append({"k": "bad", "eval": rng.randint(1, 40), "code": rng.choice([-1, 1, -3]),
                                  "how": rng.choice(["better", "worse", "same", "none", "nan", "zero"])})
        else:
            g = rand_instant(rng, 45 if not ad else 5)
            g["act"] = rng.choice(["flag", "flag", "sigint", "jump", "stall"])
            if g["act"] in ("jump", "stall"):
                g["delta"] = build.r3(rng.uniform(-5000, 5000) if g["act"] == "jump" else rng.uniform(0, 3000))
            scn["faults"].append(g)
    if rng.random() < 0.3:
        scn["max_eval_total"] = rng.randint(1, 60)
    if rng.random() < 0.15:
        scn["total_time_lim"] = build.r3(rng.uniform(0.05, 2))
    if rng.random() < 0.15:
        scn["time_lim"] = build.r3(rng.uniform(0.02, 1))
    if not ad and rng.random() < 0.25:
        build.gen_shaping(rng, scn)
    if i % 70 == 33:
        lengthen(rng, scn)
    return scn


def run(scn):
    r, run = simple(scn)
    ev = run.world.evals
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    best = best_value(scn, ev)
    if best is None or run.final is None or run.controls is None:
        return r
    vals = [e["FoM"] for e in succ(ev)]
    s = sign(scn)
    r.nontrivial = len(vals) >= 2 and any(s * b < s * a for a, b in zip(vals, vals[1:]))
    got = run.final.get("Figure of merit")
    if not close(got, best, 1e-9 if scn["alg"] != "AD" else 1e-7):
        r.bad("value", "reported figure of merit %r, best evaluation %r (of %d)", got, best, len(vals))
    tol = ctol(scn)
    cand = [e for e in succ(ev) if close(e["FoM"], best, 1e-12)]
    c = trim(scn, run.controls)
    if not any(same_ctl(c, e, tol) for e in cand):
        which = [e["n"] for e in ev if same_ctl(c, e, tol)]
        r.bad("controls", "get_best_controls() returns the controls of evaluation %s, the best is %s of %d",
              which or "none", [e["n"] for e in cand][:5], len(ev))
    if scn["alg"] == "DirectSearch":
        p = run.final.get("parameters")
        if p is None or not any(arr_close(np.asarray(p).ravel(), np.asarray(e["params"]), 1e-9) for e in cand):
            which = [e["n"] for e in ev if p is not None and arr_close(np.asarray(p).ravel(), np.asarray(e["params"]))]
            r.bad("parameters", "parameters in the results are those of evaluation %s, the best is %s of %d",
                  which or "none", [e["n"] for e in cand][:5], len(ev))
    return r
