"""C03: evaluation budgets are respected and fully available."""
from .common import *

RULE = ("seeded random settings with a total and/or a per-search evaluation limit (with and without noise, goal, time "
        "limits, re-evaluation, drift compensation, stops and failed evaluations); each is simulated with and without its "
        "total limit: the limited run must perform exactly min(limit, evaluations of the unlimited run); non-trivial = a "
        "limit ended the run or a search")
COUNT = {"quick": 1000, "thorough": 25000}
JAX = True


def gen(rng, tier, i):
    ad = i % 150 == 9
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.8, evals=(1, 30),
                         bases=rng.choice([("Fourier",), ("Fourier", "Chebyshev", "Walsh")]))
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 4), rng.choice([1, 2])
    scn["signals"] = False
    nb = scn["alg"] in ("dCRAB", "DirectSearch")
    if rng.random() < 0.75 or not nb:
        scn["max_eval_total"] = rng.choice([1, 2, 3]) if rng.random() < 0.2 else rng.randint(1, 70)
        if ad:
            scn["max_eval_total"] = rng.randint(1, 8)
    if nb and scn.get("max_eval_total") and rng.random() < 0.3:
        scn.pop("max_eval", None)
        scn["si"] = 1 if rng.random() < 0.5 else 3
    if nb and rng.random() < 0.6:
        build.gen_fom(rng, scn, noisy=True)
        scn["fom"]["noise"] = max(scn["fom"]["noise"], 1e-3)
    if rng.random() < 0.45 and nb:           # other things that may end it
        x = rng.random()
        if x < 0.25:
            scn["re_eval"] = rng.choice(["default", [0.3, 0.5, 0.51], [0.4, 0.6]])
            scn["fom"]["std"] = rng.choice([0.05, 0.3])
        elif x < 0.5:
            scn["drift"] = {"after_SI": True, "num": rng.choice([1, 2, 3])}
            if rng.random() < 0.5:
                scn["drift"]["minutes"] = build.r3(rng.uniform(0.02, 0.5))
        elif x < 0.65:
            scn["FoM_goal"] = sign(scn) * (scn["fom"]["offset"] + build.r3(rng.uniform(-0.5, 2)))
        elif x < 0.8:
            scn["total_time_lim"] = build.r3(rng.uniform(0.05, 2))
        elif x < 0.9:
            scn["cbs"] = [rng.randint(3, 8), build.r3(rng.uniform(0.001, 0.5))]
        else:
            scn["time_lim"] = build.r3(rng.uniform(0.02, 1))
    if rng.random() < 0.15:
        scn["faults"].append({"k": "at", "when": rng.choice(["during", "after"]), "eval": rng.randint(1, 40), "act": "flag"})
    if i % 90 == 33 and nb:                  # long runs: thousands of evaluations, or searches of hundreds
        scn["faults"] = []
        for k in ("total_time_lim", "time_lim", "cbs", "FoM_goal", "re_eval", "drift", "max_eval"):
            scn.pop(k, None)
        build.gen_fom(rng, scn, noisy=True)
        scn["fom"]["noise"] = max(scn["fom"]["noise"], 1e-2)
        scn["fom"]["ret"] = "float"
        scn["max_eval_total"] = rng.randint(1030, 1500)
        if rng.random() < 0.5:
            scn["max_eval"], scn["si"] = rng.randint(200, 700), rng.choice([1, 2, 3])
        elif scn["alg"] == "dCRAB" and rng.random() < 0.6:
            scn["max_eval_total"] = None
            scn["max_eval"], scn["si"] = rng.randint(20, 30), rng.randint(52, 60)
            del scn["pulses"][1:]
        if scn.get("max_eval") is None and scn["dsm"] == "NelderMead":
            # so many parameters that the simplex cannot become a point before the limit is reached
            scn["params"] = [{"name": "Q%d" % k, "x0": build.r3(rng.uniform(-0.5, 0.5)), "amp": build.r3(rng.uniform(0.2, 0.6)),
                              "lo": -1e4, "hi": 1e4} for k in range(rng.randint(26, 32))]
            scn["fom"]["xtargets"] = [[build.r3(rng.uniform(-1.5, 1.5)), build.r3(rng.uniform(0.2, 3))]
                                      for _ in scn["params"]]
            scn["all"] = True
    return scn


def run(scn):
    r, run = simple(scn)
    ev = run.world.evals
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    total = scn.get("max_eval_total")
    E = len(ev)
    if total is not None:
        if E > total:
            r.bad("overrun", "%d evaluations with a total limit of %d", E, total)
            return r
        twin_scn = build.clone(scn)
        # "unlimited", but bounded so that the run ends
        twin_scn["max_eval_total"] = 2 * total + 40 if total < 1000 else total + 40
        twin = runner.simple_run(twin_scn)
        r.add(twin)
        if twin.outcome == "ok":
            want = min(total, len(twin.world.evals))
            if E < want:
                r.bad("underrun", "%d evaluations, but the same run without the total limit of %d performs %d", E, total,
                      len(twin.world.evals))
            elif E > want:
                r.bad("not-a-limit", "%d evaluations with a total limit of %d, %d without", E, total, len(twin.world.evals))
            if len(twin.world.evals) > total:
                r.nontrivial = True
    if scn.get("all") and build.dim(scn) >= 24 and scn["fom"].get("noise") and E < total < 1600:
        r.bad("underrun", "a search over %d parameters ended after %d of %d evaluations and nothing else ends it",
              build.dim(scn), E, total)
    # the limit of a single search
    plain = not scn.get("re_eval") and not scn.get("drift")
    only = (plain and not scn.get("time_lim") and not scn.get("cbs") and scn.get("FoM_goal") is None
            and not scn.get("total_time_lim") and not scn["faults"] and scn["fom"].get("noise")
            and scn["fom"]["ret"] not in ("np32", "int", "npint")
            and not (scn.get("adaptive") and build.dim(scn) == 1))     # there a shrink makes the simplex a point
    if scn["alg"] in ("dCRAB", "DirectSearch") and scn.get("max_eval"):
        m, d = scn["max_eval"], build.dim(scn)
        groups = {}
        for e in ev:
            groups[e["si"]] = groups.get(e["si"], 0) + 1
        keys = sorted(groups, key=lambda k: (k is not None, k))
        for j, k in enumerate(keys):
            c = groups[k]
            if scn["dsm"] == "NelderMead":
                most = max(m - 1, d + 1) + d + 2
            else:
                most = m - 1 + build.pop(scn)
            if plain and c > most:
                r.bad("search-overrun", "a %s search with limit %d over %d parameters made %d evaluations (at most %d)",
                      scn["dsm"], m, d, c, most)
            cut = j == len(keys) - 1 and total is not None and E >= total
            if only and not cut and c < m and m <= 100:        # a longer one may converge
                r.bad("search-underrun", "a %s search with limit %d ended after %d evaluations and nothing else ends it",
                      scn["dsm"], m, c)
            if c >= m:
                r.nontrivial = True
        if only and scn["alg"] == "dCRAB" and (total is None or E < total) and len(keys) != scn.get("si", 1):
            r.bad("searches", "%d searches instead of %d and nothing else ends the run", len(keys), scn.get("si", 1))
    if scn["alg"] in ("GRAPE", "AD"):
        # L-BFGS-B looks at maxfun between iterations; one iteration is at most two line searches of 20 evaluations
        most = (scn["maxfun"] + 42) * (scn.get("si", 1) if scn["alg"] == "AD" else 1)
        if E > most:
            r.bad("search-overrun", "%d evaluations with maxfun %d", E, scn["maxfun"])
    return r
