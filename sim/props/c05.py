"""C05: time limits follow elapsed time, no more and no less."""
from .common import *

RULE = ("seeded random runs with a total and/or per-search time limit on the virtual clock, evaluation durations constant, "
        "random or with long stalls, a delay between construction and execution, and wall-clock jumps (hours forward or "
        "backward, at random lines or inside evaluations); each limited run is compared with the same run without that "
        "limit; non-trivial = a time limit ended a search or the run")
COUNT = {"quick": 1300, "thorough": 40000}
JAX = True


def gen(rng, tier, i):
    ad = i % 150 == 11
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.8, evals=(4, 40))
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 4), rng.choice([1, 2])
    scn["signals"] = False
    scn["logfile"] = rng.random() < 0.2
    nb = scn["alg"] in ("dCRAB", "DirectSearch")
    build.gen_fom(rng, scn, noisy=nb)
    if nb:
        scn["fom"]["noise"] = max(scn["fom"]["noise"], 1e-3)
        scn["fom"]["ret"] = "float"
    if scn["alg"] == "GRAPE":
        scn["maxfun"] = rng.randint(5, 30)
    build.gen_latency(rng, scn, scale=rng.choice([1, 1, 1, 10, 100, 100, 1e4, 1e5]))
    mean = {"const": lambda l: l["a"], "uniform": lambda l: l["b"] / 2, "stall": lambda l: l["a"] / 2 + 0.08 * l["b"]}[
        scn["latency"]["kind"]](scn["latency"])
    which = rng.choice(["total", "search", "both"]) if nb else "total"
    if which in ("total", "both"):
        scn["total_time_lim"] = build.r3(mean * rng.uniform(0.3, 80) / 60)
    if which in ("search", "both"):
        scn["time_lim"] = build.r3(mean * rng.uniform(0.3, 30) / 60)
        if rng.random() < 0.4:
            scn["max_eval"] = rng.randint(40, 120)
    if rng.random() < 0.5:
        scn["construct_delay"] = build.r3(10 ** rng.uniform(-1, 4.5))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        f = rand_instant(rng, 40 if not ad else 4)
        f["act"] = "jump"
        f["delta"] = build.r3(rng.choice([-1, 1]) * 10 ** rng.uniform(0, 5))
        scn["faults"].append(f)
    if rng.random() < 0.3:
        f = rand_instant(rng, 40 if not ad else 4, kinds=("during", "after"))
        f["act"], f["delta"] = "stall", build.r3(mean * rng.uniform(0.5, 60))
        scn["faults"].append(f)
    x = rng.random()
    if nb and x < 0.1:
        scn["re_eval"] = "default"
        scn["fom"]["std"] = 0.1
    elif nb and x < 0.2:
        scn["drift"] = {"after_SI": True, "num": rng.choice([1, 2])}
    return scn


EPS = 1e-3                                   # seconds: reading the clock takes virtual time too


def run(scn):
    r, run = simple(scn)
    w = run.world
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    ev = w.evals
    total = scn.get("total_time_lim")
    if total is not None:
        L = total * 60.0
        late = [e for e in ev if e["t0"] - w.exec_t0 > L + EPS]
        if late:
            r.bad("total-late", "evaluation %d of %d started %.3f s after execution began, the total limit is %.3f s",
                  late[0]["n"], len(ev), late[0]["t0"] - w.exec_t0, L)
        t = build.clone(scn)
        t["total_time_lim"] = None
        t["max_eval_total"] = 4 * len(ev) + 100      # far away
        twin = runner.simple_run(t)
        r.add(twin)
        tv = twin.world.evals
        if twin.outcome == "ok" and len(ev) < len(tv):
            r.nontrivial = True
            k = len(ev)
            t0 = tv[k]["t0"] - twin.world.exec_t0
            if t0 < L - EPS:
                r.bad("total-early", "the run ended after %d evaluations, but without the limit the next one starts %.3f s "
                      "after execution began and the total limit is %.3f s", k, t0, L)
    lim = scn.get("time_lim")
    if lim is None or scn.get("re_eval") or scn.get("drift"):
        return r
    L = lim * 60.0
    d, m = build.dim(scn), scn.get("max_eval")
    groups = {}
    for e in ev:
        groups.setdefault(e["si"], []).append(e)
    keys = sorted(groups, key=lambda k: (k is not None, k))
    begin = w.exec_t0                            # the earliest instant the search may have begun
    for j, k in enumerate(keys):
        g = groups[k]
        over = [i for i, e in enumerate(g) if e["t0"] - g[0]["t0"] > L + EPS]
        # the limit is looked at when an iteration ends; the first iteration follows the simplex construction
        if scn["dsm"] == "NelderMead":
            most = (d + 1 - over[0] if over and over[0] < d + 1 else 0) + d + 2
        else:
            most = build.pop(scn)
        if len(over) > most:
            r.bad("search-late", "%d evaluations of a %s search over %d parameters started after its time limit of %.3f s "
                  "had elapsed (at most %d)", len(over), scn["dsm"], d, L, most)
        last = j == len(keys) - 1
        end = w.exec_t1 if last else groups[keys[j + 1]][0]["t0"]
        by_total = last and total is not None and w.exec_t1 - w.exec_t0 >= total * 60.0 - EPS
        if (m is None or len(g) < m) and not by_total and not (scn.get("adaptive") and d == 1):
            if end - begin < L - EPS:
                r.bad("search-early", "search %d ended after at most %.3f s and %d evaluations although its time limit is "
                      "%.3f s and its evaluation limit %s", j + 1, end - begin, len(g), L, m)
            else:
                r.nontrivial = True
        begin = max(e["t1"] for e in g)
    return r
