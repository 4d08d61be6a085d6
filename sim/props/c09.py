"""C09: drift compensation re-measures the best when due."""
from .common import *

RULE = ("seeded random drifting/noisy runs with compensation after super-iterations and/or every given number of minutes "
        "(1-4 averages), random evaluation durations, stalls, wall-clock jumps, and stops, failures or NaN values inside a "
        "compensation; repeated measurements are recognised by their controls and checked for number, instant and effect on "
        "the best; non-trivial = a complete compensation changed the best value")
COUNT = {"quick": 1300, "thorough": 40000}
JAX = False


def gen(rng, tier, i):
    while True:
        scn = build.gen_base(rng, algs=("dCRAB", "dCRAB", "dCRAB", "DirectSearch"),
                             dsms=("NelderMead", "NelderMead", "NelderMead", "CMAES"), wide=True, evals=(4, 30), noisy=True)
        if build.dim(scn) > 1:     # a one-dimensional simplex revisits points of its own accord
            break
    f = scn["fom"]
    f["noise"] = build.r3(10 ** rng.uniform(-4, -0.5))
    f["ret"] = rng.choice(["float", "np64"])
    f["ripple"] = 0.0
    if rng.random() < 0.7:
        f["drift"] = build.r3(rng.choice([-1, 1]) * 10 ** rng.uniform(-3.5, -0.5))
    mean = {"const": lambda l: l["a"], "uniform": lambda l: l["b"] / 2, "stall": lambda l: l["a"] / 2 + 0.08 * l["b"]}[
        scn["latency"]["kind"]](scn["latency"])
    scn["max_eval"] = rng.randint(4, 30)
    d = {"num": rng.choice([1, 1, 2, 3, 4])}
    if scn["alg"] == "dCRAB":
        scn["si"] = rng.choice([2, 2, 3, 4])
        d["after_SI"] = rng.random() < 0.7
    if scn["alg"] == "DirectSearch" or rng.random() < 0.6:
        d["minutes"] = build.r3(mean * rng.uniform(0.5, 30) / 60)
        if scn["alg"] == "DirectSearch":
            scn["max_eval"] = rng.randint(10, 80)
    if d["num"] == 1 and rng.random() < 0.3:
        d.pop("num")
    scn["drift"] = d
    for _ in range(rng.choice([0, 0, 1])):
        g = rand_instant(rng, 40)
        g["act"], g["delta"] = "jump", build.r3(rng.choice([-1, 1]) * 10 ** rng.uniform(0, 5))
        scn["faults"].append(g)
    if rng.random() < 0.2:
        g = rand_instant(rng, 40, kinds=("during", "after"))
        g["act"], g["delta"] = "stall", build.r3(mean * rng.uniform(1, 60))
        scn["faults"].append(g)
    x = rng.random()
    k = rng.randint(1, 50)
    if scn["alg"] == "dCRAB" and rng.random() < 0.5:
        k = scn["max_eval"] + rng.randint(1, 8)
    if x < 0.3:
        g = rand_instant(rng, 40)
        g["eval"] = k
        g["act"] = rng.choice(["flag", "sigint"])
        scn["faults"].append(g)
    elif x < 0.45:
        scn["max_eval_total"] = k
    elif x < 0.55:
        scn["faults"].append({"k": "bad", "eval": k, "code": rng.choice([0, -1]), "how": "nan"})
    return scn


def run(scn):
    r, soft = judge(scn)
    if soft:
        # after a NaN value the simplex may return to a point of its lattice just when a compensation is due; with a single
        # measurement per compensation the history does not tell the two apart
        r.violations = [v for v in r.violations if v["cls"] not in ("early", "missed", "count", "unasked", "value", "controls",
                                                                    "saved")]
        r.probe("ambiguous")
    return r


def judge(scn):
    r, run = simple(scn)
    w, soft = run.world, False
    if not judge_outcome(r, run):
        return r, soft
    judge_results(r, run)
    ev = finished(w.evals)
    d, s, num = scn["drift"], sign(scn), scn["drift"].get("num", 1)
    minutes = d.get("minutes") or 0.0
    periodic = minutes > 0 and scn["dsm"] == "NelderMead"
    at_si = scn["alg"] == "dCRAB" and (d.get("after_SI") or minutes > 0)
    L = minutes * 60.0
    dim = build.dim(scn)
    searches = []
    for e in w.evals:
        if not searches or searches[-1][0]["si"] != e["si"]:
            searches.append([])
        searches[-1].append(e)
    best = []                      # the values the best may have
    K = None                       # evaluation with the best controls
    K_old = None                   # the same before a compensation whose last measurement the run was stopped in
    for j, g in enumerate(searches):
        final = j == len(searches) - 1
        pos = 0
        if j > 0 and at_si and K is not None:
            # the best is measured num times, then once more as the first point of the new search
            while pos < len(g) and pos < num and same_ctl(g[pos], K):
                pos += 1
            if pos < num and not (final and pos == len(g)):
                r.bad("si-missing", "super-iteration %d began with %d measurements of the best controls instead of %d", j + 1, pos, num)
                return r, soft
            best = settle(best, g[:pos], s, complete=pos == num)
            if pos < len(g) and pos == num:
                if not same_ctl(g[pos], K):
                    r.bad("si-missing", "super-iteration %d: evaluation %d after %d compensation measurements is not the best "
                          "found so far", j + 1, g[pos]["n"], num)
                    return r, soft
        S = None                   # best point of this search
        Sval = None
        # when the search began / the last compensation ended, at the earliest (a stall may lie in between) and at the latest
        last = g[pos - 1] if pos else (searches[j - 1][-1] if j else None)
        mark0 = last.get("t1", last["t0"]) if last else w.exec_t0
        mark = g[pos]["t0"] if pos < len(g) else None
        nlate, seen, allowed, gaps, nback = 0, 0, 0, False, 0
        i = pos
        prev_it = None
        while i < len(g):
            e = g[i]
            if "t1" not in e:
                break
            if e["status"]:
                i += 1
                continue
            rep = S is not None and (same_ctl(e, S) or (K is not None and K is not S and seen > dim and same_ctl(e, K))) \
                and not math.isnan(Sval)
            old_pt = None
            if gaps and periodic and not rep:       # a NaN value makes the simplex shrink away from its best point
                old_pt = next((x for x in reversed(g[:i]) if same_ctl(x, e, 0.0) and x.get("FoM") is not None
                                and not math.isnan(x["FoM"]) and not x["status"]), None)
                rep = old_pt is not None and e["t0"] - mark0 >= L - 1e-3
            if rep and not same_ctl(e, S):
                # the best of an earlier super-iteration need not be in the simplex, whose lattice (the start is K itself) can
                # return to it of its own accord: an isolated single return says nothing, many do
                single = i + 1 == len(g) or not same_ctl(g[i + 1], e)
                due = periodic and e["t0"] - mark0 >= L - 1e-3
                if single and nback < 3 and not (due and (num == 1 or i + 1 == len(g))):
                    nback += 1
                    rep = False
            if rep and not periodic:
                r.bad("unasked", "evaluation %d repeats the best controls although no compensation is due (%s)", e["n"], d)
                return r, soft
            if rep:
                target = old_pt or (S if same_ctl(e, S) else K)
                n = i
                while n < len(g) and n - i < num and same_ctl(g[n], target):
                    n += 1
                got = g[i:n]
                soft = soft or (old_pt is not None and len(got) == 1)
                nan = [x for x in got if x.get("FoM") is None or math.isnan(x["FoM"]) or x["status"]]
                if nan:
                    n = i + got.index(nan[0]) + 1
                    got = g[i:n]
                if e["t0"] - mark0 < L - 1e-3:
                    r.bad("early", "the best was measured again at evaluation %d, %.3f s after the last time, the interval is "
                          "%.3f s", e["n"], e["t0"] - mark0, L)
                    return r, soft
                complete = len(got) == num and not nan
                if not complete and not nan and n < len(g):
                    r.bad("count", "the best was measured %d times instead of %d before evaluation %d", len(got), num, g[n]["n"])
                    return r, soft
                if n < len(g) and same_ctl(g[n], target) and not nan:
                    r.bad("count", "the best was measured more than %d times (evaluation %d)", num, g[n]["n"])
                    return r, soft
                # the mean is taken only if the run was not stopped inside it
                old = list(best)
                best = settle(best, got, s, complete=complete)
                if complete and w.stop_at is not None and w.stop_at <= got[-1]["n"] and final and n == len(g):
                    best = sorted(set(best + settle(old, got, s, complete=False)))
                    K_old = K
                if complete:
                    Sval = sum(s * x["FoM"] for x in got) / num
                    S = K = got[-1]
                    r.probe("periodic")
                    if abs(Sval - old[0]) > 0:
                        r.nontrivial = True
                mark0 = got[-1].get("t1", got[-1]["t0"])
                mark = g[n]["t0"] if n < len(g) else mark0
                nlate = 0
                prev_it = e["it"]
                i = n
                continue
            # an ordinary evaluation
            if periodic and isinstance(e["it"], int) and isinstance(prev_it, int) and e["it"] != prev_it and prev_it >= 1:
                # an iteration ended before this evaluation: had the interval elapsed by then?
                t = g[i - 1]["t1"] - mark
                if t > L + 1e-3 and not math.isnan(Sval):
                    r.bad("missed", "iteration %d ended %.3f s after the last compensation, the interval is %.3f s, but the "
                          "best was not measured again before evaluation %d", prev_it, t, L, e["n"])
                    return r, soft
            if periodic and e["t0"] - mark > L + 1e-3:
                nlate += 1
                if nlate == 1:
                    allowed = dim + 2 + max(0, dim + 1 - seen)
                if nlate > allowed:
                    r.bad("missed", "%d evaluations started after the interval of %.3f s had elapsed without a compensation", nlate, L)
                    return r, soft
            v = e["FoM"]
            prev_it = e["it"]
            seen += 1
            i += 1
            if v is None or math.isnan(v):
                gaps = True
                if S is None:
                    S, Sval = e, float("nan")
                continue
            v = s * v
            if S is None or math.isnan(Sval) or v < Sval:
                S, Sval = e, v
            if not best or v < best[0]:
                best, K = [v], e
        if j > 0 and at_si and pos == num:
            r.probe("after-si")
            r.nontrivial = True
    if not best:
        return r, soft
    got = run.final.get("Figure of merit") if run.final else None
    if got is None or not any(close(s * got, b, 1e-9) for b in best):
        r.bad("value", "reported best %r, by the measurements it is %s", got, " or ".join("%r" % (s * b) for b in best[:4]))
    if run.controls is not None and not same_ctl(run.controls, K) \
            and not (K_old is not None and same_ctl(run.controls, K_old)):
        r.bad("controls", "get_best_controls() are not the controls of the best (evaluation %d)", K["n"])
    if run.best is None:
        r.bad("saved", "the best-controls file is %s", run.best_err)
    else:
        why = [check_saved(scn, run.best, k, value=s * b, number=False) for b in best for k in (K, K_old) if k is not None]
        if all(why):
            r.bad("saved", "the best-controls file does not hold the best: %s", why[0])
    return r, soft


def settle(best, got, s, complete):
    """What the best value may be after these measurements of it."""
    vals = [s * e["FoM"] for e in got if "t1" in e and not e["status"] and e["FoM"] is not None and not math.isnan(e["FoM"])]
    bad = [e for e in got if "t1" in e and (e["status"] or e["FoM"] is None or math.isnan(e["FoM"]))]
    if not vals:
        return best
    mean = sum(vals) / len(vals)
    if complete and not bad:
        return [mean]
    out = list(best)
    out += [min(b, v) for b in best for v in vals] + [mean]
    m = [min(best + vals)] if best else []
    return sorted(set(out + m))
