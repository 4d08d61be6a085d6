"""C07: failed evaluations never count and end the run cleanly."""
from .common import *

RULE = ("seeded random runs in which one evaluation fails with a random non-zero status and None / NaN / a far better, "
        "equal, worse or zero value (at a random evaluation, also inside re-evaluations and drift compensation), and runs "
        "with NaN values under status zero; non-trivial = the failure fired after at least one success")
COUNT = {"quick": 1300, "thorough": 30000}
JAX = True


def gen(rng, tier, i):
    ad = i % 120 == 5
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.8, evals=(4, 30))
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 4), rng.choice([1, 2])
    scn["signals"] = rng.random() < 0.9
    last = 30 if not ad else 4
    if scn["alg"] in ("dCRAB", "DirectSearch"):
        x = rng.random()
        if x < 0.15:
            scn["re_eval"] = rng.choice(["default", [0.3, 0.5, 0.51], [0.4, 0.6]])
            scn["fom"]["std"] = rng.choice([0.05, 0.3])
        elif x < 0.35:
            scn["drift"] = {"after_SI": True, "num": rng.choice([1, 2, 3])}
            if rng.random() < 0.5:
                scn["drift"]["minutes"] = build.r3(rng.uniform(0.05, 0.5))
            scn["si"] = max(2, scn.get("si", 1))
            scn["max_eval"] = rng.randint(3, 15)
    if rng.random() < 0.8:
        k = rng.randint(1, last)
        if scn.get("drift") and rng.random() < 0.5:
            k = scn["max_eval"] + rng.randint(1, 6)
        scn["faults"].append({"k": "bad", "eval": k, "code": rng.choice([-1, -2, -3, 1, 7]),
                              "how": rng.choice(["better", "better", "worse", "same", "none", "nan", "zero"])})
    if rng.random() < 0.3 or not scn["faults"]:
        for k in sorted({rng.randint(1, last) for _ in range(rng.choice([1, 1, 2, 4]))}):
            scn["faults"].append({"k": "bad", "eval": k, "code": 0, "how": "nan"})
    if rng.random() < 0.2:
        g = rand_instant(rng, 30)
        g["act"] = rng.choice(["flag", "sigint", "stall"])
        if g["act"] == "stall":
            g["delta"] = build.r3(rng.uniform(0, 300))
        scn["faults"].append(g)
    if i % 70 == 33 and lengthen(rng, scn):
        scn["faults"].append({"k": "bad", "eval": rng.randint(40, 120), "code": rng.choice([-1, -2, -3, 1, 7, 404]),
                              "how": rng.choice(["better", "same", "none", "nan", "zero"])})
    return scn


def run(scn):
    r, run = simple(scn)
    ev = run.world.evals
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    failed = [e for e in finished(ev) if e["status"]]
    ok = succ(ev)
    plain = not scn.get("re_eval") and not scn.get("drift")
    r.nontrivial = bool(ok) and any(k.startswith("bad") for k in run.world.fired)
    if failed:
        k = failed[0]["n"]
        if len(ev) > k:
            r.bad("continues", "evaluation %d failed with status %r but %d more started", k, failed[0]["status"], len(ev) - k)
    got = (run.final or {}).get("Figure of merit")
    best = best_value(scn, ev)
    if got is not None and best is not None:
        if isinstance(got, float) and math.isnan(got):
            r.bad("nan-best", "the reported figure of merit is NaN")
        elif plain and not close(got, best, 1e-9 if scn["alg"] != "AD" else 1e-6):
            r.bad("value", "reported %r, best successful evaluation %r", got, best)
        elif not plain:
            vals = [e["FoM"] for e in ok]
            tol = lambda v: (1e-6 if scn["fom"].get("ret") == "np32" else 1e-9) * max(1.0, max(abs(x) for x in v))
            if scn.get("re_eval") and abs(got) == 1e10:
                pass      # no candidate completed its re-evaluation: nothing was accepted
            # single-precision values are averaged in single precision
            elif not (min(vals) - tol(vals) <= got <= max(vals) + tol(vals)):
                r.bad("value", "reported %r lies outside the successful values [%r, %r]", got, min(vals), max(vals))
    if plain and best is not None and run.controls is not None:
        c = trim(scn, run.controls)
        if not any(same_ctl(c, e, ctol(scn)) for e in ok if close(e["FoM"], best, 1e-12)):
            r.bad("controls", "get_best_controls() does not return the best successful evaluation's controls")
    bad_n = {e["n"] for e in failed} | {e["n"] for e in finished(ev) if e["FoM"] is not None and math.isnan(e["FoM"])}
    if run.best is not None:
        n = saved_scalar(run.best, "iteration_number")
        v = saved_scalar(run.best, "FoM")
        if n in bad_n and not scn.get("drift"):
            r.bad("saved", "the best-controls file holds failed evaluation %d", n)
        if v is None or math.isnan(v):
            r.bad("saved", "the best-controls file holds figure of merit %r", v)
        if not ok:
            r.bad("saved", "a best-controls file exists although no evaluation succeeded")
        elif plain and not (close(v, best, 1e-6) or close(-v, best, 1e-6)):
            r.bad("saved", "the best-controls file holds %r, the best success is %r", v, best)
    elif run.best_err != "missing":
        r.bad("saved", "best-controls file unreadable: %s", run.best_err)
    if scn.get("signals"):
        nums = [s[2][0] for s in run.world.signals if s[0] == "fom"]
        for e in failed:
            if e["n"] in nums:
                r.bad("announced", "failed evaluation %d was announced as a result", e["n"])
    return r
