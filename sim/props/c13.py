"""C13: every evaluation is announced once, in order, and counted."""
from .common import *
from .c08 import Model

RULE = ("seeded random runs of every algorithm with the three announcement channels recorded and ordered against the "
        "evaluations, with re-evaluation, drift compensation, stops at random instants, failed evaluations and every kind of "
        "limit; non-trivial = at least three successful evaluations")
COUNT = {"quick": 1500, "thorough": 40000}
JAX = True


def gen(rng, tier, i):
    ad = i % 150 == 7
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.7, evals=(3, 30))
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 4), rng.choice([1, 2])
    scn["signals"] = True
    scn["fom"]["ret"] = "float"
    if scn["alg"] in ("dCRAB", "DirectSearch"):
        x = rng.random()
        if x < 0.3 and build.dim(scn) > 1:
            scn["re_eval"] = rng.choice(["default", [0.3, 0.5, 0.51], [0.4, 0.6], [0.2, 0.3, 0.4, 0.5], [0.5]])
            scn["fom"]["std"] = rng.choice([0.05, 0.3, {"a": 0.1, "b": 0.05}])
            scn["fom"]["noise"], scn["fom"]["noise_seed"] = build.r3(rng.uniform(0.01, 0.5)), rng.randrange(1 << 30)
            if rng.random() < 0.2:
                scn["fom"].pop("std")
        elif x < 0.5:
            scn["drift"] = {"after_SI": True, "num": rng.choice([1, 2, 3])}
            if rng.random() < 0.5:
                scn["drift"]["minutes"] = build.r3(rng.uniform(0.05, 0.5))
            scn["si"] = max(2, scn.get("si", 1))
    x = rng.random()
    if x < 0.35:
        g = rand_instant(rng, 20 if not ad else 3, kinds=("during", "after", "lines", "lines"))
        g["act"] = rng.choice(["flag", "sigint", "stall"])
        if g["act"] == "stall":
            g["delta"] = build.r3(rng.uniform(0, 300))
        scn["faults"].append(g)
    elif x < 0.55:
        scn["faults"].append({"k": "bad", "eval": rng.randint(1, 20 if not ad else 3), "code": rng.choice([-1, 3]),
                              "how": rng.choice(["better", "same", "none", "worse"])})
    if rng.random() < 0.3:
        scn["max_eval_total"] = rng.randint(1, 30)
    if rng.random() < 0.15:
        scn["total_time_lim"] = build.r3(rng.uniform(0.01, 1))
    if rng.random() < 0.15 and not scn.get("re_eval") and not scn.get("drift"):
        scn["FoM_goal"] = 0.0
    if i % 70 == 33:
        lengthen(rng, scn)
    return scn


def run(scn):
    r, run = simple(scn)
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    w = run.world
    ev = w.evals
    alg = run.opt.get_optimization_algorithm()
    ok = [e for e in finished(ev) if not e["status"]]
    r.nontrivial = len(ok) >= 3
    sig = w.signals
    # the start
    starts = [k for k, s in enumerate(sig) if s[0] == "message" and s[2] == ("start",)]
    if len(starts) != 1:
        r.bad("start", "the start was announced %d times", len(starts))
    elif any(s[0] != "message" for s in sig[:starts[0]]):
        r.bad("start", "something else was announced before the start")
    # controls and results, in order
    expect = []
    for e in ev:
        expect.append(("controls", e))
        if "t1" in e and not e["status"]:
            expect.append(("fom", e))
    got = [s for s in sig if s[0] in ("controls", "fom")]
    if len(got) == len(expect) + 1 and got[-1][0] == "controls" and w.stop_at is not None and not w.stop_in_eval:
        got = got[:-1]                # the stop arrived while these controls were handed over
        r.probe("stopped-at-handover")
    hist = expected_history(scn, ok, ev)
    for k in range(max(len(got), len(expect))):
        if k >= len(got):
            r.bad("missing", "%s of evaluation %d was never announced", name(expect[k][0]), expect[k][1]["n"])
            break
        if k >= len(expect):
            r.bad("extra", "%d announcements too many (%s)", len(got) - len(expect), got[k][0])
            break
        (kind, at, item), (what, e) = got[k], expect[k]
        if kind != what:
            r.bad("order", "announcement %d is %s, expected %s of evaluation %d", k + 1, name(kind), name(what), e["n"])
            break
        if what == "controls":
            if at != e["n"] - 1:
                r.bad("order", "the controls of evaluation %d were announced when %d evaluations had started", e["n"], at)
                break
            if not same_ctl(trim_sig(scn, item), e, ctol(scn)):
                r.bad("controls", "the controls announced for evaluation %d are not the ones evaluated", e["n"])
                break
        else:
            if item[0] != e["n"] or at != e["n"]:
                r.bad("number", "the result of evaluation %d was announced as number %d (%d started)", e["n"], item[0], at)
                break
            vals = [e["FoM"], -e["FoM"]]
            if hist is not None:
                vals += [hist[e["n"]], -hist[e["n"]]]
            if not any(close(item[1], v, 1e-6 if scn["alg"] == "AD" else 1e-9) for v in vals):
                r.bad("value", "the result of evaluation %d was announced as %r, it is %r", e["n"], item[1], e["FoM"])
                break
    # the history
    tol = 1e-5 if scn["alg"] == "AD" else 1e-9
    nums = [int(x) for x in alg.iteration_number_list]
    if nums != [e["n"] for e in ok]:
        r.bad("history", "the recorded evaluation numbers are %s, successful were %s", nums[-5:], [e["n"] for e in ok][-5:])
    vals = [float(x) for x in alg.FoM_list]
    if len(vals) != len(ok):
        r.bad("history", "%d values recorded for %d successful evaluations", len(vals), len(ok))
    elif hist is not None:
        for e, v in zip(ok, vals):
            if not close(v, hist[e["n"]], tol):
                r.bad("history", "the history holds %r for evaluation %d, expected %r%s", v, e["n"], hist[e["n"]],
                      "" if close(hist[e["n"]], e["FoM"]) else " (running average; this measurement: %r)" % e["FoM"])
                break
    # the count
    n = alg.iteration_number
    if n != len(ev):
        r.bad("count", "the run counts %r evaluations, %d were performed", n, len(ev))
    for key in ("total number of function evaluations", "nfev"):
        if run.final and key in run.final and run.final[key] != len(ev):
            r.bad("count", "the results report %s = %r, %d were performed", key, run.final[key], len(ev))
    return r


def name(k):
    return {"controls": "the controls", "fom": "the result"}.get(k, k)


def trim_sig(scn, c):
    if scn["alg"] != "AD":
        return c
    nb = [p["bins_number"] for p in scn["pulses"]]
    return {"pulses": [c["pulses"][i][:n] for i, n in enumerate(nb)],
            "grids": [c["grids"][i][:n] for i, n in enumerate(nb)], "params": c["params"]}


def expected_history(scn, ok, ev):
    """Evaluation number -> the value the history must hold; None when the rule leaves it open."""
    if not scn.get("re_eval"):
        return {e["n"]: e["FoM"] for e in ok}
    m = Model(scn)
    out = {}
    for e in ok:
        if e["FoM"] is None or math.isnan(e["FoM"]):
            return None
        m.feed(e)
        out[e["n"]] = (sum(x["FoM"] for x in m.cand) / len(m.cand))
        if m.unsure:
            return None
    return out
