"""Oracle helpers shared by the properties."""
import glob
import math
import os

import numpy as np

from .. import build, runner, foms
from ..result import Result
from ..world import ctl_hash

INF = float("inf")


def sign(scn):
    return -1.0 if scn["direction"] == "maximization" else 1.0


def finished(evals):
    return [e for e in evals if "t1" in e]


def succ(evals):
    """Evaluations that succeeded with a usable value."""
    return [e for e in finished(evals) if not e["status"] and e["FoM"] is not None and not math.isnan(e["FoM"])]


def best_value(scn, evals):
    """Best value among successful evaluations in the user's sign, or None."""
    ok = succ(evals)
    if not ok:
        return None
    vals = [e["FoM"] for e in ok]
    return max(vals) if sign(scn) < 0 else min(vals)


def close(a, b, tol=1e-9):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def arr_close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))))


def same_ctl(c, e, tol=1e-9):
    """Controls dictionary / record c against evaluation record e."""
    pulses = c["pulses"]
    grids = c.get("grids", c.get("timegrids"))
    params = c.get("params", c.get("parameters"))
    if len(pulses) != len(e["pulses"]) or len(params) != len(e["params"]) or len(grids) != len(e["grids"]):
        return False
    for a, b in zip(pulses, e["pulses"]):
        if not arr_close(np.asarray(a), b, tol):
            return False
    for a, b in zip(grids, e["grids"]):
        if not arr_close(np.asarray(a), b, tol):
            return False
    for a, b in zip(params, e["params"]):
        if not arr_close(np.asarray(a).ravel()[:1], np.asarray([b]), tol):
            return False
    return True


def trim(scn, c):
    """AD hands out padded arrays: cut them to the configured sizes."""
    if scn["alg"] != "AD" or c is None:
        return c
    nb = [p["bins_number"] for p in scn["pulses"]]
    P, G, X = np.asarray(c["pulses"]), np.asarray(c["timegrids"]), np.asarray(c["parameters"])
    return {"pulses": [P[i, :n] for i, n in enumerate(nb)], "timegrids": [G[i, :n] for i, n in enumerate(nb)],
            "parameters": list(X)}


def ctol(scn):
    return 1e-5 if scn["alg"] == "AD" else 1e-9


def judge_outcome(r, run, what="execute()"):
    """The run must return by itself."""
    if run.outcome == "stuck":
        r.bad("stuck", "%s made no progress: %s", what, run.exc)
        return False
    if run.outcome == "exception":
        r.bad("exception:" + run.exc.split(":")[0], "%s raised %s (after %d evaluations)", what, run.exc,
              len(run.world.evals))
        return False
    return run.outcome == "ok"


def judge_results(r, run):
    """Final results written and readable, best controls retrievable."""
    if run.final is None:
        r.bad("results-file", "optimized_parameters.json after execute() returned: %s", run.final_err)
    if run.controls is None:
        r.bad("best-controls-call", "get_best_controls() after execute() returned: %s", run.controls_err)


def names(scn):
    return [p["name"] for p in scn["pulses"]], [p["name"] for p in scn["params"]]


def saved_as_controls(scn, saved):
    """The saved best-controls file as a controls dictionary."""
    pn, xn = names(scn)
    return {"pulses": [np.asarray(saved[n]) for n in pn],
            "grids": [np.asarray(saved["time_grid_for_" + n]) for n in pn],
            "params": [np.asarray(saved[n]).ravel()[0] for n in xn]}


def saved_scalar(saved, key):
    if key not in saved:
        return None
    v = np.asarray(saved[key]).ravel()
    return float(v[0]) if len(v) else None


RESERVED = {"FoM", "sigma", "iteration_number", "super_it"}


def check_shared_names(pn, xn, saved, e, tol):
    """Controls of the same name: each is there under a key of its own that begins with its name."""
    left = set(saved)
    want = [(n, np.asarray(a)) for n, a in zip(pn, e["pulses"])] + [("time_grid_for_" + n, np.asarray(a)) for n, a in
                                                                    zip(pn, e["grids"])]
    want += [(n, np.asarray([x])) for n, x in zip(xn, e["params"])]
    for n, a in want:
        hit = [k for k in sorted(left) if k.startswith(n) and np.asarray(saved[k]).ravel().shape == a.shape
               and np.asarray(saved[k]).dtype.kind in "fiuc" and arr_close(np.asarray(saved[k]).ravel(), a, tol)]
        if not hit:
            return "does not hold the control %r of evaluation %d" % (n, e["n"])
        left.discard(hit[0])
    return None


def check_saved(scn, saved, e, value=None, tol=1e-9, number=True):
    """None if the saved record is exactly evaluation e (with `value`), else what differs.

    Either sign convention of the stored figure of merit is accepted."""
    value = e["FoM"] if value is None else value
    pn, xn = names(scn)
    if len(set(pn + xn)) < len(pn + xn) or RESERVED & set(pn + xn):
        why = check_shared_names(pn, xn, saved, e, tol)
        if why:
            return why
    else:
        try:
            c = saved_as_controls(scn, saved)
        except KeyError as k:
            return "misses %s" % k
        if not same_ctl(c, e, tol):
            return "controls differ from evaluation %d" % e["n"]
    v = saved_scalar(saved, "FoM")
    if v is None or not (close(v, value, 1e-9) or close(-v, value, 1e-9)):
        return "figure of merit %r instead of %r" % (v, value)
    if number:
        n = saved_scalar(saved, "iteration_number")
        if n is None or int(n) != e["n"]:
            return "evaluation number %r instead of %d" % (n, e["n"])
    return None


def log_lines(run):
    return (run.log_text or "").splitlines()


def rand_instant(rng, last, kinds=("during", "after", "lines", "lines", "lines"), lines=(1, 400)):
    when = rng.choice(list(kinds))
    f = {"k": "at", "when": when, "eval": rng.randint(1 if when in ("during", "after") else 0, max(1, last))}
    if when == "lines":
        f["lines"] = rng.randint(*lines) if rng.random() < 0.7 else rng.randint(1, 60)
    return f


def lengthen(rng, scn):
    """Hundreds of evaluations, most of them a new record; returns their number (at least), 0 if the algorithm cannot."""
    if scn["alg"] not in ("dCRAB", "DirectSearch"):
        return 0
    scn["faults"] = []
    for k in ("total_time_lim", "time_lim", "cbs", "max_eval_total", "FoM_goal", "re_eval", "drift"):
        scn.pop(k, None)
    for k in ("digits", "script"):
        scn["fom"].pop(k, None)
    if scn["fom"].get("ret") in ("int", "npint", "np32"):
        scn["fom"]["ret"] = "np64"
    scn["si"] = rng.choice([1, 1, 2, 5]) if scn["alg"] == "dCRAB" else 1
    scn["max_eval"] = rng.randint(130, 280) // scn["si"]
    scn["fom"]["drift"] = -build.r3(rng.uniform(0.05, 3))
    return 120


def simple(scn, hook=None, r=None):
    r = r or Result(scn)
    run = runner.simple_run(scn, hook)
    r.add(run)
    return r, run
