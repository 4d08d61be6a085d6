"""C17: a direct search returns a point and value it really measured."""
import io
import sys
import traceback

from .common import *
from .. import seams

RULE = ("the two direct searches run on seeded random functions (smooth, rippled, flat, stepped, scripted, noisy, clipped; one to "
        "26 dimensions, with and without a starting simplex), several searches per object as dCRAB does, with NaN values, "
        "stops at random instants of the iteration (through the callback and the convergence flag), stalls and every search "
        "criterion; non-trivial = the search left its starting simplex or population")
COUNT = {"quick": 3000, "thorough": 80000}
STUBS = ["no optimizer around the search: the function and the callback are the simulator's"]


def gen(rng, tier, i):
    d = rng.choice([1, 2, 2, 3, 4, 5, 7]) if rng.random() < 0.85 else rng.randint(16, 26)
    scn = {"alg": "search", "dsm": rng.choice(["NelderMead", "NelderMead", "CMAES"]), "d": d, "ambient": rng.randrange(1 << 30),
           "adaptive": rng.random() < 0.4, "faults": [], "searches": rng.choice([1, 1, 2, 3]), "direction": "minimization"}
    if scn["dsm"] == "CMAES":
        if rng.random() < 0.5:
            scn["population"] = rng.randint(4, 12)
        scn["sigma"] = [build.r3(10 ** rng.uniform(-2, 0.5)) for _ in range(d)] if rng.random() < 0.8 else None
    scn["x0"] = [build.r3(rng.uniform(-2, 2)) if rng.random() < 0.85 else 0.0 for _ in range(d)]
    scn["simplex"] = rng.random() < 0.7
    scn["simplex_size"] = build.r3(10 ** rng.uniform(-2, 0.5))
    scn["fn"] = {"kind": rng.choice(["bowl", "bowl", "ripple", "abs", "flat", "step", "clip", "script"]),
                 "c": [build.r3(rng.uniform(-2, 2)) for _ in range(d)], "w": [build.r3(10 ** rng.uniform(-1, 2)) for _ in range(d)],
                 "offset": rng.choice([0.0, 5.0, -1000.0]), "noise": build.r3(10 ** rng.uniform(-4, 0)) if rng.random() < 0.35 else 0,
                 "script": [build.r3(rng.uniform(-3, 3)) for _ in range(rng.choice([2, 5, 40]))],
                 "nan": build.r3(rng.uniform(0.02, 0.3)) if rng.random() < 0.15 else 0}
    scn["max_eval"] = rng.randint(1, 120)
    if d > 15:
        scn["fn"]["kind"] = rng.choice(["bowl", "flat", "flat", "step", "script", "clip"])
    if rng.random() < 0.3:
        scn["xatol"] = build.r3(10 ** rng.uniform(-4, -0.5))
    if rng.random() < 0.3:
        scn["fatol"] = build.r3(10 ** rng.uniform(-4, 0))
    if rng.random() < 0.15:
        scn["time_lim"] = build.r3(rng.uniform(0.01, 1))
    scn["latency"] = build.r3(rng.uniform(0, 2))
    x = rng.random()
    if x < 0.5:
        g = rand_instant(rng, 50 if d < 15 else 150)
        g["act"] = "stall" if rng.random() < 0.15 else "flag"
        if g["act"] == "stall":
            g["delta"] = build.r3(rng.uniform(0, 100))
        scn["faults"].append(g)
    if i % 200 == 77:      # a long search on nothing but noise: no criterion ends it for a long time
        scn.update(dsm="CMAES", d=rng.choice([1, 2, 2, 3]), searches=1, latency=0.0, faults=[], max_eval=14000, max_evals=16000)
        d = scn["d"]
        scn.update(x0=scn["x0"][:1] * d, sigma=None if rng.random() < 0.5 else [1.0] * d)
        scn["fn"].update(kind="noise", c=[0.0] * d, w=[1.0] * d, nan=0, noise=1)
        for k in ("population", "xatol", "fatol", "time_lim"):
            scn.pop(k, None)
    return scn


def value(fn, x, n):
    c, w = np.asarray(fn["c"]), np.asarray(fn["w"])
    k = fn["kind"]
    if k == "abs":
        v = float(np.sum(w * np.abs(x - c)))
    elif k == "flat":
        v = 1.0
    elif k == "step":
        v = float(np.sum(np.round(2 * (x - c)) ** 2))
    elif k == "clip":
        v = float(np.sum(w * (np.clip(x, -1, 1) - 2) ** 2))
    elif k == "noise":
        return foms.noise("f", n)
    elif k == "script":
        return fn["script"][n % len(fn["script"])]
    else:
        v = float(np.sum(w * (x - c) ** 2))
        if k == "ripple":
            v += float(np.sum(np.sin(7 * x)))
    if fn["noise"]:
        v += fn["noise"] * foms.noise("f", n)
    return v + fn["offset"]


class Stop:
    """What the simulator's stop action drives."""

    def __init__(self):
        self.off = False

    def set_is_user_running(self, v):
        self.off = not v


def run(scn, judge=None):
    return runner.with_root(lambda root: go(scn, root, judge or judge_best))


def go(scn, root, judge):
    r = Result(scn)
    import random
    w = runner.new_world(scn, root)
    w.he = Stop()
    out = sys.stdout
    sys.stdout = io.StringIO()
    seams.W = w
    random.seed(scn["ambient"])
    np.random.seed(scn["ambient"] % (1 << 32))
    run = runner.Run()
    run.world, run.scn, run.outcome = w, scn, "ok"
    try:
        with np.errstate(all="ignore"):
            searches(scn, w, r, run, judge)
    finally:
        w.mon_stop()
        seams.W = None
        w.closed = True
        sys.stdout = out
        runner.drop_log_handlers()
    r.add(run)
    return r


def searches(scn, w, r, run, judge):
    sc = {k: scn[k] for k in ("xatol", "fatol", "max_eval", "time_lim") if scn.get(k) is not None}
    st = {"is_adaptive": scn["adaptive"]}
    stop = w.he
    if scn["dsm"] == "CMAES":
        from quocslib.gradientfreemethods.CMAES import CMAES
        if scn.get("population"):
            st["population"] = scn["population"]
        s = CMAES(st, sc, callback=lambda: not stop.off)
        pop = scn.get("population") or int(4 + math.floor(3 * math.log(scn["d"])))
    else:
        from quocslib.gradientfreemethods.NelderMead import NelderMead
        s = NelderMead(st, sc, callback=lambda: not stop.off)
    nan = {}
    x0 = np.array(scn["x0"], dtype=float)
    extra = (3.5,)
    normals = None if scn.get("rng") is None else np.random.default_rng(scn["rng"]).standard_normal
    if scn.get("rng") is not None:
        from quocslib.tools.randomgenerator import RandomNumberGenerator
        s.rng = RandomNumberGenerator(scn["rng"])
    elif scn["dsm"] == "CMAES":
        normals = np.random.RandomState(scn["ambient"] % (1 << 32)).randn

    def func(x, it, *a):
        if scn.get("drift") and len(a) > (len(extra) if k == 1 else 0):
            told.append((len(w.evals), np.array(x, copy=True), a[0]))
            return a[0]
        rec = w.eval_begin([], list(np.array(x, copy=True)), [])
        rec["args"] = a
        rec["x"] = np.array(x, copy=True)
        rec["it"] = it
        n = rec["n"]
        w.advance(scn["latency"])
        w.instant("during", n)
        v = value(scn["fn"], rec["x"], n)
        if scn["fn"]["nan"] and foms.random.Random(("nan", n).__repr__()).random() < scn["fn"]["nan"]:
            w.fire("nan")
            v = float("nan")
        rec["off"] = stop.off
        if stop.off:
            s.sc_obj.is_converged = True
        w.eval_end(rec, v, None, 0)
        w.instant("after", n)
        rec["back"] = w.now
        return v

    for k in range(scn["searches"]):
        if stop.off:
            break
        start = len(w.evals)
        kw = {}
        if scn["dsm"] == "CMAES":
            kw["sigma_v"] = None if scn["sigma"] is None else np.array(scn["sigma"])
        elif scn["simplex"]:
            sim = np.tile(x0, (scn["d"] + 1, 1))
            for j in range(scn["d"]):
                sim[j + 1, j] += scn["simplex_size"] * (1 if j % 2 else -1)
            kw["initial_simplex"] = sim
        if k == 1:
            kw["args"] = extra
        if scn.get("drift"):
            kw["drift_comp_minutes"], kw["drift_comp_num_average"] = scn["drift"]
        told = []
        began = w.now
        s.sc_obj.reset_direct_search_start_time()
        w.phase = "execute"
        w.lines = 0
        w.mon_start()
        try:
            res = s.run_dsm(func, x0.copy(), **kw)
        except seams.SimStuck as e:
            r.bad("stuck", "search %d: %s", k + 1, e)
            run.outcome = "stuck"
            return
        except Exception as e:
            r.bad("exception:" + type(e).__name__, "search %d raised %s: %s", k + 1, type(e).__name__, e)
            run.outcome = "exception"
            return
        finally:
            w.mon_stop()
            w.phase = "between"
        judge(scn, r, w.evals[start:], res, k + 1, x0, pop if scn["dsm"] == "CMAES" else None, stop.off,
              extra if k == 1 else (), Facts(kw=kw, normals=normals, began=began, ended=w.now, told=told, start=start))
        w.log("search", repr(float(res["F_min_val"])), res["NfunevalsUsed"])
        x0 = np.array(res["X_opti_vec"], dtype=float)


def same(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


class Facts:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def judge_best(scn, r, ev, res, k, x0, pop, stopped, args, facts):
    X, F, N = np.asarray(res["X_opti_vec"], dtype=float), float(res["F_min_val"]), res["NfunevalsUsed"]
    if N != len(ev):
        r.bad("count", "search %d reports %r evaluations, it made %d", k, N, len(ev))
    if any(e["args"] != args for e in ev):
        r.bad("args", "search %d did not pass on the further arguments", k)
    if not np.array_equal(ev[0]["x"], x0):
        r.bad("start", "search %d first evaluated %s, it was to start at %s", k, ev[0]["x"], x0)
    at = [e for e in ev if np.array_equal(e["x"], X)]
    if not at:
        r.bad("point", "search %d (%d evaluations) returned a point it never evaluated: %s", k, len(ev), X)
    elif not any(same(e["FoM"], F) for e in at):
        r.bad("value", "search %d returned the value %r; measured at that point were %s", k, F, [e["FoM"] for e in at][:4])
    val = [e["FoM"] for e in ev if not math.isnan(e["FoM"])]
    if len(val) == len(ev):
        for e in ev:
            if not np.all(np.isfinite(e["x"])):
                r.bad("finite", "search %d evaluated the point %s (evaluation %d of %d)", k, e["x"], e["n"], len(ev))
                break
    r.nontrivial = r.nontrivial or len(ev) > (pop or scn["d"] + 1)
    if not val:
        return
    if pop is not None:
        if len(ev) % pop:
            r.bad("population", "search %d made %d evaluations with a population of %d", k, len(ev), pop)
            return
        last = [e["FoM"] for e in ev[-pop:] if not math.isnan(e["FoM"])]
        if last and not same(F, min(last)):
            r.bad("best", "search %d returned %r, the best of its last population is %r", k, F, min(last))
        return
    if len(val) < len(ev):
        return                     # with values that cannot be compared "best" is not claimed
    allowed = {min(val)}
    if stopped:
        last = max(e["it"] for e in ev)
        early = [e["FoM"] for e in ev if e["it"] < last and not math.isnan(e["FoM"])]
        # the values of the last iteration, when the stop arrived during it, may be missed
        if early:
            tail = [e["FoM"] for e in ev if e["it"] == last and not math.isnan(e["FoM"])]
            allowed |= {min(early + tail[:j]) for j in range(len(tail))}
        r.probe("stopped")
    if F not in allowed:
        r.bad("best", "search %d returned %r, the best it measured is %r (evaluation %d of %d)", k, F, min(val),
              1 + [e["FoM"] for e in ev].index(min(val)), len(ev))
