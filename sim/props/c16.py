"""C16: super-iterations continue from the best with fresh bases."""
from .common import *

RULE = ("seeded random dCRAB runs of one to six super-iterations, several pulses with different bases and numbers of vectors, "
        "parameters, guesses, scalings and biting limits, ended by every kind of criterion, with stops, failed and NaN "
        "evaluations and drift compensation; the recorded basis parameters and coefficients are fed to independent formulas; "
        "non-trivial = at least two super-iterations in which the best was improved in a later one")
COUNT = {"quick": 1500, "thorough": 40000}
SIGMOIDS = ("Sigmoid", "SigmoidSigmas", "SigmoidTimeDep", "SigmoidAllParas")
BASES = ("Fourier", "Fourier", "Chebyshev", "Chebyshev", "Sinc", "Walsh") + SIGMOIDS


def gen(rng, tier, i):
    scn = build.gen_base(rng, algs=("dCRAB",), wide=rng.random() < 0.6, evals=(6, 45), bases=BASES, max_pulses=3, max_params=3)
    scn["si"] = rng.choice([1, 2, 2, 3, 3, 4, 6])
    scn["fom"]["ret"] = rng.choice(["float", "np64"])
    T = {t["name"]: t["initial_value"] for t in scn["times"]}
    for p in scn["pulses"]:
        if p["basis"] == "Walsh":
            p["lo"], p["hi"] = -1e4, 1e4      # it limits every update by itself
        if p["basis"] in SIGMOIDS + ("Sinc",):
            p["wlo"], p["whi"] = build.r3(0.1 * T[p["time"]]), build.r3(0.9 * T[p["time"]])
        p["nvec"] = rng.choice([1, 2, 3, 4]) if p["basis"] != "Chebyshev" else rng.choice([2, 3, 4])
        if p["basis"] in SIGMOIDS:
            p["extra"] = {"sigma": build.r3(rng.uniform(0.05, 0.1) * T[p["time"]]), "offset": build.r3(0.05 * T[p["time"]])}
            if p["basis"] in ("SigmoidTimeDep", "SigmoidAllParas") and rng.random() < 0.7:
                p["extra"]["tau_variation"] = build.r3(rng.uniform(0.02, 0.3) * T[p["time"]])
            if p["basis"] in ("SigmoidSigmas", "SigmoidAllParas") and rng.random() < 0.7:
                p["extra"]["sigma_variation"] = build.r3(rng.uniform(0.1, 1.0))
        if p["basis"] == "Sinc" and rng.random() < 0.5:
            p["extra"] = {"basis_max": build.r3(rng.uniform(0.5, 3))}
        if rng.random() < 0.2:
            p["guess"] = [build.r3(rng.uniform(-1, 1)) for _ in range(p["bins_number"])]
        if rng.random() < 0.2:
            p["scaling"] = [build.r3(rng.uniform(0.2, 1.5)) for _ in range(p["bins_number"])]
        if rng.random() < 0.15:
            p["lo"], p["hi"] = p["hi"], p["lo"]
    build.gen_shaping(rng, scn)
    for x in scn["params"]:
        if rng.random() < 0.1:
            x["x0"] = build.r3(x["x0"] + rng.choice([-1, 1]) * rng.uniform(0.5, 3))
    if rng.random() < 0.2:
        scn["fom"]["digits"] = 1
    if rng.random() < 0.25:
        scn["xatol"] = build.r3(10 ** rng.uniform(-3, -0.5))
    if rng.random() < 0.25:
        scn["fatol"] = build.r3(10 ** rng.uniform(-3, 0))
    if rng.random() < 0.15:
        scn["cbs"] = [rng.randint(2, 8), build.r3(10 ** rng.uniform(-3, 0))]
    if rng.random() < 0.15:
        scn["time_lim"] = build.r3(rng.uniform(0.05, 1))
    if rng.random() < 0.15:
        scn["max_eval_total"] = rng.randint(5, 150)
    if rng.random() < 0.1:
        scn["total_time_lim"] = build.r3(rng.uniform(0.1, 3))
    if rng.random() < 0.1:
        scn["FoM_goal"] = build.r3(sign(scn) * (scn["fom"]["offset"] + rng.uniform(0, 1)))
    x = rng.random()
    if x < 0.25:
        g = rand_instant(rng, 20 * scn["si"])
        g["act"] = rng.choice(["flag", "sigint", "stall"])
        if g["act"] == "stall":
            g["delta"] = build.r3(rng.uniform(0, 200))
        scn["faults"].append(g)
    elif x < 0.35:
        scn["faults"].append({"k": "bad", "eval": rng.randint(1, 20 * scn["si"]), "code": -1,
                              "how": rng.choice(["better", "same", "none"])})
    elif x < 0.5:
        for _ in range(rng.randint(1, 5)):
            scn["faults"].append({"k": "bad", "eval": rng.randint(1, 60), "how": "nan"})
    if rng.random() < 0.15:
        scn["drift"] = {"after_SI": True, "num": rng.choice([1, 2, 3])}
        scn["fom"].pop("noise", None)
    return scn


# -- the reference: what a pulse is -----------------------------------------------------------------------------------
def ncoef(p):
    return build.dim({"params": [], "pulses": [p]})


def steps(p, x, w, T):
    """Amplitudes, positions and widths of the smooth steps of a sigmoid pulse."""
    n, ex = p["nvec"], p["extra"]
    a, rest = np.asarray(x[:n + 1]), list(x[n + 1:])
    at, width = np.array(w, dtype=float), np.full(n, ex["sigma"])
    off = ex["offset"]
    tv = {"SigmoidTimeDep": ex.get("tau_variation", 0.1), "SigmoidAllParas": ex.get("tau_variation", 0)}.get(p["basis"], 0)
    sv = {"SigmoidSigmas": ex.get("sigma_variation", 1.0), "SigmoidAllParas": ex.get("sigma_variation", 0)}.get(p["basis"], 0)
    if tv:
        at = at + np.array(rest[:n]) * tv / p["amp"]
        rest = rest[n:]
        lo, hi = float(min(at)), float(max(at))
        if n == 1:
            at = np.clip(at, off, T - off)
        elif lo < off or hi > T - off:       # stretched to fill the time between the edges
            lo, hi = min(lo, off), max(hi, T - off)
            at = off + (at - lo) * (T - 2 * off) / (hi - lo)
    if sv:
        d = np.abs(rest) * sv / (1.0 if p["basis"] == "SigmoidSigmas" else p["amp"])
        room = np.minimum(at, T - at) * ex["sigma"] / off - ex["sigma"]
        width = ex["sigma"] + room * np.sin(np.pi * d / 2) ** 2
    return a, at, width


def shaped(p, w, x, T):
    t = np.linspace(0.0, T, p["bins_number"])
    out = np.zeros(p["bins_number"])
    ex = p.get("extra") or {}
    if p["basis"] in ("Fourier", "Walsh"):
        for i in range(p["nvec"]):
            out += x[2 * i] * np.sin(2 * np.pi * w[i] * t / T) + x[2 * i + 1] * np.cos(2 * np.pi * w[i] * t / T)
    elif p["basis"] == "Chebyshev":
        u = -1.0 + 1e-10 + 2 * (1 - 1e-10) * t / T
        for i in range(p["nvec"]):
            out += x[2 * i] * np.cos(w[i] * np.arccos(u) + x[2 * i + 1])
    elif p["basis"] == "Sinc":
        for i in range(p["nvec"]):
            out += x[i] * np.sinc(2 * ex.get("basis_max", 1.0) * (t - w[i]) / T)
    elif p["basis"] in SIGMOIDS:
        step = lambda c, q: 0.5 * (np.array([math.erf(z) for z in (t - c) / (math.sqrt(2) * q)]) + 1)
        a, at, width = steps(p, x, w, T)
        out += a[0] * step(ex["offset"], ex["sigma"]) - np.sum(a) * step(T - ex["offset"], ex["sigma"])
        for i in range(p["nvec"]):
            out += a[i + 1] * step(at[i], width[i])
    return out


def function(f, default):
    """The configured guess or scaling as a function of (t, pulse), and how many arguments it takes."""
    if isinstance(f, list):
        return lambda t, q: np.asarray(f)
    f = f["expr"] if isinstance(f, dict) else f
    if not f:
        return lambda t, q: default + 0.0 * t
    g = eval(f, {"np": np})
    if g.__code__.co_argcount == 2:
        return g
    return lambda t, q: g(t) * (q if default else 1.0)


def bare_model(p, T, parts):
    out = np.zeros(p["bins_number"])
    for w, x in parts:
        out = out + shaped(p, w, x, T)
    return out


def pulse_model(p, T, parts):
    """Guess plus all recorded parts, scaled and limited (in the configured order)."""
    t = np.linspace(0.0, T, p["bins_number"])
    lo, hi = min(p["lo"], p["hi"]), max(p["lo"], p["hi"])
    out = np.zeros(p["bins_number"])
    for op in p.get("shaping") or build.STEPS:
        if op == "add_initial_guess":
            out = out + np.clip(function(p.get("guess"), 0.0)(t, out), lo, hi)
        elif op == "add_new_update_pulse":
            out = out + bare_model(p, T, parts)
        elif op == "scale_pulse":
            g = p.get("scaling")
            out = np.asarray(g) * out if isinstance(g, list) else function(g, 1.0)(t, out) if g else out
        elif op == "limit_pulse":
            out = np.clip(out, lo, hi)
    return out


def run(scn):
    r, run = simple(scn)
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    w = run.world
    ev = w.evals
    if run.final is None:
        return r
    T = {t["name"]: t["initial_value"] for t in scn["times"]}
    freqs, paras = run.final.get("dcrab_freq_list"), run.final.get("dcrab_para_list")
    if freqs is None or paras is None or len(freqs) != len(paras):
        r.bad("record", "the results record %s basis and %s coefficient sets", freqs and len(freqs), paras and len(paras))
        return r
    n = len(freqs)
    # the number of super-iterations
    dur = w.exec_t1 - w.exec_t0
    goal = scn.get("FoM_goal")
    best = best_value(scn, ev)
    stopped = (w.stop_at is not None or any(e["status"] for e in finished(ev))
               or scn.get("max_eval_total") is not None and len(ev) >= scn["max_eval_total"]
               or scn.get("total_time_lim") is not None and dur >= scn["total_time_lim"] * 60 - 1e-3
               or goal is not None and best is not None and sign(scn) * (best - goal) <= 1e-9 * max(1, abs(goal)))
    r.probe("stopped" if stopped else "complete")
    seen = max([e["si"] for e in ev], default=0)
    if n > scn["si"] or seen > scn["si"]:
        r.bad("count", "%d super-iterations recorded, %d configured", max(n, seen), scn["si"])
    elif not stopped and not (n == seen == scn["si"]):
        r.bad("count", "%d super-iterations were performed (%d recorded), %d are configured and nothing stopped the run", seen, n,
              scn["si"])
    elif n < seen:
        r.bad("count", "%d super-iterations evaluated something, %d are recorded", seen, n)
    # the start of every super-iteration
    pm = [pulse_model(p, T[p["time"]], []) for p in scn["pulses"]]
    xm = [min(max(x["x0"], x["lo"]), x["hi"]) for x in scn["params"]]
    if ev:
        e = ev[0]
        if not all(arr_close(a, b, 1e-8) for a, b in zip(e["pulses"], pm)) or not arr_close(e["params"], xm, 1e-8):
            r.bad("start", "the first evaluation is not the initial guess")
    late = False
    for k in range(2, seen + 1):
        first = next((e for e in ev if e["si"] == k), None)
        if first is None:
            if not stopped:
                r.bad("start", "super-iteration %d evaluated nothing", k)
            continue
        before = ev[:first["n"] - 1]
        ok = succ(before)
        if not ok:
            continue
        b = best_value(scn, before)
        cand = [e for e in ok if e["FoM"] == b]
        firsts = [first]
        num = (scn.get("drift") or {}).get("num", 0)
        firsts = ev[first["n"] - 1:first["n"] + num]         # the compensation, then the first of the search
        if not scn.get("drift"):
            firsts = firsts[:1]
        for f in firsts:
            if f["si"] == k and not any(same_ctl(c, f, 1e-9) for c in cand):
                r.bad("start", "super-iteration %d begins with evaluation %d, which does not have the best controls so far "
                      "(evaluation %d)", k, f["n"], cand[0]["n"])
                break
        best_k = best_value(scn, [e for e in ev if e["si"] <= k])
        late = late or best_k != b
        r.probe("continued")
    r.nontrivial = late
    # the recorded bases
    for k in range(n):
        if len(freqs[k]) != len(scn["pulses"]):
            r.bad("record", "super-iteration %d: basis parameters of %d pulses recorded, %d configured", k + 1, len(freqs[k]),
                  len(scn["pulses"]))
            return r
        if len(paras[k]) != build.dim(scn):
            r.bad("record", "super-iteration %d: %d coefficients recorded, there are %d", k + 1, len(paras[k]), build.dim(scn))
            return r
        for p, ws in zip(scn["pulses"], freqs[k]):
            a, b = p["wlo"], p["whi"]
            d = (b - a) / p["nvec"]
            if len(ws) != p["nvec"]:
                r.bad("record", "super-iteration %d, pulse %s: %d basis parameters, %d configured", k + 1, p["name"], len(ws), p["nvec"])
                return r
            for i, x in enumerate(ws):
                if not a + i * d - 1e-9 * b <= x <= a + (i + 1) * d + 1e-9 * b:
                    r.bad("range", "super-iteration %d, pulse %s: basis parameter %d is %r, its interval is [%r, %r]", k + 1,
                          p["name"], i + 1, x, a + i * d, a + (i + 1) * d)
    for j, p in enumerate(scn["pulses"]):
        for k in range(n):
            for l in range(k):
                if any(x == y for x, y in zip(freqs[k][j], freqs[l][j])):
                    r.bad("fresh", "pulse %s: super-iterations %d and %d have the same basis parameter", p["name"], l + 1, k + 1)
    # the record reproduces the best controls
    if not succ(ev) or n == 0:
        return r
    cand = [e for e in succ(ev) if e["FoM"] == best]
    at, pulses, bare = 0, [], []
    for j, p in enumerate(scn["pulses"]):
        m = ncoef(p)
        parts = [(freqs[k][j], np.asarray(paras[k][at:at + m])) for k in range(n)]
        pulses.append(pulse_model(p, T[p["time"]], parts))
        bare.append(bare_model(p, T[p["time"]], parts))
        at += m
    params = [min(max(v, x["lo"]), x["hi"]) for v, x in zip(paras[-1][at:], scn["params"])]
    made = {"pulses": pulses, "params": params, "grids": cand[0]["grids"]}
    if not any(same_ctl(made, c, 1e-7) for c in cand):
        d = max([float(np.max(np.abs(a - b))) for a, b in zip(pulses, cand[0]["pulses"])] +
                [abs(a - b) for a, b in zip(params, cand[0]["params"])])
        r.bad("reproduce", "the recorded basis parameters and coefficients of %d super-iterations do not reproduce the best "
              "controls (evaluation %d): off by %.3g", n, cand[0]["n"], d)
    else:
        r.probe("reproduced")
    got = (run.bare or {}).get("bare_pulses")
    if got is None or len(got) != len(bare) or not all(arr_close(np.asarray(a), b, 1e-7) for a, b in zip(got, bare)):
        r.bad("bare", "get_best_bare_controls() does not return the updates of the best pulses without guess and shaping: %s",
              run.bare_err or "off by %.3g" % max([float(np.max(np.abs(np.asarray(a) - b))) for a, b in zip(got, bare)] + [0]))
    return r
