"""C18: the direct searches make the moves of their algorithm and end when a criterion is met."""
from . import c16, c17
from .common import *

RULE = ("the two direct searches on seeded random functions (smooth, rippled, noisy, scripted; one to 26 dimensions, given "
        "and default starting simplices, or whole runs whose points are read off the parameters and pulses, standard and adaptive coefficients, drift compensation during the search), several "
        "searches per object, stalls and stops at random instants, every search criterion; each evaluated point is compared "
        "with the one an independent model of the algorithm derives from the values returned so far, and the end of the "
        "search with the model's criteria; non-trivial = at least three iterations were compared")
COUNT = {"quick": 2600, "thorough": 80000}
STUBS = "everything but the direct search (a fifth of the runs: nothing but the figure of merit, clock, ...): the function, the callback and the clock are the simulator's"
ASSUMPTIONS = ["a search is compared up to its first NaN or its first exact tie of values that the algorithm has to order",
               "CMA-ES candidates are compared through their inner products, which do not depend on the choice of eigenvectors"]


def gen_full(rng):
    """A whole parameter search or a dCRAB run over parameters only: the points are the controls themselves."""
    pulses = rng.random() < 0.4
    scn = build.gen_base(rng, algs=("dCRAB",) if pulses else ("DirectSearch", "DirectSearch", "dCRAB"), wide=True, evals=(5, 70))
    if pulses and scn["pulses"]:
        for p in scn["pulses"]:      # pulses whose coefficients can be read off
            p["lo"], p["hi"] = -1e4, 1e4
            for key in ("scaling", "shaping", "extra"):
                p.pop(key, None)
            p["basis"] = rng.choice(["Fourier", "Fourier", "Sinc", "Walsh"])
            if p["basis"] == "Sinc":
                p["wlo"], p["whi"] = 0.0, next(t["initial_value"] for t in scn["times"] if t["name"] == p["time"])
            else:
                p["wlo"], p["whi"] = build.r3(rng.uniform(0.3, 0.8)), build.r3(rng.uniform(1.5, 6))
            p["bins_number"] = rng.randint(4 * p["nvec"] + 9, 60)
            p["amp"] = build.r3(10 ** rng.uniform(-1.5, 0.5))
    else:
        scn["pulses"], scn["times"] = [], []
    if not scn["pulses"] and not scn["params"] or build.dim(scn) < 2 and scn["dsm"] == "CMAES":
        scn["params"] = [{"name": "Parameter%d" % j, "x0": build.r3(rng.uniform(-1, 1)), "lo": -1e4, "hi": 1e4,
                          "amp": build.r3(rng.uniform(0.05, 0.8))} for j in range(rng.randint(2, 5))]
    if rng.random() < 0.3:
        scn["params"] += [{"name": "Further%d" % j, "x0": build.r3(rng.uniform(-5, 5)), "lo": -1e4, "hi": 1e4,
                           "amp": build.r3(10 ** rng.uniform(-2, 1))} for j in range(rng.randint(1, 4))]
    build.gen_fom(rng, scn)
    f = scn["fom"]
    f["ret"], f["cache"], f["offset"] = "float", False, rng.choice([0.0, 1.0, -20.0])
    scn["seed"] = rng.randrange(1 << 31)
    if rng.random() < 0.2:
        scn["xatol"] = build.r3(10 ** rng.uniform(-3, 0))
    if rng.random() < 0.2:
        scn["fatol"] = build.r3(10 ** rng.uniform(-3, 0))
    if rng.random() < 0.2:
        scn["time_lim"] = build.r3(rng.uniform(0.05, 1))
    if scn["dsm"] == "NelderMead" and rng.random() < 0.2:
        scn["drift"] = {"after_SI": False, "minutes": build.r3(rng.uniform(0.05, 0.5)), "num": rng.choice([1, 2])}
        scn["si"] = 1
    if rng.random() < 0.2:
        g = rand_instant(rng, 60)
        g["act"] = rng.choice(["flag", "sigint", "stall", "stall"])
        if g["act"] == "stall":
            g["delta"] = build.r3(rng.uniform(0, 100))
        scn["faults"].append(g)
    return scn


def gen(rng, tier, i):
    if rng.random() < 0.2:
        return gen_full(rng)
    scn = c17.gen(rng, tier, 0)
    f = scn["fn"]
    f["nan"] = 0 if rng.random() < 0.9 else f["nan"]
    f["kind"] = rng.choice(["bowl", "bowl", "ripple", "abs", "step", "script"])
    if f["kind"] in ("step", "script") or rng.random() < 0.3:
        f["noise"] = build.r3(10 ** rng.uniform(-3, 0))
        f["script"] = [build.r3(rng.uniform(-3, 3)) for _ in range(rng.choice([7, 40, 200]))]
    scn["max_eval"] = rng.randint(3, 160)
    if rng.random() < 0.1:
        scn["max_eval"] = 20 * scn["d"]
    if scn["dsm"] == "CMAES":
        scn["rng"] = rng.randrange(1 << 30) if rng.random() < 0.6 else None
        if scn["d"] > 15:
            scn["sigma"] = None
    elif rng.random() < 0.3:
        scn["drift"] = [build.r3(scn["latency"] * rng.uniform(2, 30) / 60 + 1e-4), rng.choice([1, 1, 2, 3])]
    if rng.random() < 0.3:
        scn["xatol"] = build.r3(10 ** rng.uniform(-3, 0.5))
    if rng.random() < 0.3:
        scn["fatol"] = build.r3(10 ** rng.uniform(-3, 1))
    if rng.random() < 0.3:
        scn["time_lim"] = build.r3(scn["latency"] * rng.uniform(2, 100) / 60 + 1e-4)
    if rng.random() < 0.6:
        scn["faults"] = []
    if rng.random() < 0.04:       # long searches
        for key in ("xatol", "fatol", "time_lim"):
            scn.pop(key, None)
        scn["faults"], scn["max_eval"] = [], rng.randint(300, 900)
        f["kind"], f["noise"] = rng.choice(["bowl", "ripple"]), rng.choice([0, 0, 1e-3])
    return scn


def points(scn, evals, freqs):
    """The search's points: the coefficients of the pulses with respect to the first evaluation, and the parameters."""
    T = {t["name"]: t["initial_value"] for t in scn["times"]}
    out = [[] for _ in evals]
    for j, p in enumerate(scn["pulses"]):
        n = c16.ncoef(p)
        M = np.array([c16.shaped(p, freqs[j], e, T[p["time"]]) for e in np.eye(n)]).T
        if np.linalg.cond(M) > 300:
            raise Unclear()
        for x, e in zip(out, evals):
            y = np.asarray(e["pulses"][j]) - np.asarray(evals[0]["pulses"][j])
            c, *_ = np.linalg.lstsq(M, y, rcond=None)
            if np.max(np.abs(M @ c - y)) > 1e-9 * max(1.0, np.max(np.abs(y))):
                raise Outside("evaluation %d: pulse %s is not the pulse of the first evaluation of the search plus a combination "
                              "of its basis functions" % (e["n"], p["name"]))
            x += list(c)
    return [np.array(x + [float(np.real(v)) for v in e["params"]]) for x, e in zip(out, evals)]


class Outside(Exception):
    pass


def run(scn):
    if scn["alg"] == "search":
        return c17.run(scn, judge)
    r, run = simple(scn)
    if not judge_outcome(r, run):
        return r
    w = run.world
    s, d = sign(scn), build.dim(scn)
    groups = {}
    for e in w.evals:
        groups.setdefault(e["si"], []).append(e)
    stopped = any(k in w.fired for k in ("sigint", "stop-flag"))
    rng = np.random.default_rng(scn["seed"])
    # (the pulse bases divide their variation by the square root of two)
    amp = np.array([p["amp"] / math.sqrt(2) for p in scn["pulses"] for _ in range(c16.ncoef(p))] + [x["amp"] for x in scn["params"]])
    freqs = (run.final or {}).get("dcrab_freq_list") or []
    t = w.exec_t0
    view = dict(scn, adaptive=bool(scn.get("adaptive")), drift=None)
    if scn.get("drift"):
        view["drift"] = [scn["drift"]["minutes"], scn["drift"]["num"]]
    keys = list(groups)
    for j, si in enumerate(keys):
        last = j == len(keys) - 1
        try:
            if scn["pulses"] and j >= len(freqs):
                return r
            xs = points(scn, groups[si], freqs[j] if scn["pulses"] else [])
        except Outside as e:
            r.bad("move", "%s", e)
            return r
        except Unclear:
            r.probe("ill-conditioned")
            return r
        if scn["pulses"]:
            r.probe("pulses")
            for p in scn["pulses"]:
                rng.random(p["nvec"])      # the random basis
        ev = [{"n": e["n"], "x": x, "FoM": None if e["FoM"] is None else s * e["FoM"],
               "t0": e["t0"], "back": e.get("t1", w.exec_t1), "off": False} for e, x in zip(groups[si], xs)]
        end = w.exec_t1 if last else groups[keys[j + 1]][0]["t0"]
        reason = run.final.get("terminate_reason") if last and run.final else None
        rng.random(d)      # the rotation of the starting simplex
        facts = c17.Facts(kw={}, normals=rng.standard_normal, began=t, began2=ev[0]["t0"], ended=end, told=None)
        try:
            if scn["dsm"] == "CMAES":
                facts.kw["sigma_v"] = amp
                judge_cma(view, r, ev, {"terminate_reason": reason}, j + 1, ev[0]["x"], build.pop(scn), stopped and last, facts)
            else:
                if len(ev) > d:
                    W = np.array([(e["x"] - ev[0]["x"]) / amp for e in ev[1:d + 1]])
                    if np.max(np.abs(W @ W.T - np.eye(d))) > 1e-6:
                        r.bad("simplex", "the starting simplex of search %d does not span the controls with their amplitude variation", j + 1)
                        return r
                    facts.kw["initial_simplex"] = [e["x"] for e in ev[:d + 1]]
                    judge_nm(view, r, ev, {"terminate_reason": reason}, j + 1, ev[0]["x"], None, stopped and last, facts)
        except Unclear:
            r.probe("unclear")
        t = ev[-1]["back"]
    return r


class Unclear(Exception):
    """The algorithm's next step depends on something it leaves open (a tie, a NaN)."""


def less(a, b):
    if math.isnan(a) or math.isnan(b) or close(a, b, 1e-11):
        raise Unclear()
    return a < b


def order(sim, f):
    if any(math.isnan(v) for v in f) or len(set(f)) < len(f):
        raise Unclear()
    ix = sorted(range(len(f)), key=lambda j: f[j])
    if any(close(f[i], f[j], 1e-11) for i, j in zip(ix, ix[1:])):
        raise Unclear()
    return [sim[j] for j in ix], [f[j] for j in ix]


def nelder_mead(sim, adaptive):
    """Yields points to evaluate (and receives values); yields (sim, f) after every iteration (and receives new f or None)."""
    d = len(sim) - 1
    a, g, c, s = (1.0, 1 + 2.0 / d, 0.75 - 0.5 / d, 1 - 1.0 / d) if adaptive else (1.0, 2.0, 0.5, 0.5)
    f = []
    for p in sim:
        f.append((yield p))
    sim, f = order(sim, f)
    while True:
        m = sum(sim[:-1]) / d
        worst = sim[-1]
        r = m + a * (m - worst)
        fr = yield r
        shrink = False
        if less(fr, f[0]):
            e = m + a * g * (m - worst)
            fe = yield e
            sim[-1], f[-1] = (e, fe) if less(fe, fr) else (r, fr)
        elif d > 1 and less(fr, f[-2]):
            sim[-1], f[-1] = r, fr
        elif less(fr, f[-1]):
            o = m + c * a * (m - worst)
            fo = yield o
            if less(fo, fr):
                sim[-1], f[-1] = o, fo
            else:
                shrink = True
        else:
            q = m - c * (m - worst)
            fq = yield q
            if less(fq, f[-1]):
                sim[-1], f[-1] = q, fq
            else:
                shrink = True
        if shrink:
            for j in range(1, d + 1):
                sim[j] = sim[0] + s * (sim[j] - sim[0])
                f[j] = yield sim[j]
        sim, f = order(sim, f)
        new = yield (sim, f)
        if new is not None:
            f = [v + (new - f[0]) for v in f]


class Cma:
    """Hansen's CMA-ES. Candidates are m + s*B*D*z with C = B*D*D*B'."""

    def __init__(self, x0, sd, lam):
        n = len(x0)
        self.n, self.lam, self.mu = n, lam, lam // 2
        w = np.log(self.mu + 0.5) - np.log(np.arange(1, self.mu + 1))
        self.w = w / w.sum()
        me = self.me = 1 / np.sum(self.w ** 2)
        self.cc = (4 + me / n) / (n + 4 + 2 * me / n)
        self.cs = (me + 2) / (n + me + 5)
        self.c1 = 2 / ((n + 1.3) ** 2 + me)
        self.cm = min(1 - self.c1, 2 * (me - 2 + 1 / me) / ((n + 2) ** 2 + me))
        self.ds = 1 + 2 * max(0, math.sqrt((me - 1) / (n + 1)) - 1) + self.cs
        self.chi = math.sqrt(n) * (1 - 1 / (4 * n) + 1 / (21 * n * n))
        self.m, self.s = np.array(x0, dtype=float), 1.0
        self.C = np.diag(np.asarray(sd, dtype=float) ** 2)
        self.pc, self.ps = np.zeros(n), np.zeros(n)
        self.count = 0
        self.used = self.C

    def root(self):
        lv, B = np.linalg.eigh(self.used)
        if lv.min() <= 0 or lv.max() / lv.min() > 1e9 or not 1e-9 < self.s * math.sqrt(lv.max()) < 1e9:
            raise Unclear()
        return B @ np.diag(lv ** -0.5) @ B.T

    def white(self, X):
        return (X - self.m) @ self.root() / self.s

    def update(self, X, f):
        if any(math.isnan(v) for v in f) or len(set(f)) < len(f):
            raise Unclear()
        n = self.n
        self.count += self.lam
        best = X[np.argsort(f)[:self.mu]]
        old, root = self.m, self.root()
        self.m = self.w @ best
        y = (self.m - old) / self.s
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.me) * (root @ y)
        lp = np.linalg.norm(self.ps)
        h = lp / math.sqrt(1 - (1 - self.cs) ** (2 * self.count / self.lam)) / self.chi < 1.4 + 2 / (n + 1)
        self.pc = (1 - self.cc) * self.pc + (math.sqrt(self.cc * (2 - self.cc) * self.me) * y if h else 0)
        A = (best - old) / self.s
        self.C = ((1 - self.c1 - self.cm) * self.C
                  + self.c1 * (np.outer(self.pc, self.pc) + (0 if h else 1) * self.cc * (2 - self.cc) * self.C)
                  + self.cm * (A.T @ np.diag(self.w) @ A))
        if self.count > self.lam / (self.c1 + self.cm) / n / 10:
            self.used = self.C
        self.s *= math.exp(self.cs / self.ds * (lp / self.chi - 1))


def criteria(scn, sim, f, made, lo, hi, sure_count=True):
    """(names of the criteria that are certainly met, names of those that may be)."""
    must, may = [], []

    def note(name, v, lim, up):
        t = 1e-7 * max(1e-30, abs(lim)) + 1e-12 * max(map(abs, f))
        d = v - lim if up else lim - v
        if d >= -t:
            may.append(name)
            if d > t:
                must.append(name)
    if scn.get("max_eval") is not None:
        if made >= scn["max_eval"]:
            must.append("max_eval")
            may.append("max_eval")
        elif not sure_count:
            may.append("max_eval")
    if sim is not None:
        v = max(float(np.max(np.abs(p - sim[0]))) for p in sim[1:])
        t = 1e-9 * max(1.0, float(np.max(np.abs(sim))))
        lim = scn.get("xatol") or 1e-14
        if v <= lim * (1 + 1e-7) + t:
            may.append("xatol")
            if v < lim * (1 - 1e-7) - t:
                must.append("xatol")
    note("fatol", float(np.std(f)), scn.get("fatol") or 1e-100, False)
    if scn.get("time_lim") is not None:
        if hi >= scn["time_lim"] * 60 - 1e-4:
            may.append("time_lim")
        if lo >= scn["time_lim"] * 60 + 1e-4:
            must.append("time_lim")
    return must, may


REASON = {"max_eval": ("evaluation",), "xatol": ("simplex",), "fatol": ("fatol", "convergence of the fom"), "time_lim": ("time",)}


def check_end(r, scn, k, must, may, stopped, reason):
    if stopped:
        return
    if not may:
        r.bad("early-end", "search %d ended (%s) although none of its criteria was met", k, reason)
    elif reason is not None and not any(x in str(reason).lower() for m in may for x in REASON[m]):
        r.bad("reason", "search %d gives %r as the reason for its end; met was %s", k, reason, "/".join(may))


def judge(scn, r, ev, res, k, x0, pop, stopped, args, facts):
    try:
        (judge_cma if pop is not None else judge_nm)(scn, r, ev, res, k, x0, pop, stopped, facts)
    except Unclear:
        r.probe("unclear")


def far(a, b, scale):
    return float(np.max(np.abs(a - b))) > 1e-8 * max(1.0, scale)


def judge_nm(scn, r, ev, res, k, x0, pop, stopped, facts):
    sim = facts.kw.get("initial_simplex")
    if sim is None:
        sim = np.tile(x0, (len(x0) + 1, 1))
        for j, v in enumerate(x0):
            sim[j + 1, j] = v * 1.05 if v else 0.00025
    sim = [np.array(p) for p in sim]
    g = nelder_mead(sim, scn["adaptive"])
    want = next(g)
    scale, its, last = 1.0, 0, (facts.began, ev[0]["t0"])
    began = getattr(facts, "began2", facts.began)
    notes = 0
    at = 0
    drift = scn.get("drift")
    while at < len(ev):
        if isinstance(want, tuple):      # an iteration is complete: compensation, then the criteria
            its += 1
            s, f = want
            new = None
            now = ev[at - 1]["back"]
            due = drift[0] * 60 if drift else INF
            if ev[at]["t0"] - last[0] >= due - 1e-4:
                if now - last[1] < due + 1e-4:
                    raise Unclear()      # the timer is read somewhere in between
                part = ev[at:at + drift[1]]
                nan = [j for j, e in enumerate(part) if math.isnan(e["FoM"])]
                part = part[:nan[0] + 1] if nan else part
                if any(far(e["x"], s[0], scale) for e in part):
                    r.bad("compensation", "search %d: %.1f s since the last compensation (every %.1f s), but evaluation %d does "
                          "not measure the best point again", k, now - last[0], due, part[0]["n"])
                    return
                at += len(part)
                if nan:
                    raise Unclear()
                if len(part) < drift[1] or any(e["off"] for e in part) or stopped and at == len(ev):
                    break
                new = sum(e["FoM"] for e in part) / drift[1]
                if facts.told is not None and not any(n == part[-1]["n"] and not far(x, s[0], scale) and close(v, new) for n, x, v in facts.told):
                    r.bad("announcement", "search %d: the compensated value %r of evaluations %d.. is not passed on", k, new, part[0]["n"])
                last = (part[-1]["back"], ev[at]["t0"] if at < len(ev) else facts.ended)
                notes += 1
                r.probe("compensated")
                f = [v + (new - f[0]) for v in f]
            if at < len(ev):
                must, _ = criteria(scn, np.array(s), f, at + notes if drift else at, ev[at - 1]["back"] - began,
                                   ev[at]["t0"] - facts.began, not drift)
                if must and not (drift and must == ["max_eval"]):
                    r.bad("goes-on", "search %d goes on after evaluation %d although %s is met", k, ev[at - 1]["n"], "/".join(must))
                    return
                want = g.send(new)
            else:
                want = (s, f)
            continue
        e = ev[at]
        scale = max(scale, float(np.max(np.abs(want))))
        if far(e["x"], want, scale):
            r.bad("move", "search %d, evaluation %d of %d is made at %s, the algorithm moves to %s", k, at + 1, len(ev), e["x"], want)
            return
        want = g.send(e["FoM"])
        at += 1
    r.nontrivial = r.nontrivial or its >= 3
    if stopped or any(e["off"] for e in ev):
        return
    if not isinstance(want, tuple):
        r.bad("cut", "search %d ended (%s) in the middle of an iteration, after %d evaluations", k, res["terminate_reason"], len(ev))
        return
    s, f = want
    must, may = criteria(scn, np.array(s), f, len(ev) + notes, ev[-1]["back"] - began, facts.ended - facts.began, not drift)
    check_end(r, scn, k, must, may, stopped, res["terminate_reason"])


def judge_cma(scn, r, ev, res, k, x0, pop, stopped, facts):
    d = len(x0)
    sd = facts.kw.get("sigma_v")
    model = Cma(x0, 0.3 * np.ones(d) if sd is None else sd, pop)
    if pop > len(ev):
        return
    for j in range(0, len(ev) - pop + 1, pop):
        part = ev[j:j + pop]
        X, f = np.array([e["x"] for e in part]), [e["FoM"] for e in part]
        Z = np.array([facts.normals(d) for _ in range(pop)])
        if getattr(facts, "lost", False):
            continue
        try:
            U = model.white(X)
            if j == 0:
                Z[0] = 0.0
            G, H = U @ U.T, Z @ Z.T
            if np.max(np.abs(G - H)) > 1e-5 * (1 + np.max(np.abs(H))):
                r.bad("sample", "search %d: population %d is not a sample of the distribution its earlier values lead to "
                      "(mean off by %.3g step sizes)", k, j // pop + 1, float(np.max(np.abs(U.mean(0) - Z.mean(0)))))
                return
            model.update(X, f)
        except Unclear:
            facts.lost = True
            r.probe("unclear")
            continue
        r.nontrivial = r.nontrivial or j >= 2 * pop
        more = j + pop < len(ev)
        must, may = criteria(scn, None, f, j + pop, part[-1]["back"] - getattr(facts, "began2", facts.began),
                             (ev[j + pop]["t0"] if more else facts.ended) - facts.began)
        if more and must:
            r.bad("goes-on", "search %d goes on after evaluation %d although %s is met", k, j + pop, "/".join(must))
            return
        if not more:
            check_end(r, scn, k, must, may, stopped or any(e["off"] for e in ev), res["terminate_reason"])
