"""C08: re-evaluation accepts a record only by its statistical rule."""
from scipy.stats import norm

from .common import *
from .. import seams

RULE = ("seeded random noisy runs with re-evaluation steps (default or random lists of 1-4 thresholds, or exact ties), standard deviations "
        "constant, varying, zero or missing, in both directions, cut by stops, failed or NaN measurements and limits at "
        "random instants; an executable model of the statistical rule replays the recorded values and says after every "
        "evaluation whether it must be repeated and when the best changes; non-trivial = a candidate was rejected after "
        "more than one measurement and another accepted")
COUNT = {"quick": 1500, "thorough": 50000}
JAX = False


def gen(rng, tier, i):
    scn = build.gen_base(rng, algs=("dCRAB", "dCRAB", "DirectSearch"), wide=True, evals=(4, 30), noisy=True)
    f = scn["fom"]
    f["noise"] = build.r3(10 ** rng.uniform(-3, 0))
    f["std"] = rng.choice([None, 0.0, 1e-3, 0.05, 0.3, {"a": 0.1, "b": 0.05}, {"a": 0.3, "b": 0.3}])
    if f["std"] is None:
        f.pop("std")
    f["ret"] = rng.choice(["float", "float", "np64"])
    f["ripple"] = rng.choice([0.0, 0.2])
    if rng.random() < 0.5:
        scn["re_eval"] = rng.choice(["default", [0.3, 0.5, 0.501], [0.33, 0.5, 0.501, 0.51]])
    else:
        n = rng.randint(1, 4)
        t = [build.r3(rng.uniform(0.05, 0.8)) for _ in range(n)]
        scn["re_eval"] = sorted(t) if rng.random() < 0.6 else t
    if rng.random() < 0.3:          # exact ties with the best: whole values, thresholds of one half
        f["digits"], f["noise"] = rng.choice([0, 0, -1]), rng.choice([0.3, 1.0, 3.0])
        if rng.random() < 0.5:
            f["std"] = rng.choice([0.0, 0.25, 1.0])
        scn["re_eval"] = rng.choice([[0.5], [0.25, 0.5, 0.5], [0.5, 0.25, 0.5], [0.5, 0.5, 0.5]])
    scn["max_eval"] = rng.randint(4, 25)
    if scn["alg"] == "DirectSearch" and build.dim(scn) == 1:
        scn["adaptive"] = False
    if rng.random() < 0.4:
        scn["max_eval_total"] = rng.randint(1, 80)
    if rng.random() < 0.1:
        scn["total_time_lim"] = build.r3(rng.uniform(0.05, 2))
    if rng.random() < 0.35:
        g = rand_instant(rng, 60)
        g["act"] = rng.choice(["flag", "sigint"])
        scn["faults"].append(g)
    if rng.random() < 0.15:
        scn["faults"].append({"k": "bad", "eval": rng.randint(1, 40), "code": rng.choice([0, 0, -1, 3]),
                              "how": "nan"})
    elif rng.random() < 0.15:
        scn["faults"].append({"k": "bad", "eval": rng.randint(1, 40), "code": -1, "how": rng.choice(["better", "none", "worse"])})
    scn["watch"] = rng.random() < 0.4
    return scn


class Model:
    """The statistical rule, fed with the evaluations in order."""

    def __init__(self, scn):
        self.s = sign(scn)
        self.steps = [0.3, 0.5, 0.501] if scn["re_eval"] == "default" else [float(x) for x in scn["re_eval"]]
        self.best, self.bsig = 1e10, 0.0
        self.record = None          # last measurement of the best candidate
        self.cand = []              # measurements of the current candidate
        self.want = "new"           # what the next evaluation must be: "new" candidate or "again"
        self.rejected = self.accepted = 0
        self.unsure = False
        self.ties = 0
        self.history = {}           # evaluations finished -> record

    def prob(self):
        n = len(self.cand)
        mu = sum(self.s * e["FoM"] for e in self.cand) / n
        sg = sum(1.0 if e["std"] is None else e["std"] for e in self.cand) / n
        c = math.sqrt(sg * sg + self.bsig * self.bsig)
        if abs(c) < 1e-14:
            c = 1.0
        return mu, sg, float(norm.cdf((self.best - mu) / c)) if not math.isnan(mu) else float("nan")

    def near(self, p, thr, mu):
        """Rounding may decide a probability at the threshold, unless it is an exact tie of whole numbers (one half)."""
        if abs(p - thr) < 1e-9:
            if thr == 0.5 and p == 0.5 and mu == self.best and float(mu).is_integer() and len(self.cand) in (1, 2, 4) and all(
                    float(e["FoM"]).is_integer() for e in self.cand):
                self.ties += 1
            else:
                self.unsure = True

    def feed(self, e):
        if self.want == "new":
            self.cand = []
            self.thr = [0.5] if e["n"] == 1 else self.steps
        self.cand.append(e)
        m = len(self.cand)
        mu, sg, p = self.prob()
        if m <= len(self.thr):
            self.near(p, self.thr[m - 1], mu)
            self.want = "new" if p < self.thr[m - 1] else "again"
            if self.want == "new" and m > 1:
                self.rejected += 1
        else:
            self.near(p, self.thr[-1], mu)
            if p > self.thr[-1]:
                self.best, self.bsig, self.record = mu, sg, e
                self.accepted += 1
            else:
                self.rejected += 1
            self.want = "new"


def run(scn):
    seen = {}

    def hook(w):
        if not scn.get("watch"):
            return

        def look(rec):
            path = getattr(w.opt, "results_path", None)
            if path is None or w.dead:
                return
            seams.W = None
            try:
                seen[rec["n"]] = runner.load_best(path)
            finally:
                seams.W = w
        w.on_eval_start = look

    r, run = simple(scn, hook)
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    ev = run.world.evals
    m = Model(scn)
    prev = None
    for e in ev:
        if e["n"] in seen:
            saved, err = seen[e["n"]]
            why = differs(scn, m, saved, err)
            if why:
                r.bad("saved", "before evaluation %d the best-controls file %s", e["n"], why)
                return r
        same = prev is not None and ctl_hash(prev) == ctl_hash(e)
        if m.want == "again" and not same:
            r.bad("not-again", "evaluation %d must repeat the controls of %d (%d of %d measurements, probability %.6f) but is "
                  "another candidate", e["n"], prev["n"], len(m.cand), len(m.thr) + 1, m.prob()[2])
            return r
        if m.want == "new" and same and prev["si"] == e["si"] and build.dim(scn) > 1:
            r.bad("again", "evaluation %d repeats the controls of %d although their measurement is decided (%d of %d "
                  "measurements, probability %.6f)", e["n"], prev["n"], len(m.cand), len(m.thr) + 1, m.prob()[2])
            return r
        if e["status"] or e["FoM"] is None:
            break
        m.feed(e)
        if m.unsure:
            r.probe("ambiguous-threshold")
            return r
        prev = e
    w = run.world
    total, tl = scn.get("max_eval_total"), scn.get("total_time_lim")
    cut = (total is not None and len(ev) >= total) or w.stop_at is not None or \
        (tl is not None and w.exec_t1 - w.exec_t0 >= tl * 60 - 1e-3)
    if m.want == "again" and not cut:
        r.bad("not-again", "the run ended although evaluation %d must be repeated (%d of %d measurements)", len(ev),
              len(m.cand), len(m.thr) + 1)
    r.nontrivial = m.rejected > 0 and m.accepted > 1
    if m.want == "again":
        r.probe("candidate-cut-short")
    if m.ties:
        r.probe("exact-tie")
    got = run.final.get("Figure of merit") if run.final else None
    if not close(got, m.s * m.best, 1e-8):
        r.bad("value", "reported %r, by the rule the best is %r (%d accepted)", got, m.s * m.best, m.accepted)
    if scn["alg"] == "dCRAB" and not close(run.final.get("Std"), m.bsig, 1e-8):
        r.bad("value", "reported standard deviation %r, by the rule it is %r", run.final.get("Std"), m.bsig)
    why = differs(scn, m, run.best, run.best_err)
    if why:
        r.bad("saved", "after the run the best-controls file %s", why)
    if m.record is not None and run.controls is not None and not same_ctl(run.controls, m.record):
        r.bad("controls", "get_best_controls() is not the candidate accepted at evaluation %d", m.record["n"])
    return r


def differs(scn, m, saved, err):
    if m.record is None:
        return None if saved is None and err == "missing" else "exists although no candidate was accepted yet (%s)" % (
            err or "evaluation %r" % saved_scalar(saved, "iteration_number"))
    if saved is None:
        return "is %s" % err
    why = check_saved(scn, saved, m.record, value=m.s * m.best)
    if why:
        return "is not the candidate accepted at evaluation %d: %s" % (m.record["n"], why)
    sg = saved_scalar(saved, "sigma")
    if sg is not None and not close(sg, m.bsig, 1e-8):
        return "holds standard deviation %r instead of %r" % (sg, m.bsig)
    return None
