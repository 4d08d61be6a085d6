"""C14: the reported termination reason is true."""
import re

from .common import *

RULE = ("seeded random runs in which several criteria compete (simplex and value tolerances, budgets, time limits, goal, "
        "change-based stop, user stop, failed evaluation) with stops at random instants of the iteration; every reported "
        "reason - final results, log, per super-iteration - is checked against the recorded history; non-trivial = a reason "
        "that names a condition was reported")
COUNT = {"quick": 2600, "thorough": 60000}
ASSUMPTIONS = ["reasons are recognised by their key words; texts that name no condition are not judged"]


def gen(rng, tier, i):
    scn = build.gen_base(rng, algs=("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.85, evals=(8, 60), bases=("Fourier",))
    scn["logfile"] = True
    scn["fom"]["ret"] = "float"
    if rng.random() < 0.5:
        scn["fom"].pop("noise", None)
    if scn["alg"] != "GRAPE":
        if rng.random() < 0.45:
            scn["xatol"] = build.r3(10 ** rng.uniform(-3, 0))
        if rng.random() < 0.45:
            scn["fatol"] = build.r3(10 ** rng.uniform(-3, 0.3))
        if rng.random() < 0.3:
            scn["cbs"] = [rng.randint(2, 8), build.r3(10 ** rng.uniform(-3, 0.5))]
        if rng.random() < 0.3:
            scn["time_lim"] = build.r3(rng.uniform(0.05, 1.5))
        if rng.random() < 0.3:
            scn["max_eval"] = None
            scn["max_eval_total"] = rng.randint(1, 80)
            if scn["alg"] == "dCRAB":
                scn["max_eval"] = rng.randint(20, 60)
    if rng.random() < 0.4:
        scn["max_eval_total"] = rng.randint(1, 60)
    if rng.random() < 0.2:
        scn["total_time_lim"] = build.r3(rng.uniform(0.02, 1.5))
    if rng.random() < 0.25:
        s = sign(scn)
        scn["FoM_goal"] = build.r3(s * (scn["fom"]["offset"] + rng.uniform(-0.2, 1.0)))
    x = rng.random()
    if x < 0.45:
        g = rand_instant(rng, 30, kinds=("during", "after", "after", "lines", "lines"))
        g["act"] = rng.choice(["flag", "sigint", "sigint", "stall"])
        if g["act"] == "stall":
            g["delta"] = build.r3(rng.uniform(0, 100))
        scn["faults"].append(g)
    elif x < 0.6:
        scn["faults"].append({"k": "bad", "eval": rng.randint(1, 30), "code": -1, "how": rng.choice(["same", "worse", "none"])})
    if scn["alg"] != "GRAPE" and rng.random() < 0.15:
        scn["drift"] = {"after_SI": True, "num": 1, "minutes": build.r3(rng.uniform(0.05, 0.5))}
    if scn["alg"] != "GRAPE" and rng.random() < 0.12 and not scn.get("drift"):
        scn["re_eval"] = [0.4, 0.5]
        scn["fom"]["std"] = 0.1
    if scn.get("max_eval") is None and scn.get("max_eval_total") is None and scn["alg"] != "GRAPE":
        scn["max_eval_total"] = 80
    return scn


def classify(text):
    t = text.lower()
    out = []
    if "change-based" in t or "change based" in t:
        out.append("cbs")
    if "simplex" in t:
        out.append("simplex")
    if "convergence of the fom" in t or "fatol" in t:
        out.append("fsize")
    if "number of" in t and "evaluation" in t:
        out.append("total-budget" if "total" in t else "budget")
    if ("time" in t or "runtime" in t) and ("limit" in t or "exceed" in t or "reached" in t):
        out.append("time" if "direct search" in t else "total-time")
    if "goal" in t:
        out.append("goal")
    if "user" in t and ("higher order" in t or "global" in t) or "global" in t or "higher order" in t:
        out.append("stop")
    elif "user" in t:
        out.append("user")
    return out


def window_std(vals, m):
    v = np.sort(np.asarray(vals, dtype=float))
    if len(v) < m:
        return INF
    return min(float(np.std(v[k:k + m])) for k in range(len(v) - m + 1))


class Facts:
    """What really happened, from the recorded history."""

    def __init__(self, scn, run):
        self.scn, self.run, self.w = scn, run, run.world
        self.ev = run.world.evals

    def search(self, si):
        if self.scn["alg"] == "DirectSearch":
            return self.ev
        return [e for e in self.ev if e["si"] == si]

    def span(self, si):
        """An upper bound of the duration of a search."""
        mine = self.search(si)
        w = self.w
        if self.scn["alg"] == "DirectSearch":
            return w.exec_t1 - w.exec_t0
        before = [e["t1"] for e in self.ev if e["si"] is not None and e["si"] < si and "t1" in e]
        after = [e["t0"] for e in self.ev if e["si"] is not None and e["si"] > si]
        return (min(after) if after else w.exec_t1) - (max(before) if before else w.exec_t0)

    def user(self):
        return any(k in self.w.fired for k in ("sigint", "stop-flag"))

    def failed(self):
        return any(e["status"] for e in finished(self.ev))

    def total_budget(self):
        x = self.scn.get("max_eval_total")
        return x is not None and len(self.ev) >= x

    def total_time(self):
        x = self.scn.get("total_time_lim")
        return x is not None and self.w.exec_t1 - self.w.exec_t0 >= x * 60 - 1e-3

    def goal(self):
        g, got = self.scn.get("FoM_goal"), (self.run.final or {}).get("Figure of merit")
        return g is not None and got is not None and sign(self.scn) * (got - g) <= 1e-9 * max(1, abs(g))

    def stop(self):
        return self.user() or self.failed() or self.total_budget() or self.total_time() or self.goal()

    def values(self, si):
        return [e["FoM"] for e in succ(self.search(si))]

    def holds(self, what, si):
        """Whether the named condition was met (None: cannot be told from outside)."""
        s = self.scn
        if what in ("user", "stop", "total-budget", "total-time", "goal"):
            return {"user": self.user, "stop": self.stop, "total-budget": self.total_budget, "total-time": self.total_time,
                    "goal": self.goal}[what]()
        ev = self.search(si)
        if what == "budget":
            if s.get("drift"):
                return None if s.get("max_eval") is not None else False
            return s.get("max_eval") is not None and len(ev) >= s["max_eval"]
        if what == "time":
            return s.get("time_lim") is not None and self.span(si) >= s["time_lim"] * 60 - 1e-3
        if what == "cbs":
            if not s.get("cbs"):
                return False
            n, change = s["cbs"]
            v = self.values(si)
            for k in range(n, len(v) + 1):
                x = np.asarray(v[k - n:k])
                m = np.polyfit(range(n), x, 1)[0]
                if abs(m * n) < change * (1 + 1e-6) + 1e-9 * max(1, np.max(np.abs(x))):
                    return True
            return False
        if s.get("drift") or s.get("re_eval"):
            return None
        d = build.dim(s)
        if what == "fsize":
            tol = (s.get("fatol") or 1e-100)
            v = self.values(si)
            if s["dsm"] == "CMAES":
                n = build.pop(s)
                if len(v) < n:
                    return False
                return float(np.std(v[-n:])) <= tol * (1 + 1e-6) + 1e-9 * max(1.0, np.max(np.abs(v[-n:])))
            return window_std(v, d + 1) <= tol * (1 + 1e-6) + 1e-9 * max(1.0, max(map(abs, v), default=1))
        if what == "simplex":
            if s["dsm"] == "CMAES":
                return False
            tol = (s.get("xatol") or 1e-14)
            pts = [np.concatenate([np.real(np.ravel(p)) for p in e["pulses"]] + [np.real(np.ravel(e["params"]))])
                   for e in succ(ev)]
            if len(pts) < d + 1:
                return False
            P = np.array(pts)
            lim = 2 * d * tol + 1e-9 * max(1.0, float(np.max(np.abs(P))))
            for p in P:
                if int(np.sum(np.max(np.abs(P - p), axis=1) <= lim)) >= d + 1:
                    return True
            return False
        return None


def run(scn):
    r, run = simple(scn)
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    f = Facts(scn, run)
    alg = run.opt.get_optimization_algorithm()
    last = getattr(alg, "super_it", 1) if scn["alg"] == "dCRAB" else 1
    said = []
    if run.final and run.final.get("terminate_reason"):
        said.append(("the results", last, run.final["terminate_reason"]))
    if run.final and run.final.get("Termination Reason"):
        said.append(("the results", last, run.final["Termination Reason"]))
    if getattr(alg, "higher_order_terminate_reason", ""):
        said.append(("the run", last, alg.higher_order_terminate_reason))
    for line in log_lines(run):
        m = re.search(r"SI (\d+) finished .*Terminate reason: (.*)$", line)
        if m:
            said.append(("super-iteration %s" % m.group(1), int(m.group(1)), m.group(2)))
        m = re.search(r"Termination Reason : (.*)$", line)
        if m:
            said.append(("the log", last, m.group(1)))
    for who, si, text in said:
        for what in classify(text):
            ok = f.holds(what, si)
            r.probe("%s:%s" % (what, {True: "true", False: "false", None: "open"}[ok]))
            if ok is False:
                r.bad("false-" + what, "%s report%s %r, but %s", who, "" if who[-1] == "s" and who != "super" else "s", text,
                      why(what, f, si))
            r.nontrivial = True
    # a run that was ended from outside its searches says by what
    names = {what for _, _, text in said for what in classify(text)}
    if "stop" in names and not names & {"user", "total-budget", "total-time", "goal"}:
        quiet = [f.failed(), "stop-flag" in f.w.fired]
        if not any(quiet):
            r.bad("unnamed", "a search was stopped from outside (%s) and the run does not say by what; met: %s", said[0][2],
                  [x for x in ("user", "total-budget", "total-time", "goal") if f.holds(x, last)])
    r.probe("named" if names & {"user", "total-budget", "total-time", "goal"} else "search only")
    if scn.get("cbs") and scn["alg"] != "GRAPE" and not scn.get("drift") and not scn.get("re_eval"):
        judge_change(r, f, last)
    return r


def judge_change(r, f, last):
    """A change-based criterion that is met ends the search: at most the rest of the iteration follows."""
    scn = f.scn
    n, change = scn["cbs"]
    for si in range(1, last + 1):
        ev = f.search(si)
        v = [e["FoM"] for e in ev if "t1" in e and not e["status"]]
        for k in range(n, len(v) + 1):
            x = np.asarray(v[k - n:k], dtype=float)
            if not np.all(np.isfinite(x)):
                continue
            slope = abs(np.polyfit(range(n), x, 1)[0] * n)
            if slope < change * (1 - 1e-6) - 1e-9 * max(1, np.max(np.abs(x))):
                rest = len(ev) - k
                most = build.pop(scn) - 1 if scn["dsm"] == "CMAES" else build.dim(scn) + 1
                if rest > most:
                    r.bad("change-ignored", "%d evaluations follow in super-iteration %d although the last %d values changed by "
                          "%.3g on average (limit %r)", rest, si, n, slope, change)
                r.probe("change-based stop")
                break


def why(what, f, si):
    s = f.scn
    if what == "budget":
        return "the search made %d evaluations (limit %r)" % (len(f.search(si)), s.get("max_eval"))
    if what == "total-budget":
        return "the run made %d evaluations (limit %r)" % (len(f.ev), s.get("max_eval_total"))
    if what == "time":
        return "the search took at most %.3f s (limit %r min)" % (f.span(si), s.get("time_lim"))
    if what == "total-time":
        return "the run took %.3f s (limit %r min)" % (f.w.exec_t1 - f.w.exec_t0, s.get("total_time_lim"))
    if what == "goal":
        return "the best is %r (goal %r)" % ((f.run.final or {}).get("Figure of merit"), s.get("FoM_goal"))
    if what in ("user", "stop"):
        return "nothing of that kind happened (%d evaluations)" % len(f.ev)
    if what == "cbs":
        return "no window of %r measured values changes that little" % (s.get("cbs"),)
    if what == "fsize":
        return "the values never agreed to within fatol=%r (%d evaluations in the search)" % (s.get("fatol", 1e-100), len(f.search(si)))
    return "no simplex of measured points is as small as xatol=%r" % (s.get("xatol") or 1e-14,)
