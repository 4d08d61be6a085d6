"""C12: file exchange pairs every answer with its controls."""
import json
import random

from .common import *
from .. import seams

RULE = ("seeded random runs of the file-based figure of merit against a simulated external program (polling and deleting the "
        "controls file, or woken by a change of it) that interleaves with every file operation and sleep of the optimizer, "
        "answers after a random latency - within or beyond the waiting time, never, unreadably, atomically or in place - and "
        "with wall-clock jumps, stops, kills and disk errors; non-trivial = the program answered at least one evaluation")
COUNT = {"quick": 2400, "thorough": 60000}
STUBS = "clock and sleep, entropy, signals, the external program (a model), file-operation results (faults), GUI signals"
ASSUMPTIONS = ["the external program answers controls only once, and completes an answer it writes in place within 8 ms",
               "no answer of an earlier run arrives during a later one"]


def gen(rng, tier, i):
    scn = build.gen_base(rng, algs=("dCRAB", "dCRAB", "DirectSearch"), wide=rng.random() < 0.8, evals=(3, 15))
    scn["si"] = rng.choice([1, 1, 2]) if scn["alg"] == "dCRAB" else None
    scn["latency"] = None
    scn["fom"].pop("std", None)
    scn["fom"].pop("noise", None)
    f = {"ext": rng.choice(["json", "json", "txt"]), "max_time": rng.choice([1, 2, 5, 10, 0.7, 3.3, 30, 1, 2, 5, 10, 600]),
         "sep": rng.random() < 0.4, "abs": rng.random() < 0.4,
         "style": rng.choice(["poll", "poll", "watch"]), "period": build.r3(10 ** rng.uniform(-4, -0.7)),
         "atomic": rng.random() < 0.5, "gap": build.r3(rng.uniform(0, 0.008)), "seed": rng.randrange(1 << 30),
         "fmt": rng.choice(["%.17g", "%.17g\n", " %r \n", "%.17e\n", "%r\nsecond line\n"]),
         "tick": rng.choice([1e-5, 1e-4, 2e-3, 0.02])}
    fast = rng.random()
    f["lat"] = [0.0, 0.0] if fast < 0.15 else sorted([build.r3(f["max_time"] * rng.uniform(0, 1)) for _ in range(2)])
    odd = []
    last = 12
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        odd.append([rng.randint(1, last), rng.choice(["never", "late", "edge", "edge", "empty", "text", "comma", "early"])])
    f["odd"] = odd
    f["slow_writes"] = rng.random() < 0.3
    if rng.random() < 0.4:
        f["stale_fom"] = rng.choice(["-100000.0", "100000.0", "0.0"])
    if rng.random() < 0.3:
        f["stale_controls"] = True
    if rng.random() < 0.2:      # what a kill in the middle of writing leaves behind
        f["stale_tmp"] = True
    scn["files"] = f
    if rng.random() < 0.3:
        scn["faults"].append({"k": "jump", "eval": rng.randint(1, last), "frac": rng.random(),
                              "delta": rng.choice([-1e5, -300.0, -3.0, 3.0, 300.0, 1e5])})
    x = rng.random()
    if x < 0.12:
        g = rand_instant(rng, 12)
        g["act"] = rng.choice(["flag", "sigint"])
        scn["faults"].append(g)
    elif x < 0.27:
        scn["faults"].append({"k": "kill", "op": rng.randint(5, 120), "part": rng.choice([None, rng.random()])})
    elif x < 0.4:
        scn["faults"].append({"k": "disk", "op": rng.randint(5, 120), "len": rng.choice([1, 1, 3, 40]),
                              "errno": rng.choice(["ENOSPC", "EIO", "EDQUOT"]),
                              "short": rng.choice([None, rng.random()])})
    return scn


class Peer:
    """The external program.  Acts between the optimizer's file operations, at its own virtual times."""

    def __init__(self, w, scn, root, fom_path, ctl_path):
        self.w, self.scn, self.f = w, scn, scn["files"]
        self.fom_path, self.ctl_path = fom_path, ctl_path
        self.rng = random.Random(self.f["seed"])
        self.agenda = []              # (time, n, what, payload)
        self.k = 0
        self.answers = []             # dicts: eval number, value, done (completion time), how
        self.bad = []
        self.changed_at = None
        self.busy = False
        if self.f["style"] == "poll":
            self.at(self.f["period"], self.poll)

    def at(self, t, fn, *a):
        self.k += 1
        self.agenda.append((t, self.k, fn, a))
        self.agenda.sort(key=lambda x: x[:2])

    def sched(self, kind, rel):
        if self.busy:
            return
        w = self.w
        if kind != "sleep" and w.phase == "execute":
            w.now += self.rng.random() * self.f["tick"] * (20 if self.f["slow_writes"] and self.rng.random() < 0.05 else 1)
        self.busy = True
        try:
            end = w.now
            while self.agenda and self.agenda[0][0] <= end:
                t, _, fn, a = self.agenda.pop(0)
                fn(t, *a)
        finally:
            self.busy = False

    def changed(self, i, kind, rel):
        """Something was done to the controls file under its agreed name (called before it happens)."""
        if self.f["style"] != "watch":
            return
        last = self.w.ops[-1]
        if any(x and os.path.normpath(os.path.join(self.w.root, x)) == self.ctl_path for x in (last[1], last[4])):
            if kind in ("write", "replace", "rename", "link") and not any(x[2] == self.read for x in self.agenda):
                self.at(self.w.now + self.rng.random() * self.f["period"], self.read)

    def poll(self, t):
        p = self.f["period"]
        try:
            seams.real["stat"](self.ctl_path)
        except OSError:     # only the optimizer can change that: skip the polls before it acts again
            self.at(t + p * max(1, math.ceil((self.w.now - t) / p)), self.poll)
            return
        self.at(t + p, self.poll)
        if not self.stale():
            self.read(t)

    def stale(self):
        try:
            with seams.real["open"](self.ctl_path) as g:
                return g.read() == "leftover of another run"
        except OSError:
            return True

    def read(self, t):
        try:
            with seams.real["open"](self.ctl_path) as g:
                text = g.read()
        except OSError:
            return
        if self.f["style"] == "poll":
            seams.real["remove"](self.ctl_path)
        self.w.log("peer-read", round(t, 9), len(text))
        c = self.parse(text)
        cur = self.w.evals[-1] if self.w.evals else None
        if c is None:
            self.bad.append(("partial", "the external program found %d characters of incomplete controls in the controls "
                             "file (evaluation %s)" % (len(text), cur and cur["n"])))
            return
        tol = 1e-9 if self.f["ext"] == "json" else 1e-6
        e = None
        for x in reversed(self.w.evals[-2:]):
            if same_ctl(c, x, tol):
                e = x
                break
        if e is None:
            self.bad.append(("other-controls", "the controls file holds controls which are not those of evaluation %s"
                             % (cur and cur["n"])))
            return
        if e is not cur:
            return        # seen late: the optimizer is already somewhere else
        if any(a["n"] == e["n"] for a in self.answers):
            return
        self.w.log("peer-takes", e["n"])
        how = dict((n, h) for n, h in self.f["odd"]).get(e["n"], "normal")
        mt = self.f["max_time"]
        lat = self.rng.uniform(*self.f["lat"])
        due = max(t, e["t0"] + lat)
        if how == "never":
            self.answers.append({"n": e["n"], "value": None, "done": INF, "how": how})
            return
        if how == "late":
            due = e["t0"] + mt * self.rng.uniform(1.02, 1.5) + 1.7
        elif how == "edge":
            due = max(t, e["t0"] + mt - self.rng.choice([0.02, 0.1, 0.45]))
        elif how == "early":
            due = t
        v = foms.base_value(self.scn["fom"], e["pulses"], e["params"], e["grids"]) * sign(self.scn)
        try:
            text = self.f["fmt"] % v
        except TypeError:
            text = repr(v)
        text = {"empty": "", "text": "abc\n", "comma": "1,5\n"}.get(how, text)
        a = {"n": e["n"], "value": None if how in ("empty", "text", "comma") else float(text.split()[0]), "how": how,
             "done": None}
        self.answers.append(a)
        if self.f["atomic"]:
            self.at(due, self.put, a, text)
        else:
            self.at(due, self.begin, a, text)

    def delivered(self, e):
        """Whether the controls of an evaluation reached the program, or wait for it."""
        if any(a["n"] == e["n"] for a in self.answers):
            return True
        try:
            with seams.real["open"](self.ctl_path) as g:
                c = self.parse(g.read())
        except OSError:
            return False
        return c is not None and same_ctl(c, e, 1e-9 if self.f["ext"] == "json" else 1e-6)

    def parse(self, text):
        """The controls of a complete file, else None."""
        P, X = len(self.scn["pulses"]), len(self.scn["params"])
        try:
            if self.f["ext"] == "json":
                d = json.loads(text)
                if len(d) != 2 * P + X:
                    return None
                return {"pulses": [d["pulse%d" % (i + 1)] for i in range(P)],
                        "grids": [d["time_grid%d" % (i + 1)] for i in range(P)],
                        "params": [d["parameter%d" % (j + 1)] for j in range(X)]}
            rows = [[float(x) for x in line.split()] for line in text.split("\n")]
            if rows[-1] or len(rows) != 2 * P + X + 1:
                return None
            for i, p in enumerate(self.scn["pulses"]):
                if len(rows[2 * i]) != p["bins_number"] or len(rows[2 * i + 1]) != p["bins_number"]:
                    return None
            if any(len(x) != 1 for x in rows[2 * P:2 * P + X]):
                return None
            return {"pulses": rows[0:2 * P:2], "grids": rows[1:2 * P:2], "params": [x[0] for x in rows[2 * P:2 * P + X]]}
        except (ValueError, KeyError, TypeError):
            return None

    def put(self, t, a, text):
        tmp = self.fom_path + ".peer"
        with seams.real["open"](tmp, "w") as g:
            g.write(text)
        seams.real["replace"](tmp, self.fom_path)
        a["done"] = t
        self.w.log("peer-answers", a["n"], round(t, 9))

    def begin(self, t, a, text):
        g = seams.real["open"](self.fom_path, "w")
        a["begun"] = t
        self.at(t + self.f["gap"], self.finish, a, text, g)

    def finish(self, t, a, text, g):
        g.write(text)
        g.close()
        a["done"] = t
        self.w.log("peer-answers", a["n"], round(t, 9))


def run(scn):
    from quocslib.utils.AbstractFoM import AbstractFoM
    from quocslib.utils.FilesUpdateFom import FilesUpdateFoM
    r = Result(scn)
    f = scn["files"]
    box = {}

    def make(w, scn_):
        cdir = "ctl" if f["sep"] else "."
        fdir = "fom" if f["sep"] else "."
        for d in (cdir, fdir):
            if not os.path.isdir(os.path.join(w.root, d)):
                seams.real["mkdir"](os.path.join(w.root, d))
        if f["abs"]:
            cdir, fdir = os.path.join(w.root, cdir), os.path.join(w.root, fdir)
        ctl = os.path.normpath(os.path.join(w.root, cdir, "controls." + f["ext"]))
        fomp = os.path.normpath(os.path.join(w.root, fdir, "FoM.txt"))
        if f.get("stale_fom"):
            with seams.real["open"](fomp, "w") as g:
                g.write(f["stale_fom"])
        if f.get("stale_controls"):
            with seams.real["open"](ctl, "w") as g:
                g.write("leftover of another run")
        if f.get("stale_tmp"):
            with seams.real["open"](ctl + ".tmp", "w") as g:
                g.write("half of the cont")
        peer = box["peer"] = Peer(w, scn, w.root, fomp, ctl)
        w.sched, w.after_op = peer.sched, peer.changed
        inner = FilesUpdateFoM(controls_folder=cdir, file_extension=f["ext"], FoM_folder=fdir, max_time=f["max_time"])

        class Recorder(AbstractFoM):
            def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
                rec = w.eval_begin(pulses, parameters, timegrids)
                for x in scn["faults"]:
                    if x["k"] == "jump" and x["eval"] == rec["n"]:
                        peer.at(w.now + x["frac"] * f["max_time"], lambda t, d=x["delta"]: (
                            setattr(w, "wall_off", w.wall_off + d), w.fire("clock-jump")))
                w.instant("during", rec["n"])
                try:
                    ret = inner.get_FoM(pulses=pulses, parameters=parameters, timegrids=timegrids)
                except Exception as e:
                    rec["raised"] = e
                    raise
                st = ret.get("status_code", 0)
                w.eval_end(rec, ret.get("FoM"), ret.get("std"), st)
                rec["delivered"] = peer.delivered(rec)
                if st:
                    w.note_stop("status")
                w.instant("after", rec["n"])
                return ret

        return Recorder()

    def go(root):
        w = runner.new_world(scn, root)
        return runner.execute(scn, w, root, make=make)

    run = runner.with_root(go)
    w = run.world
    r.add(run)
    peer = box.get("peer")
    if peer is None:          # killed or failed before the optimizer existed
        return r
    for cls, msg in peer.bad:
        r.bad(cls, msg)
    ans = {a["n"]: a for a in peer.answers}
    for a in peer.answers:
        r.probe("answer:" + a["how"])
    r.nontrivial = any(a["done"] is not None and a["done"] < INF for a in peer.answers)
    disk = any(k.startswith(("disk", "short")) for k in w.fired)
    if run.outcome == "exception" and disk and (run.exc.startswith("OSError") or "Errno" in run.exc):
        pass
    elif run.outcome == "killed":
        pass
    elif not judge_outcome(r, run):
        return r
    slack = 0.3 if f["slow_writes"] or f["tick"] > 1e-3 else 0.05
    mt = f["max_time"]
    for e in w.evals:
        a = ans.get(e["n"])
        if "t1" not in e:
            if "raised" in e and not disk:
                r.bad("raised", "evaluation %d raised %r", e["n"], e["raised"])
            continue
        used = e["t1"] - e["t0"]
        if not e["status"]:
            if a is None or a["done"] is None or a["done"] > e["t1"] + 1e-6:
                r.bad("pairing", "evaluation %d got %r although the program had not answered its controls", e["n"], e["FoM"])
            elif a["value"] is None or not close(a["value"], e["FoM"], 1e-12):
                r.bad("pairing", "evaluation %d got %r, the answer to its controls was %r (%s)", e["n"], e["FoM"],
                      a["value"], a["how"])
            continue
        if e["FoM"] is not None and not math.isnan(e["FoM"]) and (a is None or a["value"] is None):
            r.bad("pairing", "evaluation %d failed with status %r but carries the value %r", e["n"], e["status"], e["FoM"])
        if disk:
            continue
        if not e.get("delivered", True) and run.outcome != "killed":
            r.bad("undelivered", "evaluation %d ended with status %r after %.3f s; its controls never appeared under the agreed "
                  "name", e["n"], e["status"], used)
        if a is not None and a["done"] is not None and a["value"] is not None and a["done"] <= e["t0"] + mt:
            r.bad("ignored", "evaluation %d ended with status %r after %.3f s although its answer was complete %.3f s after "
                  "it began (waiting time %s s)", e["n"], e["status"], used, a["done"] - e["t0"], mt)
        elif a is not None and a["value"] is None and a["done"] is not None and a["done"] < INF:
            continue       # unreadable: may end as soon as it is seen
        elif used < mt - 1e-3:
            r.bad("early", "evaluation %d gave up after %.3f s, the waiting time is %s s", e["n"], used, mt)
        if used > mt + 1.0 + slack:
            r.bad("overdue", "evaluation %d waited %.3f s, the waiting time is %s s", e["n"], used, mt)
    bad = [e for e in finished(w.evals) if e["status"]]
    if bad and len(w.evals) > bad[0]["n"]:
        r.bad("continues", "evaluation %d ended with status %r but %d more started", bad[0]["n"], bad[0]["status"],
              len(w.evals) - bad[0]["n"])
    if run.outcome == "ok" and not disk:
        judge_results(r, run)
        best = best_value(scn, w.evals)
        got = (run.final or {}).get("Figure of merit")
        if best is not None and got is not None and not close(got, best):
            r.bad("best", "reported %r, the best answer was %r", got, best)
    return r
