"""What one scenario reports."""
import hashlib


class Result:
    """Collects violations and statistics over the simulated runs of one scenario."""

    def __init__(self, scn):
        self.scn = scn
        self.violations = []      # {"cls", "msg"}
        self.stats = {"runs": 0, "evals": 0, "sim_s": 0.0, "steps": 0, "fired": {}, "sites": {}, "probes": {},
                      "outcomes": {}, "algs": {}}
        self._h = hashlib.sha256()
        self.nontrivial = False
        self.ctl = None           # digest of the controls evaluated (C10)
        self.resolved = None      # the scenario with every fault position fixed, when it differs
        self.note = None

    def bad(self, cls, msg, *args):
        if len(self.violations) < 20:
            self.violations.append({"cls": cls, "msg": (msg % args) if args else msg})

    def add(self, run):
        """Account for one simulated run."""
        w = run.world
        self.add_world(w, run.scn)
        o = self.stats["outcomes"]
        o[run.outcome] = o.get(run.outcome, 0) + 1

    def add_world(self, w, scn=None):
        s = self.stats
        s["runs"] += 1
        s["evals"] += len(w.evals)
        s["sim_s"] += w.now
        s["steps"] += len(w.events)
        for k, v in w.fired.items():
            s["fired"][k] = s["fired"].get(k, 0) + v
        for k, v in w.probes.items():
            s["probes"][k] = s["probes"].get(k, 0) + v
        site = getattr(w, "last_site", None)
        if site:
            s["sites"][site] = s["sites"].get(site, 0) + 1
        if scn is not None:
            k = scn["alg"] + ("/" + scn["dsm"] if scn.get("dsm") else "")
            s["algs"][k] = s["algs"].get(k, 0) + 1
        self._h.update(w.digest().encode())

    def feed(self, *x):
        self._h.update(repr(x).encode())

    def probe(self, name, n=1):
        self.stats["probes"][name] = self.stats["probes"].get(name, 0) + n

    def as_dict(self):
        return {"violations": self.violations, "stats": self.stats, "digest": self._h.hexdigest()[:16],
                "nontrivial": bool(self.nontrivial), "ctl": self.ctl, "resolved": self.resolved, "note": self.note}


def merge(total, s):
    for k, v in s.items():
        if isinstance(v, dict):
            t = total.setdefault(k, {})
            for a, b in v.items():
                t[a] = t.get(a, 0) + b
        else:
            total[k] = total.get(k, 0) + v
    return total
