"""
Decide one property: seeded search over many simulated runs, minimisation, replay files and evidence.

Exit 0: held on everything explored.  1: violated (VIOLATION line).  2: the harness itself failed.
"""
import argparse
import importlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT") or HERE        # evidence and replay files (tools/mkseed.py sends them elsewhere)
PY = os.environ.get("VERIF_PYTHON") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "JAX_PLATFORMS": "cpu", "MPLBACKEND": "Agg", "TZ": "UTC", "PYTHONPATH": HERE,
       "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"}
LINE_CAP = 400000


class Harness(Exception):
    pass


class Worker:
    def __init__(self, prop, jax, hashseed):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(ENV)
        env["PYTHONHASHSEED"] = str(hashseed)
        self.hashseed = hashseed
        self.p = subprocess.Popen([PY, "-m", "sim.worker", prop] + (["jax"] if jax else []), cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  bufsize=1, start_new_session=True)
        self.err = []
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self):
        for line in self.p.stderr:
            self.err.append(line)
            del self.err[:-60]

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, ValueError):
            line = ""
        if not line:
            time.sleep(0.2)
            raise Harness("worker died: " + "".join(self.err[-30:]))
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.p.kill()


def module(prop):
    return importlib.import_module("sim.props." + prop.lower())


def settle(w, req):
    """Ask, and turn a wall-clock timeout into a deterministic verdict by re-running with a step bound."""
    a = w.ask(req)
    if a.get("timeout") or a.get("died"):
        first = "timeout" if a.get("timeout") else "died"
        r2 = dict(req, line_cap=LINE_CAP, wall=240)
        a = w.ask(r2)
        if a.get("timeout") or a.get("died"):
            raise Harness("scenario %r: %s, and again with a step bound" % (req.get("i", "given"), first))
        if "harness" not in a and not a.get("violations"):
            a["slow"] = True
    if "harness" in a:
        raise Harness(a["harness"])
    return a


def settle_batch(w, req):
    """Several scenarios in one forked process; anything unusual is asked again one by one."""
    a = w.ask(dict(req, wall=60 + 10 * len(req["batch"])))
    if "answers" in a and not any("harness" in x for x in a["answers"]):
        return a["answers"]
    out = []
    for i in req["batch"]:
        one = {k: v for k, v in req.items() if k != "batch"}
        out.append(dict(settle(w, dict(one, i=i)), i=i))
    return out


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(\S+) (.*)", line.strip())
            if m:
                out.append({"prop": m.group(1), "cls": m.group(2), "match": m.group(3), "text": m.group(4)})
    return out


# ---------------------------------------------------------------------------------------------------------- shrinking
def variants(scn, mod):
    """Smaller scenarios, most aggressive first."""
    import copy

    def v(**kw):
        c = copy.deepcopy(scn)
        for k, x in kw.items():
            if x is None:
                c.pop(k, None)
            else:
                c[k] = x
        return c

    if "_batch" in scn:
        b = scn["_batch"]
        for i in range(len(b) - 1):
            yield {"_batch": b[:i] + b[i + 1:]}
        return
    faults = scn.get("faults") or []
    if len(faults) > 1:
        yield v(faults=faults[:len(faults) // 2])
        yield v(faults=faults[len(faults) // 2:])
    for i in range(len(faults)):
        yield v(faults=faults[:i] + faults[i + 1:])
    for i, f in enumerate(faults):
        for key in ("eval", "lines", "op", "len"):
            if isinstance(f.get(key), int) and f[key] > 1:
                for x in sorted({1, f[key] // 2, f[key] - 1}):
                    c = copy.deepcopy(scn)
                    c["faults"][i][key] = x
                    yield c
    if scn.get("pulses") and len(scn["pulses"]) > 1:
        yield v(pulses=scn["pulses"][:1])
    if scn.get("params") and len(scn["params"]) > (0 if scn.get("pulses") else 1):
        yield v(params=scn["params"][:-1])
    for key in ("si", "max_eval", "max_eval_total", "maxfun"):
        x = scn.get(key)
        if isinstance(x, int) and x > 1:
            for y in sorted({1, x // 2, x - 1}):
                yield v(**{key: y})
    for key in ("console", "logfile", "micro", "signals", "adaptive", "latency", "population", "cbs", "drift", "re_eval",
                "FoM_goal", "total_time_lim", "time_lim", "xatol", "fatol", "construct_delay", "clock_base"):
        if scn.get(key) not in (None, False):
            yield v(**{key: None})
    fom = scn.get("fom") or {}
    for key in ("noise", "drift", "std", "digits", "script", "status0", "cache"):
        if fom.get(key) is not None:
            c = copy.deepcopy(scn)
            c["fom"].pop(key)
            yield c
    for key, x in (("ripple", 0.0), ("offset", 0.0), ("ret", "float")):
        if fom.get(key, x) != x:
            c = copy.deepcopy(scn)
            c["fom"][key] = x
            yield c
    if scn.get("dump") == "json":
        yield v(dump="npz")
    for i, p in enumerate(scn.get("pulses") or []):
        for key in ("guess", "scaling", "shrink"):
            if p.get(key):
                c = copy.deepcopy(scn)
                c["pulses"][i].pop(key)
                yield c
        if p.get("nvec", 1) > 1:
            c = copy.deepcopy(scn)
            c["pulses"][i]["nvec"] = 1
            yield c
    if hasattr(mod, "variants"):
        yield from mod.variants(scn)


def shrink(w, mod, prop, scn, cls, budget):
    t0 = time.monotonic()
    tried = 0
    seen = set()
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for c in variants(scn, mod):
            if time.monotonic() - t0 > budget:
                break
            key = json.dumps(c, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            try:
                a = settle(w, {"prop": prop, "scn": c, "wall": 40})
            except Harness:
                continue   # an ill-formed reduction, not a verdict
            if any(x["cls"] == cls for x in a.get("violations", ())):
                scn = a.get("scn", c)
                progress = True
                break
    return scn, tried


def replay_file(path, quiet=False):
    with open(path) as f:
        r = json.load(f)
    mod = module(r["property"])
    w = Worker(r["property"], getattr(mod, "JAX", False), r.get("hashseed", 0))
    try:
        a = settle(w, {"prop": r["property"], "scn": r["scn"], "wall": 120})
    finally:
        w.close()
    same = a.get("digest") == r["digest"] and any(v["cls"] == r["class"] for v in a.get("violations", ()))
    if not quiet:
        for v in a.get("violations", ()):
            print("%s: %s" % (v["cls"], v["msg"]))
        print("digest %s (recorded %s): %s" % (a.get("digest"), r["digest"],
                                                "reproduced exactly" if same else "NOT reproduced"))
    return a, same


def write_replay(prop, tag, seed, tier, i, scn, ans, cls, hashseed, tried):
    d = os.path.join(OUT, "out", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, tag))
    v = [x for x in ans["violations"] if x["cls"] == cls][0]
    with open(path, "w") as f:
        json.dump({"property": prop, "class": cls, "message": v["msg"], "seed": seed, "tier": tier, "index": i,
                   "hashseed": hashseed, "shrink_attempts": tried, "digest": ans["digest"], "scn": scn,
                   "note": ans.get("note"),
                   "how": "python3 /verif/check.py --replay %s" % os.path.relpath(path, HERE)}, f, indent=1, sort_keys=True)
    return path


def survey(prop, seed, tier, n, start=0):
    """Run scenarios without stopping at violations and print the classes found (a development aid)."""
    mod = module(prop)
    todo = queue.Queue()
    bs = getattr(mod, "BATCH", 8)
    for i in range(start, start + n, bs):
        todo.put(list(range(i, min(i + bs, start + n))))
    cls, lock, tot = {}, threading.Lock(), {}
    from sim.result import merge
    pool = [Worker(prop, getattr(mod, "JAX", False), k + 1) for k in range(8)]
    t0 = time.monotonic()

    def loop(w):
        while True:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                return
            try:
                answers = settle_batch(w, {"prop": prop, "seed": seed, "tier": tier, "batch": i})
            except Harness as e:
                answers = [{"violations": [{"cls": "HARNESS", "msg": str(e)}], "i": i[0]}]
                if "worker died" in str(e):
                    print(e)
                    return
            with lock:
              for a in answers:
                i = a["i"]
                for v in a.get("violations", ()):
                    cls.setdefault(v["cls"], []).append((i, v["msg"], a.get("scn")))
                if "stats" in a:
                    merge(tot, a["stats"])
                    tot["nontrivial"] = tot.get("nontrivial", 0) + a["nontrivial"]
                if a.get("slow"):
                    tot["slow"] = tot.get("slow", 0) + 1
    ts = [threading.Thread(target=loop, args=(w,), daemon=True) for w in pool]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("%.1f s" % (time.monotonic() - t0))
    for w in pool:
        w.close()
    tot.pop("sites", None)
    print(tot)
    for c in sorted(cls):
        L = sorted(cls[c], key=lambda x: x[0])
        print("%5d %s" % (len(L), c))
        for i, m, scn in L[:4]:
            print("        #%d %s %s" % (i, (scn or {}).get("alg", "") + "/" + str((scn or {}).get("dsm")), m[:600]))


# ------------------------------------------------------------------------------------------------------------- search
def check(prop, seed, tier, count=None, workers=None, out=sys.stdout, cap=None):
    mod = module(prop)
    sys.path.insert(0, HERE)
    from sim.result import merge
    t0 = time.monotonic()
    n = count or mod.COUNT[tier]
    soft = cap or (300 if tier == "quick" else 3300)
    nw = workers or min(8, len(os.sched_getaffinity(0)))
    todo = queue.Queue()
    bs = getattr(mod, "BATCH", 8)
    for i in range(0, n, bs):
        todo.put(list(range(i, min(i + bs, n))))
    stats, results, errors, known = {}, {}, [], load_known()
    known_hits = {}
    lock = threading.Lock()
    hits = []
    stop = threading.Event()
    pool = [Worker(prop, getattr(mod, "JAX", False), k + 1) for k in range(nw)]

    def loop(w):
        while not stop.is_set():
            try:
                i = todo.get_nowait()
            except queue.Empty:
                return
            if time.monotonic() - t0 > soft:
                return
            batch = i
            try:
                answers = settle_batch(w, {"prop": prop, "seed": seed, "tier": tier, "batch": batch, "want_scn": batch[0] == 0})
            except Harness as e:
                with lock:
                    errors.append((batch, str(e)))
                if len(errors) > 3 or "worker died" in str(e):
                    stop.set()
                    return
                continue
            for a in answers:
              i = a["i"]
              with lock:
                results[i] = a
                if a.get("violations"):
                    new = []
                    for v in a["violations"]:
                        k = [x for x in known if x["prop"] == prop and x["cls"] == v["cls"]
                             and (x["match"] == "*" or x["match"] in v["msg"].replace(" ", "_"))]
                        if k:
                            known_hits[k[0]["text"]] = known_hits.get(k[0]["text"], 0) + 1
                        else:
                            new.append(v)
                    if new:
                        a["prefix"] = batch[:batch.index(i) + 1]
                        hits.append((i, a, new, w))
                        if len(hits) >= (1 if tier == "quick" else 5):
                            stop.set()

    ts = [threading.Thread(target=loop, args=(w,), daemon=True) for w in pool]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    search_s = time.monotonic() - t0
    rc = 0
    lines = []
    try:
        if hits:
            done = set()
            for i, a, new, w in sorted(hits, key=lambda h: h[0]):
                cls = new[0]["cls"]
                if cls in done:
                    continue
                done.add(cls)
                scn = a.get("scn")
                alone = settle(w, {"prop": prop, "scn": scn, "wall": 120})
                if not any(v["cls"] == cls for v in alone.get("violations", ())):
                    # it needs the scenarios that ran before it in the same process
                    full = settle_batch(w, {"prop": prop, "seed": seed, "tier": tier, "batch": a["prefix"], "want_scn": True})
                    scn = {"_batch": [x["scn"] for x in full if x.get("scn")]}
                small, tried = shrink(w, mod, prop, scn, cls, 25 if tier == "quick" else 120)
                b = settle(w, {"prop": prop, "scn": small, "wall": 120})
                if not any(v["cls"] == cls for v in b.get("violations", ())):
                    small, b = scn, settle(w, {"prop": prop, "scn": scn, "wall": 120})
                if not any(v["cls"] == cls for v in b.get("violations", ())):
                    b = dict(a)
                path = write_replay(prop, "%d-%d" % (seed, i), seed, tier, i, small, b, cls, w.hashseed, tried)
                ok = False
                for _ in range(3):
                    c, same = replay_file(path, quiet=True)
                    ok = ok or any(v["cls"] == cls for v in c.get("violations", ()))
                    if same:
                        break
                msg = [v["msg"] for v in b["violations"] if v["cls"] == cls][0]
                if ok:
                    rc = 1
                    lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
                    lines.append("  class=%s seed=%d index=%d %s" % (cls, seed, i, msg))
                    if not same:
                        lines.append("  (the violation came back but its execution digest varies)")
                else:
                    errors.append((i, "violation %s did not come back on replay: %s" % (cls, msg)))
    except Harness as e:
        errors.append((-1, str(e)))
    for w in pool:
        w.close()
    if errors and rc == 0:
        rc = 2
    # ------------------------------------------------------------------------------------------------------- evidence
    digests, nontriv, samples, skipped, slow = set(), set(), [], 0, 0
    for i in sorted(results):
        a = results[i]
        if a.get("skip"):
            skipped += 1
            continue
        slow += bool(a.get("slow"))
        merge(stats, a["stats"])
        digests.add(a["digest"])
        if a["nontrivial"]:
            nontriv.add(a["digest"])
        if a.get("scn") and len(samples) < 3:
            samples.append({"index": i, "scenario": a["scn"], "digest": a["digest"]})
    wall = time.monotonic() - t0
    nres = len(results)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": nres - skipped,
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples,
            "scenarios_planned": n, "scenarios_run": nres, "scenarios_skipped_by_generator": skipped,
            "simulated_runs": stats.get("runs", 0),
            "simulated_runs_per_hour": round(stats.get("runs", 0) / max(search_s, 1e-6) * 3600),
            "scenario_seeds_per_hour": round(nres / max(search_s, 1e-6) * 3600),
            "figure_of_merit_evaluations": stats.get("evals", 0),
            "simulated_time_s": round(stats.get("sim_s", 0.0), 1),
            "recorded_events": stats.get("steps", 0),
            "faults_fired": stats.get("fired", {}),
            "distinct_histories": len(digests),
            "distinct_histories_measure": "sha256 over the full event log of every simulated run of a scenario (evaluated "
                                          "controls, returned values, file operations, signals, faults, outcome)",
            "injection_sites_hit": stats.get("sites", {}),
            "oracle_probes": stats.get("probes", {}),
            "outcomes": stats.get("outcomes", {}),
            "algorithms": stats.get("algs", {}),
            "components_real": "all of quocslib (imported from the working tree), numpy, scipy" +
                               (", jax" if getattr(mod, "JAX", False) else "") + ", zipfile/json/logging, the kernel's tmpfs",
            "components_simulated": getattr(mod, "STUBS", "clock and sleep, entropy and global random state, signals, "
                                            "the figure of merit, file-operation results (faults), GUI signals, exit handler flag"),
            "known_finding_hits": known_hits,
            "workers": nw, "search_wall_s": round(search_s, 2), "slow_scenarios": slow,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": sum(1 for x in lines if x.startswith("VIOLATION")),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for x in known:
        if x["prop"] == prop and x["text"] in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, x["text"]), file=out)
    for line in lines:
        print(line, file=out)
    for i, e in errors[:3]:
        print("HARNESS ERROR (scenario %s): %s" % (i, e), file=out)
    print("%s %s seed=%d: %d scenarios, %d simulated runs, %d distinct non-trivial, %.1f s -> %s" % (
        prop, tier, seed, nres, stats.get("runs", 0), len(nontriv), wall, {0: "held", 1: "VIOLATED", 2: "error"}[rc]), file=out)
    return rc


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--count", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--survey", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--show", type=int)
    ap.add_argument("--selftest", action="store_true", help="one small scenario twice: imports, seams and determinism")
    a = ap.parse_args(argv)
    sys.path.insert(0, HERE)
    if a.replay:
        _, same = replay_file(a.replay)
        return 1 if same else 2
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if a.survey:
        survey(a.property, seed, tier, a.survey, a.start)
        return 0
    if a.selftest:
        d = []
        for k in (1, 2):
            w = Worker("C01", False, k)
            d.append([settle(w, {"prop": "C01", "seed": 1, "tier": "quick", "i": j})["digest"] for j in (0, 1, 2)])
            w.close()
        print("selftest:", "deterministic" if d[0] == d[1] else "DIFFERENT DIGESTS %r" % d)
        return 0 if d[0] == d[1] else 2
    if a.show is not None:
        w = Worker(a.property, getattr(module(a.property), "JAX", False), 1)
        x = settle(w, {"prop": a.property, "seed": seed, "tier": tier, "i": a.show, "want_scn": True})
        w.close()
        print(json.dumps(x, indent=1, sort_keys=True))
        return 0
    return check(a.property, seed, tier if tier in ("quick", "thorough") else "quick", a.count, a.workers, cap=a.cap)
