"""C02: the saved best controls survive crashes and always are the record."""
from .common import *
from .. import seams

RULE = ("seeded random runs; the file on disk is read back before every evaluation and, in half of the scenarios, at every "
        "file operation boundary (= every kill point of the run); others are killed at a chosen file operation, possibly "
        "in the middle of the write, or see short writes / ENOSPC / EIO / EDQUOT / EROFS for a window of operations; "
        "controls may share a name; non-trivial = the record changed at least twice, or a kill or disk fault struck after the first record")
COUNT = {"quick": 1100, "thorough": 25000}
JAX = True


def gen(rng, tier, i):
    ad = i % 110 == 3
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.7, evals=(3, 18))
    if ad:
        scn["maxfun"], scn["si"] = 3, 1
    if scn["alg"] == "dCRAB":
        scn["si"] = rng.choice([1, 1, 2, 3])
    if rng.random() < 0.3 and not ad:
        scn["fom"]["digits"] = rng.choice([0, 1])
    if rng.random() < 0.15 and not ad:     # controls that share a name
        for q in scn["pulses"] + scn["params"]:
            if rng.random() < 0.8:
                q["name"] = "drive"
        for j, q in enumerate(scn["params"]):
            if rng.random() < 0.5:
                q["name"] = rng.choice(["delta", "delta", "FoM", "sigma", "iteration_number", "super_it"])
    if rng.random() < 0.25:
        g = rand_instant(rng, 20)
        g["act"] = rng.choice(["flag", "sigint"])
        scn["faults"].append(g)
    if rng.random() < 0.2 and not ad:
        scn["faults"].append({"k": "bad", "eval": rng.randint(1, 20), "code": -1, "how": rng.choice(["better", "none", "nan", "worse"])})
    m = rng.choice(["watch", "watch", "kill", "kill", "disk"])
    scn["mode"] = m
    if m in ("kill", "disk"):
        scn["pick"] = [rng.random(), rng.random() < 0.75]       # which operation, only those on the record's files
        scn["part"] = build.r3(rng.random())
    if m == "disk":
        scn["disk"] = {"errno": rng.choice(["ENOSPC", "EIO", "EDQUOT", "EROFS"]), "len": rng.choice([1, 1, 2, 5, 1000]),
                       "short": build.r3(rng.random()) if rng.random() < 0.5 else None}
    if i % 45 == 21 and lengthen(rng, scn):
        scn["mode"] = "watch"
    return scn


def trim_saved(scn, saved):
    if scn["alg"] != "AD":
        return saved
    out = dict(saved)
    for p in scn["pulses"]:
        for k in (p["name"], "time_grid_for_" + p["name"]):
            if k in out:
                out[k] = np.asarray(out[k])[:p["bins_number"]]
    return out


def bests(scn, evals, c):
    """The evaluations that may be the record after the first c evaluations finished."""
    ok = succ(evals[:c])
    if not ok:
        return []
    b = best_value(scn, evals[:c])
    return [e for e in ok if e["FoM"] == b]


def run(scn):
    r = Result(scn)
    scn = dict(scn, faults=[dict(f) for f in scn.get("faults", [])])
    if scn["mode"] in ("kill", "disk") and "pick" in scn:
        # a dry run tells which file operations there are
        dry = runner.simple_run(dict(scn))
        ops = dry.world.ops
        idx = [i for i, o in enumerate(ops) if ("best_controls" in o[1] or "optimized_parameters" in o[1]
                                                or "best_controls" in (o[4] or ""))] if scn["pick"][1] else []
        if not idx:
            idx = list(range(len(ops)))
        if not idx:
            r.add(dry)
            return r
        op = idx[min(len(idx) - 1, int(scn["pick"][0] * len(idx)))]
        if scn["mode"] == "kill":
            f = {"k": "kill", "op": op, "part": scn["part"]}
        else:
            f = {"k": "disk", "op": op, "len": scn["disk"]["len"], "errno": scn["disk"]["errno"]}
            if scn["disk"]["short"] is not None:
                f["short"] = scn["disk"]["short"]
                f["len"] = max(2, f["len"])
        scn["faults"].append(f)
        for k in ("pick", "part", "disk"):
            scn.pop(k, None)
        r.resolved = scn
    tol = ctol(scn)
    state = {"changes": 0, "looks": 0, "last": None}
    w_ref = {}

    def rp():
        opt = w_ref["w"].opt
        return getattr(opt, "results_path", None)

    def look(where, strict):
        w = w_ref["w"]
        path = rp()
        if path is None or w.dead or len(r.violations) > 3:
            return
        seams.W = None
        try:
            saved, err = runner.load_best(path)
            res = glob.glob(os.path.join(glob.escape(path), "*optimized_parameters.json"))
            if res:
                d, e2 = runner.load_json(res[0])
                if d is None and e2 != "missing":
                    r.bad("results-partial", "%s: the final results file is not complete: %s", where, e2)
        finally:
            seams.W = w
        state["looks"] += 1
        judge(saved, err, where, strict)

    def judge(saved, err, where, strict, any_record=False):
        w = w_ref["w"]
        ev = w.evals
        c = len(finished(ev))
        cur, prev = bests(scn, ev, c), bests(scn, ev, c - 1)
        allowed = list(cur) if strict else cur + [e for e in prev if e not in cur]
        if any_record:
            for k in range(1, c):
                allowed += [e for e in bests(scn, ev, k) if e not in allowed]
        if saved is None:
            if err == "missing":
                if cur and (strict or (prev and not any_record)):
                    r.bad("lost", "%s: no best-controls file although %d evaluations finished", where, c)
                elif any_record and state["last"] is not None:
                    r.bad("lost", "%s: the best-controls file is gone", where)
            else:
                r.bad("unreadable", "%s: the best-controls file cannot be read: %s", where, err)
            return
        saved = trim_saved(scn, saved)
        if not allowed:
            r.bad("phantom", "%s: a best-controls file exists but no evaluation succeeded", where)
            return
        why = [check_saved(scn, saved, e, tol=tol) for e in allowed]
        if all(why):
            r.bad("wrong-record", "%s: the file is not the %s best (evaluation %s of %d): %s", where,
                  "current" if strict else "current or previous", [e["n"] for e in allowed][:4], c, why[0])
            return
        n = saved_scalar(saved, "iteration_number")
        if n != state["last"]:
            state["changes"] += 1
            state["last"] = n

    def hook(w):
        w_ref["w"] = w
        w.on_eval_start = lambda rec: look("before evaluation %d" % rec["n"], not any(f["k"] == "disk" for f in w.faults))
        if scn["mode"] == "watch":
            w.after_op = lambda i, kind, rel: look("kill before %s #%d on %s" % (kind, i, os.path.basename(rel)), False) \
                if w.phase == "execute" else None

    run = runner.simple_run(scn, hook)
    r.add(run)
    w = run.world
    r.probe("file-inspections", state["looks"])
    disk = any(k.startswith(("disk", "short")) for k in w.fired)
    if run.outcome == "stuck":
        judge_outcome(r, run)
        return r
    if run.outcome == "exception" and not (disk and "OSError" in run.exc or disk and "Errno" in run.exc):
        if not disk:
            judge_outcome(r, run)
    if hasattr(run, "results_path"):
        ended = run.outcome == "ok" and not disk
        judge(run.best, run.best_err, "after the run (%s)" % run.outcome, ended, any_record=disk)
        if run.final is None and run.final_err not in (None, "missing"):
            r.bad("results-partial", "after the run (%s): the final results file is not complete: %s", run.outcome, run.final_err)
        if ended and run.final is None:
            r.bad("results-partial", "no final results file after a complete run")
    r.nontrivial = state["changes"] >= 2 or (bool(bests(scn, w.evals, len(finished(w.evals)))) and
                                             any(k.startswith(("kill", "disk", "short")) for k in w.fired))
    return r
