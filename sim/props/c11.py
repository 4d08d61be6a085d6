"""C11: runs never touch each other's results."""
import hashlib
import random

from .common import *
from .. import seams, parties

RULE = ("seeded sets of 2-4 runs in one directory: as forked processes stepped at every file operation (stat, mkdir, open, write, "
        "rename, ...) in a seeded order, with equal or different names, equal or skewed clocks, kills, and folders left by "
        "earlier runs; and in one process, constructed and executed in interleaved orders (also constructed, or constructed and "
        "executed, inside an evaluation of another, or executed from another working directory), some stopped by flag or Ctrl-C, "
        "with failed evaluations or small budgets, each compared with the same run alone; folders, failures and every changed file are attributed to the run that caused them; "
        "non-trivial = two runs were under way at once")
COUNT = {"quick": 700, "thorough": 20000}
JAX = False
ASSUMPTIONS = ["threads of one process are outside the domain (quocslib registers signals and a process-wide logger)"]
STUBS = ("clock and sleep, entropy and global random state, signals, the figure of merit, the order of file operations of the "
         "processes (real forked processes, one running at a time); the kernel's tmpfs is real")


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    inproc = rng.random() < 0.45
    runs = []
    base = build.r3(rng.uniform(0, 1e6))
    same = rng.random() < 0.5
    name = rng.choice(["run", "job A", "exp-1", "a"])
    for k in range(n):
        s = build.gen_base(rng, algs=("dCRAB", "dCRAB", "DirectSearch", "GRAPE"), wide=True, evals=(3, 8), max_pulses=1, max_params=1)
        if s["alg"] == "dCRAB":
            s["si"] = rng.choice([1, 1, 2])
        if s["alg"] == "GRAPE":
            s["maxfun"] = rng.randint(2, 5)
        s["fom"].pop("noise", None)
        s["fom"]["ret"] = "float"
        s["job"] = name if same or rng.random() < 0.4 else rng.choice(["run", "job A", "exp-1", "a", "run2", "a_1"])
        s["clock_base"] = base + rng.choice([0, 0, 0, 0.3, 0.9, 1.0, 1e-4])
        s["micro"] = rng.random() < 0.25
        if rng.random() < 0.3:
            s["drift"] = {"after_SI": True, "minutes": 0.05, "num": 1}
        s["logfile"] = rng.random() < 0.85
        runs.append(s)
    scn = {"alg": "%d runs" % n, "runs": runs, "sched": rng.randrange(1 << 30), "sticky": rng.choice([0.0, 0.3, 0.8, 0.95]),
           "inproc": inproc, "faults": []}
    if rng.random() < 0.15:
        scn["leftover"] = rng.randrange(n)
    scn["nodir"] = rng.random() < 0.8
    if not inproc and rng.random() < 0.15:
        scn["kill"] = [rng.randrange(n), rng.randint(1, 60)]
    if inproc:
        scn["order"] = [rng.random() for _ in range(2 * n)]
        if rng.random() < 0.3:
            scn["nested"] = rng.randint(1, 4)
            scn["nested_exec"] = rng.random() < 0.4
        scn["chdir"] = rng.random() < 0.25
        for s in runs:
            if rng.random() < 0.3:
                s["edited"] = True
                s["np"] = rng.random() < 0.5
            for p in s["pulses"]:
                for key in ("guess", "scaling"):
                    if s["alg"] == "dCRAB" and rng.random() < 0.25:
                        p[key] = [build.r3(rng.uniform(0.1, 1)) for _ in range(p["bins_number"])]
            if s["alg"] in ("dCRAB", "DirectSearch") and rng.random() < 0.15:
                s["re_eval"] = [0.3, 0.5, 0.6]
            if s["alg"] in ("dCRAB", "DirectSearch") and rng.random() < 0.15:
                s["cbs"] = [rng.randint(2, 5), build.r3(10 ** rng.uniform(-2, 2))]
            if s.get("seed") is None:
                s["seed"] = rng.randrange(1 << 31)
            x = rng.random()
            if x < 0.25:
                g = rand_instant(rng, 8, kinds=("during", "after"))
                g["act"] = rng.choice(["flag", "flag", "sigint"])
                s["faults"].append(g)
            elif x < 0.35:
                s["faults"].append({"k": "bad", "eval": rng.randint(1, 8), "code": -1, "how": rng.choice(["better", "worse", "same", "none"])})
            elif x < 0.45:
                s["max_eval_total"] = rng.randint(1, 8)
    return scn


def variants(scn):
    import copy
    for k in range(len(scn["runs"])):
        if len(scn["runs"]) > 2:
            c = copy.deepcopy(scn)
            del c["runs"][k]
            c.pop("leftover", None)
            c.pop("kill", None)
            if "order" in c:
                c["order"] = c["order"][:2 * len(c["runs"])]
            yield c
    for key in ("kill", "leftover", "nested"):
        if key in scn:
            c = copy.deepcopy(scn)
            c.pop(key)
            yield c


def folder(rel):
    p = rel.split(os.sep)
    return p[1] if len(p) > 1 and p[0] == "QuOCS_Results" else None


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = "dir"
        for x in fs:
            p = os.path.join(d, x)
            with seams.real["open"](p, "rb") as f:
                out[os.path.relpath(p, root)] = hashlib.sha256(f.read()).hexdigest()[:12]
    return out


def diff(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))


def own_result(r, s, run, who):
    """The run's own folder holds the run's own outcome."""
    if run["outcome"] != "ok":
        if not run["killed"]:
            r.bad("exception", "%s: %s", who, run["exc"])
        return
    if run["best_value"] is None:     # stopped before anything was measured, or every evaluation failed
        return
    if run["final"] is None or run["best"] is None and not s.get("re_eval"):
        r.bad("own", "%s: final results %s, best controls %s", who, run["final_err"], run["best_err"])
        return
    if (s.get("drift") or s.get("re_eval")) and s["alg"] != "GRAPE":
        return
    v = run["best_value"]
    if not close(run["final"].get("Figure of merit"), v):
        r.bad("own", "%s: its results hold %r, its best value is %r", who, run["final"].get("Figure of merit"), v)
    if not (close(run["best"], v) or close(-run["best"], v)):
        r.bad("own", "%s: its best-controls file holds %r, its best value is %r", who, run["best"], v)
    if s["logfile"] and s["alg"] != "GRAPE" and run["nlog"] is not None and run["nlog"] > run["nevals"]:
        r.bad("own-log", "%s performed %d evaluations, its log announces %d", who, run["nevals"], run["nlog"])


def facts(s, run):
    w = run.world
    return {"outcome": run.outcome, "exc": run.exc, "path": getattr(run, "results_path", None), "killed": False,
            "folder": os.path.basename(run.results_path) if getattr(run, "results_path", None) else None,
            "final": run.final, "final_err": run.final_err, "best_err": run.best_err,
            "best": saved_scalar(run.best, "FoM") if run.best is not None else None,
            "best_value": best_value(s, w.evals), "nevals": len(w.evals), "evals": len(w.evals), "now": w.now,
            "nlog": None if run.log_text is None else run.log_text.count("Function evaluation number:"),
            "ops": [(o[0], o[1]) for o in w.ops if o[0] != "fsync"], "ops2": [(o[0], o[4]) for o in w.ops if o[4]],
            "digest": w.digest(), "steps": len(w.events)}


def account(r, s, f):
    st = r.stats
    st["runs"] += 1
    st["evals"] += f["evals"]
    st["sim_s"] += f["now"]
    st["steps"] += f["steps"]
    st["outcomes"][f["outcome"]] = st["outcomes"].get(f["outcome"], 0) + 1
    k = s["alg"] + ("/" + s["dsm"] if s.get("dsm") else "")
    st["algs"][k] = st["algs"].get(k, 0) + 1
    r.feed(f["digest"])


def run(scn):
    r = Result(scn)
    if scn["inproc"]:
        runner.with_root(lambda root: in_process(r, scn, root))
    else:
        runner.with_root(lambda root: processes(r, scn, root))
    return r


def prepare(scn, root):
    if not scn["nodir"] or scn.get("leftover") is not None:
        os.makedirs(os.path.join(root, "QuOCS_Results"))
    if scn.get("leftover") is not None and scn["leftover"] < len(scn["runs"]):
        s = scn["runs"][scn["leftover"]]
        for t in (0, 1):
            stamp = seams.real["datetime"].fromtimestamp(1_700_000_000.0 + s["clock_base"] + t)
            d = os.path.join(root, "QuOCS_Results", stamp.strftime("%Y%m%d_%H%M%S") + "_" + s["job"])
            if not os.path.isdir(d):
                os.makedirs(d)
                with open(os.path.join(d, "keep.txt"), "w") as f:
                    f.write("earlier run\n")


def judge_set(r, scn, fs, before):
    """Folders and failures of all runs of the set (fs: facts or None when killed)."""
    names = [s["job"] for s in scn["runs"]]
    folders = {}
    for k, f in enumerate(fs):
        who = "run %d (%r)" % (k, names[k])
        if f is None:
            continue
        if f["folder"] is None:
            if f["exc"] is None or not f["exc"].startswith("FileExistsError"):
                r.bad("construct", "%s could not be constructed: %s", who, f["exc"])
            elif names.count(names[k]) == 1 and not any(x.startswith("QuOCS_Results" + os.sep) and x.endswith("_" + names[k]) for x in before):
                r.bad("exclusive", "%s failed (%s) although no other run has its name", who, f["exc"])
            r.probe("refused")
            continue
        if os.path.join("QuOCS_Results", f["folder"]) in before:
            r.bad("shared", "%s uses the folder %s of an earlier run", who, f["folder"])
        if f["folder"] in folders:
            r.bad("shared", "%s and run %d share the folder %s", who, folders[f["folder"]], f["folder"])
        folders[f["folder"]] = k
        own_result(r, scn["runs"][k], f, who)
    for nm in set(names):
        idx = [k for k, x in enumerate(names) if x == nm]
        if all(fs[k] is not None and fs[k]["folder"] is None for k in idx) and \
                not any(x.endswith("_" + nm) for x in before):
            r.bad("all-refused", "all %d runs named %r were refused", len(idx), nm)
    return folders


def processes(r, scn, root):
    prepare(scn, root)
    before = tree(root)
    rng = random.Random(scn["sched"])

    def body(s):
        def go(step):
            w = runner.new_world(s, root)
            w.sched = step
            x = runner.execute(s, w, root)
            return facts(s, x)
        return go

    kill = {scn["kill"][0]: scn["kill"][1]} if scn.get("kill") else None
    trace = []
    ps = parties.run_parties([body(s) for s in scn["runs"]], rng, kill=kill, sticky=scn["sticky"], trace=trace)
    r.feed(len(trace), trace[:400])
    # two runs under way at once: the order of steps switches before one is done
    if any(trace[k][0] != trace[k + 1][0] for k in range(len(trace) - 1)):
        r.nontrivial = True
    fs = [p.result for p in ps]
    for k, f in enumerate(fs):
        if f is None:
            r.stats["fired"]["kill"] = r.stats["fired"].get("kill", 0) + 1
        else:
            account(r, scn["runs"][k], f)
    judge_set(r, scn, fs, before)
    for k, f in enumerate(fs):
        if f is None:
            continue
        for kind, rel in f["ops"] + f["ops2"]:
            d = folder(rel)
            if d is not None and d != f["folder"]:
                if kind == "mkdir" and rel.count(os.sep) == 1:
                    continue          # an attempt that failed because the folder exists
                r.bad("foreign", "run %d (folder %s): %s of %s", k, f["folder"], kind, rel)
                break
    after = tree(root)
    for p in diff(before, {k: v for k, v in after.items() if k in before}):
        r.bad("leftover", "the folder of an earlier run was changed: %s", p)
    own = {f["folder"] for f in fs if f is not None and f["folder"]}
    for p in after:
        d = folder(p)
        if p not in before and d is not None and d not in own and not scn.get("kill"):
            r.bad("stray", "%s belongs to no run", p)
    if r.stats["fired"].get("kill") is None and len(own) > 1:
        r.probe("concurrent-folders", len(own))


def make_opt(x, s, w, root):
    import io
    import sys
    old, seams.W = seams.W, w
    cwd = os.getcwd()
    os.chdir(root)
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        from quocslib.Optimizer import Optimizer
        from quocslib.handleexit.HandleExit import HandleExit
        w.he = HandleExit()
        settings = build.build_dict(s)
        x.opt = w.opt = Optimizer(settings, foms.make_fom(w, s), handle_exit_obj=w.he)
        x.results_path = x.opt.results_path
        if s.get("edited"):       # the user goes on to edit the dictionary for his next run
            w.fire("settings-edited")
            edit(settings)
    except FileExistsError as e:
        x.outcome, x.exc = "exception", "FileExistsError: %s" % e
    finally:
        seams.W = old
        sys.stdout = out
        os.chdir(cwd)


def edit(v):
    """Change every entry of nested settings where it is."""
    for k in list(v.keys() if isinstance(v, dict) else range(len(v))):
        x = v[k]
        if isinstance(x, (dict, list)):
            edit(x)
        elif isinstance(x, np.ndarray):
            x *= -1
            x += 1
        elif isinstance(x, bool):
            v[k] = not x
        elif isinstance(x, (int, float)):
            v[k] = x * 3 + 1
        elif isinstance(x, str):
            v[k] = x + "_2"


def in_process(r, scn, root):
    """Constructions and executions of several runs, interleaved in one process."""
    prepare(scn, root)
    if scn.get("chdir"):
        os.makedirs(os.path.join(root, "elsewhere", "QuOCS_Results"))
    before = tree(root)
    n = len(scn["runs"])
    # a seeded order in which every construction precedes its execution
    ev = []
    for k in range(n):
        a, b = sorted(scn["order"][2 * k:2 * k + 2])
        ev += [(a, "construct", k), (b, "execute", k)]
    ev.sort()
    runs = [None] * n
    state = {"now": 0.0}
    nested = scn.get("nested")

    def construct(k):
        s = scn["runs"][k]
        w = runner.new_world(s, root)
        w.t_base = scn["runs"][0]["clock_base"]     # one process, one clock
        w.handlers = state.setdefault("handlers", w.handlers)      # ... and one set of signal handlers
        w.now = state["now"]
        x = runner.Run()
        x.t_con = w.now
        x.scn, x.world, x.root, x.outcome, x.exc = s, w, root, "ok", None
        runs[k] = x
        make_opt(x, s, w, root)
        state["now"] = w.now

    def check(t0, t1, k, what):
        own = None
        if runs[k] is not None and getattr(runs[k], "results_path", None):
            own = os.path.basename(runs[k].results_path)
        for p in diff(t0, t1):
            if p != "QuOCS_Results" and (folder(p) is None or folder(p) != own):
                r.bad("foreign", "%s of run %d (folder %s) changed %s", what, k, own, p)
                return

    waiting = [k for _, what, k in ev if what == "construct"]
    t0, done = before, set()
    for _, what, k in ev:
        if what == "construct":
            if runs[k] is not None:
                continue
            construct(k)
            waiting.remove(k)
            t1 = tree(root)
            check(t0, t1, k, "construction")
            t0 = t1
            continue
        x = runs[k]
        if getattr(x, "opt", None) is None or k in done:
            continue
        w = x.world
        w.now = max(w.now, state["now"])
        w.phase = "execute"
        x.t_exec = w.now
        if scn.get("chdir"):
            x.root = os.path.join(root, "elsewhere")
        if sum(1 for y in runs if y is not None and getattr(y, "opt", None) is not None) > 1:
            r.nontrivial = True
        if nested and waiting:
            j = waiting[0]

            def inner(rec, w=w, j=j, k=k):
                if rec["n"] == nested and runs[j] is None:
                    # another run is constructed inside this evaluation
                    state["now"] = w.now
                    a = tree(root)
                    check(t0h[0], a, k, "execution")
                    construct(j)
                    waiting.remove(j)
                    b = tree(root)
                    check(a, b, j, "construction (inside an evaluation)")
                    t0h[0] = b
                    r.probe("nested-construction")
                    if scn.get("nested_exec") and getattr(runs[j], "opt", None) is not None:
                        # ... and executed, as part of this evaluation
                        y = runs[j]
                        y.world.phase = "execute"
                        y.t_exec = y.world.now
                        keep = seams.W
                        try:
                            runner.run_opt(y)
                        finally:
                            seams.W = keep
                        done.add(j)
                        state["now"] = max(state["now"], y.world.now)
                        c = tree(root)
                        check(b, c, j, "execution (inside an evaluation)")
                        t0h[0] = c
                        r.probe("nested-execution")
            t0h = [t0]
            w.on_eval_start = inner
            runner.run_opt(x)
            t0 = t0h[0]
        else:
            runner.run_opt(x)
        state["now"] = max(state["now"], w.now)
        t1 = tree(root)
        check(t0, t1, k, "execution")
        t0 = t1
    runner.drop_log_handlers()
    fs = []
    for k, x in enumerate(runs):
        if not getattr(x, "opt", None):
            x.final = x.final_err = x.best = x.best_err = x.log_text = None
        f = facts(scn["runs"][k], x)
        fs.append(f)
        account(r, scn["runs"][k], f)
    judge_set(r, scn, fs, before)
    for p in diff(before, {k: v for k, v in t0.items() if k in before}):
        r.bad("leftover", "the folder of an earlier run was changed: %s", p)
    if r.violations:
        return
    for k, x in enumerate(runs):
        if getattr(x, "opt", None) and scn["runs"][k]["alg"] != "AD":
            runner.with_root(lambda root2: alone(r, scn, k, x, root2))
            if r.violations:
                return


def story(x):
    return [("%s%s" % (e["n"], ctl_hash(e)), repr(e.get("FoM")), e.get("status"), e["si"], e["it"]) for e in x.world.evals]


def alone(r, scn, k, x, root):
    """The run does in the company of the others exactly what it does alone."""
    s = dict(scn["runs"][k], edited=False)
    w = runner.new_world(s, root)
    w.t_base, w.now = scn["runs"][0]["clock_base"], x.t_con
    y = runner.Run()
    y.scn, y.world, y.root, y.outcome, y.exc = s, w, root, "ok", None
    make_opt(y, s, w, root)
    w.now, w.phase = max(w.now, x.t_exec), "execute"
    runner.run_opt(y)
    runner.drop_log_handlers()
    a, b = story(x), story(y)
    if x.outcome != y.outcome or a != b:
        j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
        r.bad("altered", "run %d behaves differently in company (%s, %d evaluations) and alone (%s, %d evaluations), from evaluation "
              "%d on", k, x.outcome, len(a), y.outcome, len(b), j + 1)
        return
    fa, fb = x.final or {}, y.final or {}
    for key in ("Figure of merit", "terminate_reason", "total number of function evaluations", "parameters"):
        if repr(fa.get(key)) != repr(fb.get(key)):
            r.bad("altered", "run %d reports %s = %r in company and %r alone", k, key, fa.get(key), fb.get(key))
            return
    if x.log_text is not None and y.log_text is not None:
        na, nb = (t.count("Function evaluation number:") for t in (x.log_text, y.log_text))
        if na != nb:
            r.bad("altered-log", "run %d: its log announces %d evaluations in company and %d alone", k, na, nb)
    r.probe("compared-alone")
