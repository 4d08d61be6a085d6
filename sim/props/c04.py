"""C04: a stop request ends the run promptly and cleanly."""
from .common import *
from .. import seams

RULE = ("seeded random runs with one or two stop requests - exit flag flipped or SIGINT delivered - during an evaluation, at "
        "the end of one, between construction and execution, or at a random line executed by quocslib between two "
        "evaluations, and pairs of optimizers of which the first constructed executes first; non-trivial = a stop fired "
        "before the run would have ended")
COUNT = {"quick": 1700, "thorough": 50000}
JAX = True


def gen(rng, tier, i):
    ad = i % 90 == 4
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.8, evals=(4, 25))
    nb = scn["alg"] in ("dCRAB", "DirectSearch")
    last = 30
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 4), rng.choice([1, 2, 3])
        last = 5
    if scn["alg"] == "GRAPE":
        scn["maxfun"] = rng.randint(8, 40)
        last = 12
    if nb:
        x = rng.random()
        if x < 0.2:
            scn["re_eval"] = rng.choice(["default", [0.3, 0.5, 0.51], [0.4, 0.6]])
            scn["fom"]["std"] = rng.choice([0.05, 0.3])
        elif x < 0.4:
            scn["drift"] = {"after_SI": True, "num": rng.choice([1, 2, 3])}
            if rng.random() < 0.6:
                scn["drift"]["minutes"] = build.r3(rng.uniform(0.02, 0.3))
        elif x < 0.5:
            scn["cbs"] = [rng.randint(3, 8), build.r3(rng.uniform(0.001, 0.3))]
        last = scn.get("si", 1) * scn["max_eval"]
        if rng.random() < 0.3:
            scn.pop("max_eval")               # only the stop ends it
            scn["max_eval_total"] = 300
            last = 60
        if scn["alg"] == "dCRAB" and rng.random() < 0.12:
            scn["si"] = 20000                 # "until I stop it"
            scn["max_eval_total"], last = 60, 30
    for k in range(rng.choice([1, 1, 1, 2])):
        x = rng.random()
        if x < 0.04:
            f = {"k": "at", "when": "before-execute", "eval": 0}
        else:
            f = rand_instant(rng, last, kinds=("during", "after", "lines", "lines", "lines", "lines"))
            if rng.random() < 0.15:
                f["eval"] = rng.randint(1 if f["when"] != "lines" else 0, 3)
        f["act"] = rng.choice(["flag", "flag", "sigint"])
        scn["faults"].append(f)
    if rng.random() < 0.15:
        scn["faults"].append(dict(rand_instant(rng, last), act=rng.choice(["stall", "jump"]), delta=build.r3(rng.uniform(0, 5000))))
    if rng.random() < 0.12 and not ad:
        scn["pair"] = {"sigint_b": rng.randint(1, 6) if rng.random() < 0.6 else None}
        scn.pop("thread", None)      # only the main thread can take over Ctrl-C
        scn["he"] = "default"
        for f in scn["faults"]:
            if f.get("when") == "before-execute":
                f["act"] = "flag"        # no run is executing: whose Ctrl-C it is is open
            elif f["act"] == "flag" and rng.random() < 0.8:
                f["act"] = "sigint"
            if f.get("when") == "lines" and f["eval"] == 0:
                f["lines"] += 60         # execution has really begun
    if i % 70 == 33 and lengthen(rng, scn):
        f = rand_instant(rng, 120)
        f["act"] = rng.choice(["flag", "sigint"])
        f["eval"] = rng.randint(30, 120)
        scn["faults"].append(f)
        scn.pop("pair", None)
    return scn


def judge(r, run, who="the run"):
    w = run.world
    if run.outcome in ("exception", "stuck"):
        judge_outcome(r, run, "execute() of " + who)
        return
    judge_results(r, run)
    if w.stop_at is None:
        return
    extra = len(w.evals) - w.stop_at
    how = "during evaluation %d" % w.stop_at if w.stop_in_eval else \
        "before execute()" if w.stop_phase == "between" else "after %d evaluations, at %s" % (w.stop_at, getattr(w, "last_site", "?"))
    most = 0 if w.stop_in_eval or w.stop_phase == "between" else 1
    if extra > most:
        r.bad("late", "%s: stop requested %s, but %d more evaluations started", who, how, extra)
    r.nontrivial = True


def run(scn):
    if scn.get("pair"):
        return run_pair(scn)
    r, run = simple(scn)
    judge(r, run)
    return r


def run_pair(scn):
    """Construct A, construct B, execute A, execute B: each interrupt belongs to the run that is executing."""
    r = Result(scn)
    other = build.clone(scn)
    other["job"] = "other"
    other["faults"] = []
    other.pop("pair")
    kb = scn["pair"]["sigint_b"]
    if kb:
        other["faults"].append({"k": "at", "when": "during", "eval": kb, "act": "sigint"})

    def go(root):
        wa, wb = runner.new_world(scn, root), runner.new_world(other, root)
        held = {}

        def pre(run):
            from quocslib.Optimizer import Optimizer
            from quocslib.handleexit.HandleExit import HandleExit
            fom = foms.make_fom(wb, other)
            held["dict"] = build.build_dict(other)
            wb.he = HandleExit()
            held["opt"] = wb.opt = Optimizer(held["dict"], fom, handle_exit_obj=wb.he)

        a = runner.execute(scn, wa, root, pre=pre, keep=True)
        b = None
        if "opt" in held and a.outcome == "ok":
            wb.handlers = wa.handlers
            wb.now = wa.now
            wb.phase = "execute"
            b = runner.Run()
            b.scn, b.world, b.outcome, b.exc, b.root = other, wb, "ok", None, root
            b.opt, b.results_path = held["opt"], held["opt"].results_path
            runner.run_opt(b)
        runner.drop_log_handlers()
        return a, b

    a, b = runner.with_root(go)
    r.add(a)
    judge(r, a, "A (constructed first, executing)")
    if b is not None:
        r.add(b)
        judge(r, b, "B (constructed last, executed second)")
        if b.world.stop_at is None and not b.world.evals:
            r.bad("other-run", "a stop of A also stopped B: B performed no evaluation at all")
    r.nontrivial = a.world.stop_at is not None or (b is not None and b.world.stop_at is not None)
    return r
