"""C10: a seed reproduces the run."""
import copy
import json
import subprocess
import sys

from .common import *
from .. import seams

RULE = ("seeded random runs simulated twice with the same settings and seed but different evaluation durations, clocks and clock "
        "jumps, global random states (reseeded and drawn from during evaluations), stop-flag timing after the last evaluation, "
        "runs before or in between in the same process, and the settings taken fresh, from the dictionary already used, from a "
        "deep copy or from the file saved with the results - and in another process with another hash seed; the evaluated "
        "controls must agree bit for bit; a third run with another seed must differ, and so must "
        "runs without a seed; non-trivial = at least three evaluations "
        "compared")
COUNT = {"quick": 800, "thorough": 25000}
JAX = True
ASSUMPTIONS = ["figure-of-merit values are a function of the controls and the evaluation number, not of time",
               "numpy's floating-point results are the same in both processes (same machine)"]


def gen(rng, tier, i):
    ad = i % 120 == 17
    wide = rng.random() < 0.7
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "GRAPE"),
                         dsms=("NelderMead", "NelderMead", "CMAES"), wide=wide, evals=(4, 30),
                         bases=("Fourier", "Chebyshev", "Walsh", "Sinc"))
    scn["seed"] = rng.choice([0, 1, 2022, rng.randrange(1 << 31), rng.randrange(1 << 31)])
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 4), rng.choice([1, 2])
    if scn["alg"] in ("dCRAB", "DirectSearch"):
        x = rng.random()
        if x < 0.2:
            scn["re_eval"] = rng.choice(["default", [0.3, 0.5, 0.51]])
            scn["fom"]["std"] = rng.choice([0.05, 0.3])
        elif x < 0.35 and scn["alg"] == "dCRAB":
            scn["drift"] = {"after_SI": True, "num": rng.choice([1, 2])}
    if rng.random() < 0.2:
        scn["max_eval_total"] = rng.randint(2, 60)
    tw = {"ambient": rng.randrange(1 << 30), "clock_base": build.r3(rng.uniform(0, 1e7)),
          "source": rng.choice(["fresh", "fresh", "used", "copy", "saved"]),
          "prior": rng.choice([None, None, "run", "between", "construct"]),
          "churn": rng.choice([0, 1, 2]), "jump": rng.random() < 0.3}
    t = {}
    build.gen_latency(rng, t)
    tw["latency"] = t["latency"]
    if i % 75 == 5 and not ad:
        tw["process"] = rng.randrange(1, 1 << 31)
    scn["twin"] = tw
    # limits may clip every start to the same point, and one dimension has only two directions
    scn["differs"] = wide and build.dim(scn) > 1
    scn["churn"] = rng.choice([0, 1])
    if scn["differs"] and scn["alg"] in ("dCRAB", "DirectSearch") and rng.random() < 0.2:
        scn["unseeded"] = rng.randrange(1 << 30)
    scn["other"] = scn["seed"] + rng.choice([1, 1, 2, 1000, 1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 40])
    if i % 70 == 33 and lengthen(rng, scn):
        scn["max_eval"] = min(scn["max_eval"], 130)
    return scn


def churn(w, scn):
    """A figure of merit that uses and reseeds the global random generators."""
    k = scn.get("churn", 0)
    if not k:
        return

    def start(rec):
        import random as _r
        if k == 2 and rec["n"] % 3 == 0:
            np.random.seed((scn["ambient"] + rec["n"]) % (1 << 32))
            _r.seed(scn["ambient"] * 7 + rec["n"])
        np.random.rand(1 + rec["n"] % 5)
        np.random.randn(rec["n"] % 3)
        _r.random()
    w.on_eval_start = start


def hashes(run):
    return [ctl_hash(e) for e in run.world.evals]


def digest(scn):
    run = runner.simple_run(scn, hook=lambda w: churn(w, scn))
    return run


def other_process(scn, hashseed):
    import os as _os
    env = dict(_os.environ, PYTHONHASHSEED=str(hashseed % 4294967295))
    p = subprocess.run([sys.executable, "-m", "sim.props.c10"], input=json.dumps(scn), capture_output=True, text=True,
                       env=env, timeout=200)
    if p.returncode:
        raise seams.HarnessError("twin process: " + p.stderr[-2000:])
    return json.loads(p.stdout.strip().splitlines()[-1])


def run(scn):
    r = Result(scn)
    tw = scn["twin"]
    first = {k: v for k, v in scn.items() if k != "twin"}
    fresh_dict = build.build_dict(first)
    pristine = copy.deepcopy(fresh_dict)
    held = {}

    def go(root):
        w = runner.new_world(first, root)
        churn(w, first)
        x = runner.execute(first, w, root, opt_dict=fresh_dict)
        p = glob.glob(os.path.join(glob.escape(x.results_path), "*optimization_dictionary.json")) \
            if getattr(x, "results_path", None) else []
        held["saved"], held["err"] = runner.load_json(p[0]) if p else (None, "missing")
        return x

    a = runner.with_root(go)
    r.add(a)
    if not judge_outcome(r, a):
        return r
    second = dict(build.clone(first), ambient=tw["ambient"], clock_base=tw["clock_base"], latency=tw["latency"],
                  churn=tw["churn"])
    if tw["jump"]:
        second["faults"] = second["faults"] + [{"k": "at", "when": "during", "eval": 2, "act": "jump", "delta": -1e5}]
    if tw["source"] == "used":
        d = fresh_dict
    elif tw["source"] == "copy":
        d = copy.deepcopy(pristine)
    elif tw["source"] == "saved":
        d = held["saved"]
        if d is None:
            r.bad("saved-dict", "the settings saved with the results cannot be read back: %s", held["err"])
            return r
    else:
        d = build.build_dict(first)
    if tw["prior"] == "run":
        runner.simple_run(dict(first, ambient=tw["ambient"] + 1, seed=77))
    if tw.get("process"):
        got = other_process(second, tw["process"])
        hb, final_b, out_b = got["hashes"], got["final"], got["outcome"]
        r.feed(got)
        r.probe("other-process")
    else:
        def go2(root):
            w = runner.new_world(second, root)
            churn(w, second)
            pre = None
            if tw["prior"] in ("between", "construct"):
                third = dict(build.clone(first), job="third", seed=99)

                def pre(run):
                    wx = runner.new_world(third, root)
                    from quocslib.Optimizer import Optimizer
                    from quocslib.handleexit.HandleExit import HandleExit
                    make = foms.make_ad_fom if third["alg"] == "AD" else foms.make_fom
                    wx.he = HandleExit()
                    o = Optimizer(build.build_dict(third), make(wx, third), handle_exit_obj=wx.he)
                    wx.opt = o
                    if tw["prior"] == "between":
                        o.execute()
                    r.probe("interleaved-" + tw["prior"])
            return runner.execute(second, w, root, opt_dict=d, pre=pre)
        b = runner.with_root(go2)
        r.add(b)
        hb, final_b, out_b = hashes(b), b.final, b.outcome
        if b.outcome != "ok":
            judge_outcome(r, b, "the second run (%s)" % tw["source"])
            return r
    if out_b != "ok":
        r.bad("second", "the second run did not end normally: %s", out_b)
        return r
    ha = hashes(a)
    how = "%s dictionary, %s" % (tw["source"], "other process" if tw.get("process") else tw["prior"] or "nothing in between")
    if ha != hb:
        k = next((i for i, (x, y) in enumerate(zip(ha, hb)) if x != y), min(len(ha), len(hb)))
        r.bad("not-reproduced", "seed %r: %d and %d evaluations, the controls of evaluation %d differ (%s)", scn["seed"], len(ha),
              len(hb), k + 1, how)
        return r
    fa = a.final.get("Figure of merit") if a.final else None
    fb = final_b.get("Figure of merit") if final_b else None
    if not close(fa, fb, 0.0):
        r.bad("final", "seed %r: the same evaluations, but final figures of merit %r and %r (%s)", scn["seed"], fa, fb, how)
    if len(ha) >= 3:
        r.nontrivial = True
    if len(ha) >= 3 and scn.get("differs"):
        c = digest(dict(build.clone(first), seed=scn.get("other", scn["seed"] + 1)))
        r.add(c)
        if judge_outcome(r, c) and hashes(c)[:len(ha)] == ha:
            r.bad("seed-unused", "seeds %r and %r give the same %d evaluations", scn["seed"], scn.get("other", scn["seed"] + 1), len(ha))
    if len(ha) >= 3 and scn.get("unseeded") is not None:
        # without a seed: two runs from differently seeded global generators
        pair = [digest(dict(build.clone(first), seed=None, churn=0, ambient=x)) for x in
                (scn["unseeded"], scn["unseeded"] ^ 0x2a5b1)]
        ok = True
        for x in pair:
            r.add(x)
            ok = judge_outcome(r, x, "without a seed") and ok
        r.probe("unseeded")
        if ok and min(len(x.world.evals) for x in pair) >= 3 and hashes(pair[0]) == hashes(pair[1]):
            r.bad("not-random", "without a seed, two runs from different states of the random generators make the same %d "
                  "evaluations", len(pair[0].world.evals))
    return r


if __name__ == "__main__":
    real_out = sys.stdout
    scn = json.load(sys.stdin)
    seams.import_sut(with_jax=scn["alg"] == "AD")
    seams.import_all(scn["alg"] == "AD")
    try:
        x = digest(scn)
        print(json.dumps({"hashes": hashes(x), "final": x.final, "outcome": x.outcome}, default=str), file=real_out)
    finally:
        runner.cleanup_base()
