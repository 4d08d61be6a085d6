"""C06: the FoM goal stops a run exactly when it is reached."""
from .common import *

RULE = ("seeded random runs; each is simulated once without a goal and once with a goal taken from the values of the first "
        "run (exactly equal to one of them, between two of them, zero, or out of reach): the second must perform exactly "
        "the evaluations up to and including the first that reaches the goal; non-trivial = the goal ended the run early")
COUNT = {"quick": 1000, "thorough": 30000}
JAX = True


def gen(rng, tier, i):
    ad = i % 120 == 13
    scn = build.gen_base(rng, algs=("AD",) if ad else ("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "GRAPE"),
                         wide=rng.random() < 0.8, evals=(3, 30))
    if ad:
        scn["maxfun"], scn["si"] = rng.randint(2, 4), rng.choice([1, 2, 3])
    if not ad and rng.random() < 0.35:
        scn["fom"]["digits"] = rng.choice([0, 1, 2])
        scn["fom"]["offset"] = rng.choice([0.0, 0.0, -1.0])
    if not ad and rng.random() < 0.15:
        scn["fom"]["script"] = [build.r3(rng.uniform(-2, 2)) for _ in range(rng.randint(3, 30))]
    if rng.random() < 0.15:
        scn["fom"]["drift"] = build.r3(rng.uniform(-0.1, 0.1))
    if rng.random() < 0.2:
        scn["faults"].append({"k": "bad", "eval": rng.randint(2, 30), "code": 0, "how": "nan"})
    if rng.random() < 0.15:
        scn["faults"].append({"k": "bad", "eval": rng.randint(2, 40), "code": rng.choice([-1, 2]),
                              "how": rng.choice(["better", "none", "same"])})
    if rng.random() < 0.1:
        scn["faults"].append({"k": "at", "when": rng.choice(["during", "after"]), "eval": rng.randint(1, 40),
                              "act": rng.choice(["flag", "sigint"])})
    if rng.random() < 0.2:
        scn["max_eval_total"] = rng.randint(2, 60)
    scn["goal_pick"] = [rng.choice(["value", "value", "value", "below", "above", "zero", "whole", "unreachable"]), rng.random()]
    if i % 70 == 33 and lengthen(rng, scn):
        scn["goal_pick"][0] = rng.choice(["value", "below", "above"])
    return scn


def run(scn):
    r = Result(scn)
    scn = dict(scn, faults=[dict(f) for f in scn.get("faults", [])])
    s = sign(scn)
    free = build.clone(scn)
    free["FoM_goal"] = None
    twin = runner.simple_run(free)
    r.add(twin)
    if twin.outcome != "ok":
        judge_outcome(r, twin)
        return r
    tv = twin.world.evals
    vals = [e["FoM"] for e in succ(tv)]
    if "goal_pick" in scn:
        how, x = scn.pop("goal_pick")
        if not vals:
            return r
        # the record sequence and single values both matter
        recs = [v for k, v in enumerate(vals) if all(s * v < s * u for u in vals[:k])]
        pool = recs if x < 0.6 else vals
        v = pool[min(len(pool) - 1, int(x * 1e4) % len(pool))]
        exact = scn["fom"].get("ret") != "np32" and scn["alg"] != "AD"
        if how == "below" and exact:
            v = v - s * abs(v) * 1e-9 - s * 1e-9
        elif how == "above" and exact:
            v = v + s * abs(v) * 1e-9 + s * 1e-9
        elif how == "zero" and (exact or all(u != 0 for u in vals)):
            v = 0.0 if x < 0.5 else 0
        elif how == "whole" and math.isfinite(v) and abs(v) < 1e9 and (exact or int(math.floor(v)) not in vals):
            v = int(math.floor(v))
        elif how == "unreachable":
            v = (min(vals) if s > 0 else max(vals)) - s * 10.0
        scn["FoM_goal"] = v
        r.resolved = scn
    g = scn["FoM_goal"]
    run = runner.simple_run(scn)
    r.add(run)
    if not judge_outcome(r, run):
        return r
    judge_results(r, run)
    ev = run.world.evals
    hit = [e["n"] for e in succ(tv) if s * e["FoM"] <= s * g]
    want = hit[0] if hit else len(tv)
    r.nontrivial = bool(hit) and want < len(tv)
    if len(ev) > want:
        r.bad("continues", "%d evaluations, but number %d returned %r and the goal is %r (%s)", len(ev), want,
              tv[want - 1]["FoM"], g, scn["direction"])
    elif len(ev) < want:
        r.bad("early", "the run ended after %d evaluations, none reached the goal %r (%s); without the goal it goes on to %d",
              len(ev), g, scn["direction"], len(tv))
    return r
