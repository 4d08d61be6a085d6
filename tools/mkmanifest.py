"""Write /verif/MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded random search over simulated executions of the real quocslib code (single-process simulator: virtual clock, "
        "seeded entropy, numbered file operations, injected stops, signals, failures, kills, disk errors). It samples "
        "schedules and fault sequences, it does not enumerate them. Trusted: the simulator's seams, numpy/scipy%s and the "
        "oracle in sim/props/%s.py.")
EXTRA = {
    "C12": " The external program is a model written from the class's documentation.",
    "C13": " GUI signals are recorders standing in for Qt.",
}
NA = {
    "N01": "Pure numerical identities of stateless functions: no time, scheduling, I/O, fault or party can change them, so "
           "simulation with fault injection has nothing to vary; they need numeric or symbolic comparison instead.",
    "N02": "Pure functions of coefficients and a time grid: no nondeterminism or fault reaches them. Only the parts with "
           "behaviour over a run (limits, grids, order, finiteness, reconstruction) are claimed, as C15 and C16.",
    "N03": "Static resolution of names to classes from a dictionary before any run starts: no schedule, clock, I/O "
           "concurrency or fault is involved beyond reading one file.",
}
ids = ["C%02d" % i for i in range(1, 40)]
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(HERE, "properties.jsonl"))}
checks, na = [], [{"property": k, "reason": v} for k, v in NA.items()]
for p in ids:
    if p not in titles:
        continue
    f = os.path.join(HERE, "sim", "props", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "its check is not written yet"})
        continue
    jax = "JAX = True" in open(f).read()
    checks.append({
        "property": p, "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search, replayable)",
        "level": "exploration", "level_note": NOTE % ("/jax" if jax else "", p.lower()) + EXTRA.get(p, "")})
m = {"version": 1,
     "setup_cmd": "python3 check.py --selftest",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is reached by replacing standard-library functions (clock, sleep, entropy, "
              "files, signals) before quocslib is imported, and through the package's own injection points (FoM object, "
              "exit handler, communication signals). The fix: commits in /repo are listed in known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
