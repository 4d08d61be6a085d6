"""debug.py PROP INDEX [seed]: simulate one scenario of a property plainly and print what happened."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import seams
import importlib
prop, i = sys.argv[1], int(sys.argv[2])
seams.import_sut(with_jax="jax" in sys.argv)
seams.import_all("jax" in sys.argv)
from sim import runner, worker, world as sim_world
mod = importlib.import_module("sim.props." + prop.lower())
scn = mod.gen(worker.scenario_rng(prop, 1, i), "quick", i)
print(json.dumps(scn, indent=1)[:3000])
run = runner.simple_run(scn)
print(run.outcome, run.exc)
for e in run.world.evals:
    print(e["n"], e["si"], e["it"], round(e["t0"], 3), e.get("FoM"), e.get("std"), e.get("status"), e["params"], sim_world.ctl_hash(e)[:4])
print(run.final)
print("\n".join((run.log_text or "").splitlines()[-15:]))
runner.cleanup_base()
