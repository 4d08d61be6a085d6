"""cov.py [N]: which lines of quocslib the simulated runs of all properties never execute (N scenarios each)."""
import sys, os, glob, importlib, subprocess, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if len(sys.argv) < 3:
    n = sys.argv[1] if len(sys.argv) > 1 else "60"
    hit = {}
    ps = [subprocess.Popen([sys.executable, __file__, n, "C%02d" % i], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
          for i in range(1, 20)]
    for p in ps:
        o = p.communicate()[0].strip().splitlines()
        for f, ls in json.loads(o[-1] if o else "{}").items():
            hit.setdefault(f, set()).update(ls)
    src = "/repo/src/quocslib/"
    for f in sorted(glob.glob(src + "**/*.py", recursive=True)):
        code = compile(open(f).read(), f, "exec")
        lines, todo = set(), [code]
        while todo:
            c = todo.pop()
            if c.co_name != "<module>":
                lines |= {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
            todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
        miss = sorted(lines - hit.get(f, set()))
        print("%-55s %4d/%4d  %s" % (f[len(src):], len(lines) - len(miss), len(lines), miss if len(miss) < len(lines) else "none"))
    sys.exit()
from sim import seams
prop, n = sys.argv[2], int(sys.argv[1])
seams.import_sut(with_jax=True)
seams.import_all(True)
from sim import runner, worker
hit = {}
mon = sys.monitoring
mon.use_tool_id(3, "cov")
def line(code, l):
    if code.co_filename.startswith(seams.SUT_DIR):
        hit.setdefault(code.co_filename, set()).add(l)
    return mon.DISABLE
mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
mod = importlib.import_module("sim.props." + prop.lower())
out = os.dup(1)
for i in range(n):
    worker.do_request({"prop": prop, "seed": 1, "i": i, "tier": "quick"}, mod)
    if i % 5 == 0:
        mon.restart_events()
runner.cleanup_base()
os.write(out, ("\n" + json.dumps({k: sorted(v) for k, v in hit.items()}) + "\n").encode())
