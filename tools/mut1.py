"""mut1.py N prop...: run N scenarios of each property on VERIF_REPO in this process image; print the first that notices."""
import sys, os, json, signal, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
n, props = int(sys.argv[1]), sys.argv[2:]
from sim import seams
try:
    seams.import_sut(with_jax=True)
    seams.import_all(True)
except BaseException as e:
    print(json.dumps({"killed": "import", "msg": repr(e)[:200]}))
    sys.exit()
from sim import runner, worker
runner.scratch_base()
out = {"killed": None}
for prop in props:
    mod = importlib.import_module("sim.props." + prop.lower())
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        res = {}
        import io
        os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
        os.dup2(os.open("/dev/null", os.O_WRONLY), 2)
        signal.alarm(600)
        for i in range(n):
            a = worker.do_request({"prop": prop, "seed": 1, "tier": "quick", "i": i}, mod)
            if a.get("harness"):
                res = {"killed": "H" + prop, "i": i, "msg": a["harness"][:200]}
                break
            if a.get("violations"):
                v = a["violations"][0]
                res = {"killed": prop, "i": i, "msg": v["cls"] + " " + v["msg"][:120]}
                break
        seams.real["os_write"](w, json.dumps(res).encode())
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    try:
        os.killpg(pid, 9)
    except OSError:
        pass
    os.waitpid(pid, 0)
    runner.clean_runs()
    try:
        res = json.loads(buf)
    except ValueError:
        res = {"killed": "D" + prop, "msg": "died or timed out"}
    if res:
        out = res
        if not res["killed"].startswith("H"):
            break
runner.cleanup_base()
print(json.dumps(out))
