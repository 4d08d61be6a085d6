"""
A worker process: reads one request per line on stdin, simulates it in a forked child, answers one line on stdout.

Every scenario starts from the same freshly imported process image, so its outcome depends on the scenario alone.
"""
import gc
import importlib
import json
import os
import random
import select
import signal
import sys
import traceback

from . import seams


def scenario_rng(prop, seed, i):
    return random.Random("%s/%d/%d" % (prop, seed, i))


def do_request(req, mod):
    from .seams import HarnessError
    from . import runner
    try:
        if "scn" in req:
            scn = req["scn"]
        else:
            scn = mod.gen(scenario_rng(req["prop"], req["seed"], req["i"]), req["tier"], req["i"])
        if scn is None:
            return {"skip": True}
        if "_batch" in scn:      # one process running several scenarios: the last one counts
            for x in scn["_batch"][:-1]:
                mod.run(dict(x))
            res = mod.run(dict(scn["_batch"][-1])).as_dict()
            res["resolved"] = scn
            res["scn"] = scn
            return res
        if req.get("line_cap"):
            scn["_line_cap"] = req["line_cap"]
        res = mod.run(scn).as_dict()
        scn.pop("_line_cap", None)
        if res["violations"] or req.get("want_scn"):
            res["scn"] = res["resolved"] or scn
        return res
    except HarnessError as e:
        return {"harness": "%s\n%s" % (e, traceback.format_exc())}
    except BaseException as e:
        return {"harness": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())}


def serve(prop, with_jax):
    real = seams.real
    seams.import_sut(with_jax=with_jax)
    seams.import_all(with_jax)
    mod = importlib.import_module("sim.props." + prop.lower())
    from . import runner
    runner.scratch_base()
    gc.collect()
    gc.freeze()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("quit"):
            break
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            try:
                if "batch" in req:
                    ans = []
                    for i in req["batch"]:
                        ans.append(dict(do_request(dict(req, i=i), mod), i=i))
                    ans = json.dumps({"answers": ans}, default=str)
                else:
                    ans = json.dumps(do_request(req, mod), default=str)
            except BaseException:
                ans = json.dumps({"harness": traceback.format_exc()})
            data = ans.encode()
            while data:
                n = real["os_write"](w, data)
                data = data[n:]
            os._exit(0)
        os.close(w)
        buf = b""
        deadline = real["monotonic"]() + req.get("wall", 60)
        timeout = False
        while True:
            left = deadline - real["monotonic"]()
            if left <= 0:
                timeout = True
                break
            rd, _, _ = select.select([r], [], [], min(left, 5))
            if rd:
                d = os.read(r, 1 << 16)
                if not d:
                    break
                buf += d
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
        runner.clean_runs()
        if timeout:
            ans = {"timeout": True}
        else:
            try:
                ans = json.loads(buf)
            except ValueError:
                ans = {"died": True}
        ans["i"] = req.get("i")
        out.write(json.dumps(ans) + "\n")
        out.flush()
    runner.cleanup_base()


if __name__ == "__main__":
    serve(sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == "jax")
