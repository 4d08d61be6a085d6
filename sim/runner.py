"""Run one scenario in one world and collect everything observable about it."""
import glob
import io
import json
import logging
import os
import queue
import random
import shutil
import signal
import sys
import tempfile
import threading
import traceback
import warnings

from . import seams, foms, build
from .seams import SimKill, SimStuck, HarnessError
from .world import World

warnings.simplefilter("ignore")

_base = None


def scratch_base():
    global _base
    if _base is None or not os.path.isdir(_base):
        parent = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        _base = tempfile.mkdtemp(prefix="quocs-sim-", dir=parent)
    return _base


def clean_runs():
    """Remove what killed children left behind."""
    if _base and os.path.basename(_base).startswith("quocs-sim-"):
        for d in os.listdir(_base):
            shutil.rmtree(os.path.join(_base, d), ignore_errors=True)


def cleanup_base():
    global _base
    if _base and os.path.basename(_base).startswith("quocs-sim-"):
        os.chdir("/")
        shutil.rmtree(_base, ignore_errors=True)
        _base = None


class Rec:
    """Records what one GUI signal emits."""

    def __init__(self, world, name):
        self.world, self.name = world, name

    def emit(self, *a):
        import numpy as np
        w = self.world
        if self.name == "controls":
            pulses, grids, params = a
            item = {"pulses": [np.array(p, copy=True) for p in pulses], "grids": [np.array(g, copy=True) for g in grids],
                    "params": [np.array(p).ravel()[0] for p in params]}
        elif self.name == "fom":
            item = (int(a[0]), float(a[1]))
        else:
            item = a
        w.signals.append((self.name, len(w.evals), item))
        w.log("sig", self.name, len(w.evals), repr(item) if self.name != "controls" else "")


def make_he(world):
    """The stock exit handler with its flag behind a counted property (a GUI thread may flip it at any instant)."""
    from quocslib.handleexit.HandleExit import HandleExit

    class SimHandleExit(HandleExit):
        @property
        def is_user_running(self):
            world.flag_read()
            return self.__dict__.get("_running", True)

        @is_user_running.setter
        def is_user_running(self, v):
            self.__dict__["_running"] = v
            if not v:
                world.log("flag-off")

    return SimHandleExit()


class Run:
    pass


def new_world(scn, root, **kw):
    w = World(scn, root, **kw)
    w.signals = []
    w.line_cap = scn.get("_line_cap")
    return w


def execute(scn, world, root, opt_dict=None, pre=None, keep=None, make=None):
    """Construct and execute one optimizer in `world`.  Returns a Run; never lets the SUT's exceptions out."""
    import numpy as np
    run = Run()
    run.scn, run.world = scn, world
    run.exc = None
    run.outcome = "ok"
    run.root = root
    random.seed(scn.get("ambient", 0))
    np.random.seed(scn.get("ambient", 0) % (1 << 32))
    run.dict = build.build_dict(scn) if opt_dict is None else opt_dict
    make = make or (foms.make_ad_fom if scn["alg"] == "AD" else foms.make_fom)
    build.write_files(scn, root)
    old_cwd = os.getcwd()
    os.chdir(root)
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    seams.W = world
    try:
        with np.errstate(all="ignore"):
            try:
                from quocslib.Optimizer import Optimizer
                fom = make(world, scn)
                run.fom = fom
                from quocslib.handleexit.HandleExit import HandleExit
                he = make_he(world) if scn.get("he", "custom") == "custom" else HandleExit()
                world.he = he
                sigs = [Rec(world, "message"), Rec(world, "fom"), Rec(world, "controls")] if scn.get("signals") else None
                mode = scn.get("thread")
                world.foreign = mode == "both"
                opt = threaded(world, mode == "both", lambda: Optimizer(run.dict, fom, comm_signals_list=sigs, handle_exit_obj=he))
                world.opt = run.opt = opt
                run.results_path = opt.results_path
                world.phase = "between"
                world.advance(scn.get("construct_delay", 0.0))
                if pre is not None:
                    pre(run)
                world.instant("before-execute", 0)
                world.phase = "execute"
                world.exec_t0 = world.now
                world.lines = 0
                world.log("execute")
                world.mon_start()
                try:
                    threaded(world, mode, opt.execute)
                finally:
                    world.mon_stop()
                    world.exec_t1 = world.now
                    world.phase = "done"
                world.log("returned")
            except SimKill:
                run.outcome = "killed"
            except SimStuck as e:
                run.outcome, run.exc = "stuck", str(e)
                run.tb = traceback.format_exc()
            except HarnessError:
                raise
            except KeyboardInterrupt as e:
                run.outcome, run.exc, run.tb = "exception", "KeyboardInterrupt", traceback.format_exc()
            except BaseException as e:  # whatever escapes the system under test is an observation
                tb = traceback.extract_tb(e.__traceback__)
                if tb and "/sim/" in tb[-1].filename and "simulated failure" not in str(e) \
                        and not any(f.filename.startswith(seams.SUT_DIR) for f in tb[-3:]) \
                        and not isinstance(e, OSError):
                    raise HarnessError("harness: %s\n%s" % (e, traceback.format_exc()))
                run.outcome, run.exc, run.tb = "exception", "%s: %s" % (type(e).__name__, e), traceback.format_exc()
                run.exc_obj = e
            finally:
                world.mon_stop()
            if world.dead:         # a handler in the code swallowed the simulated kill
                run.outcome, run.exc = "killed", None
            world.log("outcome", run.outcome, run.exc and run.exc.replace(root, "<root>"))
    finally:
        seams.W = None
        world.closed = True
        sys.stdout, run_out = out, sys.stdout
        sys.stderr, run_err = err, sys.stderr
        run.stdout = run_out.getvalue()
        run.stderr = run_err.getvalue()
        os.chdir(old_cwd)
        if keep is None:
            drop_log_handlers()
    collect(run)
    return run


def threaded(world, mode, f):
    """f(), or f() in a thread of its own while the main thread waits for it and runs the signal handlers."""
    if not mode:
        return f()
    box, q = {}, queue.Queue()

    def body():
        try:
            box["result"] = f()
        except BaseException as e:
            box["exc"] = e
        q.put(None)

    def main_call(h):
        done = threading.Event()
        q.put((h, done))
        done.wait()
        if "handler" in box:
            raise box.pop("handler")

    world.fire("worker-thread")
    world.main_call = main_call
    t = threading.Thread(target=body, daemon=True)
    t.start()
    for h, done in iter(q.get, None):
        try:
            h()
        except BaseException as e:
            box["handler"] = e
        done.set()
    t.join()
    world.main_call = None
    if "exc" in box:
        raise box["exc"]
    return box["result"]


def run_opt(run):
    """Execute an optimizer that has already been constructed (run.opt) in run.world."""
    import numpy as np
    w = run.world
    old = os.getcwd()
    os.chdir(run.root)
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    seams.W = w
    try:
        with np.errstate(all="ignore"):
            try:
                w.exec_t0 = w.now
                run.opt.execute()
                w.log("returned")
            except SimKill:
                run.outcome = "killed"
            except SimStuck as e:
                run.outcome, run.exc, run.tb = "stuck", str(e), traceback.format_exc()
            except HarnessError:
                raise
            except BaseException as e:
                run.outcome, run.exc, run.tb = "exception", "%s: %s" % (type(e).__name__, e), traceback.format_exc()
            w.exec_t1 = w.now
            w.log("outcome", run.outcome, run.exc and run.exc.replace(run.root, "<root>"))
    finally:
        seams.W = None
        w.closed = True
        sys.stdout, sys.stderr = out, err
        os.chdir(old)
    collect(run)
    return run


def drop_log_handlers():
    lg = logging.getLogger("oc_logger")
    for h in list(lg.handlers):
        try:
            h.close()
        except Exception:
            pass
        lg.removeHandler(h)


def quiet_call(fn, *a, **k):
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        import numpy as np
        with np.errstate(all="ignore"):
            return fn(*a, **k), None
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)
    finally:
        sys.stdout = out


def load_json(path):
    try:
        with open(path) as f:
            return json.load(f), None
    except FileNotFoundError:
        return None, "missing"
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)


def load_best(results_path):
    """The saved best controls: (dict or None, error or None)."""
    import numpy as np
    c = sorted(glob.glob(os.path.join(glob.escape(results_path), "*best_controls.npz"))) + \
        sorted(glob.glob(os.path.join(glob.escape(results_path), "*best_controls.json")))
    if not c:
        return None, "missing"
    if c[0].endswith(".json"):
        return load_json(c[0])
    try:
        with open(c[0], "rb") as fh:
            with np.load(fh, allow_pickle=True) as z:
                return {k: z[k] for k in z.files}, None
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, e)


def collect(run):
    run.final = run.final_err = run.best = run.best_err = None
    run.controls = run.controls_err = run.bare = run.bare_err = None
    run.log_text = None
    rp = getattr(run, "results_path", None)
    if rp is None:
        return
    fs = glob.glob(os.path.join(glob.escape(rp), "*optimized_parameters.json"))
    run.final, run.final_err = load_json(fs[0]) if fs else (None, "missing")
    run.best, run.best_err = load_best(rp)
    ls = glob.glob(os.path.join(glob.escape(rp), "*_logging.log"))
    if ls:
        with open(ls[0], errors="replace") as f:
            run.log_text = f.read()
    if run.outcome == "ok":
        alg = run.opt.get_optimization_algorithm()
        run.controls, run.controls_err = quiet_call(alg.get_best_controls)
        run.bare, run.bare_err = quiet_call(alg.get_best_bare_controls)


def with_root(fn):
    """Run fn(root) in a fresh scratch directory, removed afterwards."""
    root = tempfile.mkdtemp(prefix="r-", dir=scratch_base())
    try:
        return fn(root)
    finally:
        assert os.path.basename(root).startswith("r-") and root.startswith(scratch_base())
        shutil.rmtree(root, ignore_errors=True)


def simple_run(scn, hook=None, **kw):
    """One optimizer, one world, one scratch directory."""
    def go(root):
        w = new_world(scn, root)
        if hook is not None:
            hook(w)
        return execute(scn, w, root, **kw)
    return with_root(go)
