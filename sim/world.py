"""One simulated world: virtual clock, scratch disk, entropy, injections, and the recorded history of one run."""
import errno
import hashlib
import json
import os
import random
import sys

from . import seams
from .seams import SimKill, SimStuck, HarnessError

EPOCH = 1_700_000_000.0
MAX_EVALS = 4000          # evaluations of one run
MAX_SLEEPS = 20000
MAX_READS = 20000         # stop-flag reads without an evaluation in between
MAX_OPS = 400000          # file operations of one run
TOOL = 4                  # sys.monitoring tool id

_ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS}


class World:
    def __init__(self, scn, root, name="run"):
        self.scn = scn
        self.root = os.path.realpath(root)
        self.name = name
        self.now = 0.0
        self.t_base = float(scn.get("clock_base", 0.0))
        self.wall_off = 0.0
        self.entropy = random.Random(scn.get("ambient", 0))
        self.events = []
        self.evals = []            # one record per figure-of-merit evaluation that started
        self.ops = []              # mutating file operations (kind, relpath, nbytes)
        self.nops = 0
        self.max_evals = int(scn.get("max_evals") or MAX_EVALS)
        self.dead = False
        self.closed = False
        self.fdpaths = {}
        self.handlers = {}
        self.main_call = None        # set while the run is executed in a thread that is not the main one
        self.foreign = False         # set if the run was constructed in such a thread
        self.opt = None
        self.phase = "construct"
        self.flag_reads = 0
        self.reads_since_eval = self.sleeps_since_eval = 0
        self.stop_at = None        # number of evaluations started when the first stop request was made
        self.stop_in_eval = False
        self.fired = {}            # fault kind -> times it actually happened
        self.faults = [dict(f) for f in scn.get("faults", [])]
        self.lines = 0             # quocslib lines since the last evaluation ended
        self.total_lines = 0
        self.line_cap = None
        self.mon_on = False
        self._in_cb = False
        self.exec_t0 = None
        self.sched = None          # callable(kind, relpath): scheduling point (multi-party scenarios)
        self.after_op = None       # callable(kind, relpath): observer
        self.on_eval_start = None
        self.in_eval = False
        self.probes = {}
        self.disk_until = None
        self.disk_err = None

    # -- log ------------------------------------------------------------------------------------------------------
    def log(self, kind, *payload):
        self.events.append((kind,) + payload)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.log("fault", kind, len(self.evals))

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # -- clock ----------------------------------------------------------------------------------------------------
    def wall(self):
        self.now += 1e-7
        return EPOCH + self.t_base + self.now + self.wall_off

    def mono(self):
        self.now += 1e-7
        return 1000.0 + self.now

    def advance(self, d):
        self.now += d

    def sleep(self, d):
        self.log("sleep", round(d, 9))
        self.sleeps_since_eval += 1
        if self.sleeps_since_eval > MAX_SLEEPS:
            raise SimStuck("slept %d times, no evaluation begins or ends" % self.sleeps_since_eval)
        self.now += max(d, 0.0)
        if self.sched is not None:
            self.sched("sleep", "")

    # -- files ----------------------------------------------------------------------------------------------------
    def owns(self, path):
        if isinstance(path, int):
            return self.fdpaths.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def rel(self, p):
        return os.path.relpath(p, self.root) if os.path.isabs(p) else p

    def fs_op(self, kind, path, nbytes=None, mutating=True, path2=None):
        if self.closed:
            return None
        rel = self.rel(path)
        if self.sched is not None:
            self.sched(kind, rel if path2 is None else rel + "\0" + self.rel(path2))
        if not mutating:
            return None
        if self.dead:
            return None
        i = self.nops
        self.nops += 1
        if self.nops > MAX_OPS:
            raise SimStuck("file operations without end")
        self.ops.append((kind, rel, nbytes, len(self.evals), path2 and self.rel(path2)))
        if self.after_op is not None:
            self.after_op(i, kind, rel)
        self.log("op", kind, rel, nbytes)
        for f in self.faults:
            if f["k"] == "kill" and f.get("op") == i:
                self.fire("kill:" + kind)
                if kind == "write" and f.get("part") is not None and nbytes:
                    return ("kill", int(nbytes * f["part"]))
                self.die()
            if f["k"] == "disk" and f.get("op", 1 << 60) <= i < f["op"] + f.get("len", 1):
                if kind in ("remove", "rmdir"):
                    continue
                if f.get("short") is not None and i == f["op"] and kind == "write" and nbytes and nbytes > 1:
                    self.fire("short-write")
                    return ("short", int(nbytes * f["short"]))
                self.fire("disk:" + f["errno"])
                raise OSError(_ERR[f["errno"]], os.strerror(_ERR[f["errno"]]), path)
        return None

    def die(self):
        self.dead = True
        raise SimKill()

    # -- stop flag ------------------------------------------------------------------------------------------------
    def note_stop(self, how):
        if self.stop_at is None:
            self.stop_at = len(self.evals)
            self.stop_in_eval = self.in_eval
            self.stop_phase = self.phase
            self.log("stop", how, self.stop_at, self.in_eval)

    def flag_read(self):
        self.flag_reads += 1
        self.reads_since_eval += 1
        if self.reads_since_eval > MAX_READS:
            raise SimStuck("stop flag read %d times without an evaluation" % self.reads_since_eval)

    # -- injections at instants -----------------------------------------------------------------------------------
    def inject(self, f):
        f["done"] = True
        act = f["act"]
        if act == "flag":
            self.fire("stop-flag")
            self.note_stop("flag")
            self.he.set_is_user_running(False)
        elif act == "sigint":
            import signal as _s
            h = self.handlers.get(int(_s.SIGINT))
            if self.main_call is not None or self.foreign:
                if not callable(h) or h is _s.default_int_handler:
                    return      # interrupts the main thread, which has nothing to do with this run
                self.fire("sigint")
                self.note_stop("sigint")
                (self.main_call or (lambda g: g()))(lambda: h(int(_s.SIGINT), sys._getframe(1)))
                return
            self.fire("sigint")
            self.note_stop("sigint")
            if h is None or h == _s.SIG_DFL or h is _s.default_int_handler:
                raise KeyboardInterrupt
            if callable(h):
                h(int(_s.SIGINT), sys._getframe(1))
        elif act == "jump":
            self.fire("clock-jump")
            self.wall_off += f["delta"]
        elif act == "exc":
            self.fire("fom-exception")
            raise RuntimeError("simulated failure inside the figure of merit")
        elif act == "kill":
            self.fire("kill:in-eval")
            self.die()
        elif act == "stall":
            self.fire("stall")
            self.now += f["delta"]
        else:
            raise HarnessError("unknown action %r" % act)

    def instant(self, when, k):
        for f in self.faults:
            if f["k"] == "at" and not f.get("done") and f["when"] == when and f.get("eval") == k:
                self.inject(f)

    # -- line-level injection -------------------------------------------------------------------------------------
    def want_lines(self):
        return self.line_cap is not None or any(f["k"] == "at" and f["when"] == "lines" for f in self.faults)

    def mon_start(self):
        if not self.want_lines():
            return
        mon = sys.monitoring
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "quocs-sim")
        self.mon_on = True
        base = seams.SUT_DIR
        world = self

        def on_line(code, line):
            if not code.co_filename.startswith(base):
                return mon.DISABLE
            if world._in_cb or world.closed or world.phase not in ("execute",):
                return None
            world.lines += 1
            world.total_lines += 1
            if world.line_cap is not None and world.lines > world.line_cap:
                raise SimStuck("%d lines without an evaluation" % world.lines)
            if world.in_eval or world.dead:
                return None
            for f in world.faults:
                if f["k"] == "at" and f["when"] == "lines" and not f.get("done") and \
                        f["eval"] == len(world.evals) and world.lines >= f["lines"]:
                    world._in_cb = True
                    try:
                        world.log("inject-at", os.path.basename(code.co_filename), code.co_name)
                        world.last_site = "%s:%s" % (os.path.basename(code.co_filename), code.co_name)
                        world.inject(f)
                    finally:
                        world._in_cb = False
            return None

        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.set_events(TOOL, mon.events.LINE)
        mon.restart_events()

    def mon_stop(self):
        if self.mon_on:
            mon = sys.monitoring
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            self.mon_on = False

    # -- evaluations ----------------------------------------------------------------------------------------------
    def eval_begin(self, pulses, parameters, timegrids):
        import numpy as np
        if self.dead:
            raise SimKill()
        n = len(self.evals) + 1
        if n > self.max_evals:
            raise SimStuck("more than %d evaluations" % self.max_evals)
        alg = getattr(self.opt, "opt_alg_obj", None)
        rec = {
            "n": n, "t0": self.now, "stopped_before": self.stop_at is not None,
            "pulses": [np.array(p, copy=True) for p in pulses],
            "params": [np.array(p, copy=True).ravel()[0] if np.ndim(p) else p for p in parameters],
            "grids": [np.array(g, copy=True) for g in timegrids],
            "si": getattr(alg, "super_it", None),
            "it": getattr(alg, "alg_iteration_number", None),
            "phase": self.phase,
        }
        if self.on_eval_start is not None:
            self.on_eval_start(rec)
        self.evals.append(rec)
        self.in_eval = True
        self.reads_since_eval = self.sleeps_since_eval = 0
        self.log("eval", n, ctl_hash(rec))
        return rec

    def eval_end(self, rec, value, std, status):
        rec["t1"] = self.now
        rec["FoM"], rec["std"], rec["status"] = value, std, status
        self.in_eval = False
        self.lines = 0
        self.reads_since_eval = self.sleeps_since_eval = 0
        self.log("eval-end", rec["n"], repr(value), repr(std), status)


def ctl_hash(rec):
    import numpy as np
    h = hashlib.sha256()
    for group in ("pulses", "grids"):
        for a in rec[group]:
            h.update(np.ascontiguousarray(np.asarray(a)).tobytes())
            h.update(b"|")
    for p in rec["params"]:
        h.update(repr(complex(p)).encode())
    return h.hexdigest()[:16]
