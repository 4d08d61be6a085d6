"""Several simulated processes sharing one directory: forked parties, one running at a time, stepped at every file operation."""
import json
import os
import struct
import traceback

from . import seams


def _send(fd, obj):
    b = json.dumps(obj, default=str).encode()
    b = struct.pack(">I", len(b)) + b
    while b:
        b = b[seams.real["os_write"](fd, b):]


def _recv(fd):
    h = b""
    while len(h) < 4:
        d = os.read(fd, 4 - len(h))
        if not d:
            return None
        h += d
    n = struct.unpack(">I", h)[0]
    b = b""
    while len(b) < n:
        d = os.read(fd, n - len(b))
        if not d:
            return None
        b += d
    return json.loads(b)


class Party:
    """One forked process.  body(step) runs in the child; step(kind, rel) is its scheduling point."""

    def __init__(self, body, others):
        up_r, up_w = os.pipe()
        dn_r, dn_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(up_r)
            os.close(dn_w)
            for o in others:
                os.close(o.r)
                os.close(o.w)

            def step(kind, rel):
                _send(up_w, {"at": [kind, rel]})
                g = _recv(dn_r)
                if g is None or g.get("kill"):
                    os._exit(9)
            try:
                step("start", "")
                out = {"done": body(step)}
            except seams.HarnessError as e:
                out = {"harness": str(e)}
            except BaseException:
                out = {"harness": traceback.format_exc()}
            _send(up_w, out)
            os._exit(0)
        os.close(up_w)
        os.close(dn_r)
        self.r, self.w = up_r, dn_w
        self.result = None
        self.killed = False
        self.msg = _recv(self.r)      # blocks until the party stands at its first step
        self.steps = 0

    @property
    def alive(self):
        return self.msg is not None and "at" in self.msg

    def go(self):
        _send(self.w, {"go": 1})
        self.steps += 1
        self._next()

    def kill(self):
        _send(self.w, {"kill": 1})
        self.killed = True
        self._next()

    def _next(self):
        self.msg = _recv(self.r)
        if self.msg is None:
            if not self.killed:
                self.close()
                raise seams.HarnessError("a party died")
        elif "harness" in self.msg:
            raise seams.HarnessError(self.msg["harness"])
        elif "done" in self.msg:
            self.result = self.msg["done"]

    def close(self):
        for fd in (self.r, self.w):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, 9)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def run_parties(bodies, rng, kill=None, sticky=0.0, max_steps=200000, trace=None):
    """Step the parties in a seeded order.  kill: {party: step number}.  Returns the parties (results in .result)."""
    ps = []
    try:
        for b in bodies:
            ps.append(Party(b, ps))
        last = None
        n = 0
        while True:
            live = [k for k, p in enumerate(ps) if p.alive]
            if not live:
                break
            if last in live and rng.random() < sticky:
                k = last
            else:
                k = rng.choice(live)
            last = k
            p = ps[k]
            if trace is not None:
                trace.append((k, p.msg["at"]))
            if kill and kill.get(k) is not None and p.steps >= kill[k]:
                p.kill()
            else:
                p.go()
            n += 1
            if n > max_steps:
                raise seams.SimStuck("parties took more than %d steps" % max_steps)
        return ps
    finally:
        for p in ps:
            p.close()
