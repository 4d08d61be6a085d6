"""
The seams: every source of nondeterminism quocslib can reach goes through here.

The real functions are replaced once per process, before quocslib is imported.  Each replacement delegates to the
current World (``seams.W``) while a simulated run is active and to the real function otherwise, so the harness itself
can keep using files and clocks outside a run.
"""
import builtins
import datetime as _dt
import errno
import importlib.machinery
import io
import os
import random
import signal
import threading
import sys
import time

W = None  # the active World, or None

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SUT_DIR = os.path.join(SRC, "quocslib") + os.sep


class SimKill(BaseException):
    """The simulated process has been killed."""


class SimStuck(BaseException):
    """The simulated system made no progress within its step budget."""


class HarnessError(Exception):
    """The harness itself is broken: never a verdict about quocslib."""


real = {
    "time": time.time, "time_ns": time.time_ns, "monotonic": time.monotonic, "monotonic_ns": time.monotonic_ns,
    "perf_counter": time.perf_counter, "perf_counter_ns": time.perf_counter_ns, "sleep": time.sleep,
    "process_time": time.process_time,
    "localtime": time.localtime, "gmtime": time.gmtime, "strftime": time.strftime, "ctime": time.ctime,
    "open": builtins.open, "io_open": io.open,
    "stat": os.stat, "mkdir": os.mkdir, "rename": os.rename, "replace": os.replace, "remove": os.remove,
    "unlink": os.unlink, "rmdir": os.rmdir, "os_open": os.open, "os_write": os.write, "os_close": os.close,
    "fsync": os.fsync, "listdir": os.listdir, "scandir": os.scandir, "link": os.link, "symlink": os.symlink,
    "truncate": os.truncate, "access": os.access,
    "urandom": os.urandom, "signal": signal.signal, "getsignal": signal.getsignal,
    "datetime": _dt.datetime, "getpid": os.getpid,
}


# ---------------------------------------------------------------------------------------------------------------- time
def _mk_time():
    def time_():
        return real["time"]() if W is None else W.wall()

    def time_ns():
        return real["time_ns"]() if W is None else int(round(W.wall() * 1e9))

    def monotonic():
        return real["monotonic"]() if W is None else W.mono()

    def monotonic_ns():
        return real["monotonic_ns"]() if W is None else int(round(W.mono() * 1e9))

    def sleep(d):
        if W is None:
            return real["sleep"](d)
        return W.sleep(float(d))

    def localtime(secs=None):
        return real["localtime"](W.wall() if (W is not None and secs is None) else secs)

    def gmtime(secs=None):
        return real["gmtime"](W.wall() if (W is not None and secs is None) else secs)

    def ctime(secs=None):
        return real["ctime"](W.wall() if (W is not None and secs is None) else secs)

    def strftime(fmt, t=None):
        if t is None:
            t = localtime()
        return real["strftime"](fmt, t)

    time.time, time.time_ns = time_, time_ns
    time.monotonic = time.perf_counter = monotonic
    time.process_time = monotonic
    time.monotonic_ns = time.perf_counter_ns = monotonic_ns
    time.sleep = sleep
    time.localtime, time.gmtime, time.ctime, time.strftime = localtime, gmtime, ctime, strftime


class _SimDateTimeMeta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real["datetime"])


class SimDateTime(_dt.datetime, metaclass=_SimDateTimeMeta):
    @classmethod
    def now(cls, tz=None):
        if W is None:
            return real["datetime"].now(tz)
        return real["datetime"].fromtimestamp(W.wall(), tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        if W is None:
            return real["datetime"].utcnow()
        return real["datetime"].fromtimestamp(W.wall(), _dt.timezone.utc).replace(tzinfo=None)


# ------------------------------------------------------------------------------------------------------------- entropy
def _urandom(n):
    if W is None:
        return real["urandom"](n)
    return W.entropy.randbytes(n)


# ------------------------------------------------------------------------------------------------------------- signals
def _signal(sig, handler):
    if W is None:
        return real["signal"](sig, handler)
    if threading.current_thread() is not threading.main_thread():
        raise ValueError("signal only works in main thread of the main interpreter")
    old = W.handlers.get(int(sig), real["getsignal"](sig))
    W.handlers[int(sig)] = handler
    W.log("signal", int(sig))
    return old


def _getsignal(sig):
    if W is None:
        return real["getsignal"](sig)
    return W.handlers.get(int(sig), real["getsignal"](sig))


# --------------------------------------------------------------------------------------------------------------- files
class SimRaw(io.FileIO):
    """A raw file whose every write is a numbered, fault-injectable operation of the world that opened it."""

    def __init__(self, file, mode="r", closefd=True, opener=None, sim_path=None):
        self._w = W
        self._sim_path = sim_path if sim_path is not None else os.fspath(file)
        writing = any(c in mode for c in "wax+")
        if not isinstance(file, int):
            self._w.fs_op("open-w" if writing else "open-r", self._sim_path, mutating=writing)
            if writing and self._w.dead:
                super().__init__(os.devnull, "w" if "+" not in mode else "w+")
                return
        super().__init__(file, mode, closefd=closefd, opener=opener)

    @property
    def mode(self):
        return io.FileIO.mode.__get__(self)

    def write(self, b):
        w = self._w
        n = memoryview(b).nbytes
        if w.dead:
            return n
        if w.closed:
            return super().write(b)
        part = w.fs_op("write", self._sim_path, n, mutating=True)
        if w.dead:
            return n
        if part is not None:
            kind, k = part
            k = min(n, int(k))
            if kind == "kill":
                super().write(memoryview(b).cast("B")[:k])
                w.die()
            elif kind == "short":
                k = max(1, k)
                return super().write(memoryview(b).cast("B")[:k])
        return super().write(b)

    def truncate(self, *a):
        if self._w.dead:
            return 0
        return super().truncate(*a)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W
    if w is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    sim_path = w.owns(file)
    if sim_path is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if "U" in mode:
        raise ValueError("invalid mode: %r" % mode)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    if not binary and "t" not in mode and not any(c in raw_mode for c in "rwxa"):
        raise ValueError("Must have exactly one of create/read/write/append mode and at most one plus")
    raw = SimRaw(file, raw_mode, closefd, opener, sim_path=sim_path)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = buffering == 1
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if "+" in raw_mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in raw_mode for c in "wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


def _path_op(name, kind, two=False, mutating=True):
    fn = real[name]

    def wrapped(*a, **k):
        w = W
        if w is None or not a:
            return fn(*a, **k)
        p = w.owns(a[0])
        q = w.owns(a[1]) if two and len(a) > 1 else None
        if p is None and q is None:
            return fn(*a, **k)
        if w.dead and mutating:
            return None
        w.fs_op(kind, p if p is not None else q, mutating=mutating, path2=q)
        if w.dead and mutating:
            return None
        return fn(*a, **k)

    wrapped.__name__ = name
    return wrapped


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = W
    if w is None or dir_fd is not None or w.owns(path) is None:
        return real["os_open"](path, flags, mode, dir_fd=dir_fd)
    p = w.owns(path)
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
    w.fs_op("open-w" if writing else "open-r", p, mutating=writing)
    if writing and w.dead:
        return real["os_open"](os.devnull, os.O_RDWR)
    fd = real["os_open"](path, flags, mode)
    w.fdpaths[fd] = p
    return fd


def _os_write(fd, data):
    w = W
    if w is None or fd not in w.fdpaths:
        return real["os_write"](fd, data)
    n = memoryview(data).nbytes
    if w.dead:
        return n
    part = w.fs_op("write", w.fdpaths[fd], n, mutating=True)
    if part is not None:
        kind, k = part
        k = min(n, int(k))
        if kind == "kill":
            real["os_write"](fd, bytes(data)[:k])
            w.die()
        return real["os_write"](fd, bytes(data)[:max(1, k)])
    return real["os_write"](fd, data)


def _os_close(fd):
    if W is not None:
        W.fdpaths.pop(fd, None)
    return real["os_close"](fd)


def _fsync(fd):
    w = W
    if w is None:
        return real["fsync"](fd)
    if w.dead:
        return None
    w.fs_op("fsync", "fd", mutating=True)
    return None  # nothing here survives a power cut anyway: only process kills are simulated


_installed = False


def install():
    """Replace the real functions (idempotent)."""
    global _installed
    if _installed:
        return
    _installed = True
    os.environ["TZ"] = "UTC"
    time.tzset()
    _mk_time()
    _dt.datetime = SimDateTime
    os.urandom = _urandom
    random._urandom = _urandom
    signal.signal, signal.getsignal = _signal, _getsignal
    builtins.open = sim_open
    io.open = sim_open
    os.stat = _path_op("stat", "stat", mutating=False)
    os.listdir = _path_op("listdir", "listdir", mutating=False)
    os.mkdir = _path_op("mkdir", "mkdir")
    os.rename = _path_op("rename", "rename", two=True)
    os.replace = _path_op("replace", "replace", two=True)
    os.link = _path_op("link", "link", two=True)
    os.remove = _path_op("remove", "remove")
    os.unlink = _path_op("unlink", "remove")
    os.rmdir = _path_op("rmdir", "rmdir")
    os.truncate = _path_op("truncate", "truncate")
    os.open, os.write, os.close, os.fsync = _os_open, _os_write, _os_close, _fsync


class _SourceOnlyLoader(importlib.machinery.SourceFileLoader):
    """Always compile quocslib from its source: a stale byte-code file must never stand in for the working tree."""

    def path_stats(self, path):
        raise OSError("byte-code cache not used")

    def _cache_bytecode(self, *a):
        return None


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "quocslib" and not name.startswith("quocslib."):
            return None
        parts = name.split(".")
        base = os.path.join(SRC, *parts)
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(name, init, loader=_SourceOnlyLoader(name, init),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py",
                                                          loader=_SourceOnlyLoader(name, base + ".py"))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def import_sut(with_jax=False):
    """Import numpy/scipy (and jax), install the seams, then import quocslib from the working tree."""
    import importlib.util  # noqa
    sys.dont_write_bytecode = True
    import numpy  # noqa
    import scipy.optimize  # noqa
    import scipy.stats  # noqa
    import scipy.linalg  # noqa
    import packaging.version  # noqa
    import json, logging, zipfile, tempfile, shutil, threading  # noqa
    if with_jax:
        import jax  # noqa
        import jax.scipy.optimize  # noqa
    install()
    if not any(f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)
    import quocslib.Optimizer
    loc = os.path.dirname(os.path.abspath(quocslib.Optimizer.__file__)) + os.sep
    if loc != SUT_DIR:
        raise HarnessError("quocslib imported from %s, not %s" % (loc, SUT_DIR))
    return quocslib.Optimizer


def import_all(with_jax=False):
    """Import every quocslib module a run may import lazily."""
    import importlib
    skip = ("Legacy", "GUI")
    for d, _, fs in os.walk(SUT_DIR):
        for f in sorted(fs):
            if not f.endswith(".py") or f == "__init__.py":
                continue
            rel = os.path.relpath(os.path.join(d, f), SRC)[:-3].replace(os.sep, ".")
            if any(k in rel for k in skip) or ("AD" in f and not with_jax):
                continue
            try:
                importlib.import_module(rel)
            except ImportError:
                pass
