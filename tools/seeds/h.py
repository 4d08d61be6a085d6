"""Demo helper: run an optimization in a scratch directory and record what happens."""
import atexit
import glob
import io
import json
import os
import shutil
import sys
import tempfile

SCRATCH = tempfile.mkdtemp(prefix="quocs-demo-")
os.chdir(SCRATCH)
atexit.register(lambda: (os.chdir("/"), shutil.rmtree(SCRATCH, ignore_errors=True)))
import numpy as np
from quocslib.Optimizer import Optimizer
from quocslib.handleexit.HandleExit import HandleExit
from quocslib.utils.AbstractFoM import AbstractFoM


def fail(msg):
    sys.__stdout__.write("FAIL: %s\n" % msg)
    sys.exit(1)


class Fom(AbstractFoM):
    """f(n, pulses, parameters) -> number or dictionary; every call is recorded."""

    def __init__(self, f):
        self.f, self.calls, self.values = f, [], []

    def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
        self.calls.append(([np.array(p) for p in pulses], [float(x) for x in parameters], [np.array(t) for t in timegrids]))
        v = self.f(len(self.calls), pulses, parameters)
        v = v if isinstance(v, dict) else {"FoM": v}
        self.values.append(v["FoM"])
        return v


def search(n=2, dsm="NelderMead", criteria=None, general=None, x0=None, **alg):
    x0 = x0 or [0.4] * n
    g = {"dsm_algorithm_name": dsm}
    g.update(general or {})
    a = {"algorithm_name": "DirectSearch", "random_number_generator": {"seed_number": 7},
         "dsm_settings": {"general_settings": g, "stopping_criteria": dict(criteria or {"max_eval": 40})}}
    a.update(alg)
    return {"algorithm_settings": a, "optimization_client_name": "demo", "console_info": False, "pulses": [], "times": [],
            "parameters": [{"parameter_name": "x%d" % i, "lower_limit": -5.0, "upper_limit": 5.0, "initial_value": x0[i],
                            "amplitude_variation": 0.3} for i in range(n)]}


def dcrab(si=2, dsm="NelderMead", criteria=None, general=None, pulses=1, params=0, pulse=None, vectors=2, **alg):
    d = search(max(params, 1), dsm, criteria, general, **alg)
    d["algorithm_settings"]["algorithm_name"] = "dCRAB"
    d["algorithm_settings"]["super_iteration_number"] = si
    d["parameters"] = d["parameters"][:params]
    d["times"] = [{"time_name": "T", "initial_value": 1.0}]
    for i in range(pulses):
        p = {"pulse_name": "p%d" % i, "upper_limit": 10.0, "lower_limit": -10.0, "bins_number": 11, "time_name": "T",
             "amplitude_variation": 0.5,
             "basis": {"basis_name": "Fourier", "basis_vector_number": vectors, "random_super_parameter_distribution": {
                 "distribution_name": "Uniform", "lower_limit": 0.1, "upper_limit": 4.0}}}
        p.update(pulse or {})
        d["pulses"].append(p)
    return d


def bowl(n, pulses, params):
    return float(sum(np.sum((np.asarray(p) - 0.7) ** 2) for p in pulses) + sum((x - 1.3) ** 2 for x in params))


class Sig:
    def __init__(self, log, name, act=None):
        self.log, self.name, self.act = log, name, act

    def emit(self, *a):
        self.log.append((self.name, a))
        if self.act:
            self.act(*a)


def make(d, f, he=None, signals=None, act=None):
    """An optimizer ready to execute; signals: list to collect announcements."""
    fom = f if isinstance(f, AbstractFoM) else Fom(f)
    sig = None
    if signals is not None:
        sig = [Sig(signals, "message"), Sig(signals, "fom"), Sig(signals, "controls", act)]
    opt = Optimizer(d, fom, comm_signals_list=sig, handle_exit_obj=he)
    opt.fom = fom
    return opt


def quiet(fn):
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return fn()
    finally:
        sys.stdout = out


def run(d, f, he=None, signals=None):
    opt = quiet(lambda: make(d, f, he, signals))
    quiet(opt.execute)
    return opt, opt.fom


def results(opt):
    return json.load(open(glob.glob(os.path.join(opt.results_path, "*optimized_parameters.json"))[0]))


def saved(opt):
    f = glob.glob(os.path.join(opt.results_path, "*best_controls.npz"))
    return dict(np.load(f[0], allow_pickle=True)) if f else None


def log(opt):
    return open(glob.glob(os.path.join(opt.results_path, "*_logging.log"))[0]).read()
