"""Scenario -> optimization dictionary, and the random generator of scenarios."""
import copy
import math
import os

import numpy as np


def build_dict(scn):
    alg = {"algorithm_name": scn["alg"]}
    if scn.get("direction") is not None:
        alg["optimization_direction"] = scn["direction"]
    if scn["alg"] == "dCRAB":
        alg["super_iteration_number"] = scn.get("si", 1)
    elif scn["alg"] == "AD" and scn.get("si", 1) != 1:
        alg["super_iteration_number"] = scn["si"]
    for k in ("max_eval_total", "total_time_lim", "FoM_goal"):
        if scn.get(k) is not None:
            alg[k] = scn[k]
    if scn.get("seed") is not None:
        alg["random_number_generator"] = {"seed_number": scn["seed"]}
    if scn.get("re_eval") is not None:
        alg["re_evaluation"] = {} if scn["re_eval"] == "default" else {"re_evaluation_steps": list(scn["re_eval"])}
    d = scn.get("drift")
    if d:
        cd = {}
        if d.get("after_SI") is not None:
            cd["compensate_after_SI"] = d["after_SI"]
        if d.get("minutes"):
            cd["compensate_after_minutes"] = d["minutes"]
        if d.get("num"):
            cd["num_average"] = d["num"]
        alg["compensate_drift"] = cd
    if scn["alg"] in ("dCRAB", "DirectSearch"):
        gs = {"dsm_algorithm_name": scn["dsm"]}
        if scn.get("adaptive"):
            gs["is_adaptive"] = True
        if scn["dsm"] == "CMAES" and scn.get("population"):
            gs["population"] = scn["population"]
        sc = {}
        for k in ("xatol", "fatol", "max_eval", "time_lim"):
            if scn.get(k) is not None:
                sc[k] = scn[k]
        if scn.get("cbs"):
            sc["change_based_stop"] = {"cbs_funct_evals": scn["cbs"][0], "cbs_change": scn["cbs"][1]}
        alg["dsm_settings"] = {"general_settings": gs, "stopping_criteria": sc}
    else:
        sc = {}
        if scn.get("maxfun") is not None:
            sc["max_eval_total"] = scn["maxfun"]
        for k in ("ftol", "gtol", "maxls"):
            if scn.get(k) is not None:
                sc[k] = scn[k]
        alg["stopping_criteria"] = sc
    pulses = []
    for p in scn["pulses"]:
        q = {"pulse_name": p["name"], "upper_limit": p["hi"], "lower_limit": p["lo"], "bins_number": p["bins_number"],
             "time_name": p["time"], "amplitude_variation": p["amp"]}
        if p["basis"] == "PiecewiseBasis":
            q["basis"] = {"basis_name": "PiecewiseBasis", "bins_number": p["bins_number"]}
        else:
            q["basis"] = {"basis_name": p["basis"], "basis_vector_number": p["nvec"],
                          "random_super_parameter_distribution": {
                              "distribution_name": "Uniform", "lower_limit": p["wlo"], "upper_limit": p["whi"]}}
        q["basis"].update(p.get("extra") or {})
        for key, field in (("guess", "initial_guess"), ("scaling", "scaling_function")):
            g = p.get(key)
            if isinstance(g, dict):
                q[field] = {"function_type": "python_file", "file_path": g["file"] + (".py" if g.get("ext") else ""),
                            "function_name": "shape", "path_mode": "relative"}
            elif isinstance(g, list):
                q[field] = {"function_type": "list_function", "list_function": list(g)}
            elif g:
                q[field] = {"function_type": "lambda_function", "lambda_function": g}
        if p.get("shaping"):
            q["shaping_options"] = list(p["shaping"])
        if p.get("shrink"):
            q["shrink_ampl_lim"] = True
        pulses.append(q)
    params = [{"parameter_name": x["name"], "lower_limit": x["lo"], "upper_limit": x["hi"],
               "initial_value": x["x0"], "amplitude_variation": x["amp"]} for x in scn["params"]]
    times = [{"time_name": t["name"], "initial_value": t["initial_value"]} for t in scn["times"]]
    out = {"algorithm_settings": alg, "pulses": pulses, "parameters": params, "times": times}
    if scn.get("job") is not None:
        out["optimization_client_name"] = scn["job"]
    if scn.get("dump"):
        out["dump_format"] = scn["dump"]
    if scn.get("logfile") is not None:
        out["create_logfile"] = scn["logfile"]
    if scn.get("console") is not None:
        out["console_info"] = scn["console"]
    if scn.get("micro"):
        out["use_microsecond_name"] = True
    out = integers(out) if scn.get("ints") else out
    return scalars(out) if scn.get("np") else out


def dim(scn):
    """Number of control parameters of one direct search."""
    n = len(scn["params"])
    for p in scn["pulses"]:
        n += {"PiecewiseBasis": p["bins_number"], "Sinc": p["nvec"], "Sigmoid": p["nvec"] + 1,
              "SigmoidSigmas": 2 * p["nvec"] + 1, "SigmoidTimeDep": 2 * p["nvec"] + 1,
              "SigmoidAllParas": p["nvec"] + 1 + p["nvec"] * sum((p.get("extra") or {}).get(k, 0) > 1e-10
                                                                 for k in ("tau_variation", "sigma_variation"))
              }.get(p["basis"], 2 * p["nvec"])
    return n


def pop(scn):
    return int(math.floor(scn["population"])) if scn.get("population") else int(4 + math.floor(3 * math.log(dim(scn))))


def r3(x):
    return float("%.3g" % x)


def gen_controls(rng, scn, wide=True, max_pulses=2, max_params=2, bases=("Fourier", "Chebyshev"), need=None):
    """Pulses, parameters and times.  wide: limits no search reaches; otherwise limits that bite."""
    npulse = rng.randint(1, max_pulses)
    nparam = rng.choice([0, 0, 1, max_params])
    if scn["alg"] == "DirectSearch":
        npulse, nparam = 0, rng.randint(1, 4)
        if scn.get("dsm") == "CMAES":
            nparam = max(2, nparam)
    if scn["alg"] == "GRAPE":
        npulse, nparam = 1, 0
    times = [{"name": "T%d" % i, "initial_value": r3(rng.uniform(0.5, 5.0))} for i in range(rng.randint(1, 2))]
    if npulse == 0:
        times = []
    pulses = []
    for i in range(npulse):
        lim = 1e4 if wide else r3(rng.uniform(0.2, 2.0))
        lo = -lim if wide or rng.random() < 0.7 else r3(rng.uniform(-0.3, 0.1))
        basis = rng.choice(list(bases)) if scn["alg"] == "dCRAB" else "PiecewiseBasis"
        p = {"name": rng.choice(["Pulse_%d", "drive%d", "p%d"]) % (i + 1), "lo": lo, "hi": lim,
             "bins_number": rng.choice([5, 8, 11, 16]) if basis != "PiecewiseBasis" else rng.choice([4, 6]),
             "time": rng.choice(times)["name"], "amp": r3(rng.uniform(0.1, 1.0)), "basis": basis,
             "nvec": rng.choice([1, 1, 2, 3]) if basis != "Chebyshev" else rng.choice([2, 3]),
             "wlo": r3(rng.uniform(0.05, 0.5)), "whi": r3(rng.uniform(2.0, 6.0))}
        if scn["alg"] == "GRAPE":
            p["bins_number"] = rng.choice([4, 6, 8])
            p["amp"] = r3(rng.uniform(1.0, 5.0))
        r = rng.random()
        if r < 0.3:
            p["guess"] = "lambda t: %s + 0.0*t" % r3(rng.uniform(-0.5, 0.5))
        elif r < 0.5:
            p["guess"] = "lambda t: %s*np.sin(t)" % r3(rng.uniform(-1, 1)) if scn["alg"] != "AD" else None
        if rng.random() < 0.25 and scn["alg"] != "AD":
            p["scaling"] = "lambda t: 1.0 - 0.1*t"
        pulses.append(p)
    params = []
    for j in range(nparam):
        x0 = r3(rng.uniform(-1, 1))
        w = 1e4 if wide else r3(rng.uniform(0.1, 1.0))
        params.append({"name": rng.choice(["Parameter%d", "delta%d"]) % (j + 1), "x0": x0, "lo": x0 - w, "hi": x0 + w,
                       "amp": r3(rng.uniform(0.05, 0.8))})
    scn["pulses"], scn["params"], scn["times"] = pulses, params, times


STEPS = ("add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse")


def gen_shaping(rng, scn, limit_last=False):
    """Custom orders of the shaping steps, and guesses and scalings from python files.

    The updates of the earlier and the current super-iterations stay next to each other: otherwise a new super-iteration
    cannot begin with the best pulse of the previous one."""
    for i, p in enumerate(scn["pulses"]):
        if rng.random() < 0.4:
            o = ["add_base_pulse", "add_new_update_pulse"]
            rng.shuffle(o)
            tail = [x for x in ("scale_pulse", "limit_pulse") if rng.random() < 0.8]
            rng.shuffle(tail)
            o += tail
            if rng.random() < 0.85:
                o.insert(rng.randint(0, len(o)), "add_initial_guess")
            if limit_last:
                o = [x for x in o if x != "limit_pulse"] + ["limit_pulse"]
            p["shaping"] = o
        for key, e in (("guess", "%s*t - 0.3"), ("scaling", "%s + 0.2*np.cos(t)")):
            if rng.random() < 0.15:
                p[key] = {"file": "%s_%d" % (key, i), "expr": "lambda t: " + e % r3(rng.uniform(0.5, 2)), "ext": rng.random() < 0.5,
                          "inplace": rng.random() < 0.4 and scn["alg"] != "AD"}
        if rng.random() < 0.1:
            p["scaling"] = "lambda t, p: %s*p*np.cos(0.3*t) + 0.1" % r3(rng.uniform(0.5, 1.5))


def write_files(scn, root):
    """The python files the settings refer to."""
    for p in scn["pulses"]:
        for key in ("guess", "scaling"):
            if isinstance(p.get(key), dict):
                with open(os.path.join(root, p[key]["file"] + ".py"), "w") as f:
                    f.write("import numpy as np\n\nshape = %s\n" % p[key]["expr"])
                    if p[key].get("inplace"):     # a function that works on the array it is given
                        f.write("formula = shape\n\n\ndef shape(t):\n    t[:] = formula(t)\n    return t\n")


def gen_fom(rng, scn, noisy=None, std=False):
    f = {"ptargets": [[r3(rng.uniform(-1, 1)), rng.choice([0.5, 1, 1.5, 2]), r3(rng.uniform(0, 3))]
                      for _ in scn["pulses"]],
         "xtargets": [[r3(rng.uniform(-1.5, 1.5)), r3(rng.uniform(0.2, 3))] for _ in scn["params"]],
         "offset": rng.choice([0.0, 0.0, r3(rng.uniform(-3, 3)), 100.0, -1000.0]),
         "ripple": rng.choice([0.0, 0.05, 0.2])}
    if noisy is None:
        noisy = rng.random() < 0.5
    if noisy:
        f["noise"], f["noise_seed"] = r3(10 ** rng.uniform(-4, -0.5)), rng.randrange(1 << 30)
    if std or rng.random() < 0.3:
        f["std"] = rng.choice([1e-3, 0.05, 0.3, {"a": 0.1, "b": 0.05}])
    f["ret"] = rng.choice(["float", "float", "float", "float", "np64", "np64", "np64", "np32", "np32", "int", "npint"])
    if rng.random() < 0.2:
        f["status0"] = True
    if rng.random() < 0.15:
        f["cache"] = True
    scn["fom"] = f


def gen_latency(rng, scn, scale=1.0):
    scn["latency"] = rng.choice([
        {"kind": "const", "a": r3(scale * rng.uniform(0.01, 3))},
        {"kind": "uniform", "a": 0.0, "b": r3(scale * rng.uniform(0.1, 4)), "seed": rng.randrange(1 << 30)},
        {"kind": "stall", "a": r3(scale * rng.uniform(0.1, 1)), "b": r3(scale * rng.uniform(10, 60)),
         "seed": rng.randrange(1 << 30)}])


def gen_base(rng, algs=("dCRAB", "dCRAB", "dCRAB", "DirectSearch", "GRAPE"), dsms=("NelderMead", "NelderMead", "CMAES"),
             wide=True, evals=(4, 40), **kw):
    scn = {"alg": rng.choice(list(algs)), "dsm": rng.choice(list(dsms)),
           "direction": rng.choice(["minimization", "maximization"]),
           "ambient": rng.randrange(1 << 30), "clock_base": r3(rng.uniform(0, 1e7))}
    if scn["alg"] == "GRAPE":
        scn["dsm"] = None
    if scn["alg"] == "AD":
        scn["dsm"] = None
    gen_controls(rng, scn, wide=wide, **{k: v for k, v in kw.items() if k in ("max_pulses", "max_params", "bases")})
    gen_fom(rng, scn, noisy=kw.get("noisy"), std=kw.get("std", False))
    if scn["alg"] in ("GRAPE", "AD"):
        scn["fom"].pop("noise", None)
        scn["maxfun"] = rng.randint(3, 25)
        scn["ftol"], scn["gtol"] = 1e-12, 1e-9
    gen_latency(rng, scn)
    if rng.random() < 0.8:
        scn["seed"] = rng.randrange(1 << 31)
    if scn["alg"] in ("dCRAB",):
        scn["si"] = rng.choice([1, 2, 2, 3, 4])
        scn["max_eval"] = rng.randint(*evals)
    elif scn["alg"] == "DirectSearch":
        scn["max_eval"] = rng.randint(evals[0], 2 * evals[1])
    if rng.random() < 0.4:
        scn["adaptive"] = True
    if scn["dsm"] == "CMAES" and rng.random() < 0.4:
        scn["population"] = rng.randint(4, 9)
    scn["dump"] = rng.choice(["npz", "npz", "json"])
    scn["job"] = rng.choice(["run", "job A", "exp-1"])
    scn["logfile"] = rng.random() < 0.7
    scn["console"] = rng.random() < 0.3
    scn["micro"] = rng.random() < 0.2
    scn["he"] = rng.choice(["custom", "custom", "default"])
    scn["signals"] = rng.random() < 0.7
    scn["faults"] = []
    if rng.random() < 0.12:
        whole_numbers(rng, scn)
    if rng.random() < 0.15:
        scn["fom"]["edits"] = True
    if rng.random() < 0.08 and scn["alg"] != "AD":
        scn["fom"]["peeks"] = True
    if rng.random() < 0.1:
        scn["np"] = True
    if rng.random() < 0.1:       # a graphical interface executes its runs in a thread
        scn["thread"] = rng.choice(["execute", "both"])
    return scn


def whole_numbers(rng, scn):
    """Settings written down as whole numbers: they reach the library as int."""
    scn["ints"] = True
    for t in scn["times"]:
        t["initial_value"] = float(rng.randint(1, 5))
    for x in scn["pulses"] + scn["params"]:
        if rng.random() < 0.7:
            x["amp"] = float(rng.randint(1, 3))
        if x.get("hi", 0) < 1e3 and rng.random() < 0.5:
            x["lo"], x["hi"] = float(rng.randint(-4, -1)), float(rng.randint(1, 4))
        if "x0" in x and rng.random() < 0.7:
            x["x0"] = min(max(float(rng.randint(-1, 1)), x["lo"]), x["hi"])
        if "whi" in x and rng.random() < 0.5:
            x["wlo"], x["whi"] = 1.0, float(rng.randint(2, 6))


def integers(v):
    if isinstance(v, dict):
        return {k: integers(x) for k, x in v.items()}
    if isinstance(v, list):
        return [integers(x) for x in v]
    return int(v) if isinstance(v, float) and v == int(v) and abs(v) < 1e9 else v


def scalars(v):
    """Settings that were calculated: they reach the library as numpy arrays and scalars."""
    if isinstance(v, dict):
        return {k: scalars(x) for k, x in v.items()}
    if isinstance(v, list):
        return np.array(v) if v and all(isinstance(x, (int, float)) for x in v) else [scalars(x) for x in v]
    return np.float64(v) if isinstance(v, float) else np.int64(v) if isinstance(v, int) and not isinstance(v, bool) else v


def clone(scn):
    return copy.deepcopy(scn)
