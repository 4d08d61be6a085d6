"""Figure-of-merit objects: the environment of the optimizer, driven by the scenario."""
import math
import random

import numpy as np

from . import seams


def _abstract():
    from quocslib.utils.AbstractFoM import AbstractFoM
    return AbstractFoM


def noise(seed, n):
    return random.Random((seed, n).__repr__()).gauss(0.0, 1.0)


def latency(spec, n):
    if not spec:
        return 0.0
    r = random.Random(("lat", spec.get("seed", 0), n).__repr__())
    if spec["kind"] == "const":
        return spec["a"]
    if spec["kind"] == "uniform":
        return r.uniform(spec["a"], spec["b"])
    # mostly short, sometimes a long stall
    return spec["b"] if r.random() < 0.08 else spec["a"] * r.random()


def base_value(spec, pulses, params, grids):
    """A smooth bowl with a ripple: deterministic in the controls."""
    f = float(spec.get("offset", 0.0))
    for i, p in enumerate(pulses):
        p = np.real(np.asarray(p)).astype(float)
        t = np.linspace(0.0, 1.0, len(p)) if len(p) > 1 else np.zeros(len(p))
        a, k, ph = spec["ptargets"][i]
        d = p - a * np.sin(2 * np.pi * k * t + ph)
        f += float(np.mean(d * d)) * spec.get("scale", 1.0)
        f += spec.get("ripple", 0.0) * math.sin(3.0 * float(np.sum(p[: max(1, len(p) // 3)])))
    for j, x in enumerate(params):
        c, w = spec["xtargets"][j]
        x = float(np.real(x))
        f += w * (x - c) ** 2 * spec.get("scale", 1.0)
        f += spec.get("ripple", 0.0) * math.cos(5.0 * x + j)
    return f


def make_fom(world, scn):
    AbstractFoM = _abstract()
    spec = scn["fom"]
    sign = -1.0 if scn["direction"] == "maximization" else 1.0

    class SimFoM(AbstractFoM):
        def __init__(self):
            self.reused = {}

        def ideal(self, pulses, params, grids):
            return base_value(spec, pulses, params, grids)

        def get_FoM(self, pulses=[], parameters=[], timegrids=[]):
            w = world
            rec = w.eval_begin(pulses, parameters, timegrids)
            n = rec["n"]
            lat = latency(scn.get("latency"), n)
            w.advance(lat / 2)
            w.instant("during", n)
            v = self.ideal(rec["pulses"], rec["params"], rec["grids"])
            if spec.get("noise"):
                v += spec["noise"] * noise(spec.get("noise_seed", 0), n)
            if spec.get("drift"):
                v += spec["drift"] * n
            if spec.get("script"):   # explicit values override (index modulo length)
                v = spec["script"][(n - 1) % len(spec["script"])]
            if spec.get("digits") is not None:
                v = round(v, spec["digits"])
            val = sign * v
            std = None
            sk = spec.get("std")
            if sk is not None:
                std = float(sk) if not isinstance(sk, dict) else abs(
                    sk["a"] + sk["b"] * noise(("s", spec.get("noise_seed", 0)), n))
            status = None
            for f in w.faults:
                if f["k"] == "bad" and f["eval"] == n:
                    w.fire("bad:" + f["how"])
                    if f["how"] == "nan":
                        val = float("nan")
                    else:
                        status = f.get("code", -1)
                        val = {"none": None, "nan": float("nan"), "better": sign * -1e6, "worse": sign * 1e6,
                               "same": val, "zero": 0.0}[f["how"]]
            w.advance(lat - lat / 2)
            ret = {}
            kind = spec.get("ret", "float")
            if val is None:
                ret["FoM"] = None
            elif kind == "np64":
                ret["FoM"] = np.float64(val)
            elif kind == "np32":
                val = float(np.float32(val))
                ret["FoM"] = np.float32(val)
            elif kind in ("int", "npint"):   # a figure of merit that counts
                val = val if val != val else int(round(4 * val))
                ret["FoM"] = np.int64(val) if kind == "npint" and val == val else val
            elif kind == "arr0":
                ret["FoM"] = np.array(val)
            else:
                ret["FoM"] = val
            if std is not None:
                ret["std"] = std
            if status is not None:
                ret["status_code"] = status
            elif spec.get("status0"):
                ret["status_code"] = 0
            w.eval_end(rec, val, std, status or 0)
            if status:
                w.note_stop("status")
            w.instant("after", n)
            if spec.get("peeks"):     # user code that watches the progress
                w.fire("progress-watched")
                a = w.opt.opt_alg_obj
                a.is_optimization_running()
                a.get_best_controls()
                a.get_best_bare_controls()
            if spec.get("edits"):     # user code that scales and shifts the controls it was given where they are
                w.fire("controls-edited")
                for group in (pulses, timegrids):
                    for c in group:
                        if isinstance(c, np.ndarray) and c.flags.writeable:
                            c *= -0.5
                            c += 1.0
                for j in range(len(parameters) if isinstance(parameters, list) else 0):
                    parameters[j] = parameters[j] * 2 + 1
            if spec.get("cache"):     # a user object that hands out the very same dictionary for equal results
                return self.reused.setdefault(repr(ret), ret)
            return ret

    if scn["alg"] == "GRAPE":
        nb = scn["pulses"][0]["bins_number"]
        sx = np.array([[0, 1], [1, 0]], dtype=complex)
        sz = np.array([[1, 0], [0, -1]], dtype=complex)
        H0, Hc = 0.3 * sz, 0.5 * sx
        r0 = np.array([[1, 0], [0, 0]], dtype=complex)
        rt = np.array([[0, 0], [0, 1]], dtype=complex)
        g = scn.get("gsys")
        if g:      # a random state transfer
            gr = np.random.RandomState(g["seed"] % (1 << 32))

            def herm(d, size):
                a = gr.randn(d, d) + 1j * gr.randn(d, d)
                a = a + a.conj().T
                return a * (size / np.linalg.norm(a, 2))

            def state(d):
                v = gr.randn(d) + 1j * gr.randn(d)
                v /= np.linalg.norm(v)
                return np.outer(v, v.conj())
            H0, Hc = herm(g["d"], g["h0"]), herm(g["d"], g["hc"])
            r0, rt = state(g["d"]), state(g["d"])
            if g.get("plain"):     # basis states, written down as real or whole numbers
                r0, rt = np.zeros((2, g["d"], g["d"]), dtype={"int": int, "float": float}[g["plain"]])
                r0[0, 0] = rt[-1, -1] = 1

        class SimGrape(SimFoM):
            def get_control_Hamiltonians(self):
                return Hc

            def get_drift_Hamiltonian(self):
                return H0

            def get_target_state(self):
                return rt

            def get_initial_state(self):
                return r0

            def get_propagator(self, pulses_list=[], time_grids_list=[], parameters_list=[]):
                p = np.asarray(pulses_list[0]).real
                T = float(np.asarray(time_grids_list[0])[-1].real)
                dt = T / len(p)
                out = []
                for v in p:
                    H = H0 + v * Hc
                    if g:
                        lv, V = np.linalg.eigh(H)
                        out.append((V * np.exp(-1j * dt * lv)) @ V.conj().T)
                        continue
                    e = math.sqrt(abs(np.linalg.det(H).real)) or 1e-12
                    out.append(np.cos(e * dt) * np.eye(2) - 1j * np.sin(e * dt) / e * H)
                return out

            def ideal(self, pulses, params, grids):
                rho = r0
                for U in self.get_propagator(pulses, grids):
                    rho = U @ rho @ U.conj().T
                return spec.get("offset", 0.0) + float(np.real(1.0 - np.trace(rt.conj().T @ rho)))

        return SimGrape()
    return SimFoM()


def make_ad_fom(world, scn):
    """A differentiable figure of merit; traced calls (gradients) are not evaluations."""
    import jax
    import jax.numpy as jnp
    AbstractFoM = _abstract()
    spec = scn["fom"]
    sign = -1.0 if scn["direction"] == "maximization" else 1.0

    def value(pulses, parameters):
        f = spec.get("offset", 0.0)
        for i in range(len(scn["pulses"])):
            nb = scn["pulses"][i]["bins_number"]
            p = jnp.real(pulses[i, :nb])
            t = jnp.linspace(0.0, 1.0, nb)
            a, k, ph = spec["ptargets"][i]
            f = f + jnp.mean((p - a * jnp.sin(2 * jnp.pi * k * t + ph)) ** 2)
        for j in range(len(scn["params"])):
            c, wt = spec["xtargets"][j]
            f = f + wt * (jnp.real(parameters[j]) - c) ** 2
        return f

    class SimAD(AbstractFoM):
        plain = staticmethod(value)

        def get_FoM(self, pulses=None, parameters=None, timegrids=None):
            if isinstance(pulses, jax.core.Tracer) or isinstance(parameters, jax.core.Tracer):
                return {"FoM": sign * value(pulses, parameters)}
            w = world
            nps = [np.asarray(pulses)[i, :scn["pulses"][i]["bins_number"]] for i in range(len(scn["pulses"]))]
            ngs = [np.asarray(timegrids)[i, :scn["pulses"][i]["bins_number"]] for i in range(len(scn["pulses"]))]
            rec = w.eval_begin(nps, list(np.asarray(parameters)), ngs)
            n = rec["n"]
            lat = latency(scn.get("latency"), n)
            w.advance(lat / 2)
            w.instant("during", n)
            v = sign * value(pulses, parameters)
            status = None
            for f in w.faults:
                if f["k"] == "bad" and f["eval"] == n:
                    w.fire("bad:" + f["how"])
                    status = f.get("code", -1)
                    v = {"none": None, "nan": jnp.asarray(float("nan")), "better": jnp.asarray(sign * -1e6),
                         "worse": jnp.asarray(sign * 1e6), "same": v, "zero": jnp.asarray(0.0)}[f["how"]]
            w.advance(lat - lat / 2)
            w.eval_end(rec, None if v is None else float(v), None, status or 0)
            ret = {"FoM": v}
            if status:
                ret["status_code"] = status
                w.note_stop("status")
            w.instant("after", n)
            return ret

    return SimAD()
