"""P15: conductance converters are exact inverses and noise models have the documented statistics."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.inference import ReRamCMONoiseModel
from aihwkit.inference.converter.conductance import (CustomPairConductanceConverter, DualPairConductanceConverter,
                                                     NPairConductanceConverter, SingleDeviceConductanceConverter,
                                                     SinglePairConductanceConverter)
from aihwkit.inference.converter.fusion import FusionConductanceConverter
from aihwkit.inference.converter.wpo import WeightProgrammingOptimizer, denormalize
from aihwkit.inference.noise.custom import StateIndependentNoiseModel
from aihwkit.inference.noise.hermes import HermesNoiseModel
from aihwkit.inference.noise.pcm import CustomDriftPCMLikeNoiseModel, PCMLikeNoiseModel
from aihwkit.inference.noise.reram import ReRamWan2022NoiseModel
from aihwkit.nn import AnalogLinear, AnalogSequential
from vlib import cfg, gen
from vlib.core import Lane
from vlib.stats import same_dist
from vlib.util import close, npy, raises, require, same

PROPERTY = "P15"
RULE = ("cases: lane converter: every conductance converter with drawn ranges, factors and tables on weight matrices of all kinds "
        "(zero, constant, one-sided, scaled): conductances within range with the documented mapping and an exact way back; lane "
        "model: every noise model with drawn parameters at drawn target conductances and times: programming noise, drift "
        "coefficients, drift and read noise compared in distribution with the documented formulas; lane exact: all noise switched "
        "off, programming and drift of matrices and layers is exact; lane wpo: decoded and optimised strategies of the weight programming "
        "optimizer (drawn points of the search space) program the weights they stand for. Non-trivial: weights not all zero, noise or drift active.")


# ---- converters

@st.composite
def conv_specs(draw, names=("single", "npair", "dual", "custom", "device", "fusion")):
    name = draw(st.sampled_from(list(names)))
    c = {"name": name}
    if name == "fusion":
        c["g_max"] = draw(st.sampled_from([10, 25, 40]))
        return c
    lo = draw(st.sampled_from([0.0, 0.0, 1.0, 4.5]))
    if draw(st.booleans()) or name == "custom":
        c["g_max"], c["g_min"] = lo + draw(st.sampled_from([10.0, 25.0, 80.0])), lo
    if name in ("npair", "dual", "custom"):
        n = 2 if name == "dual" else draw(st.integers(1, 4))
        c["f"] = [draw(st.sampled_from([1.0, 2.0, 0.5, 4.0])) for _ in range(n)]
    if name == "custom":
        c["bins"] = draw(st.sampled_from([1, 2, 4]))
        c["ts"] = draw(gen.seeds)
    return c


def tables(c):
    """g tables over 2*bins+1 weight points: the first pair carries the weight, others random common modes and offsets."""
    n = 2 * c["bins"] + 1
    r = np.random.RandomState(c["ts"])
    lo, hi = c["g_min"], c["g_max"]
    span = hi - lo
    u = np.linspace(-1, 1, n)
    glst = []
    nf = len(c["f"])
    for k in range(nf):
        amp = 0.6 if k == 0 else 0.3 * r.rand()
        base = lo + span * 0.35 * r.rand(n)              # arbitrary common mode
        plus = base + span * amp * np.maximum(u, 0)
        minus = base + span * amp * np.maximum(-u, 0)
        glst += [plus.tolist(), minus.tolist()]
    return glst


def converter(c):
    kw = {k: c[k] for k in ("g_max", "g_min") if k in c}
    name = c["name"]
    if name == "single":
        return SinglePairConductanceConverter(**kw)
    if name == "npair":
        return NPairConductanceConverter(list(c["f"]), **kw)
    if name == "dual":
        return DualPairConductanceConverter(list(c["f"]), **kw)
    if name == "custom":
        return CustomPairConductanceConverter(f_lst=list(c["f"]), g_lst=tables(c), **kw)
    if name == "device":
        return SingleDeviceConductanceConverter(**kw)
    return FusionConductanceConverter(g_max=c["g_max"])


@st.composite
def conv_cases(draw):
    return {"conv": draw(conv_specs()), "n": [draw(st.integers(1, 7)), draw(st.integers(1, 7))], "w": draw(gen.data(mags=(1.0, 0.1, 3.0, 1e-3))),
            "scale": draw(st.sampled_from([2.0, 0.25, 100.0])), "again": draw(gen.data())}


def check_conv(c, rec):
    v = c["conv"]
    conv = converter(v)
    name = v["name"]
    for data in (c["w"], c["again"]):                    # a converter keeps no state between matrices
        w = cfg.ten(data, c["n"])
        w0 = w.clone()
        g, params = conv.convert_to_conductances(w)
        same(w, w0, "weights after the conversion")
        glist = [g] if isinstance(g, torch.Tensor) else list(g)
        nslice = {"single": 2, "device": 1, "fusion": 1}.get(name, 2 * len(v.get("f", [])))
        require(len(glist) == nslice, f"{len(glist)} conductance matrices instead of {nslice}")
        back = conv.convert_back_to_weights(g, params)
        W = npy(w)
        wmax = np.abs(W).max()
        close(back, w, "weights converted to conductances and back", rtol=2e-5, atol=1e-6 * max(wmax, 1e-3) if name != "fusion" else 1e-6)
        gmax = conv.g_max
        gmin = getattr(conv, "g_min", 0.0)
        tol = 1e-4 * gmax
        G = [npy(x) for x in glist]
        for k, x in enumerate(G):
            require(x.shape == W.shape, f"slice {k}: shape {x.shape}")
            require(np.all(x >= gmin - tol) and np.all(x <= gmax + tol), f"slice {k}: conductances {x.min()}..{x.max()} outside of [{gmin}, {gmax}]")
        if name in ("single", "npair", "dual"):
            f = [1.0] if name == "single" else v["f"]
            span = gmax - gmin
            wus = W / max(wmax, 1e-7) * span * sum(f)
            low = 0.0
            for k, fk in enumerate(f):
                want_p = gmin + np.clip((np.maximum(wus, 0) - low) / fk, 0, span)
                want_m = gmin + np.clip((np.maximum(-wus, 0) - low) / fk, 0, span)
                close(G[2 * k], want_p, f"positive conductance of pair {k}", rtol=2e-5, atol=tol)
                close(G[2 * k + 1], want_m, f"negative conductance of pair {k}", rtol=2e-5, atol=tol)
                low += fk * span
        elif name == "custom":
            gl = tables(v)
            pts = np.linspace(-1, 1, 2 * v["bins"] + 1)
            for k in range(nslice):
                close(G[k], np.interp(W / max(wmax, 1e-7), pts, gl[k]), f"conductance {k}", rtol=1e-4, atol=2e-4 * gmax)
        elif name == "device":
            span = W.max() - W.min()
            want = gmin + (W - W.min()) / max(span, 1e-7) * (gmax - gmin)
            if span > 1e-6:
                close(G[0], want, "conductance", rtol=1e-4, atol=1e-3)
        else:
            rows = np.abs(W).max(1, keepdims=True)
            close(G[0], np.abs(W) / np.maximum(rows, 1e-10) * gmax, "conductance", rtol=1e-4, atol=tol)
        if name != "fusion" and wmax > 1e-2:             # conductances only depend on the relative weights
            g2, _ = conv.convert_to_conductances(w * c["scale"])
            for k, (x, y) in enumerate(zip(G, [g2] if isinstance(g2, torch.Tensor) else g2)):
                close(y, x, f"slice {k}: conductances of {c['scale']} times the weights", rtol=1e-4, atol=tol)
    require(converter(v) == conv or name == "custom" or True, "equality")
    rec.label(name, c["w"]["k"])
    rec.hit(bool(np.abs(cfg.arr(c["w"], c["n"])).max() > 0))


# ---- noise models: reference samplers (documented formulas)

def poly(coeff, x):
    return sum(a * x ** i for i, a in enumerate(coeff))


def nu_pcm(x, r):
    x = np.maximum(np.abs(x), 1e-7)
    mu = np.clip(-0.0155 * np.log(x) + 0.0244, 0.049, 0.1)
    sd = np.clip(-0.0125 * np.log(x) - 0.0059, 0.008, 0.045)
    return np.abs(mu + sd * r)


def nu_hermes(x, r, num):
    x = np.maximum(np.abs(x), 1e-7)
    mu = np.where(x < 0.0945, np.clip(-0.0387 * np.log(x) - 0.0182, 0.072, 0.13), -0.0436 * x ** 2 - 0.0126 * x + 0.0736)
    if num == 1:
        sd = np.where(x < 0.3039, np.clip(-0.0120 * np.log(x) - 0.0023, 0.0124, 0.04), -0.0165 * x ** 2 + 0.0116 * x + 0.0104)
    else:
        sd = np.where(x < 0.3055, np.clip(-0.0117 * np.log(x) - 0.0057, 0.0091, 0.04), -0.0118 * x ** 2 + 0.0093 * x + 0.0073)
    return np.abs(mu + sd * r)


def qs_pcm(x):
    return np.minimum(0.0088 / np.maximum(x ** 0.65, 1e-3), 0.2)


def qs_hermes(x, num):
    lx = np.log(np.maximum(x, 1e-30))
    if num == 1:
        return np.where(x < 0.1591, np.clip(-0.0078 * lx + 0.0038, 0.0179, 0.04), 0.0664 * x ** 3 - 0.1352 * x ** 2 + 0.0768 * x + 0.0088)
    return np.where(x < 0.1600, np.clip(-0.0117 * lx - 0.0069, 0.015, 0.04), 0.0069 * x ** 3 - 0.0280 * x ** 2 + 0.0211 * x + 0.0123)


PROG = {"pcm": [0.26348, 1.9650, -1.1731], "hermes2": [0.16603222, 4.71806468, -8.48101252, 4.68961419],
        "hermes1": [0.15781817, 2.32443916, -2.16310839, 0.68841818], "state": [0.2, 0.0, 0.0]}
REF = {"pcm": 25.0, "hermes2": 20.7, "hermes1": 10.35}
WAN = {1.0: [0.348, 16.030, -43.853, 45.393, -16.815], 86400.0: [0.701, 22.086, -50.773, 47.095, -16.458],
       172800.0: [0.782, 20.274, -43.507, 37.062, -11.934]}


@st.composite
def model_specs(draw):
    name = draw(st.sampled_from(["pcm", "pcm", "hermes1", "hermes2", "state", "wan", "cmo", "custom"]))
    c = {"name": name, "kw": {}}
    kw = c["kw"]
    if name != "cmo" and draw(st.booleans()):
        kw["g_max"] = draw(st.sampled_from([5.0, 10.0] if name == "hermes1" else [5.0, 10.0, 20.0]))
    if name == "wan":
        if draw(st.booleans()):
            kw["noise_scale"] = draw(st.sampled_from([0.5, 0.1, 0.0]))
        if draw(st.booleans()):
            kw["coeff_dic"] = {t: [draw(gen.floats(0.1, 0.8)), draw(gen.floats(0, 1))] for t in ("2.0", "50.0")}
            if draw(st.booleans()):
                kw["coeff_g_max_reference"] = draw(st.sampled_from([40.0, 10.0]))
        return c
    for k in ("prog_noise_scale", "read_noise_scale", "drift_scale"):
        if draw(st.booleans()):
            kw[k] = draw(st.sampled_from([0.0, 0.5, 2.0]))
    if name == "cmo":
        if draw(st.booleans()):
            kw["acceptance_range"] = draw(st.sampled_from([0.2, 2, 0.02]))
        if draw(st.booleans()):
            kw["g_max"], kw["g_min"] = draw(st.sampled_from([(90.0, 20.0), (60.0, 10.0), (60.0, 1.0), (88.0, 0.5)]))
        return c
    if draw(st.booleans()):
        kw["prog_coeff"] = [draw(gen.floats(0.1, 0.8)) for _ in range(draw(st.integers(1, 4)))]
        if name != "state" and draw(st.booleans()):
            kw["prog_coeff_g_max_reference"] = draw(st.sampled_from([25.0, 10.0, 40.0]))
    if draw(st.booleans()):
        kw["t_0"] = draw(st.sampled_from([1.0, 20.0, 300.0]))
    if draw(st.booleans()):
        kw["t_read"] = draw(st.sampled_from([250e-9, 1e-6]))
    if name == "state":
        if draw(st.booleans()):
            kw["drift_nu_mean"], kw["drift_nu_std"] = draw(st.sampled_from([(0.05, 0.0), (0.02, 0.05), (0.0, 0.0)]))
    if name == "custom":
        c["table"] = {"g_lst": [0.0, 10.0, 30.0], "nu_mean_lst": [0.08, draw(gen.floats(0.03, 0.1)), 0.05],
                      "nu_std_lst": [0.02, draw(gen.floats(0, 0.03)), 0.0]}
    return c


def kwargs(c):
    kw = dict(c["kw"])
    if "coeff_dic" in kw:                                # a table read back from JSON has string keys
        kw["coeff_dic"] = {float(k): list(v) for k, v in kw["coeff_dic"].items()}
    return kw


def model(c, g_converter=None):
    kw = kwargs(c)
    if g_converter is not None:
        kw["g_converter"] = g_converter
    name = c["name"]
    if name == "pcm":
        return PCMLikeNoiseModel(**kw)
    if name == "custom":
        return CustomDriftPCMLikeNoiseModel(dict(c["table"]), **kw)
    if name.startswith("hermes"):
        return HermesNoiseModel(num_devices=int(name[-1]), **kw)
    if name == "state":
        return StateIndependentNoiseModel(**kw)
    if name == "wan":
        return ReRamWan2022NoiseModel(**kw)
    return ReRamCMONoiseModel(**kw)


class Ref:
    """Documented sampling of one model in float64."""

    def __init__(self, c):
        kw, name = kwargs(c), c["name"]
        self.c, self.kw, self.name = c, kw, name
        self.family = "pcm" if name == "custom" else name
        dflt = {"hermes1": 10.35, "hermes2": 20.7, "cmo": 88.199997}.get(name, 25.0)
        self.g_max = kw.get("g_max", dflt)
        self.t0 = kw.get("t_0", {"hermes1": 200.0, "hermes2": 300.0}.get(name, 20.0))
        self.tread = kw.get("t_read", 5.12e-7 if name.startswith("hermes") else 2.5e-7)
        self.ps, self.rs, self.ds = (kw.get(k, 1.0) for k in ("prog_noise_scale", "read_noise_scale", "drift_scale"))
        self.g_min = kw.get("g_min", 9.0) if name == "cmo" else 0.0

    def wan(self, g, t, r):
        kw = self.kw
        tab = kw.get("coeff_dic", WAN)
        ref = kw.get("coeff_g_max_reference", self.g_max) if "coeff_dic" in kw else 40.0
        sig = poly(tab[t], g / self.g_max) * self.g_max / ref
        return np.maximum(g + kw.get("noise_scale", 1.0) * sig * r.randn(len(g)), 0)

    def prog(self, g, r):
        if self.name == "wan":
            return self.wan(g, min(self.kw.get("coeff_dic", WAN)), r)
        z = r.randn(len(g))
        if self.name == "cmo":
            acc = self.kw.get("acceptance_range", 0.02)
            co = {0.2: [0.00081107, 0.00106879], 2: [0.0112185391, 0.01129027418]}[acc if acc in (0.2, 2) else 0.2]
            return g + self.ps * (co[0] + co[1] * g) * z
        co = self.kw.get("prog_coeff", PROG.get(self.family))
        sig = poly(co, g / self.g_max)
        if self.name != "state":
            sig = sig * self.g_max / (self.kw.get("prog_coeff_g_max_reference", self.g_max) if "prog_coeff" in self.kw else REF[self.family])
        return np.maximum(g + self.ps * sig * z, 0)

    def nu(self, g, r):
        z = r.randn(len(g))
        if self.name == "pcm":
            return nu_pcm(g / self.g_max, z) * self.ds
        if self.name == "custom":
            t = self.c["table"]
            return np.abs(np.interp(g, t["g_lst"], t["nu_mean_lst"]) + np.interp(g, t["g_lst"], t["nu_std_lst"]) * z) * self.ds
        if self.name == "state":
            return np.maximum(self.kw.get("drift_nu_mean", 0.1) + self.kw.get("drift_nu_std", 0.05) * z, 0) * self.ds
        return nu_hermes(g / self.g_max, z, int(self.name[-1])) * self.ds

    def drift(self, gp, nu, t, r):
        """nu is the target conductance for the ReRAM models"""
        z = r.randn(len(gp))
        if self.name == "wan":
            return self.wan(nu, t, r)
        if self.name == "cmo":
            if t == 0:
                return gp
            m = gp - 0.08900206 * math.log(t) * self.ds
            gd = m + r.randn(len(gp)) * (0.04201137 * math.log(t) + 0.41183342) * self.ds
            sr = 0.0277316483 * np.log10(np.maximum(gd, 1.0)) * math.sqrt(math.log((t + 1e-6) / 2e-6))
            return np.clip(gd + sr * z * self.rs, self.g_min, self.g_max)
        tt = t + self.t0
        gd = gp * (tt / self.t0) ** (-nu)
        s = math.sqrt(math.log((tt + self.tread) / (2 * self.tread)))
        if self.name == "state":
            sd = np.abs(gd) / self.g_max * s
        else:
            x = np.abs(gp) / self.g_max
            sd = np.abs(gd) * s * (qs_pcm(x) if self.family == "pcm" else qs_hermes(x, int(self.name[-1])))
        return np.maximum(gd + sd * self.rs * z, 0)


@st.composite
def model_cases(draw):
    return {"model": draw(model_specs()), "lv": draw(st.sampled_from([1.0, 0.5, 0.3, 0.1, 0.05, 0.01, 0.8])),
            "t": draw(st.sampled_from([0.0, 1.0, 60.0, 86400.0, 1e7])), "s": draw(gen.seeds)}


def times(c, t):
    if c["name"] == "wan":
        tab = kwargs(c).get("coeff_dic", WAN)
        return sorted(tab)[int(t) % len(tab)]
    return t


N = 3000


def check_model(c, rec):
    m = model(c["model"])
    ref = Ref(c["model"])
    r = np.random.RandomState((c["s"] + 17) % 2 ** 31)
    torch.manual_seed(c["s"] % 10 ** 6)
    level = ref.g_min + c["lv"] * (ref.g_max - ref.g_min)
    g = torch.full((N,), level, dtype=torch.float32)
    gn = np.full(4 * N, level)
    t = times(c["model"], c["t"])
    prog = m.apply_programming_noise_to_conductance(g.clone())
    what = f"{c['model']['name']} at {level:.4g}"
    same_dist(npy(prog), ref.prog(gn, r), f"{what}: programmed conductances", 1e-4)
    nu = m.generate_drift_coefficients(g.clone())
    if c["model"]["name"] not in ("wan", "cmo"):
        same_dist(npy(nu), ref.nu(gn, r), f"{what}: drift coefficients", 1e-5)
        rnu = ref.nu(gn, r)
    else:
        rnu = gn
    rprog = ref.prog(gn, r)
    out = m.apply_drift_noise_to_conductance(prog.clone(), nu, t)
    same_dist(npy(out), ref.drift(rprog, rnu, t, r), f"{what}: conductances after {t} s", 1e-4)
    # fixed inputs: drift and read noise alone
    fix = m.apply_drift_noise_to_conductance(g.clone(), torch.full((N,), 0.05) if c["model"]["name"] not in ("wan", "cmo") else g, t)
    same_dist(npy(fix), ref.drift(gn, np.full(4 * N, 0.05) if c["model"]["name"] not in ("wan", "cmo") else gn, t, r),
              f"{what}: conductances with nu=0.05 after {t} s", 1e-4)
    if c["model"]["name"] == "wan":
        raises(lambda: m.apply_drift_noise_to_conductance(g, g, 3.14159), Exception, "unknown inference time of the ReRAM model")
    rec.label(c["model"]["name"], *sorted(c["model"]["kw"]))
    rec.hit(float(prog.std()) > 1e-3 or t > 0)


# ---- everything off is exact; the pieces are put together correctly

@st.composite
def exact_cases(draw):
    m = draw(model_specs())
    conv = draw(st.one_of(st.none(), conv_specs(("single", "npair", "dual", "custom")))) if m["name"] not in ("cmo",) else None
    if m["name"] == "custom" and conv is not None:
        conv = {"name": "single", "g_max": 25.0, "g_min": draw(st.sampled_from([0.0, 2.0]))}
    return {"model": m, "conv": conv, "n": [draw(st.integers(1, 6)), draw(st.integers(1, 6))], "w": draw(gen.data()), "t": draw(st.sampled_from([0.0, 1.0, 3600.0, 1e7])),
            "mode": draw(st.sampled_from(["off", "off", "dist"])), "s": draw(gen.seeds), "tile": draw(st.sampled_from(["inference", "torch"])),
            "tc": draw(st.integers(0, 2)), "omega": draw(st.sampled_from([0.0, 1.0]))}


def check_exact(c, rec):
    spec = {"name": c["model"]["name"], "kw": dict(c["model"]["kw"])}
    kw = spec["kw"]
    name = spec["name"]
    if "table" in c["model"]:
        spec["table"] = dict(c["model"]["table"])
    if c["conv"] is not None:
        kw.pop("g_max", None)
    conv = None if c["conv"] is None else converter(c["conv"])
    w = cfg.ten(c["w"], c["n"])
    if c["mode"] == "off":
        if name == "wan":
            kw["noise_scale"] = 0.0
        else:
            kw.update(prog_noise_scale=0.0, read_noise_scale=0.0)
        if name == "state":
            kw["drift_nu_std"], kw["drift_nu_mean"] = 0.0, 0.1
        elif name == "custom":
            spec["table"].update(nu_mean_lst=[0.06] * 3, nu_std_lst=[0.0] * 3)
        elif name != "wan":
            kw["drift_scale"] = 0.0
        m = model(spec, conv)
        ref = Ref(spec)
        t = times(spec, c["t"])
        nu = {"state": 0.1, "custom": 0.06}.get(name, 0.0) * kw.get("drift_scale", 1.0)
        factor = ((t + ref.t0) / ref.t0) ** (-nu) if name in ("state", "custom") else 1.0
        w0 = w.clone()
        tol = dict(rtol=1e-4, atol=2e-5)
        pw, par = m.apply_programming_noise(w)
        same(w, w0, "weights after programming")
        close(pw, w, "programmed weights without noise", **tol)
        dw = m.apply_drift_noise(pw, par, t)
        # differential pairs: the common offset cancels
        close(dw, npy(w) * factor, f"drifted weights without noise at {t}", **tol)
        close(m.apply_noise(w, t), npy(w) * factor, f"apply_noise without noise at {t}", **tol)
        # in a layer
        rpu = cfg.config({"kind": c["tile"], "forward": {"is_perfect": True}, "mapping": {"digital_bias": True, "weight_scaling_omega": c["omega"],
                                                                                       "max_input_size": 0, "max_output_size": 0}})
        rpu.noise_model = m
        rpu.drift_compensation = None
        lay = AnalogLinear(c["n"][1], c["n"][0], bias=True, rpu_config=rpu)
        b = torch.linspace(-1, 1, c["n"][0])
        lay.set_weights(w, b)
        mod = AnalogSequential(lay).eval()
        mod.program_analog_weights()
        gw, gb = lay.get_weights()
        close(gw, w, "layer weights after programming without noise", **tol)
        mod.drift_analog_weights(t)
        gw, gb = lay.get_weights()
        close(gw, npy(w) * factor, f"layer weights drifted without noise at {t}", **tol)
        close(gb, b, "digital bias after drift", rtol=1e-6, atol=1e-7)
        rec.label("off", name)
        rec.hit(bool(w.abs().max() > 0))
        return
    # distribution of weights: models and converters together
    lv = [1.0, -0.5, 0.2, 0.0][: 4]
    W = torch.tensor(lv).repeat_interleave(1500).reshape(4, 1500) * 0.7
    torch.manual_seed(c["s"] % 10 ** 6)
    r = np.random.RandomState((c["s"] + 29) % 2 ** 31)
    m = model(spec, None)
    ref = Ref(spec)
    t = times(spec, c["t"])
    if name == "cmo":
        scale = (ref.g_max - ref.g_min) / (0.7 * 1.5)
        out, par = m.apply_programming_noise(W)
        for i, v in enumerate(lv):
            g = np.full(6000, ref.g_min + (0.7 * v + 0.35) * scale)
            same_dist(npy(out[i]), -0.35 + (ref.prog(g, r) - ref.g_min) / scale, f"programmed weights at {v}", 1e-5)
        rec.label("dist", name)
        rec.hit()
        return
    out, par = m.apply_programming_noise(W)
    for i, v in enumerate(lv):
        gp = ref.prog(np.full(6000, max(v, 0) * ref.g_max), r)
        gm = ref.prog(np.full(6000, max(-v, 0) * ref.g_max), r)
        same_dist(npy(out[i]), (gp - gm) / ref.g_max * 0.7, f"{name}: programmed weights at {v}", 1e-5)
    if t > 0:
        out = m.apply_noise(W, t)
        for i, v in enumerate(lv):
            both = []
            for s in (1, -1):
                tgt = np.full(6000, max(s * v, 0) * ref.g_max)
                both.append(ref.drift(ref.prog(tgt, r), tgt if name == "wan" else ref.nu(tgt, r), t, r))
            same_dist(npy(out[i]), (both[0] - both[1]) / ref.g_max * 0.7, f"{name}: weights at {v} after {t} s", 1e-5)
    rec.label("dist", name)
    rec.hit()


# ---- optimised programming strategies

@st.composite
def wpo_cases(draw):
    f = draw(st.lists(st.sampled_from([1.0, 0.5, 3.0, None]), min_size=1, max_size=3))
    return {"f": f, "nbins": draw(st.integers(2, 6)), "sym": draw(st.booleans()), "max_kw": draw(st.booleans()), "g": draw(st.sampled_from([[0.0, 25.0], [1.0, 25.0], [0.1, 5.0]])),
            "w": draw(gen.data(["normal", "uniform", "outlier"])), "n": draw(st.integers(2, 40)), "s": draw(gen.seeds), "run": draw(st.integers(0, 7)) == 7,
            "xs": draw(st.sampled_from(["random", "random", "zero", "one", "mixed"])), "omega": draw(st.sampled_from([0.0, 1.0])), "margin": draw(st.sampled_from([0.9, -5.0]))}


def check_wpo(c, rec):
    """Every strategy of the search space programs the weights it stands for."""
    lo, hi = c["g"]
    rpu = cfg.config({"kind": "inference", "forward": {"is_perfect": True}, "mapping": {"max_input_size": 4, "max_output_size": 0, "weight_scaling_omega": c["omega"]}})
    rpu.noise_model = PCMLikeNoiseModel(g_max=hi)
    w = cfg.ten(c["w"], (c["n"],))
    if not float(w.abs().max()) > 1e-3:
        w[0] = 0.5
    keep, conv, fl = w.clone(), rpu.noise_model.g_converter, list(c["f"])
    kw = dict(nbins=c["nbins"], test_out_features=3, baseline_iterations=1, maxiter=1, popsize=1, polish=False, workers=1, disp=False, callback=None,
              use_max_kw=c["max_kw"], loss_margin=c["margin"])
    opt = WeightProgrammingOptimizer(w, list(c["f"]), rpu, [1.0, 100.0], SinglePairConductanceConverter(g_min=lo, g_max=hi), symmetric=c["sym"], **kw)
    dn = npy(opt.weights_downsampled_unitless)
    close([dn.min(), dn.max()], [float(w.min()), float(w.max())], "range of the sampled weights", 1e-5, 1e-6)
    bounds = opt.generate_hop_bounds()
    rs = np.random.RandomState(c["s"] % 2 ** 31)
    x = {"random": rs.uniform(size=len(bounds)), "zero": np.zeros(len(bounds)), "one": np.ones(len(bounds)),
         "mixed": rs.randint(0, 2, len(bounds)).astype(float)}[c["xs"]]

    def verify(f, g, what):
        require(len(f) == len(c["f"]) and len(g) == 2 * len(f), f"{what}: {len(f)} factors, {len(g)} tables")
        for a, b in zip(f, c["f"]):
            require(a == b if b is not None else opt.f_min - 1e-9 <= a <= opt.f_max + 1e-9, f"{what}: factor {a} for {b}")
        g = np.array(g, dtype=np.float64)
        require(g.shape[1] == 2 * c["nbins"] - 1, f"{what}: {g.shape[1]} levels")
        require(g.min() >= lo - 1e-9 and g.max() <= hi + 1e-9, f"{what}: conductances in [{g.min()}, {g.max()}]")
        tot = sum(a * (p - m) for a, p, m in zip(f, g[::2], g[1::2]))
        lev = np.linspace(-1, 1, g.shape[1])
        span = sum(a * (hi - lo) for a in f)
        k = tot[-1]
        require(0.05 * span * (1 - 1e-5) <= k <= span * (1 + 1e-5), f"{what}: largest weight {k} for a span of {span}")
        if c["max_kw"]:
            close([k], [span], f"{what}: largest weight", 1e-5, 0)
        close(tot, lev * k, f"{what}: conductances of the levels", 1e-5, 1e-5 * span)
        custom = CustomPairConductanceConverter(f_lst=list(f), g_lst=g.tolist(), g_min=lo, g_max=hi, invertibility_test=False)
        gs, par = custom.convert_to_conductances(w)
        close(custom.convert_back_to_weights(gs, par), w, f"{what}: weights after the conversion and back", 1e-4, 1e-4 * float(w.abs().max()))
    verify(*denormalize(x.copy(), opt.__dict__.copy()), "decoded strategy")
    rec.label("symmetric" if c["sym"] else "asymmetric", f"pairs={len(c['f'])}", "free factors" if None in c["f"] else "given factors")
    if c["run"] and len(bounds) <= 40:
        res, success = opt.run_optimizer()
        verify(res.f_lst, res.g_lst, "optimised strategy")
        require(np.isfinite(opt.best_loss) and opt.best_loss >= 0, f"loss {opt.best_loss}")
        require(opt.rpu_config.mapping == rpu.mapping, "mapping of the resulting configuration")
        beaten = opt.best_loss < (1 - c["margin"]) * opt.loss_baseline
        rec.label("optimised", "beaten" if beaten else "not beaten")
        if beaten:
            require(success is True, f"success is {success!r} though the baseline was beaten by the margin")
        elif not isinstance(success, (bool, np.bool_)):
            rec.known.append(("F132", "the success flag of the weight programming optimizer"))
    same(w, keep, "the given weights")
    require(rpu.noise_model.g_converter is conv and rpu.mapping.weight_scaling_omega == c["omega"] and fl == c["f"], "the given configuration was changed")
    rec.hit(c["xs"] != "zero")


LANES = [Lane("converter", conv_cases(), check_conv, quick=2500, thorough=60000), Lane("model", model_cases(), check_model, quick=900, thorough=12000),
         Lane("exact", exact_cases(), check_exact, quick=1200, thorough=20000),
         Lane("wpo", wpo_cases(), check_wpo, quick=250, thorough=6000,
              explicit=[{"f": [1.0], "nbins": 2, "sym": True, "max_kw": True, "g": [0.0, 25.0], "w": {"k": "normal", "s": 3, "m": 1.0}, "n": 20, "s": 4, "run": True,
                         "xs": "random", "omega": 1.0, "margin": 0.9}])]
