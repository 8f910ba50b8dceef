"""P16: programming, drift and drift compensation of inference tiles over histories of operations."""
import copy
import io

import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.exceptions import ModuleError
from aihwkit.inference.compensation.drift import (GlobalDriftCompensation, GlobalDriftCompensationWithExactReference,
                                                  PerColumnDriftCompensation)
from aihwkit.inference.converter.conductance import SinglePairConductanceConverter
from aihwkit.inference.utils import drift_analog_weights, program_analog_weights
from aihwkit.inference.noise.base import BaseNoiseModel
from aihwkit.inference.noise.custom import StateIndependentNoiseModel
from aihwkit.inference.noise.pcm import PCMLikeNoiseModel
from aihwkit.nn import AnalogConv1d, AnalogConv2d, AnalogConv3d, AnalogLinear, AnalogLSTMCell, AnalogRNN, AnalogSequential
from vlib import cfg, gen
from vlib.core import Lane
from vlib.util import close, npy, raises, require, same

PROPERTY = "P16"
RULE = ("cases: an inference layer (linear split over tiles or not, convolution of any dimension indexed or not, analog or digital "
        "bias, any scaling; C++ or torch tile) with a drift compensation and a noise model, and a history of programming, "
        "drifting to any times in any order, reading, training-mode and evaluation passes, new weights, saving and loading. "
        "Lane formula: a deterministic user-defined noise model, everything compared with the documented formulas; lane device: "
        "random per-device exponents, repeatable and independent of the history. Non-trivial: at least one drift to t > 0.")


class UserModel(BaseNoiseModel):
    """A deterministic device: programming gain and offset, a conductance dependent exponent, a power law in time."""

    def __init__(self, gain=0.9, offset=0.4, nu=(0.02, 0.06), g_max=25.0, t_0=20.0):
        super().__init__(SinglePairConductanceConverter(g_max=g_max))
        self.gain, self.offset, self.nu, self.t_0 = gain, offset, nu, t_0

    def apply_programming_noise_to_conductance(self, g_target):
        return g_target * self.gain + self.offset * g_target / (1 + g_target)

    def generate_drift_coefficients(self, g_target):
        return self.nu[0] + self.nu[1] * 0.5 * (1 + torch.sin(g_target))

    def apply_drift_noise_to_conductance(self, g_prog, drift_noise_param, t_inference):
        return g_prog * ((t_inference + self.t_0) / self.t_0) ** (-drift_noise_param)


class Formula:
    """The same in float64 for one tile."""

    def __init__(self, m, target):
        t = npy(target)
        self.ratio = 25.0 / max(np.abs(t).max(), 1e-7)
        self.g, self.nu = [], []
        for sign in (1, -1):
            g = np.maximum(sign * t * self.ratio, 0)
            self.g.append(g * m.gain + m.offset * g / (1 + g))
            self.nu.append(m.nu[0] + m.nu[1] * 0.5 * (1 + np.sin(g)))
        self.t0 = m.t_0

    def at(self, t):
        f = [g * ((t + self.t0) / self.t0) ** (-nu) for g, nu in zip(self.g, self.nu)]
        return (f[0] - f[1]) / self.ratio

    def programmed(self):
        return (self.g[0] - self.g[1]) / self.ratio


COMP = {"none": lambda: None, "global": GlobalDriftCompensation, "exact": GlobalDriftCompensationWithExactReference,
        "column": PerColumnDriftCompensation}


@st.composite
def layers(draw):
    kind = draw(st.sampled_from(["linear", "linear", "linear", "conv1", "conv2", "conv3", "lstm"]))
    tile = draw(st.sampled_from(["inference", "inference", "torch"])) if kind in ("linear", "conv2", "lstm") else "inference"
    c = {"layer": kind, "tile": tile, "n": [draw(st.integers(1, 7)), draw(st.integers(1, 7))], "bias": draw(st.booleans()),
         "digital": draw(st.booleans()) if tile == "inference" else True,
         "omega": draw(st.sampled_from([0.0, 0.0, 1.0, 0.6])), "columns": draw(st.booleans()), "learn": draw(st.booleans()),
         "comp": draw(st.sampled_from(["none", "global", "global", "exact", "column", "column"])),
         "w": draw(gen.data(["normal", "uniform", "sparse", "pos", "zeros", "outlier", "const"])), "s": draw(gen.seeds),
         "max": 0, "use_indexed": None}
    if kind == "linear" and c["digital"] and draw(st.booleans()):
        c["max"] = draw(st.integers(2, 4))
    if kind.startswith("conv"):
        c["use_indexed"] = draw(st.sampled_from([True, False])) if tile == "inference" and kind == "conv2" else None
        c["n"] = [draw(st.integers(1, 3)), draw(st.integers(1, 4))]
    return c


def config(c, model):
    rpu = cfg.config({"kind": c["tile"], "forward": {"is_perfect": True},
                      "mapping": {"digital_bias": c["digital"], "weight_scaling_omega": c["omega"], "weight_scaling_columnwise": c["columns"],
                                  "learn_out_scaling": c["learn"], "max_input_size": c["max"], "max_output_size": c["max"]}})
    rpu.noise_model = model
    rpu.drift_compensation = COMP[c["comp"]]()
    return rpu


def build(c, model):
    rpu = config(c, model)
    i, o = c["n"]
    torch.manual_seed(c["s"] % 10 ** 6)
    if c["layer"] == "linear":
        lay = AnalogLinear(i, o, bias=c["bias"], rpu_config=rpu)
    elif c["layer"] == "lstm":
        lay = AnalogRNN(AnalogLSTMCell, i, o, bias=c["bias"], rpu_config=rpu)
    else:
        cls = {"conv1": AnalogConv1d, "conv2": AnalogConv2d, "conv3": AnalogConv3d}[c["layer"]]
        lay = cls(i, o, 2, bias=c["bias"], rpu_config=rpu, **({"use_indexed": c["use_indexed"]} if c["layer"] == "conv2" else {}))
    return AnalogSequential(lay)


def tiles(mod):
    return list(mod.analog_tiles())


def raw(tile):
    return npy(tile.tile.get_weights())


def set_all(mod, spec, k):
    """New weights on every tile through its public setter."""
    for j, t in enumerate(tiles(mod)):
        w = cfg.ten({**spec, "s": spec["s"] + 31 * j + 997 * k}, (t.out_size, t.in_size))
        b = torch.linspace(-0.5, 0.8, t.out_size) if t.bias is not None or t.analog_bias else None
        t.set_weights(w, b)


def readout(comp, w):
    """Absolute mean response to single inputs; w is [out, in]."""
    a = np.abs(w)
    return np.maximum(a.mean() if comp != "column" else a.mean(axis=1), 1e-4)


def x_of(c, k):
    i = c["n"][0]
    shape = {"linear": (4, i), "conv1": (2, i, 4), "conv2": (2, i, 3, 4), "conv3": (2, i, 3, 2, 3), "lstm": (3, 2, i)}[c["layer"]]
    return cfg.ten({"k": "normal", "s": (c["s"] + k) % 2 ** 31, "m": 1.0}, shape)


def run(mod, c, x):
    with torch.no_grad():
        y = mod(x)
    return y[0] if isinstance(y, tuple) else y


def tile_out(tile, x, alpha):
    """What one tile computes on [batch, in] with the given compensation factor (1 in training)."""
    w, x = raw(tile), npy(x)
    if tile.analog_bias:
        x = np.concatenate([x, np.ones((len(x), 1))], 1)
    y = x @ w.T
    y = y * alpha
    s = tile.get_scales()
    if s is not None:
        y = y * npy(s).reshape(1, -1)
    if tile.digital_bias and tile.bias is not None:
        y = y + npy(tile.bias)
    return y


def expected(mod, c, x, alphas):
    ts = tiles(mod)
    x = npy(x)
    if c["layer"] == "linear":
        if len(ts) == 1:
            return tile_out(ts[0], x, alphas[0])
        # tile arrays: each tile compensates its own part
        arr = mod[0].analog_module
        y, k = np.zeros((len(x), c["n"][1])), 0
        i0 = 0
        for row, tl in enumerate(arr.array):
            o0 = 0
            for t in tl:
                j = next(n for n, u in enumerate(ts) if u is t)
                y[:, o0:o0 + t.out_size] += tile_out(t, x[:, i0:i0 + t.in_size], alphas[j])
                o0 += t.out_size
            i0 += tl[0].in_size
        if arr.bias is not None:
            y = y + npy(arr.bias)
        return y
    # convolutions: unfold windows of size 2 in every direction
    d = x.ndim - 2
    sp = x.shape[2:]
    out = [n - 1 for n in sp]
    t = ts[0]
    cols = []
    for pos in np.ndindex(*out):
        sl = tuple(slice(p, p + 2) for p in pos)
        cols.append(x[(slice(None), slice(None)) + sl].reshape(len(x), -1))
    y = np.stack([tile_out(t, torch.tensor(v), alphas[0]) for v in cols], -1)
    return y.reshape(len(x), -1, *out)


TIMES = [0.0, 1.0, 25.0, 3600.0, 86400.0, 3.0e7]


@st.composite
def ops(draw):
    out = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(["drift", "drift", "drift", "eval", "train", "program", "program", "set", "state", "copy", "fresh", "read", "load", "exchange"]))
        o = {"op": op}
        if op == "drift":
            o["t"] = draw(st.sampled_from(TIMES))
        if op == "program":
            o["model"] = draw(st.sampled_from([None, None, 0.8]))
            o["ref"] = draw(st.sampled_from([None, None, True, False]))
        if op == "exchange":
            o["scaled"] = draw(st.booleans())
        if op in ("set", "load", "exchange"):
            o["w"] = draw(gen.data(["normal", "pos", "uniform", "sparse"]))
        out.append(o)
    if draw(st.booleans()):
        out.append({"op": "drift", "t": draw(st.sampled_from(TIMES[1:]))})
    return out


@st.composite
def formula_cases(draw):
    return {**draw(layers()), "gain": draw(st.sampled_from([1.0, 0.9, 1.1])), "offset": draw(st.sampled_from([0.0, 0.4])),
            "nu": draw(st.sampled_from([[0.02, 0.06], [0.05, 0.0], [0.0, 0.1]])), "ops": draw(ops())}


def saved(mod):
    f = io.BytesIO()
    torch.save(mod.state_dict(), f)
    f.seek(0)
    return torch.load(f, weights_only=False)


class World:
    def __init__(self, c, mod, model):
        self.c, self.model = c, model
        self.fresh(mod)

    def fresh(self, mod):
        """Known weights, nothing programmed."""
        self.n = len(tiles(mod))
        self.target = [raw(t) for t in tiles(mod)]
        self.cur = list(self.target)
        self.prog = None
        self.alpha = [1.0] * self.n
        self.base = None
        self.ref_set = False

    def program(self):
        if self.ref_set is False:
            self.ref_set = True
        self.prog = [Formula(self.model, t) for t in self.target]
        self.cur = [p.programmed() for p in self.prog]
        comp = self.c["comp"]
        if comp != "none":
            self.base = [readout(comp, t if comp == "exact" else w) for t, w in zip(self.target, self.cur)]

    def drift(self, t):
        if self.prog is None:
            self.program()
        self.cur = [p.at(t) for p in self.prog]
        comp = self.c["comp"]
        if comp != "none":
            self.alpha = [b / readout(comp, w) for b, w in zip(self.base, self.cur)]

    def verify(self, mod, what):
        for k, (t, w) in enumerate(zip(tiles(mod), self.cur)):
            close(raw(t), w, f"{what}: analog weights of tile {k}", rtol=2e-4, atol=2e-6)

    def outputs(self, mod, k, what):
        c = self.c
        if c["layer"] == "lstm":
            return
        x = x_of(c, k)
        for train in (False, True):
            mod.train(train)
            y = run(mod, c, x)
            al = [1.0] * self.n if train else self.alpha
            close(y, expected(mod, c, x, al), f"{what}: output in {'training' if train else 'evaluation'} mode", rtol=4e-4, atol=1e-5)
        mod.eval()


def check_formula(c, rec):
    model = UserModel(c["gain"], c["offset"], tuple(c["nu"]))
    mod = build(c, model).eval()
    set_all(mod, c["w"], 0)
    w = World(c, mod, model)
    drifted = 0
    for k, o in enumerate(c["ops"]):
        op = o["op"]
        what = f"step {k} ({op})"
        helper = (c["s"] + k) % 2 == 0
        if op == "drift":
            if helper:                                   # the function for models that are no analog containers
                drift_analog_weights(torch.nn.Sequential(mod, torch.nn.ReLU()).eval(), o["t"])
            else:
                mod.drift_analog_weights(o["t"])
            w.drift(o["t"])
            drifted += o["t"] > 0
        elif op == "program":
            if o["ref"] is False:                        # the present weights become the reference
                w.target = [raw(t) for t in tiles(mod)]
            if o["ref"] is not None:
                if o["model"] is not None:
                    w.model = UserModel(o["model"], c["offset"], tuple(c["nu"]))
                for t in tiles(mod):
                    t.program_weights(from_reference=o["ref"], noise_model=w.model if o["model"] is not None else None)
            elif o["model"] is not None:                 # a noise model given here replaces the one of the tiles
                w.model = UserModel(o["model"], c["offset"], tuple(c["nu"]))
                if helper:
                    program_analog_weights(torch.nn.Sequential(mod, torch.nn.ReLU()).eval(), w.model)
                else:
                    mod.program_analog_weights(noise_model=w.model)
            elif helper:
                program_analog_weights(torch.nn.ModuleList([mod]).eval(), None)
            else:
                mod.program_analog_weights()
            w.program()
        elif op == "set":
            set_all(mod, o["w"], k + 1)
            w.fresh(mod)
        elif op == "copy":
            mod = copy.deepcopy(mod)
        elif op == "state":
            f = io.BytesIO()
            torch.save(mod, f)
            f.seek(0)
            mod = torch.load(f, weights_only=False)
        elif op == "fresh":                              # the state dict holds the weights and the factors only
            mod2 = build({**c, "s": c["s"] + 1}, w.model).eval()
            mod2.load_state_dict(saved(mod))
            mod, al, cur = mod2, w.alpha, w.cur
            w.fresh(mod)
            w.alpha = al
            for t, v in zip(tiles(mod), cur):
                close(raw(t), v, f"{what}: loaded weights", rtol=2e-4, atol=2e-6)
        elif op == "load":                               # weights of another model are loaded into this one
            other = build({**c, "s": c["s"] + 2}, w.model).eval()
            set_all(other, o["w"], k + 1)
            mod.load_state_dict(saved(other))
            w.fresh(mod)
            for t, v in zip(tiles(mod), tiles(other)):
                same(raw(t), raw(v), f"{what}: loaded weights")
        elif op == "exchange":                           # all weights of another model at once
            other = build({**c, "s": c["s"] + 3}, w.model).eval()
            set_all(other, o["w"], k + 1)
            kw = {} if o["scaled"] else {"apply_weight_scaling": False}
            mod.set_weights(other.get_weights(**kw), **kw)
            w.fresh(mod)
            for a, b in zip(tiles(mod), tiles(other)):
                for u, v in zip(a.get_weights(**kw), b.get_weights(**kw)):
                    require((u is None) == (v is None), f"{what}: bias")
                    if u is not None:
                        close(u, v, f"{what}: weights set for the whole model", rtol=1e-5, atol=1e-6)
                if kw:
                    same(raw(a), raw(b), f"{what}: normalised weights set for the whole model")
        elif op == "train":
            mod.train()
            raises(lambda: mod.drift_analog_weights(1.0), ModuleError, "drift in training mode")
            raises(mod.program_analog_weights, ModuleError, "programming in training mode")
            raises(lambda: drift_analog_weights(mod, 1.0), ModuleError, "drift in training mode (function)")
            raises(lambda: program_analog_weights(mod, None), ModuleError, "programming in training mode (function)")
            mod.eval()
        elif op == "read":
            for t in tiles(mod):
                t.get_weights()
        w.verify(mod, what)
        w.outputs(mod, k, what)
    rec.label(c["layer"], c["comp"], c["tile"], "array" if w.n > 1 else "one", *sorted({o["op"] for o in c["ops"]}))
    rec.hit(drifted > 0 and bool(np.abs(w.target[0]).max() > 0))


# ---- random exponents of the predefined models

@st.composite
def device_cases(draw):
    c = draw(layers())
    c["model"] = draw(st.sampled_from(["pcm", "state"]))
    c["prog"] = draw(st.booleans())
    c["times"] = draw(st.lists(st.sampled_from(TIMES), min_size=3, max_size=8))
    return c


def check_device(c, rec):
    cls = PCMLikeNoiseModel if c["model"] == "pcm" else StateIndependentNoiseModel
    m = cls(prog_noise_scale=float(c["prog"]), read_noise_scale=0.0)
    if c["model"] == "state":
        m = cls(prog_noise_scale=float(c["prog"]), read_noise_scale=0.0, drift_nu_mean=0.08, drift_nu_std=0.04)
    mod = build(c, m).eval()
    set_all(mod, c["w"], 0)
    mod.program_analog_weights()
    p = [raw(t) for t in tiles(mod)]
    seen, out = {}, {}
    x = x_of(c, 3)
    for k, t in enumerate(c["times"]):
        mod.drift_analog_weights(t)
        cur = [raw(u) for u in tiles(mod)]
        y = npy(run(mod, c, x))
        if t in seen:
            for a, b in zip(cur, seen[t]):
                same(a, b, f"weights drifted to {t} again")
            same(y, out[t], f"output after drifting to {t} again")
        seen[t], out[t] = cur, y
        for a, b in zip(cur, p):
            if t == 0.0:
                close(a, b, "weights drifted to time zero and programmed weights", rtol=1e-4, atol=1e-6)
            if not c["prog"]:
                require(np.all(np.abs(a) <= np.abs(b) * (1 + 1e-5)) and np.all(a * b >= 0), f"weights at {t} larger than programmed")
    # a power law with one exponent for each device
    if not c["prog"]:
        ref = None
        for t, cur in sorted(seen.items()):
            if t == 0.0:
                continue
            nus = [np.where(np.abs(b) > 1e-3, -np.log(np.maximum(np.abs(a), 1e-30) / np.maximum(np.abs(b), 1e-30)) / np.log((t + 20.0) / 20.0), 0.0)
                   for a, b in zip(cur, p)]
            if ref is not None:
                for a, b in zip(nus, ref):
                    close(a, b, f"drift exponents from the weights at {t}", rtol=1e-3, atol=max(3e-5, 3e-6 / np.log((min(u for u in seen if u > 0) + 20.0) / 20.0)))
            ref = ref or nus
    rec.label(c["model"], c["layer"], c["comp"])
    rec.hit(bool(np.abs(p[0]).max() > 0))


LANES = [Lane("formula", formula_cases(), check_formula, quick=1600, thorough=30000), Lane("device", device_cases(), check_device, quick=700, thorough=12000)]
