"""P20: digital low-precision layers compute with properly quantised weights and activations, over any history of the quantiser states."""
import copy
import io
import pickle

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn
from torch.nn import functional as F

from aihwkit.extension import FloatPrecisionCast
from aihwkit.extension.functions import FloatPrecisionCastFunction
from aihwkit.nn.low_precision_conversion import convert_to_quantized
from aihwkit.nn.low_precision_modules import conversion_utils, quantization_states as qs
from aihwkit.nn.low_precision_modules.quantized_base_modules import QuantConv2d, QuantEmbedding, QuantLayerNorm, QuantLinear
from aihwkit.nn.low_precision_modules.quantized_input_module import QuantizedInputModule
from aihwkit.nn import AnalogConv2d, AnalogLinear
from aihwkit.simulator.configs import QuantizedTorchInferenceRPUConfig
from aihwkit.simulator.digital_low_precision import config_utils
from aihwkit.simulator.digital_low_precision.base_quantized_classes import QuantizedModule
from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager
from aihwkit.simulator.digital_low_precision.quantizers import QMethods, QuantizerNotInitializedError
from aihwkit.simulator.digital_low_precision.range_estimators import OptMethod, RangeEstimators
from aihwkit.simulator.parameters import quantization as Q
from aihwkit.simulator.tiles.array import QuantizedTileModuleArray
from vlib import cfg, gen
from vlib.core import Lane, Skip
from vlib.util import close, npy, raises, require

PROPERTY = "P20"
RULE = ("cases: quantisers (symmetric / asymmetric, per tensor / channel / axis, linear / log scales, 2-12 bits) with every range estimator in a history of "
        "batches, state changes (estimate, estimate in training, fix, learn, reset), saving, loading and copies; nested digital models converted with "
        "maps (types, instances, exclusions, quantised inputs) in such histories. Each quantised value is a grid value nearest to its input, the grid "
        "that of the modelled range; gradients are straight through. Floating-point numbers cast to fewer exponent and "
        "mantissa bits are those of the format, monotone, clipped or infinite beyond the range. Non-trivial: quantisation changed a value.")
EPS, INF = 1e-8, float("inf")


class Grid:
    """The quantisation grid of a range [lo, hi] (scalars or per channel arrays broadcastable to the data)."""

    def __init__(self, symmetric, bits, lo, hi, floor=EPS):
        lo, hi = np.minimum(np.asarray(lo, float), 0.0), np.maximum(np.asarray(hi, float), EPS)
        if symmetric:
            signed = bool(np.min(lo) < 0)
            self.kmin, self.kmax = (-2.0 ** (bits - 1) if signed else 0.0), 2.0 ** (bits - signed) - 1
            self.s, self.z = np.maximum(np.maximum(-lo, hi) / self.kmax, floor), np.zeros_like(lo)
        else:
            self.kmin, self.kmax = 0.0, 2.0 ** bits - 1
            self.s = np.maximum((hi - lo) / self.kmax, floor)
            self.z = np.clip(-lo / ((hi - lo) / self.kmax), self.kmin, self.kmax)     # not rounded yet

    def shaped(self, v, nd, axis):
        v = np.asarray(v, float)
        if v.ndim == 0 or v.size == 1:
            return v.reshape(())
        return v.reshape([-1 if i == axis else 1 for i in range(nd)])

    def verify(self, x, q, what, axis=0):
        """q is x on the grid; returns whether anything changed."""
        x, q = np.asarray(x, float), np.asarray(q, float)
        require(x.shape == q.shape, f"{what}: shape {q.shape} of the quantised {x.shape}")
        s, z = self.shaped(self.s, x.ndim, axis), self.shaped(self.z, x.ndim, axis)
        zr = np.rint(z)
        if np.any(np.abs(np.abs(z - np.floor(z)) - 0.5) < 1e-3):
            raise Skip()        # floating point decides the zero point
        k = q / s
        tol = 1e-3 + 3e-6 * np.abs(k).max(initial=1.0)
        bad = np.abs(k - np.rint(k)) > tol
        require(not bad.any(), lambda: f"{what}: {q[bad][0]:.7g} is not on the grid of step {np.broadcast_to(s, x.shape)[bad][0]:.7g}")
        lo, hi = s * (self.kmin - zr), s * (self.kmax - zr)
        bad = (q < lo - tol * s) | (q > hi + tol * s)
        require(not bad.any(), lambda: f"{what}: {q[bad][0]:.7g} is outside the range {np.broadcast_to(lo, x.shape)[bad][0]:.7g} to {np.broadcast_to(hi, x.shape)[bad][0]:.7g}")
        c = np.clip(x, lo, hi)
        bad = np.abs(q - c) > s * (0.5 + tol)
        require(not bad.any(), lambda: f"{what}: {x[bad][0]:.7g} was quantised to {q[bad][0]:.7g}, step {np.broadcast_to(s, x.shape)[bad][0]:.7g}, "
                                       f"range {np.broadcast_to(lo, x.shape)[bad][0]:.7g} to {np.broadcast_to(hi, x.shape)[bad][0]:.7g}")
        return bool(np.any(np.abs(q - x) > 1e-6 * np.abs(x).max(initial=1e-6)))


class Range:
    """Reference of a range estimator."""

    def __init__(self, est, per_channel, par):
        self.est, self.pc, self.par = est, per_channel, par
        self.reset()

    def reset(self):
        self.lo = self.hi = None
        self.mag = 0.0          # of averaged values

    def update(self, x):
        x = np.asarray(x, float)
        v = x.reshape(x.shape[0], -1) if self.pc else x.reshape(1, -1)
        lo, hi = v.min(1), v.max(1)
        pct = self.par.get("percentile")
        if self.est == "current_minmax" and pct:
            # the tails of each channel; of a whole tensor just the lower one
            lo, hi = np.percentile(v.astype(np.float32), (pct, 100 - pct if self.pc else 100), axis=1)
        if not self.pc:
            lo, hi = lo[0], hi[0]
        if self.lo is None or self.est == "current_minmax":
            self.lo, self.hi = lo, hi
        elif self.est == "allminmax":
            self.lo, self.hi = np.minimum(self.lo, lo), np.maximum(self.hi, hi)
        else:
            m = self.par.get("momentum", 0.9)
            self.mag = max(self.mag, np.abs(self.lo).max(), np.abs(self.hi).max(), np.abs(lo).max(), np.abs(hi).max())
            self.lo, self.hi = m * self.lo + (1 - m) * lo, m * self.hi + (1 - m) * hi
        return self.lo, self.hi


class Manager:
    """Reference of a quantisation manager."""

    def __init__(self, symmetric, bits, est, per_channel, par, log=False):
        self.sym, self.bits, self.pc = symmetric, bits, per_channel
        self.floor = 0.0 if log else EPS
        self.range, self.state, self.cur = Range(est, per_channel, par), "train", None

    def reset(self):
        self.range.reset()
        self.state, self.cur = "train", None

    def grid(self, x, training):
        """The grid for the next data (None: not initialised)."""
        if self.state == "estimate" or (self.state == "train" and training):
            self.cur = self.range.update(x)
        if self.cur is not None and 3e-7 * self.range.mag * 2 ** self.bits > 5e-3 * np.min(np.maximum(np.asarray(self.cur[1], float), EPS) - np.minimum(self.cur[0], 0.0)):
            raise Skip()        # floating point cancellation in an average
        return None if self.cur is None else Grid(self.sym, self.bits, *self.cur, self.floor)


DATA = gen.data(["normal", "uniform", "grid", "pos", "zeros", "const", "negconst", "outlier"], (1.0, 0.1, 20.0))
STATES = ["fix", "estimate", "train-state", "learn", "reset"]
BITS = st.sampled_from([2, 3, 4, 8, 12])


@st.composite
def manager_cases(draw):
    est = draw(st.sampled_from(["current_minmax", "allminmax", "running_minmax"]))
    ops = st.one_of(st.fixed_dictionaries({"op": st.sampled_from(["train", "eval", "train", "eval"]), "x": DATA, "g": st.booleans()}),
                    st.fixed_dictionaries({"op": st.sampled_from(STATES + ["save", "copy", "pickle"])}))
    return {"sym": draw(st.booleans()), "bits": draw(BITS), "est": est, "pc": draw(st.booleans()),
            "log": draw(st.integers(0, 4).map(lambda v: v == 4)), "par": {"momentum": draw(st.sampled_from([0.9, 0.5, 0.0, 0.99]))} if est == "running_minmax" else {"percentile": draw(st.sampled_from([None, 1.0, 10.0, 30.0]))} if est == "current_minmax" else {},
            "shape": draw(st.sampled_from([[3], [2, 3], [4, 1], [3, 2, 2], [2, 3, 2, 2], [2, 12]])), "ops": draw(st.lists(ops, min_size=1, max_size=8))}


def new_manager(c):
    return QuantizationManager(qmethod=QMethods["symmetric_uniform" if c["sym"] else "asymmetric_uniform"], init=RangeEstimators[c["est"]], per_channel=c["pc"],
                               qparams={"n_bits": c["bits"], "scale_domain": "log" if c["log"] else "linear"}, init_params=dict(c["par"]))


def gradients(m, c, x, y, grid, what):
    """Straight-through gradients to the data and, if learned, to scale and zero point."""
    g = torch.linspace(-1, 1, y.numel()).reshape(y.shape)
    for p in m.parameters():
        p.grad = None
    y.backward(g)
    s, z = grid.shaped(grid.s, x.dim(), 0), np.rint(grid.shaped(grid.z, x.dim(), 0))
    xv, gv = npy(x).astype(float), npy(g).astype(float)
    k = xv / s + z
    if np.any(np.abs(np.abs(k - np.floor(k)) - 0.5) < 1e-3):
        raise Skip()
    r = np.rint(xv / s) + z
    inside = (r >= grid.kmin) & (r <= grid.kmax)
    close(x.grad, gv * inside, f"{what}: gradient", 1e-4, 1e-6)
    if m.is_learning() and not c["log"]:
        def red(v):
            if np.asarray(grid.s).size == 1:
                return np.asarray(v.sum())
            return v.reshape(v.shape[0], -1).sum(1)
        ds = red(gv * (np.clip(r, grid.kmin, grid.kmax) - z - inside * xv / s))
        ds = np.where(np.asarray(grid.s) <= EPS * 1.01, 0.0, ds)        # (clamped scale)
        ref = np.abs(ds).max() + 1.0 + 5e-3 * np.abs(xv / s).max() * x[0].numel()         # (cancellation)
        close(npy(m.quantizer._delta.grad).reshape(-1), ds.reshape(-1), f"{what}: gradient of the scale", 1e-3, 1e-4 * ref)
        if not c["sym"]:
            zg = np.asarray(grid.z, float)
            dz = red(gv * s * (inside - 1.0))
            dz = np.where((np.rint(zg) >= grid.kmin) & (np.rint(zg) <= grid.kmax), dz, 0.0)
            close(npy(m.quantizer._zero_float.grad).reshape(-1), dz.reshape(-1), f"{what}: gradient of the zero point", 1e-3, 1e-4 * (np.abs(dz).max() + 1.0))


def check_manager(c, rec):
    m, ref = new_manager(c), Manager(c["sym"], c["bits"], c["est"], c["pc"], c["par"], c["log"])
    hit, others = False, []
    for i, o in enumerate(c["ops"]):
        op, what = o["op"], f"step {i} ({o['op']})"
        rec.label(op)
        if op in ("train", "eval"):
            m.train(op == "train")
            x = cfg.ten(o["x"], c["shape"])
            if o["g"]:
                x.requires_grad_()
            grid = ref.grid(npy(x), op == "train")
            if grid is None:
                raises(lambda: m(x), (QuantizerNotInitializedError, AssertionError), f"{what}, quantiser without a range")
                continue
            y = m(x)
            hit |= grid.verify(npy(x), npy(y), what)
            if not c["pc"] or not c["sym"] or ref.state != "x":
                y2 = m.quantizer(y.detach())
                close(y2, y, f"{what}: quantising twice", 1e-5, 1e-7)
            lo, hi = npy(m.quantizer.x_min).reshape(-1), npy(m.quantizer.x_max).reshape(-1)
            close(lo, np.reshape(grid.s * (grid.kmin - np.rint(grid.z)), -1), f"{what}: x_min", 1e-3, 1e-6)
            close(hi, np.reshape(grid.s * (grid.kmax - np.rint(grid.z)), -1), f"{what}: x_max", 1e-3, 1e-6)
            if o["g"]:
                gradients(m, c, x, y, grid, what)
        elif op == "fix":
            if ref.cur is None:
                raises(m.fix_ranges, QuantizerNotInitializedError, "fixing ranges that do not exist")
            else:
                m.fix_ranges()
                ref.state = "fix"
        elif op == "estimate":
            m.estimate_ranges()
            ref.state = "estimate"
        elif op == "train-state":
            m.estimate_ranges_train()
            ref.state = "train"
        elif op == "learn":
            if ref.cur is not None:
                m.learn_ranges()
                ref.state = "learn"
        elif op == "reset":
            m.reset_ranges()
            ref.reset()
        elif op == "save":
            n = new_manager(c)
            f = io.BytesIO()
            torch.save(m.state_dict(), f)
            f.seek(0)
            sd = torch.load(f)
            n.load_state_dict(sd)
            n.state = m.state
            if ref.state == "learn":
                n.learn_ranges()
            twin = new_manager(c)
            twin.load_state_dict(sd)
            others.append((twin, copy.deepcopy(sd)))
            m = n
        elif op == "copy":
            if c["pc"] or any(p["op"] in ("train", "eval") for p in c["ops"][:i]):
                m = copy.deepcopy(m)
        elif op == "pickle":
            if m.quantizer.view_func is None:
                m = pickle.loads(pickle.dumps(m))
    for twin, sd in others:
        now = twin.state_dict()
        require(now.keys() == sd.keys() and all(npy(now[k]).tobytes() == npy(sd[k]).tobytes() for k in sd if isinstance(sd[k], torch.Tensor)),
                lambda: f"a manager loaded from the same state changed from {sd} to {now}, although another one was used")
    rec.hit(hit)
    rec.label(c["est"])


# ---- ranges that minimise an error

@st.composite
def mse_cases(draw):
    return {"sym": draw(st.booleans()), "bits": draw(st.sampled_from([2, 3, 4])), "pc": draw(st.booleans()), "opt": draw(st.sampled_from(["grid", "golden_section"])),
            "num": draw(st.sampled_from([10, 25])), "margin": draw(st.sampled_from([0.5, 0.0, 1.0])), "shape": draw(st.sampled_from([[3, 8], [2, 3, 2, 2], [1, 12]])),
            "x": draw(gen.data(["normal", "uniform", "pos", "outlier"], (1.0, 0.3, 5.0))), "x2": draw(gen.data(["normal", "uniform", "pos", "outlier"], (1.0, 0.3, 5.0))),
            "neg": draw(st.booleans()), "neg2": draw(st.booleans())}


def mse(sym, bits, lo, hi, x):
    g = Grid(sym, bits, lo, hi)
    z = np.rint(g.z)
    q = g.s * (np.clip(np.rint(x / g.s) + z, g.kmin, g.kmax) - z)
    return float(((x - q) ** 2).sum())


def check_mse(c, rec):
    def make():
        return QuantizationManager(qmethod=QMethods["symmetric_uniform" if c["sym"] else "asymmetric_uniform"], init=RangeEstimators.MSE, per_channel=c["pc"],
                                   qparams={"n_bits": c["bits"]}, init_params={"opt_method": OptMethod[c["opt"]], "num_candidates": c["num"], "range_margin": c["margin"]})
    x, x2 = cfg.ten(c["x"], c["shape"]), cfg.ten(c["x2"], c["shape"])
    x, x2 = (-x if c["neg"] else x), (-x2 if c["neg2"] else x2)
    m = make()
    y = m(x)
    lo, hi = [npy(v).astype(float).reshape(-1) for v in (m.range_estimator.current_xmin, m.range_estimator.current_xmax)]
    g = Grid(c["sym"], c["bits"], lo if c["pc"] else lo[0], hi if c["pc"] else hi[0])
    hit = g.verify(npy(x), npy(y), "quantised with the best range")
    # not (much) worse than the range of all data, or any candidate range of the search
    xs = npy(x).astype(float).reshape(len(x) if c["pc"] else 1, -1)
    one = bool((x >= 0).all())
    for k in range(len(xs)):
        top = max(abs(npy(x).min()), npy(x).max()) + c["margin"]
        got = mse(c["sym"], c["bits"], lo[k], hi[k], xs[k])
        if c["sym"] and not one and c["pc"] and lo.min() >= 0:
            continue
        best = min(mse(c["sym"], c["bits"], 0.0 if one else -top * i / c["num"], top * i / c["num"], xs[k]) for i in range(1, c["num"] + 1)) if c["sym"] or one else None
        if best is not None:
            if c["opt"] == "grid":
                require(got <= best * 1.001 + 1e-5 * (xs[k] ** 2).sum() + 1e-9, f"row {k}: error {got:.5g} of the grid search, {best:.5g} possible")
        worst = (xs[k] ** 2).sum()
        require(got <= worst * 1.001 + 1e-6, f"row {k}: error {got:.5g} of the best range exceeds that of quantising to zero, {worst:.5g}")
    # after a reset it is like a new one
    m.reset_ranges()
    n = make()
    close(m(x2), n(x2), "quantised after a reset, compared with a new manager", 1e-4, 1e-5)
    rec.hit(hit)
    rec.label(c["opt"])


# ---- converted models

@st.composite
def qconfig(draw, act=True):
    est = st.sampled_from(["current_minmax", "allminmax", "running_minmax"])
    return {"w": draw(st.sampled_from([0, 4, 8, 3])), "a": draw(st.sampled_from([0, 4, 8, 3])), "wsym": draw(st.booleans()), "asym": draw(st.booleans()),
            "west": draw(est), "aest": draw(est), "pc": draw(st.booleans()), "wpct": draw(st.sampled_from([None, None, 10.0])), "apct": draw(st.sampled_from([None, None, 10.0]))}


KINDS = ["linear", "conv", "norm", "embedding", "relu"]


@st.composite
def model_cases(draw):
    fam = draw(st.sampled_from(["linear", "linear", "conv", "embedding"]))
    n = draw(st.integers(1, 3))
    if fam == "conv":
        layers = [{"k": draw(st.sampled_from(["conv", "conv", "relu"])), "pad": draw(st.sampled_from([0, 1, "same"])), "mode": draw(st.sampled_from(["zeros", "zeros", "circular", "reflect"])),
                   "groups": draw(st.sampled_from([1, 2])), "bias": draw(st.booleans()), "dil": draw(st.sampled_from([1, 2]))} for _ in range(n)]
    else:
        layers = [{"k": draw(st.sampled_from(["linear", "linear", "norm", "relu"])), "bias": draw(st.booleans()), "affine": draw(st.integers(0, 3)) < 3} for _ in range(n)]
        if fam == "embedding":
            layers = [{"k": "embedding", "pad": draw(st.sampled_from([None, 0]))}] + layers
    op = st.one_of(st.fixed_dictionaries({"op": st.sampled_from(["train", "eval", "eval"]), "x": gen.data(["normal", "uniform", "outlier"], (1.0, 3.0))}),
                   st.fixed_dictionaries({"op": st.sampled_from(["fix", "fix-act", "fix-weight", "estimate", "estimate-act", "estimate-train", "reset-act", "fp", "fp-w", "fp-a",
                                                                 "quantized", "q-w", "q-a", "load", "weights", "copy", "enable", "sgd"]), "s": gen.seeds}))
    names = [str(i) for i in range(len(layers))]
    nest = draw(st.booleans())
    ops = draw(st.lists(op, min_size=1, max_size=7))
    if draw(st.integers(0, 2)) == 0:
        # the ranges of weights and activations follow (or not) the data after switching a part of the quantisers
        part = [{"op": draw(st.sampled_from(["fix-act", "fix-weight", "fix", "estimate-act", "estimate-train"])), "s": 0}, {"op": "weights", "s": draw(gen.seeds)},
                {"op": "train", "x": draw(gen.data(["normal", "uniform", "outlier"], (1.0, 3.0)))}]
        at = draw(st.integers(0, len(ops)))
        ops = ops[:at] + part + ops[at:]
    return {"fam": fam, "layers": layers, "nest": nest, "default": draw(qconfig()), "types": draw(st.booleans()),
            "inst": draw(st.dictionaries(st.sampled_from(names), qconfig(), max_size=1)), "excl": draw(st.lists(st.sampled_from(names), max_size=1)),
            "inputs": draw(st.dictionaries(st.sampled_from(names), qconfig(), max_size=1)), "seed": draw(gen.seeds), "eval": draw(st.booleans()),
            "ops": ops, "first": draw(st.integers(0, 5)) > 0,
            "x": draw(gen.data(["normal", "uniform", "outlier"], (1.0, 3.0)))}


def build(c):
    torch.manual_seed(c["seed"])
    ls = []
    for d in c["layers"]:
        k = d["k"]
        if k == "linear":
            ls.append(nn.Linear(4, 4, bias=d["bias"]))
        elif k == "conv":
            ls.append(nn.Conv2d(2, 2, 3, padding=2 if d["dil"] == 2 else "same" if d["pad"] == "same" else 1, padding_mode=d["mode"], groups=d["groups"], bias=d["bias"], dilation=d["dil"]))
        elif k == "norm":
            ls.append(nn.LayerNorm(4, elementwise_affine=d["affine"], **({"bias": d["bias"]} if d["affine"] else {})))
            for p in ls[-1].parameters():
                nn.init.normal_(p)
        elif k == "embedding":
            ls.append(nn.Embedding(5, 4, padding_idx=d["pad"]))
        else:
            ls.append(nn.ReLU())
    m = nn.Sequential(*ls)
    if c["nest"]:
        m = nn.Sequential(nn.Sequential(m))
    return m.eval() if c["eval"] else m


def act_config(q):
    par = {"running_minmax": config_utils.RunningMinMaxEstimatorParams(0.5), "current_minmax": config_utils.CurrentMinMaxEstimatorParams(q.get("apct"))}.get(q["aest"])
    return Q.ActivationQuantConfig(n_bits=q["a"], symmetric=q["asym"], range_estimator=RangeEstimators[q["aest"]], range_estimator_params=par)


def quant_config(q):
    return Q.QuantizationConfig(act_config(q), Q.WeightQuantConfig(n_bits=q["w"], symmetric=q["wsym"], per_channel=q["pc"], range_estimator=RangeEstimators[q["west"]],
                                                                  range_estimator_params=config_utils.RunningMinMaxEstimatorParams(0.5) if q["west"] == "running_minmax" else
                                                                  config_utils.CurrentMinMaxEstimatorParams(q["wpct"]) if q["west"] == "current_minmax" and q.get("wpct") else None))


QTYPES = {"linear": QuantLinear, "conv": QuantConv2d, "norm": QuantLayerNorm, "embedding": QuantEmbedding}


class Layer:
    """Reference of one (possibly quantised) layer."""

    def __init__(self, c, i, base):
        d, name = c["layers"][i], str(i)
        self.k, self.d, self.name, self.i = d["k"], d, name, i
        q = c["inst"].get(name) if self.k in QTYPES else None
        if q is None and c["types"] and self.k in QTYPES:
            q = c["default"]
        if name in c["excl"] or self.k not in QTYPES or (q is not None and q["w"] <= 0 and q["a"] <= 0):
            q = None
        self.q, self.cache = q, None
        inp = c["inputs"].get(name) if name not in c["excl"] else None
        self.inp = inp
        def par(e, pct):
            return {"momentum": 0.5} if e == "running_minmax" else {"percentile": pct}
        self.w = Manager(q["wsym"], q["w"], q["west"], q["pc"], par(q["west"], q.get("wpct"))) if q else None
        self.a = Manager(q["asym"], q["a"], q["aest"], False, par(q["aest"], q.get("apct"))) if q else None
        self.ia = Manager(inp["asym"], inp["a"], inp["aest"], False, par(inp["aest"], inp.get("apct"))) if inp else None
        self.on = {"w": bool(q) and q["w"] > 0, "a": bool(q) and q["a"] > 0 and self.k != "embedding", "i": bool(inp) and inp["a"] > 0}

    def managers(self, what="all"):
        out = []
        if what in ("all", "weight") and self.w:
            out.append(self.w)
        if what in ("all", "act"):
            out += [v for v in (self.a if self.k != "embedding" else None, self.ia) if v]
        return out

    def run(self, mod, x, w, b):
        if self.k == "linear":
            return F.linear(x, w, b)
        if self.k == "conv":
            ref = copy.deepcopy(self.orig)
            ref.weight.data, ref.bias = w, (None if b is None else nn.Parameter(b))
            return ref(x)
        if self.k == "norm":
            return F.layer_norm(x, (4,), w, b, 1e-5)
        return F.embedding(x, w)


def inner(m, c):
    return list((m[0][0] if c["nest"] else m).children())


def check_model(c, rec):
    if any(d["k"] == "norm" and (not d["affine"] or not d["bias"]) for d in c["layers"]) and c["types"]:
        rec.label("norm without parameters")
    model = build(c)
    # names of the inner layers
    pre = "0.0." if c["nest"] else ""
    qmap = Q.QuantizationMap()
    qmap.default_qconfig = quant_config(c["default"])
    if c["types"]:
        conversion_utils.append_default_conversions(qmap)
    layers = [Layer(c, i, pre) for i in range(len(c["layers"]))]
    for n, q in c["inst"].items():
        if c["layers"][int(n)]["k"] in QTYPES:
            qmap.instance_qconfig_map[pre + n] = Q.QuantizedModuleConfig(QTYPES[c["layers"][int(n)]["k"]], quant_config(q))
    qmap.excluded_modules += [pre + n for n in c["excl"]]
    for n, q in c["inputs"].items():
        if c["layers"][int(n)]["k"] != "embedding":
            qmap.input_activation_qconfig_map[pre + n] = act_config(q)
        else:
            layers[int(n)].inp = layers[int(n)].ia = None
            layers[int(n)].on["i"] = False
    before = {k: v.clone() for k, v in model.state_dict().items()}
    types = [type(x) for x in inner(model, c)]
    qm = convert_to_quantized(model, qmap)
    require(types == [type(x) for x in inner(model, c)] and all(torch.equal(v, before[k]) for k, v in model.state_dict().items()), "the conversion changed the original model")
    for lay, mod, orig in zip(layers, inner(qm, c), inner(model, c)):
        if lay.inp is not None:
            require(isinstance(mod, QuantizedInputModule), f"layer {lay.name}: no quantised input but a {type(mod).__name__}")
            mod = mod.module
        else:
            require(not isinstance(mod, QuantizedInputModule), f"layer {lay.name}: unexpected quantised input")
        want = QTYPES[lay.k] if lay.q else type(orig)
        require(type(mod) is want, f"layer {lay.name} became {type(mod).__name__} instead of {want.__name__}")
        for n, p in orig.named_parameters():
            require(torch.equal(p, dict(mod.named_parameters())[n]), f"layer {lay.name}: {n} changed in the conversion")
        lay.orig = orig
    hit = False
    record = {}

    def hook(model):
        for lay, mod in zip(layers, inner(model, c)):
            record[lay.i] = None

            def fn(mod, i, o, lay=lay):
                record[lay.i] = (i[0].detach().clone(), o.detach().clone())
            yield mod.register_forward_hook(fn)
    for j, o in enumerate(([{"op": "train", "x": c["x"]}] if c["first"] else []) + c["ops"]):
        op, what = o["op"], f"step {j} ({o['op']})"
        if op in ("train", "eval"):
            qm.train(op == "train")
            shape = {"conv": (2, 2, 4, 5), "embedding": (2, 3)}.get(c["fam"], (3, 4))
            x = cfg.ten(o["x"], shape)
            if c["fam"] == "embedding":
                x = (x.abs() * 10).long() % 5
            hs, last = list(hook(qm)), x
            try:
                y = qm(x)
                failed = False
            except (QuantizerNotInitializedError, AssertionError):
                failed = True
            [h.remove() for h in hs]
            stopped = False
            for lay, mod in zip(layers, inner(qm, c)):
                tr = op == "train"
                where = f"{what}, layer {lay.name} ({lay.k})"
                if stopped:
                    require(record[lay.i] is None, f"{where}: executed although an earlier quantiser has no range")
                    continue
                done = record[lay.i] is not None
                require(done or failed, f"{where}: not executed")
                if not done:
                    stopped = True
                xi, yo = record[lay.i] if done else (last, None)
                last = yo
                if lay.inp is not None:
                    mod = mod.module
                # without an output quantiser the result follows from the quantised weights; otherwise the grid of the unquantised result
                xq = xi
                if lay.ia is not None and lay.on["i"]:
                    g = lay.ia.grid(npy(xi), tr)
                    if g is None:
                        require(not done, f"{where}: quantised input without a range")
                        continue
                    xq = torch.tensor(snap(g, npy(xi)), dtype=torch.float32)
                if lay.k == "relu":
                    require(done, f"{where}: failed")
                    close(yo, F.relu(xq), where, 1e-4, 1e-5)
                    continue
                w, b = mod.weight, getattr(mod, "bias", None)
                if tr:
                    lay.cache = None
                if not tr and lay.cache is not None:
                    w = lay.cache       # (not estimated again)
                elif lay.on["w"] and w is not None:
                    g = lay.w.grid(npy(w), tr)
                    if g is None:
                        require(not done, f"{where}: quantised weights without a range")
                        continue
                    w = torch.tensor(snap(g, npy(w)), dtype=torch.float32)
                    hit |= True
                if not tr and lay.q:
                    lay.cache = w
                ref = npy(lay.run(mod, xq, w.detach() if w is not None else None, b.detach() if b is not None else None))
                if lay.on["a"]:
                    g = lay.a.grid(ref, tr)
                    if g is None:
                        require(not done, f"{where}: quantised output without a range")
                        continue
                    require(done, f"{where}: failed although all ranges are known")
                    tolerant(g, ref, npy(yo), where)
                    hit = True
                else:
                    require(done, f"{where}: failed although all ranges are known")
                    close(yo, ref, where, 1e-4, 2e-5 * max(1.0, np.abs(ref).max()))
            require(stopped == failed, f"{what}: failed")
            if failed:
                rec.label("no range")
        else:
            q = "q" in op
            fn = {"fix": qs.fix_ranges, "fix-act": qs.fix_act_ranges, "fix-weight": qs.fix_weight_ranges, "estimate": qs.estimate_ranges, "estimate-act": qs.estimate_act_ranges,
                  "estimate-train": qs.estimate_ranges_train, "reset-act": qs.reset_act_ranges, "fp": qs.full_precision, "fp-w": qs.full_precision_weights,
                  "fp-a": qs.full_precision_acts, "quantized": qs.quantized, "q-w": qs.quantized_weights, "q-a": qs.quantized_acts, "enable": qs.enable_quant_states}.get(op)
            if op in ("quantized", "q-w", "q-a") and any((lay.q and ((lay.q["w"] <= 0 and op != "q-a") or (lay.q["a"] <= 0 and op != "q-w"))) or (lay.inp and lay.inp["a"] <= 0) for lay in layers):
                continue            # (quantisers of no bits)
            if fn:
                fn(qm)
            if op in ("fp", "fp-w", "quantized", "q-w", "enable", "weights", "load", "sgd"):
                for lay in layers:
                    lay.cache = None
            sel = {"fix-act": "act", "estimate-act": "act", "reset-act": "act", "fix-weight": "weight"}.get(op, "all")
            for lay in layers:
                for m in lay.managers(sel):
                    if op.startswith("fix") and m.cur is not None:
                        m.state = "fix"
                    elif op == "estimate-train":
                        m.state = "train"
                    elif op in ("estimate", "estimate-act"):
                        m.state = "estimate"
                    elif op == "reset-act":
                        m.reset()
                for k in ("w", "a", "i"):
                    have = {"w": lay.q is not None and lay.q["w"] > 0, "a": lay.q is not None and lay.q["a"] > 0 and lay.k != "embedding", "i": lay.inp is not None and lay.inp["a"] > 0}[k]
                    part = "w" if k == "w" else "a"
                    if op in ("fp", "fp-" + part):
                        lay.on[k] = False
                    if op in ("quantized", "q-" + part, "enable"):
                        lay.on[k] = have
            if op == "weights":
                qm.train()
                torch.manual_seed(o["s"])
                for p in qm.parameters():
                    if p.requires_grad and p.dim() >= 1 and p.numel() > 1:
                        p.data = torch.randn(p.shape)
            elif op == "load":
                sd = {k: v.clone() for k, v in qm.state_dict().items()}
                torch.manual_seed(o["s"])
                for k, v in sd.items():
                    if k.endswith("weight") and v.dim() > 1:
                        sd[k] = torch.randn(v.shape)
                qm.load_state_dict(sd)
            elif op == "copy":
                qm = copy.deepcopy(qm)
            elif op == "sgd":
                qm.train()
        rec.label(op)
    rec.hit(hit)


# ---- analog layers with a quantised periphery

@st.composite
def tile_cases(draw):
    op = st.one_of(st.fixed_dictionaries({"op": st.sampled_from(["train", "train", "eval"]), "x": gen.data(["normal", "uniform", "outlier"], (1.0, 3.0))}),
                   st.fixed_dictionaries({"op": st.sampled_from(["bias", "scales", "weights", "learned", "load", "copy"]), "s": gen.seeds}))
    act = draw(st.booleans())
    return {"conv": draw(st.integers(0, 3)) == 3, "o": draw(st.integers(2, 5)), "i": draw(st.integers(2, 5)), "max_in": draw(st.sampled_from([0, 0, 2, 3])), "max_out": draw(st.sampled_from([0, 0, 2])),
            "bias": draw(st.integers(0, 3)) < 3, "bits": draw(st.sampled_from([0, 8, 4, 3, 8, 6, 4])), "sym": draw(st.booleans()), "learn": draw(st.booleans()), "after": draw(st.integers(1, 3)),
            "act": draw(qconfig()) if act else None, "omega": draw(st.sampled_from([0.6, 0.0, 1.0])), "colw": draw(st.booleans()), "outs": draw(st.booleans()), "outcol": draw(st.booleans()),
            "range": draw(st.sampled_from([None, 1.0, 2.5])), "seed": draw(gen.seeds), "ops": draw(st.lists(op, min_size=1, max_size=8)), "first": draw(st.booleans()),
            "x": draw(gen.data(["normal", "uniform"], (1.0, 3.0)))}


def tile_layer(c):
    q = QuantizedTorchInferenceRPUConfig()
    q.forward.is_perfect = True
    m = q.mapping
    m.digital_bias, m.weight_scaling_omega, m.weight_scaling_columnwise = True, c["omega"], c["colw"]
    m.learn_out_scaling, m.out_scaling_columnwise, m.max_input_size, m.max_output_size = c["outs"], c["outcol"], c["max_in"], c["max_out"]
    q.pre_post.input_range.enable = c["range"] is not None
    if c["range"]:
        q.pre_post.input_range.init_value, q.pre_post.input_range.init_from_data, q.pre_post.input_range.learn_input_range = c["range"], 0, False
    p = q.pre_post.periph_quant
    p.n_bits, p.symmetric, p.learn_quant_params, p.init_learning_after = c["bits"], c["sym"], c["learn"], c["after"]
    if c["act"]:
        q.act_quant_config = act_config(c["act"])
    torch.manual_seed(c["seed"])
    if c["conv"]:
        return AnalogConv2d(c["i"], c["o"], 2, rpu_config=q, bias=c["bias"])
    return AnalogLinear(c["i"], c["o"], rpu_config=q, bias=c["bias"])


class Periphery:
    """Reference of a quantiser of scales or biases."""

    def __init__(self, c):
        self.m, self.n, self.c, self.mult = Manager(c["sym"], c["bits"], "current_minmax", False, {}), 0, c, 1.0

    def __call__(self, x, training):
        if self.c["bits"] <= 0:
            return x
        m, x = self.m, npy(x).astype(float)
        if not training and m.cur is None:
            g = m.grid(x, True)
            m.state = "fix"
            return snap(g, x)
        if training and m.state != "learn":
            self.n += 1
            m.state = "learn" if self.c["learn"] and self.n > self.c["after"] else "train"
        g = m.grid(x, training)
        g.s = g.s * self.mult
        return snap(g, x)


def check_tile(c, rec):
    layer = tile_layer(c)
    mod = layer.analog_module
    tiled = isinstance(mod, QuantizedTileModuleArray)
    rec.label("array" if tiled else "tile", "conv" if c["conv"] else "linear", "periphery" if c["bits"] else None, "learn" if c["learn"] else None)
    tiles = [t for row in mod.array for t in row] if tiled else [mod]
    scales, bias = [Periphery(c) for _ in tiles], Periphery(c)
    a = c["act"]
    def act():
        return Manager(a["asym"], a["a"], a["aest"], False, {"momentum": 0.5} if a["aest"] == "running_minmax" else {"percentile": a.get("apct")}) if a and a["a"] > 0 else None
    acts, last = [act() for _ in tiles], act() if tiled and len(tiles) > 1 else None
    hit = False
    for j, o in enumerate(([{"op": "train", "x": c["x"]}] if c["first"] else []) + c["ops"]):
        op, what = o["op"], f"step {j} ({o['op']})"
        rec.label(op)
        tiles = [t for row in layer.analog_module.array for t in row] if tiled else [layer.analog_module]
        if op in ("train", "eval"):
            tr = op == "train"
            layer.train(tr)
            x = cfg.ten(o["x"], (2, c["i"], 3, 3) if c["conv"] else (3, c["i"]))
            rows = F.unfold(x, 2).transpose(1, 2).reshape(-1, c["i"] * 4) if c["conv"] else x
            if acts[0] is not None and not tr and acts[0].cur is None:
                raises(lambda: layer(x), (QuantizerNotInitializedError, AssertionError), f"{what}: output quantiser without a range")
                raise Skip()
            y = layer(x)
            y = npy(y.permute(0, 2, 3, 1).reshape(-1, c["o"]) if c["conv"] else y).astype(float)
            xs, k, total = npy(rows).astype(float), 0, 0.0
            err = 0.0
            left = 0
            grid = [list(row) for row in layer.analog_module.array] if tiled else [[layer.analog_module]]
            for row in grid:
                width = row[0].in_size
                outs = []
                for t in row:
                    w = npy(t.tile.get_weights()[0] if isinstance(t.tile.get_weights(), tuple) else t.tile.get_weights()).astype(float)
                    xi = xs[:, left:left + width]
                    scale = None
                    if c["range"]:
                        xi = np.clip(xi / c["range"], -1, 1)
                        scale = np.full(1, c["range"])
                    for extra in (t.get_mapping_scales(), t.out_scaling_alpha):
                        if extra is not None:
                            extra = npy(extra).astype(float).reshape(-1)
                            scale = extra if scale is None else scale * extra
                    v = xi @ w.T
                    if scale is not None:
                        qs_ = scales[k](scale, tr)
                        hit |= c["bits"] > 0 and bool(np.any(np.abs(qs_ - scale) > 1e-6))
                        v = v * qs_
                    if t.digital_bias and c["bias"] and not tiled:
                        v = v + bias(npy(t.bias).astype(float), tr)
                        hit |= c["bits"] > 0 and c["o"] > 1
                    got = None
                    if acts[k] is not None:
                        g = acts[k].grid(v, tr)
                        if tiled and (len(tiles) > 1 or c["bias"]):       # (the result of several tiles is quantised again, a bias of the array is added before)
                            v = snap(g, v, margin=2e-3)
                        else:
                            got = g
                        hit = True
                    outs.append(v)
                    k += 1
                left += width
                total = total + np.concatenate(outs, 1)
            if tiled and c["bias"]:
                total = total + bias(npy(layer.analog_module.bias).astype(float), tr)
                hit |= c["bits"] > 0 and c["o"] > 1
            if last is not None:
                got = last.grid(total, tr)
            if got is not None:
                tolerant(got, total, y, what)
            else:
                close(y, total, what, 1e-4, 2e-5 * max(1.0, np.abs(total).max()))
        else:
            torch.manual_seed(o["s"])
            if op == "weights":
                w, b = layer.get_weights()
                layer.set_weights(torch.randn(w.shape), torch.randn(b.shape) if b is not None else None)
            elif op == "bias" and c["bias"]:
                (layer.analog_module if tiled else tiles[0]).bias.data = torch.randn(c["o"])
            elif op == "scales" and c["outs"]:
                for t in tiles:
                    if t.out_scaling_alpha is not None:
                        t.out_scaling_alpha.data = torch.randn(t.out_scaling_alpha.shape)
            elif op == "learned":
                for n, p in layer.named_parameters():
                    if p.requires_grad and n.endswith(("scale_quantizer.quantizer._delta", "bias_quantizer.quantizer._delta")):
                        p.data = p.data * 1.25
                for r in scales + [bias]:
                    r.mult *= 1.25 if r.m.state == "learn" else 1.0
            elif op == "load":
                new = tile_layer({**c, "seed": o["s"]})
                f = io.BytesIO()
                torch.save(layer.state_dict(), f)
                f.seek(0)
                new.load_state_dict(torch.load(f, weights_only=False))
                layer = new
                for r in scales + [bias]:
                    r.m.state = "train"
            elif op == "copy":
                layer = copy.deepcopy(layer)
    rec.hit(hit)


def snap(g, x, axis=0, margin=2e-4):
    """x on the grid (skips ties)."""
    s, z = g.shaped(g.s, x.ndim, axis), g.shaped(g.z, x.ndim, axis)
    k = x.astype(float) / s
    if np.any(np.abs(np.abs(k - np.floor(k)) - 0.5) < margin) or np.any(np.abs(np.abs(z - np.floor(z)) - 0.5) < 1e-3):
        raise Skip()
    z = np.rint(z)
    return s * (np.clip(np.rint(k) + z, g.kmin, g.kmax) - z)


def tolerant(g, ref, y, what):
    """y is the grid value of the reference result (known up to rounding)."""
    z = np.asarray(g.z, float)
    if np.any(np.abs(np.abs(z - np.floor(z)) - 0.5) < 1e-3):
        raise Skip()
    z = np.rint(z)
    err = 3e-5 * max(1.0, np.abs(ref).max())
    c = np.clip(ref, g.s * (g.kmin - z), g.s * (g.kmax - z))
    require(bool(np.all(np.abs(y - c) <= g.s * 0.5 + err + 1e-4 * np.abs(c))), lambda: f"{what}: output off by {np.abs(y - c).max():.5g}, the step is {float(np.max(g.s)):.5g}")
    k = y / g.s
    require(bool(np.all(np.abs(k - np.rint(k)) < 1e-2 + 1e-5 * np.abs(k))), f"{what}: output not on the grid")


# ---- cast to fewer exponent and mantissa bits

@st.composite
def cast_cases(draw):
    el, ml = draw(st.sampled_from([8, 8, 7, 6, 5, 5, 4, 3, 2])), draw(st.sampled_from([7, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14, 16, 19, 21, 22]))
    top = 2 ** el - 1 - (2 ** (el - 1) - 1)
    exp = st.one_of(st.sampled_from([top - 1, top, top + 1, top + 5, 2 - top, 1 - top, 3 - top, -top, 0, -1, 1]), st.integers(-140, 127))
    man = st.one_of(st.integers(0, 2 ** 23 - 1), st.sampled_from([0, 2 ** 23 - 1, 2 ** (22 - ml) - 1, 2 ** (22 - ml), 2 ** 23 - 2 ** (22 - ml), 2 ** 23 - 2 ** (22 - ml) - 1]))
    return {"el": el, "ml": ml, "sat": draw(st.booleans()), "v": draw(st.lists(st.tuples(st.booleans(), exp, man).map(list), min_size=1, max_size=12)), "zero": draw(st.booleans()),
            "dims": draw(st.integers(0, 2)), "module": draw(st.booleans())}


def check_cast(c, rec):
    el, ml = c["el"], c["ml"]
    bias, top = 2 ** (el - 1) - 1, 2 ** el - 1
    vals = [(-1.0 if s else 1.0) * (1 + m / 2 ** 23) * 2.0 ** min(max(e, -126), 127) for s, e, m in c["v"]] + ([0.0, -0.0] if c["zero"] else [])
    x = np.array(vals, dtype=np.float64)
    want = np.zeros_like(x)
    for i, v in enumerate(x):
        if v == 0:
            continue
        q = 2.0 ** (np.frexp(abs(v))[1] - 1 - ml)
        r = np.floor(abs(v) / q + 0.5) * q
        e = np.frexp(r)[1] - 1 + bias
        if c["sat"] and e >= top:
            r = INF
        elif not c["sat"] and (e > top or e > 254):
            r = (2 - 2.0 ** -ml) * 2.0 ** (top - bias) if el < 8 else INF
        elif e <= 0:
            r = 0.0
        want[i] = np.sign(v) * r
    t = torch.tensor(x, dtype=torch.float32)
    t = t.reshape([1] * c["dims"] + [-1]).requires_grad_()
    x0 = npy(t).copy()
    if c["module"]:
        y = FloatPrecisionCast(el, ml, c["sat"])(t)
    else:
        y = FloatPrecisionCastFunction.apply(t, el, ml, c["sat"])
    what = f"cast to {el} exponent and {ml} mantissa bits ({'saturating to infinity' if c['sat'] else 'clipping'})"
    require(y.shape == t.shape and np.array_equal(npy(t), x0), f"{what}: shape {tuple(y.shape)}, or the input has changed")
    got = npy(y).astype(np.float64).reshape(-1)
    bad = ~((got == want) | ((np.abs(x) < 2.0 ** -125) & (got == 0)))
    require(not bad.any(), lambda: f"{what}: {x[bad][0]!r} becomes {got[bad][0]!r}, expected {want[bad][0]!r}")
    order = np.argsort(x, kind="stable")
    require(np.all(got[order][1:] >= got[order][:-1]), lambda: f"{what}: not monotone: {x[order].tolist()} become {got[order].tolist()}")
    g = torch.arange(1.0, x.size + 1).reshape(y.shape)
    y.backward(g)
    require(t.grad is not None and np.array_equal(npy(t.grad), npy(g)), f"{what}: the gradient is {t.grad}, not passed through")
    rec.hit(bool((got != x).any()))
    rec.label("infinity" if np.isinf(got).any() else "clipped" if (np.abs(got) < np.abs(x) * 0.4).any() and not (got == 0).all() else "rounded")


LANES = [Lane("cast", cast_cases(), check_cast, quick=1200, thorough=100000), Lane("manager", manager_cases(), check_manager, quick=1500, thorough=40000), Lane("mse", mse_cases(), check_mse, quick=150, thorough=4000),
         Lane("model", model_cases(), check_model, quick=1000, thorough=30000), Lane("tile", tile_cases(), check_tile, quick=800, thorough=25000)]
