"""P25: inspection, export and fitting tools report what the model is and does, and leave it as it was."""
import copy
import csv
import dataclasses
import enum
import os
import shutil
import tempfile
import warnings

import matplotlib
matplotlib.use("Agg")
import numpy as np  # noqa: E402
import torch  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402
from torch import nn  # noqa: E402

from aihwkit.exceptions import ArgumentError, ConfigError, FusionExportError, ModuleError, TileError  # noqa: E402
from aihwkit.inference.converter.fusion import FusionConductanceConverter  # noqa: E402
from aihwkit.inference.noise.pcm import PCMLikeNoiseModel  # noqa: E402
from aihwkit.nn import (AnalogConv1d, AnalogConv2d, AnalogConv2dMapped, AnalogGRUCell, AnalogLinear, AnalogLinearMapped, AnalogLSTMCell, AnalogRNN,  # noqa: E402
                        AnalogSequential)
from aihwkit.nn.conversion import convert_to_analog  # noqa: E402
from aihwkit.nn.modules.base import AnalogLayerBase  # noqa: E402
from aihwkit.simulator.configs import SingleRPUConfig  # noqa: E402
from aihwkit.simulator.tiles.module import TileModule  # noqa: E402
from aihwkit.utils import fitting, visualization as vis, visualization_web as web  # noqa: E402
from aihwkit.utils.analog_info import analog_summary  # noqa: E402
from aihwkit.utils.export import fusion_export, fusion_import  # noqa: E402
from vlib import cfg, devmodel, gen, gencomp, gendev  # noqa: E402
from vlib.core import Lane, Skip  # noqa: E402
from vlib.util import close, npy, raises, require  # noqa: E402

PROPERTY = "P25"
RULE = ("cases: lane summary: networks of analog and digital layers (mapped, convolutional, recurrent, nested, repeated) with drawn tile size limits; the layers, shapes, tiles, "
        "utilisation and reuse factors of analog_summary equal those observed with own hooks. Lane export: models exported to conductances (also to a file), changed, and "
        "imported with exact, scaled or noisy conductances. Lane response: pulse responses, their statistics, the number of steps and the fitting of device parameters "
        "against the device model. Lane plots: every plotting function on drawn devices, noise models and models. In all lanes model, configurations, modes and hooks are "
        "afterwards as before. Non-trivial: a model with analog layers (summary, export), a weight that changed (response), a figure with data (plots).")


def snapshot(model):
    """Everything a user can see of a model."""
    out = {"modes": [m.training for m in model.modules()], "grads": [None if p.grad is None else npy(p.grad).copy() for p in model.parameters()],
           "req": [p.requires_grad for p in model.parameters()],
           "hooks": [len(m._forward_hooks) + len(m._forward_pre_hooks) + len(m._backward_hooks) for m in model.modules()],
           "bufs": [npy(b).copy() for b in model.buffers()], "w": []}
    for m in model.modules():
        if isinstance(m, TileModule):
            w, b = m.get_weights(apply_weight_scaling=False)
            out["w"] += [npy(w).copy()] + ([] if b is None else [npy(b).copy()])
        elif not isinstance(m, AnalogLayerBase):
            out["w"] += [npy(p).copy() for n, p in m.named_parameters(recurse=False) if p.numel()]
    return out


def unchanged(model, before, what):
    after = snapshot(model)
    for k, v in before.items():
        require(len(v) == len(after[k]), f"{what}: {len(after[k])} {k} instead of {len(v)}")
        for a, b in zip(v, after[k]):
            require((a is None and b is None) or (a is not None and b is not None and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)),
                    lambda: f"{what} changed {k} of the model from {a} to {b}")


# ---- summary

SIZES = st.sampled_from([0, 0, 2, 3, 5])


@st.composite
def summary_cases(draw):
    kind = draw(st.sampled_from(["fp", "single", "inference", "torch"]))
    spec = {"kind": kind, "mapping": {"max_input_size": draw(SIZES), "max_output_size": draw(SIZES)}}
    if kind == "single":
        spec["device"] = {"cls": "ConstantStepDevice"}
    fam = draw(st.sampled_from(["linear", "linear", "conv", "rnn"]))
    lay = {"linear": ["lin", "lin", "map", "dig", "relu", "norm", "drop", "nest", "again"], "conv": ["conv", "conv", "cmap", "dconv", "relu", "bn", "nest", "again"],
           "rnn": ["lstm", "gru"]}[fam]

    def layers(depth):
        out = []
        for _ in range(draw(st.integers(1, 4 if fam != "rnn" else 1))):
            k = draw(st.sampled_from(lay if depth else [v for v in lay if v != "nest"]))
            d = {"k": k, "n": draw(st.integers(1, 7)), "bias": draw(st.booleans()), "seq": draw(st.booleans())}
            if k == "nest":
                d["in"] = layers(depth - 1)
            if "conv" in k or k == "cmap":
                d.update(ks=draw(st.integers(1, 3)), stride=draw(st.integers(1, 2)), pad=draw(st.integers(0, 2)))
            out.append(d)
        return out

    return {"spec": spec, "fam": fam, "tree": layers(2), "n_in": draw(st.integers(1, 7)), "batch": draw(st.lists(st.integers(1, 4), min_size=1, max_size=2)), "len": draw(st.integers(4, 7)),
            "train": draw(st.booleans()), "eval": draw(st.lists(st.integers(0, 5), max_size=2)), "convert": draw(st.integers(0, 4).map(lambda v: v == 4)), "step": draw(st.booleans()),
            "single": draw(st.integers(0, 3)) == 3, "seed": draw(gen.seeds)}


def build(c, tree, n, made):
    """(layers, number of outputs)"""
    def rpu():
        return cfg.config(c["spec"])
    out = []
    for d in tree:
        k, m = d["k"], d["n"]
        if k == "nest":
            inner, n = build(c, d["in"], n, made)
            out.append((AnalogSequential if d["seq"] else nn.Sequential)(*inner))
            continue
        if k == "again":
            same = [x for x, ni, no in made if ni == n]
            if same:
                x = same[-1]
                n = [no for y, ni, no in made if y is x][0]
                out.append(x)
            continue
        n0 = n
        if k in ("lin", "map", "dig"):
            x = nn.Linear(n, m, d["bias"]) if k == "dig" else (AnalogLinear if k == "lin" else AnalogLinearMapped)(n, m, d["bias"], rpu_config=rpu())
            n = m
        elif k in ("conv", "cmap", "dconv"):
            kw = dict(kernel_size=d["ks"], stride=d["stride"], padding=d["pad"], bias=d["bias"])
            if d["pad"] == 0 and d["ks"] > 1:
                kw["padding"] = 1
            x = nn.Conv2d(n, m, **kw) if k == "dconv" else (AnalogConv2d if k == "conv" else AnalogConv2dMapped)(n, m, rpu_config=rpu(), **kw)
            n = m
        elif k in ("lstm", "gru"):
            x = AnalogRNN(AnalogLSTMCell if k == "lstm" else AnalogGRUCell, n, m, bias=d["bias"], rpu_config=rpu())
            n = m
        else:
            x = {"relu": nn.ReLU, "norm": lambda: nn.LayerNorm(n), "drop": nn.Dropout, "bn": lambda: nn.BatchNorm2d(n)}[k]()
        made.append((x, n0, n))
        out.append(x)
    return out, n


class Wrapper(nn.Module):
    """Only the outputs of a recurrent layer."""

    def __init__(self, rnn, n):
        super().__init__()
        self.rnn, self.head = rnn, nn.Linear(n, 2)

    def forward(self, x):
        return self.head(self.rnn(x)[0])


def leaf(m):
    """Layers a summary lists: analog layers, and digital ones without children."""
    if isinstance(m, AnalogLayerBase) and not m.IS_CONTAINER and not any(isinstance(x, AnalogLayerBase) for x in m.children()):
        return True
    return not list(m.children())


def check_summary(c, rec):
    torch.manual_seed(c["seed"] % 10000)
    try:
        layers, n = build(c, c["tree"], c["n_in"], [])
    except ModuleError as e:
        require("too small" in str(e), f"building the model failed: {e}")
        raise Skip from e
    if not layers:
        raise Skip
    if c["fam"] == "rnn":
        model = Wrapper(layers[0], n)
        shape = [c["batch"][0], c["len"], c["n_in"]]
    else:
        model = (AnalogSequential if c["train"] else nn.Sequential)(*layers)
        shape = [c["batch"][0], c["n_in"], c["len"], c["len"] + 1] if c["fam"] == "conv" else c["batch"] + [c["n_in"]]
    if c["single"] and c["fam"] != "rnn" and not any(isinstance(m, (nn.BatchNorm2d, AnalogConv2dMapped)) for m in model.modules()):
        shape = shape[-1:] if c["fam"] == "linear" else shape[1:]      # no batch dimension
        rec.label("single input")
    if c["convert"] and c["fam"] != "rnn":
        model = convert_to_analog(model, cfg.config(c["spec"]))
    if not list(model.parameters()):
        raise Skip
    model.train(c["train"])
    mods = [m for m in model.modules() if not isinstance(m, TileModule)]
    for i in c["eval"]:
        mods[i % len(mods)].training = not mods[i % len(mods)].training
    if c["step"]:
        y = model(torch.ones(shape))
        (y if isinstance(y, torch.Tensor) else y[0]).sum().backward()
    before = snapshot(model)
    info = analog_summary(model, tuple(shape))
    unchanged(model, before, "analog_summary")
    text = repr(info)
    # what really happens
    seen, handles = [], []

    def hook(m, x, y):
        seen.append((m, list(x[0].shape), list(y.shape)))

    inside = set()
    for m in model.modules():
        if m in inside:
            continue
        if leaf(m) and not isinstance(m, TileModule):
            handles.append(m.register_forward_hook(hook))
            inside |= set(m.modules()) - {m}
    tiles = [t for t in model.modules() if isinstance(t, TileModule)]
    model.eval()
    with torch.no_grad():
        model(torch.zeros(shape))
    for h in handles:
        h.remove()
    got = info.layer_summary
    require(len(got) == len(seen), f"{len(got)} layers listed, {len(seen)} are used")
    analog = []
    for i, (g, (m, xs, ys)) in enumerate(zip(got, seen)):
        what = f"layer {i} ({type(m).__name__})"
        require(g.name == type(m).__name__ and g.isanalog == isinstance(m, AnalogLayerBase), f"{what} is listed as {g.name}, analog: {g.isanalog}")
        require(g.input_size == xs and g.output_size == ys, f"{what}: shapes {g.input_size}, {g.output_size} instead of {xs}, {ys}")
        require(g.kernel_size == getattr(m, "kernel_size", None), f"{what}: kernel {g.kernel_size}")
        ts = [t for t in m.modules() if isinstance(t, TileModule)]
        require(g.num_tiles == len(ts) == len(g.tiles_info), f"{what}: {g.num_tiles} tiles ({len(g.tiles_info)} described), has {len(ts)}")
        require(g.name in text, f"{what} is not in the printed summary")
        mp = c["spec"]["mapping"]
        for t, ti in zip(ts, g.tiles_info):
            w = t.get_weights()[0].shape
            require((ti.log_out_size, ti.log_in_size) == tuple(w), f"{what}: tile {(ti.log_out_size, ti.log_in_size)}, has weights {tuple(w)}")
            if isinstance(m, (AnalogLinearMapped, AnalogConv2dMapped)):
                full = (mp["max_output_size"] or w[0]) * (mp["max_input_size"] or w[1])
                require(abs(ti.utilization - 100.0 * w[0] * w[1] / full) < 1e-6 and 0 < ti.utilization <= 100, f"{what}: utilisation {ti.utilization} of a tile with weights {tuple(w)}")
                require(f"{ti.utilization:.2f}" in text, f"{what}: utilisation is not in the printed summary")
        if g.isanalog:
            analog.append(m)
            if isinstance(m, (AnalogLinear, AnalogLinearMapped)):
                macs = int(np.prod(xs[:-1]))
            elif hasattr(m, "kernel_size"):
                macs = int(np.prod(ys)) // m.out_channels
            else:
                macs = g.reuse_factor
            require(g.reuse_factor == macs, f"{what}: reuse factor {g.reuse_factor}, does {macs} products")
    uniq = list(dict.fromkeys(analog))
    require(info.total_nb_analog == len(uniq), f"{info.total_nb_analog} analog layers, there are {len(uniq)}")
    require(info.total_tile_number == sum(len([t for t in m.modules() if isinstance(t, TileModule)]) for m in uniq), f"{info.total_tile_number} tiles in total, there are {len(tiles)}")
    require(f"Total number of tiles: {info.total_tile_number}\n" in text and f"Total number of analog layers: {info.total_nb_analog}\n" in text, "printed totals differ")
    rec.hit(bool(analog))
    rec.label(c["fam"], *(["several tiles"] if any(g.num_tiles > 1 for g in got) else []))


# ---- export

@st.composite
def export_cases(draw):
    mapping = {"max_input_size": draw(SIZES), "max_output_size": draw(SIZES), "weight_scaling_omega": draw(st.sampled_from([0.0, 0.6, 1.0])), "weight_scaling_columnwise": draw(st.booleans()),
               "learn_out_scaling": draw(st.booleans()), "out_scaling_columnwise": draw(st.booleans()), "digital_bias": draw(st.integers(0, 2).map(bool))}
    ls = draw(st.lists(st.fixed_dictionaries({"k": st.sampled_from(["lin", "lin", "conv", "conv1", "map", "cmap", "dig"]), "n": st.integers(1, 4), "bias": st.booleans(),
                                              "w": gen.data(None, (0.3, 1.0, 5.0))}), min_size=1, max_size=4))
    return {"mapping": mapping, "layers": ls, "nest": draw(st.booleans()), "g": draw(st.sampled_from([None, None, 40, 25, 10])), "file": draw(st.booleans()), "sd": draw(st.booleans()),
            "into": draw(st.sampled_from(["same", "other"])), "how": draw(st.sampled_from(["exact", "exact", "scaled", "noisy"])), "seed": draw(gen.seeds), "train": draw(st.booleans()),
            "bad": draw(st.sampled_from([None] * 7 + ["tile", "header", "range"])), "bias": draw(gen.data(None, (1.0, 0.3)))}


def export_model(c):
    rpu = cfg.config(dict({"kind": "single", "device": {"cls": "ConstantStepDevice"}} if c["bad"] == "tile" else {"kind": "inference"}, mapping=c["mapping"], forward={"is_perfect": True}))
    out, n = [], 3
    for i, d in enumerate(c["layers"]):
        k = d["k"] if c["mapping"]["digital_bias"] else {"map": "lin", "cmap": "conv"}.get(d["k"], d["k"])
        if k in ("lin", "map"):
            out.append((AnalogLinear if k == "lin" else AnalogLinearMapped)(n, d["n"], d["bias"], rpu_config=rpu))
        elif k == "dig":
            out.append(nn.Linear(n, d["n"], d["bias"]))
        else:
            out.append({"conv": AnalogConv2d, "conv1": AnalogConv1d, "cmap": AnalogConv2dMapped}[k](n, d["n"], 2, bias=d["bias"], rpu_config=rpu))
        if isinstance(out[-1], AnalogLayerBase):
            w, b = out[-1].get_weights()
            out[-1].set_weights(cfg.ten(d["w"], w.shape), None if b is None else cfg.ten(c["bias"], b.shape))
    if c["nest"]:
        out = [AnalogSequential(nn.ReLU(), *out[:2])] + out[2:]
    m = AnalogSequential(*out)
    m.train(c["train"])
    return m


def check_export(c, rec):
    try:
        model = export_model(c)
    except ModuleError as e:
        require("too small" in str(e), f"building the model failed: {e}")
        raise Skip from e
    named = list(model.named_analog_layers())
    if not named:
        raise Skip
    gmax = c["g"] or 40
    conv = None if c["g"] is None else FusionConductanceConverter(g_max=c["g"])
    if c["bad"] == "range":
        raises(lambda: FusionConductanceConverter(g_max=9 if c["train"] else 41), ArgumentError, "conductance out of the range of the chip")
        return
    if c["bad"] == "tile":
        raises(lambda: fusion_export(model, conv), TileError, "export of tiles that are not for inference")
        return
    folder = tempfile.mkdtemp(prefix="p25-") if c["file"] or c["bad"] == "header" else None
    try:
        path = folder and os.path.join(folder, "g.csv")
        before = snapshot(model)
        data, params, sd = fusion_export(model, conv, path)
        unchanged(model, before, "the export")
        sd = copy.deepcopy(sd)
        require(list(data) == [k for k, _ in named] == list(params), f"layers {list(data)} exported, the model has {[k for k, _ in named]}")
        mats = {}
        for name, m in named:
            pos, g = 0, np.array(data[name])
            mats[name] = []
            for t in m.analog_tiles():
                w = npy(t.get_weights(apply_weight_scaling=False)[0]).astype(float)
                part = g[pos:pos + w.size].reshape(w.shape)
                pos += w.size
                big = np.abs(w).max(axis=1, keepdims=True)
                want = np.where(big > 0, np.abs(w) / np.where(big > 0, big, 1.0), 0.0) * gmax
                ok = (big > 1e-9) | (big == 0)
                close(np.where(ok, part, 0), np.where(ok, want, 0), f"conductances of {name}", 1e-4, 1e-4)
                require(part.min(initial=0) >= 0 and part.max(initial=0) <= gmax, f"conductances of {name} from {part.min()} to {part.max()}")
                mats[name].append((t, w, part))
            require(pos == len(g), f"{len(g)} conductances for {pos} weights of {name}")
        if path:
            with open(path, newline="", encoding="utf-8") as f:
                rows = list(csv.reader(f))
            require(rows[5] == list(data), f"names in the file: {rows[5]}")
            shapes = [m.get_weights()[0].shape for _, m in named]
            for i, (what, want) in enumerate([("ids", None), ("classes", [type(m).__name__ for _, m in named]), ("numbers", [str(int(np.prod(s))) for s in shapes]), ("heights", [str(s[0]) for s in shapes]),
                                              ("widths", [str(int(np.prod(s[1:]))) for s in shapes])]):
                require(rows[i] == want if want else rows[i] == sorted(set(rows[i]), key=int), f"{what} in the file: {rows[i]}")
            for name, row in zip(data, rows[6:]):
                require([float(v) for v in row] == data[name], f"conductances of {name} in the file differ")
        if c["bad"] == "header":
            other = AnalogSequential(AnalogLinear(3, 9, rpu_config=cfg.config({"kind": "inference"})))
            raises(lambda: fusion_import(path, other, params), FusionExportError, "import into another model")
            return
        # the chip
        rng = np.random.default_rng(c["seed"])
        meas, expect = {}, {}
        for name in data:
            meas[name], expect[name] = [], []
            for t, w, part in mats[name]:
                f = 1.0 if c["how"] == "exact" else rng.uniform(0.5, 1.5, (len(part), 1))
                g = part * f + (rng.normal(size=part.shape) * 0.1 * gmax if c["how"] == "noisy" else 0.0)
                g = g.astype(np.float32).astype(float)
                meas[name] += g.flatten().tolist()
                s = g * np.sign(w)
                den = (s * s).sum(axis=1, keepdims=True)
                expect[name].append(np.where(den > 0, s * (s * w).sum(axis=1, keepdims=True) / np.where(den > 0, den, 1), 0.0))
        source = meas
        if path:
            with open(path, newline="", encoding="utf-8") as f:
                head = "".join([next(f) for _ in range(5)])
            with open(path, "w", newline="", encoding="utf-8") as f:
                f.write(head)
                out = csv.writer(f)
                out.writerow(list(meas))
                out.writerows(meas.values())
            source = path
        pcopy = {k: [npy(p["original_weights"]).copy() for p in v] for k, v in params.items()}
        ref = snapshot(model)
        if c["into"] == "same":
            target = model
            for m in model.modules():
                if isinstance(m, AnalogLayerBase) and hasattr(m, "reset_parameters") and c["sd"]:
                    m.reset_parameters()
        else:
            target = export_model(c)
            for m in target.modules():
                if isinstance(m, AnalogLayerBase) and hasattr(m, "reset_parameters") and c["sd"]:
                    m.reset_parameters()
            if not c["sd"]:
                target.load_state_dict(copy.deepcopy(sd))
        got = fusion_import(source, target, params, sd if c["sd"] else None, conv)
        require(got is target and not target.training, "the imported model is another object, or not in evaluation mode")
        require(all(np.array_equal(npy(p["original_weights"]), q) for k, v in params.items() for p, q in zip(v, pcopy[k])), "the import changed the parameters")
        for name, m in target.named_analog_layers():
            for t, w in zip(m.analog_tiles(), expect[name]):
                close(t.get_weights(apply_weight_scaling=False)[0], w, f"{c['how']} conductances imported to {name}", 2e-4, 2e-5 * max(1.0, np.abs(w).max(initial=0)))
        fin = {id(t): None for t in target.analog_tiles()}
        biases = [npy(t.get_weights(apply_weight_scaling=False)[1]) for t in target.analog_tiles() if t.get_weights(apply_weight_scaling=False)[1] is not None]
        require(len(fin) == sum(len(v) for v in expect.values()), "tiles got lost")
        want = []
        it = iter(ref["w"])
        for m in model.modules():       # (order of the snapshot)
            if isinstance(m, TileModule):
                next(it)
                if m.get_weights()[1] is not None:
                    want.append(next(it))
            elif not isinstance(m, AnalogLayerBase):
                for _n, p in m.named_parameters(recurse=False):
                    if p.numel():
                        next(it)
        require(len(biases) == len(want) and all(np.allclose(a, b, atol=1e-6) for a, b in zip(biases, want)), "the import changed a bias")
    finally:
        if folder:
            shutil.rmtree(folder)
    rec.hit(True)
    rec.label(c["how"], "file" if c["file"] else "direct")


# ---- pulse responses

NAMES = ["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "PowStepDevice", "ExpStepDevice"]


@st.composite
def response_cases(draw):
    t = draw(st.sampled_from(["trace", "trace", "noisefree", "fitted", "stats", "fit"]))
    c = {"t": t, "seed": draw(gen.seeds), "n": draw(st.integers(1, 4)), "dir": draw(st.lists(st.sampled_from([1, 1, 1, -1, -1, -1, 0]), min_size=2, max_size=25)),
         "w": draw(st.sampled_from([None, 0.0, 0.2, -0.1]))}
    if t == "noisefree":
        c["dev"] = draw(gencomp.compound(False))
        return c
    c["dev"] = draw(gendev.single(NAMES, corrupt=False, dtod=t in ("trace", "stats"), dw=(0.01, 0.05)))
    c["forward"] = draw(st.booleans())
    if t == "stats":
        c["nodes"], c["smooth"], c["up"] = draw(st.integers(2, 8)), draw(st.sampled_from([0.5, 0.1, 1.0])), draw(st.booleans())
        c["loops"] = draw(st.integers(1, 3))
    if t in ("fitted", "fit"):
        c["dev"]["dw_min_std"] = draw(st.sampled_from([0.0, 0.3]))
        c["dev"]["dw_min_dtod"] = draw(st.sampled_from([0.0, 0.3]))
        c["sets"], c["cols"], c["traces"] = draw(st.integers(0, 2)), draw(st.integers(1, 3)), draw(st.sampled_from([1, 1, 2]))
        c["list"], c["weights"] = draw(st.booleans()), draw(st.booleans())
        c["factor"], c["plain"], c["rpu"] = draw(st.sampled_from([0.5, 0.8, 1.3])), draw(st.booleans()), draw(st.integers(0, 3).map(lambda v: v == 3))
    return c


def asdict(v):
    """Everything set in a configuration."""
    if isinstance(v, (list, tuple)):
        return [asdict(x) for x in v]
    if isinstance(v, dict):
        return {k: asdict(x) for k, x in v.items()}
    if isinstance(v, (np.ndarray, torch.Tensor)):
        return npy(v).tolist()
    if hasattr(v, "__dict__") and not isinstance(v, (type, enum.Enum)) and not callable(v):
        return {"class": type(v).__name__, **{k: asdict(x) for k, x in vars(v).items()}}
    return repr(v)


def expected_trace(dev, hp, w, dirs):
    out = []
    for d in dirs:
        if d:
            w = devmodel.pulse(dev, dev, hp, w, d > 0)
        out.append(w)
    return np.array(out)


def brute_stats(nodes, trace, dirs, up, smooth):
    lam = (nodes[1] - nodes[0]) / 2 * smooth
    mean = np.full((len(nodes),) + trace.shape[1:], np.nan)
    std = mean.copy()
    edge = np.zeros(mean.shape, dtype=bool)
    steps = [i for i in range(len(dirs) - 1) if dirs[i] * (1 if up else -1) > 0 and dirs[i + 1] == dirs[i]]
    for j, node in enumerate(nodes):
        for i1 in range(trace.shape[1]):
            for i2 in range(trace.shape[2]):
                k = np.array([np.exp(-0.5 * (node - trace[i, i1, i2]) ** 2 / lam ** 2) for i in steps])
                d = np.array([trace[i + 1, i1, i2] - trace[i, i1, i2] for i in steps])
                edge[j, i1, i2] = abs(k.sum() - 0.1) < 1e-6
                if k.sum() >= 0.1:
                    k = k / k.sum()
                    mean[j, i1, i2] = (k * d).sum()
                    std[j, i1, i2] = np.sqrt((k * (d - mean[j, i1, i2]) ** 2).sum())
    return mean, std, edge


def check_response(c, rec):
    dev = cfg.device(dict(c["dev"], construction_seed=1 + c["seed"] % 10000))
    before = asdict(dev)
    dirs = np.array(c["dir"], dtype=float)
    rec.label(c["t"])
    if c["t"] == "noisefree":
        rpu = cfg.config({"kind": "unit", "device": dict(c["dev"], construction_seed=1 + c["seed"] % 10000)})
        tiles = [vis.get_tile_for_plotting(rpu, c["n"], noise_free=True, w_init=c["w"]) for _ in range(2)]
        hp = tiles[0].get_hidden_parameters()
        tiles[1].set_hidden_parameters(hp)
        dirs = np.tile(dirs, 3)
        for d in rpu.device.unit_cell_devices:
            if any(getattr(d, k, 0.0) for k in ("diffusion", "reset_std", "lifetime", "diffusion_dtod", "drift")):
                raise Skip
        if c["dev"].get("update_policy") == "SingleRandom" or c["dev"].get("random_selection") or c["dev"].get("in_chop_random") or c["dev"].get("out_chop_prob") \
                or c["dev"].get("with_reset_prob"):
            raise Skip
        a, b = [vis.compute_pulse_response(t, dirs) for t in tiles]
        ok = np.isfinite(a) & np.isfinite(b)
        require(np.allclose(a[ok], b[ok], atol=2e-5), lambda: f"noise-free tiles of a {c['dev']['cls']} respond differently: {a.tolist()} and {b.tolist()}")
        require(asdict(rpu.device) == asdict(cfg.device(dict(c["dev"], construction_seed=1 + c["seed"] % 10000))), "the configuration has changed")
        rec.hit(bool(np.ptp(a) > 0))
        return
    rpu = SingleRPUConfig(device=dev)
    if c["t"] in ("trace", "stats"):
        t = vis.get_tile_for_plotting(rpu, c["n"], noise_free=True, w_init=c["w"])
        require(asdict(dev) == before, "making a tile for plotting changed the configuration")
        w0, hp = npy(t.get_weights()[0]), devmodel.hidden(t)
        require(w0.shape == (c["n"], 1), f"tile of {w0.shape} for {c['n']} traces")
        want = np.full(w0.shape, dev.w_min if c["w"] is None else c["w"])
        close(w0, np.clip(want, hp["min_bound"], hp["max_bound"]), "initial weights")
        steps = vis.estimate_n_steps(rpu)
        g = dev.as_bindings(rpu.runtime.data_type).calc_weight_granularity()
        require(abs(steps - (dev.w_max - dev.w_min) / g) <= 0.51, f"{steps} steps from {dev.w_min} to {dev.w_max}, granularity {g}")
        if c["t"] == "stats":
            dirs = np.tile(np.concatenate([dirs, np.ones(4), -np.ones(4)]), c["loops"])
        d0 = dirs.copy()
        trace = vis.compute_pulse_response(t, dirs, c["forward"])
        require(np.array_equal(dirs, d0), "the directions have changed")
        close(trace, expected_trace(dev, hp, w0, dirs), "pulse response", 1e-3, 2e-5)
        close(npy(t.get_weights()[0]), trace[-1], "weights after the pulses", 1e-4, 2e-5)
        if c["t"] == "stats":
            nodes = np.linspace(trace.min(), max(trace.max(), trace.min() + 1e-3), c["nodes"])
            copy0 = trace.copy()
            with np.errstate(all="ignore"):
                mean, std = vis.compute_pulse_statistics(nodes, trace, dirs, c["up"], c["smooth"])
            em, es, edge = brute_stats(nodes, trace, dirs, c["up"], c["smooth"])
            require(np.array_equal(trace, copy0), "the trace has changed")
            require(np.array_equal(np.isnan(mean) | edge, np.isnan(em) | edge), lambda: f"statistics missing at {np.argwhere(np.isnan(mean)).tolist()}, expected at {np.argwhere(np.isnan(em)).tolist()}")
            ok = ~np.isnan(mean) & ~np.isnan(em)
            close(mean[ok], em[ok], "mean steps", 1e-4, 1e-7)
            close(std[ok], es[ok], "deviation of steps", 1e-3, 1e-6)
        rec.hit(bool(np.ptp(trace) > 0))
        return
    # responses of a parameter setting, and fitting it
    clean = copy.deepcopy(dev)
    for f in dataclasses.fields(clean):
        if f.name.endswith("dtod") or f.name.endswith("std"):
            setattr(clean, f.name, 0.0)
    clean.dw_min_dtod_log_normal = getattr(clean, "dw_min_dtod_log_normal", False)
    t = vis.get_tile_for_plotting(SingleRPUConfig(device=clean), 1, noise_free=True)
    hp = devmodel.hidden(t)
    rng = np.random.default_rng(c["seed"])
    pulses, responses = [], []
    lo, hi = clean.w_min, clean.w_max
    dirs = np.concatenate([dirs, np.ones(5), -np.ones(5)])
    for i in range(max(c["sets"], 1)):
        p = np.array([np.roll(dirs, i + k) for k in range(c["cols"])]).T
        w, tr = rng.uniform(lo, hi, c["cols"]), []
        for row in p:
            tr.append(w)
            w = np.array([w[k] if not row[k] else devmodel.pulse(clean, clean, hp, np.full((1, 1), w[k]), row[k] > 0)[0, 0] for k in range(len(w))])
        r = np.array(tr)
        if c["cols"] == 1 and i % 2 == 0:
            p, r = p[:, 0], r[:, 0]
        pulses.append(p)
        responses.append(r)
    conv = (lambda v: v.tolist()) if c["list"] else (lambda v: v)
    one = c["sets"] == 0
    pd, rd = (conv(pulses[0]), conv(responses[0])) if one else (tuple(conv(v) for v in pulses), tuple(conv(v) for v in responses))
    fw = None if not c["weights"] else [2.0] * c["cols"] if one else tuple([1.0 + i] * c["cols"] for i in range(len(pulses)))
    base = SingleRPUConfig(device=dev) if c["rpu"] else dev
    if c["rpu"]:
        base.update.desired_bl, base.update.update_bl_management, base.update.update_management = 1, False, False
    start = asdict(base)
    raises(lambda: fitting.fit_measurements({"no_such": 1.0}, pd, rd, base), ConfigError, "parameter that does not exist")
    if c["plain"]:
        raises(lambda: fitting.fit_measurements({"dw_min": 1.0}, (np.ones(3),), np.ones(3), base), ArgumentError, "tuples and arrays mixed")
        raises(lambda: fitting.fit_measurements(["dw_min"], pd, rd, base), ArgumentError, "list of parameters")
    real = clean.dw_min
    if c["t"] == "fitted":
        par = {"dw_min": (real, 0.999 * real, 1.001 * real), "up_down": clean.up_down}
        kw = {"method": "leastsq", "max_nfev": 3}
    else:
        par, kw = {"dw_min": (real * c["factor"], real * 0.2, real * 3.0)}, {"method": "powell"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res, found, best = fitting.fit_measurements(par, pd, rd, base, n_traces=c["traces"], fit_weights=fw, **kw)
    require(asdict(base) == start, "fitting changed the given configuration")
    fd = found.device if c["rpu"] else found
    require(type(fd) is type(dev) and type(found) is type(base), f"fitting returns a {type(found).__name__}")
    require(abs(fd.dw_min - res.params["dw_min"].value) <= 1e-12, f"dw_min is {fd.dw_min} in the fitted device, {res.params['dw_min'].value} found")
    for f in dataclasses.fields(dev):
        if f.name not in par and not f.name.endswith("dtod") and not f.name.endswith("std"):
            require(repr(getattr(fd, f.name)) == repr(getattr(dev, f.name)), f"fitting changed {f.name} from {getattr(dev, f.name)} to {getattr(fd, f.name)}")
    best = [best] if one else best
    require(len(best) == len(responses), f"{len(best)} responses for {len(responses)} measurements")
    dev_ = []
    for b, r in zip(best, responses):
        r = r.reshape(len(r), -1)
        require(b.shape == r.shape, f"response of shape {b.shape} for measurements {r.shape}")
        dev_.append(np.abs(b - r).max())
    if c["t"] == "fitted":
        require(max(dev_) <= 2e-3 * (hi - lo) + 2e-5, lambda: f"response of the right parameters deviates by {max(dev_):.4g}: {best[0].tolist()}, measured {responses[0].tolist()}")
    else:
        first = fitting.fit_measurements({"dw_min": (real * c["factor"], real * 0.2, real * 3.0)}, pd, rd, base, n_traces=c["traces"], fit_weights=fw, method="leastsq", max_nfev=2)[0]
        if np.ptp(np.concatenate([r.reshape(-1) for r in responses])) > 10 * real:
            require(abs(fd.dw_min / real - 1) < 0.1, f"fitted dw_min {fd.dw_min:.5g} of a device with {real}")
        require(first is not None, "no result")
    rec.hit(True)


# ---- plots

@st.composite
def plot_cases(draw):
    f = draw(st.sampled_from(["compact", "compact", "overview", "symmetry", "drift", "programming", "programming", "model", "model", "web"]))
    c = {"f": f, "seed": draw(gen.seeds), "n": draw(st.integers(1, 3)), "steps": draw(st.integers(3, 9)), "noise": draw(st.sampled_from([0.0, 0.05]))}
    comp = draw(st.booleans()) and f != "symmetry"
    c["dev"] = draw(gencomp.compound(False, ["VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound", "BufferedTransferCompound"])) if comp else \
        draw(gendev.single(NAMES, corrupt=False, std=(0.0, 0.3), dw=(0.05,)))
    if f == "programming":
        c["on"] = draw(st.sampled_from(["device", "inference", "inference", "torch"]))
        c["shape"], c["t"] = draw(st.sampled_from([[2, 3], [5, 2], [4, 4], None])), draw(st.sampled_from([None, 1000.0]))
        c["w"], c["bins"] = draw(gen.data(None, (0.3, 1.0, 0.8))), draw(st.integers(3, 30))
    if f in ("programming", "model"):
        c["noises"] = [draw(st.sampled_from([1.0, 0.8, 1.2])), draw(st.sampled_from([0.0, 0.05])), draw(st.sampled_from([1.0, 0.7]))]
    if f == "model":
        c["layers"], c["drift"], c["comp"], c["scaling"] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), draw(st.sampled_from([None, 1.0, 1e4])), draw(st.booleans()), draw(st.booleans())
        c["bins"], c["torch"] = draw(st.integers(3, 30)), draw(st.booleans())
    return c


def check_plots(c, rec):
    torch.manual_seed(c["seed"] % 10000)
    np.random.seed(c["seed"] % 10000)
    try:
        plot(c, rec)
    finally:
        plt.close("all")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            matplotlib.rcdefaults()
            matplotlib.use("Agg")
    rec.label(c["f"])


class Shift(PCMLikeNoiseModel):
    """Known errors."""

    def __init__(self, a, b, f):
        super().__init__()
        self.a, self.b, self.f = a, b, f

    def apply_programming_noise(self, weights):
        return weights * self.a + self.b, [None]

    def apply_drift_noise(self, weights, drift_noise_parameters, t_inference):
        return weights * self.f


def errors(ys, targets, actual, lo, hi, n, scale, what):
    """Compares plotted mean errors, ignoring bins with a weight at their edges."""
    t, e = targets.astype(float).flatten(), np.abs(actual.astype(float) - targets.astype(float)).flatten()
    bins = np.linspace(lo, hi, n)
    for i in range(n - 1):
        if np.any(np.abs(t[:, None] - bins[[i, i + 1]]) < 1e-5 * (hi - lo)):
            continue
        inside = (t > bins[i]) & (t < bins[i + 1])
        want = e[inside].mean() * scale if inside.any() else 0.0
        require(abs(ys[i] - want) <= 2e-3 * abs(want) + 2e-3 * scale * max(np.abs(t).max(), 1e-3), f"{what}: {ys[i]} for weights in ({bins[i]}, {bins[i + 1]}), the error is {want}")


def lines(axes):
    return [np.asarray(ln.get_ydata()) for ln in axes.get_lines()]


def plot(c, rec):
    f = c["f"]
    spec = dict(c["dev"], construction_seed=1 + c["seed"] % 10000)
    dev = cfg.device(spec)
    before = asdict(dev)
    with np.errstate(all="ignore"):
        if f in ("compact", "web"):
            if f == "web":
                fig = web.plot_device_compact_web(dev, c["noise"], c["steps"], c["n"])
            else:
                fig = vis.plot_device_compact(dev, c["noise"], c["steps"], c["n"], n_loops=2)
            require(isinstance(fig, plt.Figure), f"plotting a device returns a {type(fig).__name__} instead of the figure")
            require(len(fig.get_axes()) == 3, f"{len(fig.get_axes())} axes")
            ax = fig.get_axes()[0]
            require(len(lines(ax)) == c["n"] and all(len(y) == 4 * c["steps"] for y in lines(ax)), f"{len(lines(ax))} lines of lengths {[len(y) for y in lines(ax)]} for {c['n']} traces")
            if f == "compact":
                ax2 = plt.figure().add_subplot()
                require(vis.plot_device_compact(dev, c["noise"], c["steps"], c["n"], axes=ax2) is ax2 and len(lines(ax2)) == c["n"], "plotting on given axes")
        elif f == "overview":
            vis.plot_device(dev, c["noise"], n_steps=c["steps"], n_traces=c["n"], n_loops=2)
            axs = plt.gcf().get_axes()
            require(len(axs) == 4, f"{len(axs)} axes")
            require(all(len(lines(a)) == c["n"] for a in axs), f"{[len(lines(a)) for a in axs]} lines for {c['n']} traces")
        elif f == "symmetry":
            vis.plot_device_symmetry(dev, c["noise"], n_pulses=20, n_traces=c["n"], w_init=0.1)
            ys = lines(plt.gca())
            require(len(ys) == c["n"] and all(len(y) == 20 for y in ys), "lines of the symmetry plot")
        elif f == "drift":
            nm = cfg.config({"kind": "inference"}).noise_model
            b = asdict(nm)
            w, ts = np.linspace(-1, 1, c["n"] + 1), np.array([1.0, 100.0, 1e5])
            w0 = w.copy()
            vis.plot_weight_drift(nm, ts, w, n_repeats=5)
            require(np.array_equal(w, w0), "the weights to program have changed")
            require(asdict(nm) == b, "the noise model has changed")
            ys = lines(plt.gca())
            require(len(ys) == c["n"] + 1 and all(len(y) == 3 for y in ys), "lines of the drift plot")
            for wi, y in zip(w, ys):
                require(np.all(np.abs(y) <= 1.5 * abs(wi) + 0.3), f"mean weights {y.tolist()} programmed to {wi}")
        elif f == "programming":
            if c["on"] == "device":
                conf = dev
            else:
                conf = cfg.config({"kind": c["on"], "forward": {"is_perfect": True}})
                conf.noise_model = Shift(*c["noises"])
            b = asdict(conf)
            w = None if c["shape"] is None else npy(cfg.ten(c["w"], c["shape"])).astype(np.float32)
            w0 = None if w is None else w.copy()
            kw = {"max_iter": 3} if c["on"] == "device" else {}
            ax = vis.plot_programming_error(conf, w_init=w, n_rows=6, n_bins=c["bins"], t_inference=c["t"] if c["on"] != "device" else None, **kw)
            require(asdict(conf) == b, lambda: f"plotting the programming error changed the configuration from {b} to {asdict(conf)}")
            require(w is None or np.array_equal(w, w0), "the target weights have changed")
            ys = lines(ax)[0]
            require(len(ys) == c["bins"] - 1, f"{len(ys)} values for {c['bins']} bins")
            if c["on"] != "device" and w is not None:
                a, off, f = c["noises"]
                actual = w * a + off if c["t"] is None else (w * a + off) * f
                errors(ys, w, np.clip(actual, -1e9, 1e9), -1.0, 1.0, c["bins"], 100.0, "programming error")
        else:
            spec = {"kind": "torch" if c["torch"] else "inference", "forward": {"is_perfect": True}, "mapping": {"weight_scaling_omega": 1.0 if c["scaling"] else 0.0}}
            conf = cfg.config(spec)
            if not c["comp"]:
                conf.drift_compensation = None
            conf.noise_model = Shift(*c["noises"])
            n, ls = 3, []
            for m in c["layers"]:
                ls += [AnalogLinear(n, m, rpu_config=conf), nn.Tanh()]
                n = m
            model = AnalogSequential(*ls)
            model.eval()
            target = [npy(t.get_weights(apply_weight_scaling=False)[0]).astype(float) for t in model.analog_tiles()]
            raises(lambda: vis.plot_model_programming_error(model), TileError, "programming error of a model that is not programmed")
            model.program_analog_weights()
            if c["drift"]:
                model.drift_analog_weights(c["drift"])
            s = snapshot(model)
            x = torch.linspace(-1, 1, 6).reshape(2, 3)
            y0 = npy(model(x)).copy()
            ax = vis.plot_model_programming_error(model, n_bins=c["bins"], apply_weight_scaling=c["scaling"])
            unchanged(model, s, "plotting the programming error of a model")
            close(npy(model(x)), y0, "outputs after plotting", 1e-5, 1e-6)
            ys = lines(ax)[0]
            require(len(ys) == c["bins"] - 1, f"{len(ys)} values for {c['bins']} bins")
            a, off, f = c["noises"]
            if not c["drift"] or c["comp"]:
                f = 1.0                     # the uniform decay is compensated
            now, sc = [(w * a + off) * f for w in target], [npy(t.get_scales()) if c["scaling"] and t.get_scales() is not None else 1.0 for t in model.analog_tiles()]
            target, now = [np.concatenate([(w * (s if np.ndim(s) == 0 else s.reshape(-1, 1))).flatten() for w, s in zip(v, sc)]) for v in (target, now)]
            top = np.abs(target).max()
            errors(ys, target, now, -top, top, c["bins"], 100.0 / top, "programming error of the model")
    require(asdict(dev) == before, "plotting changed the configuration of the device")
    rec.hit(True)


LANES = [Lane("summary", summary_cases(), check_summary, quick=400, thorough=15000), Lane("export", export_cases(), check_export, quick=250, thorough=10000),
         Lane("response", response_cases(), check_response, quick=250, thorough=8000), Lane("plots", plot_cases(), check_plots, quick=100, thorough=3000)]
