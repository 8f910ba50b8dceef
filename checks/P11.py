"""P11: a layer mapped over several tiles acts as the sum of its independent tiles and as one weight matrix."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from aihwkit.exceptions import ModuleError
from aihwkit.inference.calibration.calibration import calibrate_quantization_ranges
from aihwkit.nn import AnalogConv2dMapped, AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.nn.modules.container import AnalogContainerBase
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.tiles.array import TileModuleArray
from vlib import cfg, gen
from vlib.core import Lane
from vlib.util import close, npy, raises, require, same

PROPERTY = "P11"
RULE = ("cases: lane array: a linear layer split by drawn tile size limits, hardware with or without deterministic non-idealities "
        "(quantised converters, bounds, noise management, input ranges), inputs of one to four dimensions; outputs, gradients, steps, weight access compared "
        "with separately built one-tile layers on the slices. Lane sizes: tile sizes for any limits. Lane model: nested networks of "
        "layers: enumeration of layers and tiles, network-wide operations. Non-trivial: more than one tile.")


@st.composite
def array_cases(draw):
    kind = draw(st.sampled_from(["fp", "inference", "torch", "single", "inference", "torch", "quant"]))
    fwd = {"is_perfect": True}
    if kind not in ("fp", "quant") and draw(st.booleans()):
        fwd = {"is_perfect": False, "inp_noise": 0.0, "out_noise": 0.0, "w_noise": 0.0, "inp_res": draw(st.sampled_from([-1.0, 0.02, 0.1])), "out_res": draw(st.sampled_from([-1.0, 0.05])),
               "inp_bound": 1.0, "out_bound": draw(st.sampled_from([0.0, 2.0, 0.5])), "noise_management": draw(st.sampled_from(["None", "AbsMax"])), "bound_management": "None",
               "out_scale": draw(st.sampled_from([1.0, 0.5]))}
    spec = {"kind": kind, "mapping": {"weight_scaling_omega": draw(st.sampled_from([0.0, 0.5, 1.0])), "weight_scaling_columnwise": draw(st.booleans()),
                                      "learn_out_scaling": draw(st.sampled_from([False, False, True])), "out_scaling_columnwise": draw(st.booleans())}}
    if kind != "fp":
        spec["forward"] = fwd
    if kind == "single":
        spec.update(device={"cls": "IdealDevice"}, backward={"is_perfect": True}, update={"pulse_type": "None"})
    if kind != "quant" and draw(st.booleans()):
        spec["pre_post"] = {"input_range": {"enable": True, "init_value": draw(st.sampled_from([1.0, 0.5, 3.0])), "init_from_data": draw(st.sampled_from([0, 2])),
                                            "decay": draw(st.sampled_from([0.0, 0.01])), "input_min_percentage": 0.51}}
    n_in, n_out = draw(st.integers(1, 9)), draw(st.integers(1, 7))
    return {"spec": spec, "n": [n_out, n_in], "max": [draw(st.sampled_from([0, 1, 2, 3, 5, 9])), draw(st.sampled_from([0, 1, 2, 3, 7]))],
            "cls": draw(st.sampled_from(["linear", "mapped"])), "bias": draw(st.booleans()), "w": draw(gen.data(["normal", "uniform", "grid", "sparse", "zeros"])),
            "lead": draw(st.lists(st.integers(1, 3), min_size=0, max_size=3)), "lr": draw(st.sampled_from([0.0, 0.01, 0.1])),
            "fresh": draw(st.booleans()), "ops": draw(st.lists(st.fixed_dictionaries({"op": st.sampled_from(["train", "train", "eval", "set", "copy", "remap", "sd"]), "s": gen.seeds,
                                                                                        "k": st.sampled_from(["normal", "uniform", "grid"]), "m": st.sampled_from([1.0, 0.3, 2.0])}), min_size=1, max_size=5))}


def splits(size, mx):
    if mx <= 0:
        return [size]
    n = -(-size // mx)
    return [size // n + (i < size % n) for i in range(n)]


def check_array(c, rec):
    n_out, n_in = c["n"]
    rpu = cfg.config(gen.merge(c["spec"], {"mapping": {"max_input_size": c["max"][0], "max_output_size": c["max"][1], "digital_bias": True}}))
    one = cfg.config(gen.merge(c["spec"], {"mapping": {"max_input_size": 0, "max_output_size": 0, "digital_bias": True}}))
    for r in (rpu, one):
        if hasattr(r, "drift_compensation"):
            r.drift_compensation = None
    lay = (AnalogLinear if c["cls"] == "linear" else AnalogLinearMapped)(n_in, n_out, bias=c["bias"], rpu_config=rpu)
    si, so = splits(n_in, c["max"][0]), splits(n_out, c["max"][1])
    if isinstance(lay.analog_module, TileModuleArray):
        require([[t.in_size for t in r] for r in lay.analog_module.array] == [[a] * len(so) for a in si], f"input sizes of the tiles for {n_in} and limit {c['max'][0]}")
        require([[t.out_size for t in r] for r in lay.analog_module.array] == [so] * len(si), f"output sizes of the tiles for {n_out} and limit {c['max'][1]}")
        require(lay.analog_module.analog_tile_count == len(si) * len(so), "tile count")
    tiles = list(lay.analog_tiles())
    require(len(tiles) == len(si) * len(so) == lay.analog_tile_count(), f"{len(tiles)} tiles instead of {len(si)}x{len(so)}")
    W, B = cfg.ten(c["w"], (n_out, n_in)), cfg.ten({"k": "uniform", "s": c["w"]["s"] + 1}, (n_out,)) if c["bias"] else None
    subs = [[AnalogLinear(a, b, bias=False, rpu_config=copy.deepcopy(one)) for b in so] for a in si]
    oi, oo = np.cumsum([0] + si), np.cumsum([0] + so)
    flat = [m for r in subs for m in r]
    if c["fresh"]:
        # the initialisation follows the whole layer
        torch.manual_seed(5)
        lay.reset_parameters()
        torch.manual_seed(5)
        ref = nn.Linear(n_in, n_out, bias=c["bias"])
        w, b = lay.get_weights()
        close(w, ref.weight, "initial weights", 1e-4, 1e-6)
        if c["bias"]:
            close(b, ref.bias, "initial bias", 1e-4, 1e-6)

    def put(W, B, **kw):
        Wc, Bc = W.clone(), None if B is None else B.clone()
        lay.set_weights(Wc, Bc, **kw)
        Wc.fill_(99.0)                          # (what was written stays written)
        if Bc is not None:
            Bc.fill_(99.0)
        for i, r in enumerate(subs):
            for j, m in enumerate(r):
                m.set_weights(W[oo[j]:oo[j + 1], oi[i]:oi[i + 1]].clone(), None, **kw)

    put(W, B)
    bias = npy(B) if c["bias"] else None
    opt = AnalogSGD(lay.parameters(), lr=c["lr"])
    sopt = AnalogSGD([p for m in flat for p in m.parameters()], lr=c["lr"])

    def weights(what):
        w, b = lay.get_weights()
        exp = np.concatenate([np.concatenate([npy(m.get_weights()[0]) for m in r], 0) for r in subs], 1)
        close(w, exp, f"{what}: weights", 1e-4, 1e-5)
        raw = np.concatenate([np.concatenate([npy(m.get_weights(apply_weight_scaling=False)[0]) for m in r], 0) for r in subs], 1)
        close(lay.get_weights(apply_weight_scaling=False)[0], raw, f"{what}: weights without scales", 1e-4, 1e-5)
        if c["bias"]:
            close(b, bias, f"{what}: bias", 1e-4, 1e-5)
        else:
            require(b is None, f"{what}: bias returned")
        for t, m in zip(tiles, flat):
            s, e = t.get_scales(), next(m.analog_tiles()).get_scales()
            require((s is None) == (e is None), f"{what}: scales")
            if s is not None:
                close(s, e, f"{what}: scales of a tile", 1e-4, 1e-6)
    weights("after set_weights")
    if c["lr"] == 0 or True:
        close(lay.get_weights()[0], W, "weights set and read", 1e-5, 1e-6)
    for k, o in enumerate(c["ops"]):
        what = f"op {k} ({o['op']})"
        if o["op"] == "set":
            B2 = cfg.ten(dict(o, s=o["s"] // 2), (n_out,)) if c["bias"] else None
            kw = [{}, {"weight_scaling_omega": 1.0}, {"weight_scaling_omega": 0.3}, {"apply_weight_scaling": False}][o["s"] % 4]
            put(cfg.ten(o, (n_out, n_in)), B2, **kw)
            bias = npy(B2) if c["bias"] else None
        elif o["op"] == "copy":
            lay = copy.deepcopy(lay)
            tiles = list(lay.analog_tiles())
            opt = AnalogSGD(lay.parameters(), lr=c["lr"])
        elif o["op"] == "sd":
            new = (AnalogLinear if c["cls"] == "linear" else AnalogLinearMapped)(n_in, n_out, bias=c["bias"], rpu_config=rpu)
            new.load_state_dict(lay.state_dict())
            lay, tiles = new, list(new.analog_tiles())
            opt = AnalogSGD(lay.parameters(), lr=c["lr"])
        elif o["op"] == "remap":
            lay.remap_analog_weights(0.8)
            for m in flat:
                m.remap_analog_weights(0.8)
        else:
            train = o["op"] == "train"
            lay.train(train)
            for m in flat:
                m.train(train)
            X = cfg.ten(o, tuple(c["lead"]) + (n_in,))
            D = cfg.ten(dict(o, s=o["s"] // 3), tuple(c["lead"]) + (n_out,))
            x, sx = X.clone().requires_grad_(True), X.clone().requires_grad_(True)
            opt.zero_grad()
            sopt.zero_grad()
            y = lay(x)
            exp = 0
            for r, v in zip(subs, torch.split(sx, si, -1)):
                exp = exp + torch.cat([m(v) for m in r], -1)
            ref = npy(exp) + (bias if c["bias"] else 0.0)
            close(y, ref, f"{what}: output", 1e-4, 1e-5)
            if train:
                y.backward(D)
                exp.backward(D)
                close(x.grad, sx.grad, f"{what}: input gradient", 1e-4, 1e-5)
                opt.step()
                sopt.step()
                if c["bias"]:
                    bias = bias - c["lr"] * npy(D).reshape(-1, n_out).sum(0)
                for t, m in zip(tiles, flat):
                    e = next(m.analog_tiles())
                    if t.input_range is not None:
                        close(t.input_range, npy(e.input_range), f"{what}: input range of a tile", 1e-4, 1e-5)
        weights(what)
    rec.label(c["spec"]["kind"], c["cls"], f"{min(len(tiles), 9)} tiles", "perfect" if c["spec"].get("forward", {}).get("is_perfect", True) else "nonperfect")
    rec.hit(len(tiles) > 1)


# ---- quantised arrays: one tile or several, any quantisation of the periphery

@st.composite
def quant_cases(draw):
    return {"n": [draw(st.integers(1, 4)), draw(st.integers(1, 6))], "max": [draw(st.sampled_from([0, 2, 10])), draw(st.sampled_from([0, 2, 10]))], "bias": draw(st.booleans()),
            "bits": draw(st.sampled_from([0, 8, 12])), "sym": draw(st.booleans()), "learn": draw(st.booleans()), "w": draw(gen.data(["normal", "uniform"])), "cls": draw(st.sampled_from(["linear", "mapped"])),
            "acts": draw(st.sampled_from([0, 0, 12])), "ops": draw(st.lists(st.booleans(), min_size=1, max_size=4)), "s": draw(gen.seeds)}


def check_quant(c, rec):
    n_out, n_in = c["n"]
    rpu = cfg.config({"kind": "quant", "forward": {"is_perfect": True}, "mapping": {"max_input_size": c["max"][0], "max_output_size": c["max"][1], "weight_scaling_omega": 1.0},
                      "pre_post": {"periph_quant": {"n_bits": c["bits"], "symmetric": c["sym"], "learn_quant_params": c["learn"], "init_learning_after": 1}}})
    if c["acts"]:
        from aihwkit.simulator.parameters.quantization import ActivationQuantConfig
        rpu.act_quant_config = ActivationQuantConfig(n_bits=c["acts"])
    if c["cls"] == "mapped":
        lay = AnalogLinear(n_in, n_out, bias=c["bias"], rpu_config=rpu, tile_module_class=rpu.tile_array_class)
    else:
        lay = AnalogLinear(n_in, n_out, bias=c["bias"], rpu_config=rpu)
    W = cfg.ten(c["w"], (n_out, n_in))
    B = W[:, 0].clone() if c["bias"] else None
    lay.set_weights(W, B)
    for t in (lay.get_weights()[0], lay.get_weights()[1]):
        if t is not None:
            t.fill_(99.0)                       # (weights read are a copy)
    g = torch.Generator().manual_seed(c["s"])
    if c["acts"]:
        calibrate_quantization_ranges(lay, [(torch.randn(5, n_in, generator=g),) for _ in range(2)])
    bits = min([b for b in (c["bits"], c["acts"]) if b], default=0)
    for k, train in enumerate(c["ops"]):
        lay.train(train)
        x = torch.randn(5, n_in, generator=g)
        y = lay(x)
        w, b = lay.get_weights()
        exp = npy(x) @ npy(w).T + (npy(b) if c["bias"] else 0.0)
        # ranges learned or fixed from the first batches may clip later ones; scales and biases only depend on the weights
        if not c["acts"]:
            mag = (np.abs(npy(x)) @ np.abs(npy(w)).T).max() + (np.abs(npy(b)).max() if c["bias"] else 0.0)
            scale = max(np.abs(npy(t.mapping_scales)).max() for t in lay.analog_tiles()) / max(1e-9, min(np.abs(npy(t.mapping_scales)).min() for t in lay.analog_tiles()))
            tol = 1e-5 + (2.0 ** (2 - bits) * scale if bits else 0.0)
            close(y, exp, f"pass {k}: output of {len(list(lay.analog_tiles()))} quantised tiles", 1e-4, tol * mag + 1e-5)
        else:
            require(bool(torch.isfinite(y).all()), f"pass {k}: output not finite")
    rec.label(f"{c['bits']} bits", f"{len(list(lay.analog_tiles()))} tiles", "acts" if c["acts"] else "")
    rec.hit(len(list(lay.analog_tiles())) > 1 or c["bits"] > 0)


# ---- networks

class Res(nn.Module):
    def __init__(self, *mods):
        super().__init__()
        self.mods = nn.ModuleList(mods)

    def forward(self, x):
        for m in self.mods:
            x = m(x)
        return x


class Net(AnalogContainerBase, Res):
    pass


@st.composite
def trees(draw, depth=2):
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return {"t": draw(st.sampled_from(["analog", "digital", "relu", "analog", "split"]))}
    return {"t": draw(st.sampled_from(["seq", "res"])), "c": draw(st.lists(trees(depth - 1), min_size=1, max_size=3))}


@st.composite
def model_cases(draw):
    return {"tree": {"t": draw(st.sampled_from(["seq", "net"])), "c": draw(st.lists(trees(), min_size=1, max_size=4))}, "kind": draw(st.sampled_from(["inference", "torch"])),
            "s": draw(gen.seeds), "omega": draw(st.sampled_from([0.4, 1.0, 2.0])), "t": draw(st.sampled_from([0.0, 100.0]))}


def grow(c, node, counts):
    t = node["t"]
    if t in ("analog", "split"):
        rpu = cfg.config({"kind": c["kind"], "forward": {"is_perfect": True}, "mapping": {"max_input_size": 2 if t == "split" else 0, "max_output_size": 0, "weight_scaling_omega": 1.0}})
        rpu.drift_compensation = None
        counts[0] += 1
        counts[1] += 2 if t == "split" else 1
        return AnalogLinear(3, 3, rpu_config=rpu)
    if t == "digital":
        return nn.Linear(3, 3)
    if t == "relu":
        return nn.ReLU()
    kids = [grow(c, k, counts) for k in node["c"]]
    return AnalogSequential(*kids) if t == "seq" else Net(*kids) if t == "net" else Res(*kids)


def check_model(c, rec):
    counts = [0, 0]
    torch.manual_seed(c["s"] % 10000)
    m = grow(c, c["tree"], counts)
    lays, tiles = list(m.named_analog_layers()), list(m.named_analog_tiles())
    require(len(lays) == counts[0], f"{len(lays)} analog layers instead of {counts[0]}")
    require(len(tiles) == counts[1] == m.analog_tile_count(), f"{len(tiles)} analog tiles instead of {counts[1]}")
    require(len({n for n, _ in tiles}) == len(tiles), "tile names not unique")
    require(all(m.get_submodule(n) is t for n, t in tiles + lays), "names of tiles and layers are paths")
    require([id(t) for t in m.analog_tiles()] == [id(t) for _, t in tiles] and [id(t) for t in m.analog_layers()] == [id(t) for _, t in lays], "enumerations differ")
    seen = []
    m.apply_to_analog_tiles(lambda t: seen.append(id(t)))
    require(seen == [id(t) for _, t in tiles], "apply_to_analog_tiles")
    seen = []
    m.apply_to_analog_layers(lambda t: seen.append(id(t)))
    require(seen == [id(t) for _, t in lays], "apply_to_analog_layers")
    m.train()
    raises(lambda: m.program_analog_weights(), ModuleError, "programming in training mode")
    raises(lambda: m.drift_analog_weights(1.0), ModuleError, "drift in training mode")
    m.eval()
    x = torch.randn(4, 3)
    with torch.no_grad():
        y = m(x)
    w = [lay.get_weights()[0].clone() for lay in m.analog_layers()]
    m.remap_analog_weights(c["omega"])
    for _, t in tiles:
        a = t.tile.get_weights().abs()
        close(a.max(1)[0] if t.rpu_config.mapping.weight_scaling_columnwise else a.max(), np.full(a.shape[0], c["omega"]) if t.rpu_config.mapping.weight_scaling_columnwise else c["omega"],
              "largest tile weight after remapping", 1e-5, 1e-6)
    for lay, e in zip(m.analog_layers(), w):
        close(lay.get_weights()[0], e, "weights after remapping", 1e-5, 1e-6)
    with torch.no_grad():
        close(m(x), y, "output after remapping", 1e-4, 1e-5)
    # parameters: every one exactly once
    ids = [id(p) for p in m.parameters()]
    require(len(set(ids)) == len(ids), "parameter listed twice")
    if counts[1]:
        m.program_analog_weights()
        m.drift_analog_weights(c["t"])
        for _, t in tiles:
            require(t.programmed_weights is not None, "a tile is not programmed")
        changed = [bool((lay.get_weights()[0] - e).abs().max() > 1e-6) for lay, e in zip(m.analog_layers(), w)]
        require(all(changed), "a layer is not programmed")
    rec.label(c["kind"], f"{counts[1]} tiles")
    rec.hit(counts[1] > 1)


@st.composite
def size_cases(draw):
    return {"n": draw(st.integers(1, 5000)), "mx": draw(st.one_of(st.integers(-1, 40), st.integers(1, 5000)))}


_ARR = []


def check_sizes(c, rec):
    if not _ARR:
        _ARR.append(TileModuleArray(2, 2, cfg.config({"kind": "fp"})))
        _ARR.append(AnalogConv2dMapped(1, 1, 1, rpu_config=cfg.config({"kind": "fp"})))
    s = list(_ARR[0].get_split_sizes(c["n"], c["mx"]))
    conv = _ARR[1].get_split_sizes(c["n"], c["mx"], 1)
    for v, what in ((s, "tile array"), (list(conv), "mapped convolution")):
        require(sum(v) == c["n"] and min(v) >= 1, f"{what}: sizes {v[:10]} do not add up to {c['n']}")
        require(c["mx"] <= 0 or max(v) <= c["mx"], f"{what}: tile larger than {c['mx']}: {v[:10]}")
        require(max(v) - min(v) <= 1, f"{what}: sizes are not even: {v[:10]}")
        require(c["mx"] > 0 or len(v) == 1, f"{what}: split without a limit")
        require(c["mx"] <= 0 or len(v) == -(-c["n"] // c["mx"]), f"{what}: {len(v)} tiles for {c['n']} and limit {c['mx']}")
    rec.hit(len(s) > 1)


LANES = [Lane("array", array_cases(), check_array, quick=700, thorough=15000), Lane("quant", quant_cases(), check_quant, quick=300, thorough=4000),
         Lane("model", model_cases(), check_model, quick=200, thorough=3000), Lane("sizes", size_cases(), check_sizes, quick=500, thorough=20000)]
