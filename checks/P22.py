"""P22: input ranges are initialised, learned and calibrated as documented."""
import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from aihwkit.exceptions import ConfigError
from aihwkit.inference.calibration import InputRangeCalibrationType as CT
from aihwkit.inference.calibration import calibrate_input_ranges
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogSequential
from aihwkit.optim import AnalogSGD
from vlib import cfg, gen
from vlib.core import Lane, Skip
from vlib.util import close, npy, raises, require

PROPERTY = "P22"
RULE = ("cases: lane learn: a layer with input range and any setting of its parameters through training batches, evaluation, "
        "backward passes, optimizer steps, new ranges; the range, its counter, its gradient, the outputs compared with a reference after every operation. "
        "lane calibrate: a network (several layers, arrays of tiles, layers without ranges, convolution, floating point tile) calibrated with "
        "any strategy from given batches (with zero rows, dead layers), ranges compared with the statistics of the recorded layer inputs; "
        "everything else unchanged. Non-trivial: an input is clipped or the range changes.")


@st.composite
def range_params(draw):
    p = {"enable": True, "learn_input_range": draw(st.sampled_from([True, True, True, False])), "init_value": draw(st.sampled_from([1.0, 3.0, 0.25, 0.7])),
         "init_from_data": draw(st.sampled_from([0, 0, 1, 2, 3, 100])), "init_std_alpha": draw(st.sampled_from([3.0, 1.0, 2.5])),
         "decay": draw(st.sampled_from([0.0, 0.001, 0.1, 0.5])), "input_min_percentage": draw(st.sampled_from([0.95, 0.5, 0.8])),
         "gradient_scale": draw(st.sampled_from([1.0, 0.5, 3.0])), "gradient_relative": draw(st.booleans())}
    return p


@st.composite
def learn_cases(draw):
    tile = draw(st.sampled_from(["single", "inference", "torch", "inference"]))
    ir = draw(range_params())
    fwd = draw(st.sampled_from([{"is_perfect": True}, {"is_perfect": False}, {"is_perfect": False}]))
    if not fwd["is_perfect"]:
        fwd = {"is_perfect": False, "inp_noise": 0.0, "out_noise": 0.0, "w_noise": 0.0, "inp_res": -1.0, "out_res": -1.0, "inp_bound": 1.0,
               "out_bound": draw(st.sampled_from([0.0, 1.0, 0.3])) if tile != "torch" else 0.0, "noise_management": "None", "bound_management": "None"}
        if tile != "torch":
            ir["manage_output_clipping"] = draw(st.booleans())
            ir["output_min_percentage"] = draw(st.sampled_from([0.95, 0.5]))
    return {"tile": tile, "ir": ir, "fwd": fwd, "n": [draw(st.integers(1, 4)), draw(st.integers(1, 5))], "omega": draw(st.sampled_from([0.0, 0.6])),
            "w": draw(gen.data(["normal", "uniform", "pos"])), "lr": draw(st.sampled_from([0.0, 0.05, 0.01])),
            "dim3": draw(st.booleans()),
            "ops": draw(st.lists(st.fixed_dictionaries({"op": st.sampled_from(["train", "back", "back", "back", "step", "eval", "train", "set", "zero"]),
                                                        "b": st.integers(1, 6),
                                                        "x": gen.data(["normal", "uniform", "grid", "pos", "zeros", "negconst", "outlier"], (1.0, 0.3, 3.0)),
                                                        "d": gen.data(["normal", "uniform", "pos", "grid"])}), min_size=1, max_size=8))}


def make(c):
    rpu = cfg.config({"kind": c["tile"], "forward": c["fwd"], "pre_post": {"input_range": c["ir"]}, "mapping": {"weight_scaling_omega": c["omega"]}})
    if c["tile"] == "single":
        rpu = cfg.config({"kind": "single", "device": {"cls": "IdealDevice"}, "forward": c["fwd"], "backward": {"is_perfect": True},
                          "update": {"pulse_type": "None"}, "pre_post": {"input_range": c["ir"]}, "mapping": {"weight_scaling_omega": c["omega"]}})
    if hasattr(rpu, "drift_compensation"):
        rpu.drift_compensation = None
    lay = AnalogLinear(c["n"][1], c["n"][0], bias=False, rpu_config=rpu)
    lay.set_weights(cfg.ten(c["w"], (c["n"][0], c["n"][1])), None)
    return lay


def forward_ref(c, x, ir, w, s):
    """y and the share of clipped outputs."""
    u = np.clip(x, -abs(ir), abs(ir)) / ir
    y = u @ (w / s).T
    clipped = np.zeros_like(y, bool)
    b = c["fwd"].get("out_bound", 0.0) if not c["fwd"]["is_perfect"] else 0.0
    if b > 0:
        if np.any(np.abs(np.abs(y) - b * 0.999) < 2e-5):
            raise Skip("output at the bound")
        clipped = np.abs(y) >= 0.999 * b
        y = np.clip(y, -b, b)
    return y * ir * s, clipped


def check_learn(c, rec):
    lay = make(c)
    t = next(lay.analog_tiles())
    p = c["ir"]
    params = list(lay.parameters())
    require(any(q is t.input_range for q in params) == p["learn_input_range"], "input range is a parameter exactly if it is learned")
    opt = AnalogSGD(params, lr=c["lr"])
    ir, idx, grad = p["init_value"], 0, None
    close(npy(t.input_range), [ir], "initial range", 1e-6, 0)
    nontrivial = False
    for k, o in enumerate(c["ops"]):
        what = f"op {k} ({o['op']})"
        if o["op"] in ("train", "eval", "back"):
            x = cfg.ten(o["x"], (o["b"], c["n"][1]))
            d = cfg.ten(o["d"], (o["b"], c["n"][0]))
            train = o["op"] != "eval"
            lay.train(train)
            xr = x.clone().requires_grad_(True)
            y = lay(xr.unsqueeze(1) if c["dim3"] else xr)
            if c["dim3"]:
                y = y.squeeze(1)
            X = npy(x)
            if train and idx < p["init_from_data"] and X.size > 1:
                sd = X.std(ddof=1)
                if sd < 1e-6 and X.any():
                    raise Skip("vanishing deviation")
                if sd > 0:
                    ir = (ir * idx + p["init_std_alpha"] * sd) / (idx + 1)
                    idx += 1
                    nontrivial = True
            require(int(t.input_range_update_idx.item()) == idx, f"{what}: counter {t.input_range_update_idx.item()} instead of {idx}")
            got = t.input_range.item()
            close(got, ir, f"{what}: input range", 1e-4, 1e-7)
            w = npy(lay.get_weights()[0])
            s = npy(t.mapping_scales) if t.mapping_scales is not None else np.ones(1)
            s = s.reshape(-1)
            ref, clipped = forward_ref(c, X, got, w, s if len(s) > 1 else s[0])
            close(y, ref, f"{what}: output", 1e-4, 1e-5)
            nontrivial |= bool((np.abs(X) > got).any())
            if o["op"] == "back":
                D = npy(d)
                y.backward(d)
                dm = np.where(clipped, 0.0, D)
                dx = dm @ w
                # the straight-through gradient (torch masks the clipped inputs)
                exp = np.where(np.abs(X) > got, 0.0, dx) if c["tile"] == "torch" else dx
                close(xr.grad, exp, f"{what}: input gradient", 1e-4, 1e-5)
                if p["learn_input_range"]:
                    g32 = np.float32(got)
                    up, lo = X >= g32, X <= -g32
                    if np.any(np.abs(np.abs(X) - got) < 1e-6 * got) and not np.any(np.abs(X) == g32):
                        raise Skip("input at the range")
                    g = np.minimum(dx * up, 0).sum() - np.maximum(dx * lo, 0).sum()
                    if p["gradient_relative"]:
                        g *= got
                    g *= p["gradient_scale"]
                    mass = (np.abs(dx) * (up | lo)).sum() * max(1.0, got) * p["gradient_scale"]
                    if p.get("manage_output_clipping") and c["fwd"].get("out_bound", 0) > 0:
                        f = 1 - clipped.mean()
                        if abs(f - p["output_min_percentage"]) < 1e-6:
                            raise Skip("percentage at the threshold")
                        if f < p["output_min_percentage"]:
                            g -= (1 - f) * got
                    if p["decay"] > 0:
                        f = np.mean(np.abs(X) < g32)
                        if abs(f - p["input_min_percentage"]) < 1e-6:
                            raise Skip("percentage at the threshold")
                        g += p["decay"] * got * (f > p["input_min_percentage"])
                    grad = g if grad is None else grad + g
                    # torch tiles: the range also rescales (cancels up to rounding)
                    close(t.input_range.grad, [grad], f"{what}: gradient of the range", 1e-3, 1e-4 * max(1.0, np.abs(D).sum(), mass))
                    nontrivial |= abs(g) > 1e-6
                    grad = t.input_range.grad.item()
        elif o["op"] == "step":
            opt.step()
            if not p["learn_input_range"] or grad is None:
                close(t.input_range.item(), ir, f"{what}: range without a gradient", 1e-5, 1e-7)
            else:
                ir = ir - c["lr"] * grad
                close(t.input_range.item(), ir, f"{what}: range after the step", 1e-4, 1e-6)
                if ir < 1e-2:
                    raise Skip("range too small")
        elif o["op"] == "set":
            ir = abs(float(cfg.arr(o["d"], (1,))[0])) + 0.1
            t.set_input_range(-ir if c["dim3"] else ir)
            close(t.input_range.item(), ir, f"{what}: range after set_input_range", 1e-6, 0)
        elif o["op"] == "zero":
            opt.zero_grad()
            if p["learn_input_range"]:
                grad = None if t.input_range.grad is None else 0.0
        ir = t.input_range.item()
    rec.label(c["tile"], "learn" if p["learn_input_range"] else "fixed", "perfect" if c["fwd"]["is_perfect"] else "nonperfect")
    rec.hit(nontrivial)


# ---- calibration

@st.composite
def calib_cases(draw):
    n = draw(st.integers(1, 3))
    layers = []
    for i in range(n):
        layers.append({"kind": draw(st.sampled_from(["inference", "torch", "inference", "single"])), "enable": draw(st.sampled_from([True, True, False])),
                       "learn": draw(st.booleans()), "init": draw(st.sampled_from([3.0, 1.0, 0.5])),
                       "nm": draw(st.sampled_from(["None", "None", "None", "AbsMax"])), "perfect": draw(st.sampled_from([False, False, True])),
                       "out_noise": draw(st.sampled_from([0.0, 0.0, 0.05])), "omega": draw(st.sampled_from([0.0, 1.0])),
                       "split": draw(st.sampled_from([0, 0, 2])), "act": draw(st.sampled_from(["relu", "none", "neg"])), "out": draw(st.integers(1, 4))})
    return {"layers": layers, "n_in": draw(st.integers(1, 5)), "fp": draw(st.sampled_from([None, None, 0, 1])), "w": draw(gen.data(["normal", "uniform"])),
            "type": draw(st.sampled_from(["MOVING_STD", "MOVING_QUANTILE", "CACHE_QUANTILE", "MAX", "NONE"])),
            "quantile": draw(st.sampled_from([0.99995, 0.9, 0.5, 1.0])), "max_samples": draw(st.sampled_from([1000, 1000, 2])),
            "alpha": draw(st.sampled_from([None, None, 2.0])), "force": draw(st.sampled_from([True, True, False])),
            "train": draw(st.booleans()), "pre": draw(st.integers(0, 2)), "again": draw(st.sampled_from([False, False, True])),
            "batches": draw(st.lists(st.fixed_dictionaries({"b": st.integers(1, 6), "x": gen.data(["normal", "uniform", "sparse", "zeros", "pos", "const", "outlier"], (1.0, 0.2, 4.0))}),
                                     min_size=1, max_size=4))}


def build(c):
    mods, specs, n_in = [], [], c["n_in"]
    for i, l in enumerate(c["layers"]):
        spec = {"kind": l["kind"], "forward": {"is_perfect": l["perfect"], "out_noise": l["out_noise"], "inp_res": -1.0, "out_res": -1.0, "out_bound": 0.0,
                                               "inp_bound": 1.0 if l["enable"] or l["nm"] != "None" else 0.0, "noise_management": l["nm"], "bound_management": "None"},
                "mapping": {"weight_scaling_omega": l["omega"], "max_input_size": l["split"], "max_output_size": 0},
                "pre_post": {"input_range": {"enable": l["enable"], "learn_input_range": l["learn"], "init_value": l["init"], "init_from_data": 1}}}
        if l["kind"] == "single":
            spec.update(device={"cls": "IdealDevice"}, backward={"is_perfect": True}, update={"pulse_type": "None"})
        rpu = cfg.config(spec)
        if hasattr(rpu, "drift_compensation"):
            rpu.drift_compensation = None
        lay = AnalogLinear(n_in, l["out"], bias=True, rpu_config=rpu)
        W = cfg.ten(dict(c["w"], s=c["w"]["s"] + i), (l["out"], n_in))
        lay.set_weights(W, 0.2 * W[:, 0].clone())
        mods.append(lay)
        specs.append(l)
        n_in = l["out"]
        if c["fp"] == i:
            lay = AnalogLinear(n_in, n_in, bias=False, rpu_config=cfg.config({"kind": "fp"}))
            mods.append(lay)
            specs.append(None)
        if l["act"] != "none":
            mods.append(nn.ReLU() if l["act"] == "relu" else Neg())
            specs.append(None)
    return AnalogSequential(*mods), specs


class Neg(nn.Module):
    def forward(self, x):
        return -torch.relu(x) - 0.5


def snapshot(lay):
    return [npy(v) for v in lay.get_weights() if v is not None]


def check_calibrate(c, rec):
    model, specs = build(c)
    model.train(c["train"])
    dims = c["n_in"]
    opt = AnalogSGD(model.parameters(), lr=0.01)
    torch.manual_seed(c["w"]["s"] % 1000)
    typ = CT[c["type"]]
    for k in range(c["pre"]):
        model.train()
        model(torch.randn(5, dims))
    model.train(c["train"])
    xs = [cfg.ten(b["x"], (b["b"], dims)) for b in c["batches"]]
    lays = list(zip(model, specs))
    ana = [(m, s) for m, s in lays if isinstance(m, AnalogLinear)]
    nmactive = [s for m, s in ana if s is not None and s["nm"] != "None" and s["enable"]]
    if not c["force"] and nmactive and c["type"] != "NONE":
        raises(lambda: calibrate_input_ranges(model, typ, [((x,), {}) for x in xs], c["quantile"], c["max_samples"], c["alpha"], False), ConfigError,
               "calibration with noise management")
        rec.hit(True)
        rec.label("config error")
        return
    changed = False
    for rep in range(2 if c["again"] else 1):
        if any(t.input_range is not None and not t.input_range.item() > 1e-3 for m, s in ana for t in m.analog_tiles()):
            raise Skip("vanishing range")
        seen, outs, before = {}, {}, {}
        hooks = []
        for i, (m, s) in enumerate(ana):
            hooks.append(m.register_forward_pre_hook(lambda mod, a, i=i: seen.setdefault(i, []).append(npy(a[0]))))
            hooks.append(m.register_forward_hook(lambda mod, a, y, i=i: outs.setdefault(i, []).append(npy(y))))
            before[i] = dict(w=snapshot(m), ir=[None if t.input_range is None else t.input_range.item() for t in m.analog_tiles()],
                             idx=[None if t.input_range is None else t.input_range_update_idx.item() for t in m.analog_tiles()],
                             perfect=[getattr(getattr(t.rpu_config, "forward", None), "is_perfect", None) for t in m.analog_tiles()],
                             flags=[(t.rpu_config.pre_post.input_range.enable, t.rpu_config.pre_post.input_range.calibration_info) for t in m.analog_tiles()])
        calibrate_input_ranges(model, typ, [((x,), {}) for x in xs], c["quantile"], c["max_samples"], c["alpha"], c["force"])
        for h in hooks:
            h.remove()
        require(all(m.training == c["train"] for m in model.modules()), "training mode not restored by the calibration")
        if c["type"] == "NONE":
            require(not seen, "no calibration, but the model is evaluated")
        for i, (m, s) in enumerate(ana):
            tiles = list(m.analog_tiles())
            b = before[i]
            for a, w in zip(snapshot(m), b["w"]):
                close(a, w, f"layer {i}: weights after the calibration", 1e-6, 1e-7)
            for j, t in enumerate(tiles):
                require(not t._forward_pre_hooks, f"layer {i}: hook left on the tile")
                require(getattr(getattr(t.rpu_config, "forward", None), "is_perfect", None) == b["perfect"][j], f"layer {i}: is_perfect not restored")
                same_config = t.tile.get_meta_parameters() if s is not None and s["kind"] != "torch" else None
                if same_config is not None:
                    require(same_config.forward_io.is_perfect == b["perfect"][j], f"layer {i}: simulator tile is_perfect not restored")
                enabled = s is not None and (b["flags"][j][0] or c["force"]) and c["type"] != "NONE"
                cols = slice(None)
                if len(tiles) > 1:
                    lens = [u.in_size for u in tiles]
                    cols = slice(sum(lens[:j]), sum(lens[:j + 1]))
                if not enabled:
                    require((None if t.input_range is None else t.input_range.item()) == b["ir"][j], f"layer {i}: range of a layer that is not calibrated changed")
                    require((t.rpu_config.pre_post.input_range.enable, t.rpu_config.pre_post.input_range.calibration_info) == b["flags"][j],
                            f"layer {i}: input range parameters of a layer that is not calibrated changed")
                    continue
                require(t.input_range is not None, f"layer {i}: no input range after calibration")
                require(t.rpu_config.pre_post.input_range.init_from_data == 0, f"layer {i}: on-the-fly initialization not off")
                ir = b["ir"][j] if b["ir"][j] is not None else s["init"]
                idx = b["idx"][j] or 0
                exp = expected(c, typ, [v.reshape(-1, v.shape[-1])[:, cols] for v in seen[i]], ir, idx)
                got = t.input_range.item()
                what = f"layer {i} tile {j} ({c['type']}, quantile {c['quantile']})"
                if isinstance(exp, tuple):
                    require(exp[0] * (1 - 1e-5) - 1e-7 <= got <= exp[1] * (1 + 1e-5) + 1e-7, f"{what}: range {got} not in the calibration data {exp}")
                else:
                    close(got, exp, f"{what}: calibrated range", 2e-4, 1e-6)
                changed |= abs(got - ir) > 1e-6
                if not (typ in (CT.MAX, CT.CACHE_QUANTILE) and not any((v[..., cols] != 0).any() for v in seen[i])):
                    par = t.rpu_config.pre_post.input_range
                    require(par.calibration_info == typ.value, f"{what}: calibration info {par.calibration_info}")
                    close(par.init_value, got, f"{what}: initial value in the parameters", 1e-6, 0)
            # calibrated layers see only perfect layers before
            if typ in (CT.MAX, CT.CACHE_QUANTILE) and s is not None and (b["flags"][0][0] or c["force"]):
                for v, y in zip(seen[i], outs[i]):
                    close(y, layer_ref(m, v, [q if q is not None else s["init"] for q in b["ir"]]), f"layer {i}: output during the calibration", 1e-4, 1e-4)
    if c["type"] == "NONE":
        rec.hit(False)
        return
    # the calibrated ranges are used
    model.eval()
    x = 2.0 * torch.randn(4, dims)
    v = x
    with torch.no_grad():
        for m, s in lays:
            y = m(v)
            if s is not None and (s["out_noise"] == 0.0 or s["perfect"]) and not (s["nm"] != "None" and not c["force"]):
                irs = [None if t.input_range is None else t.input_range.item() for t in m.analog_tiles()]
                if all(q is None or q > 1e-3 for q in irs):
                    close(y, layer_ref(m, npy(v), irs), "output after the calibration", 1e-4, 1e-4)
            v = y
    # training continues with the same optimizer
    model.train()
    opt.zero_grad()
    model(3.0 * torch.randn(6, dims)).pow(2).sum().backward()
    state = [(t, t.input_range.item(), t.input_range.grad.item()) for m, s in ana for t in m.analog_tiles()
             if s is not None and t.input_range is not None and isinstance(t.input_range, nn.Parameter) and t.input_range.grad is not None]
    opt.step()
    for t, ir, g in state:
        if np.isfinite(g):
            close(t.input_range.item(), ir - 0.01 * g, "range after a training step following the calibration", 1e-4, 1e-6)
    rec.label(c["type"], "force" if c["force"] else "selected", "dead" if any(not v.any() for i in seen for v in seen[i]) else "")
    rec.hit(changed)


def layer_ref(m, v, irs):
    w, b = m.get_weights()
    w, b = npy(w), npy(b)
    y, k = np.zeros(v.shape[:-1] + (w.shape[0],)), 0
    for t, ir in zip(m.analog_tiles(), irs):
        x = v[..., k:k + t.in_size]
        if ir is not None:
            x = np.clip(x, -ir, ir)
        y = y + x @ w[:, k:k + t.in_size].T
        k += t.in_size
    return y + b


def expected(c, typ, batches, ir, idx):
    rows = [v[(v != 0).any(-1)] for v in batches]
    rows = [v for v in rows if v.size]
    q, alpha = c["quantile"], c["alpha"] or 3.0
    if typ == CT.MAX:
        return max((np.abs(v).max() for v in rows), default=ir)
    if typ == CT.CACHE_QUANTILE:
        if not rows:
            return ir
        a = np.concatenate(rows)
        if len(a) > c["max_samples"]:
            s = np.sort(np.quantile(np.abs(a), [0.0, 1.0]))
            return (float(s[0]) if (a >= 0).all() or (a <= 0).all() else 0.0, float(s[1]))
        return abs(np.quantile(a, q))
    for v in rows:
        if typ == CT.MOVING_QUANTILE:
            val = np.abs(v).max() if q == 1.0 else np.quantile(v, q)
            if abs(val) < 1e-6 and val != 0:
                raise Skip("quantile at zero")
        else:
            val = alpha * v.std(ddof=1) if idx < c["max_samples"] and v.size > 1 else 0.0
            if val < 1e-6 and idx < c["max_samples"] and v.size > 1:
                raise Skip("vanishing deviation")
        if val > 0:
            ir = (ir * idx + val) / (idx + 1)
            idx += 1
    return ir


# ---- convolutions

def c2(c):
    """Configuration of the trained convolution."""
    rpu = cfg.config({"kind": c["tile"], "forward": {"is_perfect": True}, "pre_post": {"input_range": {"enable": True, "init_value": c["range"], "init_from_data": 0}}})
    rpu.drift_compensation = None
    return rpu


@st.composite
def conv_cases(draw):
    return {"indexed": draw(st.booleans()), "range": draw(st.sampled_from([0.5, 1.5])), "tile": draw(st.sampled_from(["inference", "torch"])), "type": draw(st.sampled_from(["MAX", "MOVING_QUANTILE"])), "n": [draw(st.integers(1, 3)) for _ in range(2)],
            "k": draw(st.integers(1, 3)), "size": draw(st.integers(3, 5)), "pad": draw(st.integers(0, 1)), "enable": draw(st.booleans()),
            "batches": draw(st.lists(st.fixed_dictionaries({"b": st.integers(1, 3), "x": gen.data(["normal", "uniform", "sparse", "zeros"], (1.0, 0.2, 4.0))}), min_size=1, max_size=3))}


def check_conv(c, rec):
    rpu = cfg.config({"kind": c["tile"], "forward": {"is_perfect": False, "inp_res": -1.0, "out_res": -1.0, "out_noise": 0.0, "out_bound": 0.0, "noise_management": "None", "bound_management": "None"},
                      "pre_post": {"input_range": {"enable": c["enable"], "init_value": 2.0}}})
    rpu.drift_compensation = None
    m = AnalogSequential(AnalogConv2d(c["n"][0], c["n"][1], c["k"], padding=c["pad"], rpu_config=rpu))
    xs = [cfg.ten(b["x"], (b["b"], c["n"][0], c["size"], c["size"])) for b in c["batches"]]
    calibrate_input_ranges(m, CT[c["type"]], [((x,), {}) for x in xs], 1.0)
    t = next(m.analog_tiles())
    mx = [float(x.abs().max()) for x in xs if x.any()]
    exp = 2.0 if not mx else (max(mx) if c["type"] == "MAX" else np.mean(mx))
    if not mx and not c["enable"]:
        exp = 2.0
    close(t.input_range.item(), exp, f"range of a convolution ({c['type']})", 1e-5, 1e-6)
    m.eval()
    x = 2 * torch.randn(2, c["n"][0], c["size"], c["size"])
    w, b = m[0].get_weights()
    with torch.no_grad():
        y = torch.nn.functional.conv2d(x.clamp(-t.input_range.item(), t.input_range.item()), w.view(c["n"][1], c["n"][0], c["k"], c["k"]), b, padding=c["pad"])
        close(m(x), y, "output after the calibration", 1e-4, 1e-4)
    rec.label(c["tile"], c["type"])
    if mx and c["enable"] and c["tile"] == "inference":
        # the range and its gradient in a training step, however the convolution is computed
        conv = AnalogConv2d(c["n"][0], c["n"][1], c["k"], padding=c["pad"], rpu_config=c2(c), use_indexed=c["indexed"])
        conv.set_weights(w, b)
        t = next(conv.analog_tiles())
        params = list(conv.parameters())
        r = t.input_range.item()
        x = xs[-1].clone().requires_grad_(True)
        y = conv(x)
        d = torch.randn_like(y)
        y.backward(d)
        W = w.view(c["n"][1], c["n"][0], c["k"], c["k"])
        xc = xs[-1].clamp(-r, r)
        close(y, torch.nn.functional.conv2d(xc, W, b, padding=c["pad"]), "output in training", 1e-4, 1e-4)
        dx = torch.nn.functional.grad.conv2d_input(tuple(x.shape), W, d, padding=c["pad"])
        close(x.grad, dx, "input gradient of the convolution (straight through the range)", 1e-3, 1e-3)
        require(any(q is t.input_range for q in params), "the range is no parameter")
        X = xs[-1]
        if c["indexed"] and not bool((((X.abs() - r).abs() < 1e-5) & (X.abs() > 0)).any()):
            g = (dx * (X >= r)).clamp(max=0.0).sum() - (dx * (X <= -r)).clamp(min=0.0).sum()
            g = float(g) * r
            inside = float((X.abs() < r).float().mean())
            dec = c2(c).pre_post.input_range
            g += dec.decay * r * (inside > dec.input_min_percentage)
            got = None if t.input_range.grad is None else t.input_range.grad.item()
            require(got is not None, "no gradient of the range (indexed convolution)")
            close([got], [g], "gradient of the range (indexed convolution)", 1e-3, 2e-3)
            rec.label("indexed gradient")
        rec.label(f"indexed={c['indexed']}")
    rec.hit(bool(mx))


@st.composite
def bias_cases(draw):
    return {"tile": draw(st.sampled_from(["fp", "single", "inference"])), "n": [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
            "analog": draw(st.sampled_from([False, False, True])), "range": draw(st.sampled_from([1.0, 0.5, 2.0])), "s": draw(gen.seeds),
            "omega": draw(st.sampled_from([0.0, 0.6])), "mag": draw(st.sampled_from([0.3, 1.0, 3.0]))}


def check_bias(c, rec):
    """A layer with a bias and an input range computes W clip(x) + b."""
    spec = {"kind": c["tile"], "pre_post": {"input_range": {"enable": True, "init_value": c["range"], "init_from_data": 0}},
            "mapping": {"digital_bias": not c["analog"], "weight_scaling_omega": c["omega"]}}
    if c["tile"] != "fp":
        spec["forward"] = {"is_perfect": True}
    if c["tile"] == "single":
        spec["device"] = {"cls": "IdealDevice"}
    rpu = cfg.config(spec)
    if hasattr(rpu, "drift_compensation"):
        rpu.drift_compensation = None
    lay = AnalogLinear(c["n"][1], c["n"][0], bias=True, rpu_config=rpu)
    w, b = cfg.ten({"k": "uniform", "s": c["s"]}, c["n"]), cfg.ten({"k": "uniform", "s": c["s"] + 1}, (c["n"][0],))
    lay.set_weights(w, b)
    x = cfg.ten({"k": "normal", "s": c["s"] + 2, "m": c["mag"]}, (5, c["n"][1]))
    lay.eval()
    y = npy(lay(x))
    r = c["range"]
    base = npy(x.clamp(-r, r)) @ npy(w).T
    exp, alt = base + npy(b), base + r * npy(b)
    rec.label(c["tile"], "analog" if c["analog"] else "digital")
    rec.hit(bool(np.abs(npy(b)).max() > 1e-3))
    tol = 1e-4 * (1 + np.abs(exp).max())
    if c["analog"] and r != 1.0 and np.abs(y - alt).max() <= tol < np.abs(y - exp).max():
        rec.known.append(("F67", "an analog bias is multiplied by the input range"))
        return
    close(y, exp, "output with bias and input range", 1e-4, 1e-4)


LANES = [Lane("bias", bias_cases(), check_bias, quick=200, thorough=3000,
              explicit=[{"tile": "inference", "n": [2, 3], "analog": True, "range": 2.0, "s": 5, "omega": 0.0, "mag": 1.0}]), Lane("learn", learn_cases(), check_learn, quick=1200, thorough=20000), Lane("calibrate", calib_cases(), check_calibrate, quick=600, thorough=12000),
         Lane("conv", conv_cases(), check_conv, quick=150, thorough=2000)]
