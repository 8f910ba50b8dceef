"""P05: with ideal devices the analog update is exact SGD on the logical weights."""
import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.optim import AnalogSGD
from vlib import cfg, gen
from vlib.core import Lane
from vlib.util import LAYOUTS, close, laid_out, npy, require

PROPERTY = "P05"
RULE = ("cases: lane layer: an analog linear layer (plain or split over tiles) with an ideal update (floating point, ideal device, "
        "pulse type None, hardware-aware inference, torch tile), drawn sizes, bias placement, weight scaling, learning rate "
        "compensation, learned output scales and input range, and a history of training steps (several forward/backward per "
        "step, changing learning rate, zero gradients, evaluation in between) compared step by step with SGD computed in "
        "float64; lane tile: tile.update with every transposed layout and extra dimensions; lane program: iterative programming. "
        "Non-trivial: a non-zero learning rate and a gradient that changes the weights.")
KINDS = {
    "fp": {"kind": "fp"},
    "ideal": {"kind": "single", "device": {"cls": "IdealDevice"}, "forward": {"is_perfect": True}, "backward": {"is_perfect": True}},
    "none": {"kind": "single", "device": {"cls": "ConstantStepDevice"}, "update": {"pulse_type": "None"},
             "forward": {"is_perfect": True}, "backward": {"is_perfect": True}},
    "nonedev": {"kind": "single", "device": {"cls": "ConstantStepDevice", "w_max": 5000.0, "w_min": -5000.0, "w_max_dtod": 0.0,
                                             "w_min_dtod": 0.0}, "update": {"pulse_type": "NoneWithDevice"},
                "forward": {"is_perfect": True}, "backward": {"is_perfect": True}},
    "inference": {"kind": "inference", "forward": {"is_perfect": True}},
    "torch": {"kind": "torch", "forward": {"is_perfect": True}},
}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(list(KINDS)))
    c = {"kind": kind, "n_in": draw(st.integers(1, 9)), "n_out": draw(st.integers(1, 7)),
         "mapped": draw(st.booleans()), "split": draw(st.sampled_from([0, 2, 3, 5])),
         "bias": draw(st.sampled_from(["none", "digital", "analog"])), "omega": draw(st.sampled_from([0.0, 0.6, 1.0])),
         "cw": draw(st.booleans()), "lrc": draw(st.booleans()) if kind not in ("inference", "torch") else False,
         "los": draw(st.booleans()), "ocw": draw(st.booleans()),
         "ir": draw(st.sampled_from([None, None, 1.0, 0.6, 2.5])),
         "w": draw(gen.data(["normal", "uniform", "grid"], (0.5, 0.2, 1.0))), "s": draw(gen.seeds)}
    if c["bias"] == "analog" and (kind == "torch" or c["mapped"]):
        c["bias"] = "digital"
    if c["ir"] and c["bias"] == "analog":        # finding F06 (P03)
        c["ir"] = None
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        steps.append({"lr": draw(st.sampled_from([0.1, 0.01, 0.5, 0.0])), "eval": draw(st.booleans()),
                      "set": draw(st.sampled_from(["group", "method", "keep"])),
                      "lay": draw(st.lists(st.sampled_from(LAYOUTS), min_size=2, max_size=2)),
                      "rounds": draw(st.lists(st.tuples(st.integers(1, 4), gen.data(mags=(1.0, 0.1)), gen.data(mags=(1.0, 0.1)))
                                              .map(list), min_size=1, max_size=2))})
    c["steps"] = steps
    c["extra"] = draw(st.sampled_from([None, None, 2]))
    c["lr0"] = draw(st.sampled_from([0.1, 0.01, 0.05, 0.0]))
    return c


def check(c, rec):
    spec = dict(KINDS[c["kind"]])
    n_in, n_out = c["n_in"], c["n_out"]
    spec["mapping"] = {"digital_bias": c["bias"] != "analog", "weight_scaling_omega": c["omega"], "weight_scaling_columnwise": c["cw"],
                       "weight_scaling_lr_compensation": c["lrc"], "learn_out_scaling": c["los"] and not c["mapped"] and not c["split"],
                       "out_scaling_columnwise": c["ocw"], "max_input_size": c["split"], "max_output_size": c["split"]}
    if c["ir"]:
        spec["pre_post"] = {"input_range": {"enable": True, "learn_input_range": False, "init_from_data": 0, "init_value": c["ir"],
                                            "decay": 0.0}}
    layer = (AnalogLinearMapped if c["mapped"] else AnalogLinear)(n_in, n_out, bias=c["bias"] != "none", rpu_config=cfg.config(spec))
    model = AnalogSequential(layer)
    opt = AnalogSGD(model.parameters(), lr=c["lr0"])
    w = cfg.ten(c["w"], (n_out, n_in))
    b = cfg.ten({"k": "uniform", "s": c["s"]}, (n_out,)) if c["bias"] != "none" else None
    layer.set_weights(w, b)
    tiles = list(layer.analog_tiles())
    M = npy(w).copy()
    B = npy(b).copy() if b is not None else np.zeros(n_out)
    alpha = np.ones(n_out)
    los = spec["mapping"]["learn_out_scaling"]
    if los:
        a = cfg.ten({"k": "pos", "s": c["s"] + 1}, tuple(tiles[0].out_scaling_alpha.shape))
        tiles[0].set_learned_out_scales(a)
        alpha = npy(a).reshape(-1) * np.ones(n_out)
    lr = c["lr0"]
    changed = 0.0
    for i, step in enumerate(c["steps"]):
        if step["set"] == "group":
            lr = step["lr"]
            for grp in opt.param_groups:
                grp["lr"] = lr
        elif step["set"] == "method":
            lr = step["lr"]
            opt.set_learning_rate(lr)
        if step["eval"]:
            model.eval()
            layer(torch.ones(2, n_in))
        model.train()
        opt.zero_grad()
        dM, dB, da = np.zeros_like(M), np.zeros(n_out), np.zeros(n_out)
        for nb, xs, gs in step["rounds"]:
            lead = (nb,) if c["extra"] is None else (nb, c["extra"])
            lay = step.get("lay", ["plain"] * 2)
            x = laid_out(cfg.ten(xs, lead + (n_in,)), lay[0])
            y = layer(x.detach().requires_grad_(True))
            xr = npy(x).reshape(-1, n_in)
            if c["ir"]:
                xr = np.clip(xr, -c["ir"], c["ir"])
            pre = xr @ M.T + (B if c["bias"] == "analog" else 0.0)
            ref = pre * alpha + (B if c["bias"] == "digital" else 0.0)
            close(npy(y).reshape(-1, n_out), ref, f"output in step {i}", rtol=3e-4)
            g = laid_out(cfg.ten(gs, tuple(y.shape)), lay[1])
            y.backward(g)
            gr = npy(g).reshape(-1, n_out)
            dM += (gr * alpha).T @ xr
            da += (gr * pre).sum(0)
            dB += (gr * alpha).sum(0) if c["bias"] == "analog" else gr.sum(0)
        opt.step()
        M = M - lr * dM
        if c["bias"] != "none":
            B = B - lr * dB
        if los:
            alpha = alpha - lr * (da if c["ocw"] else da.sum())
        changed = max(changed, lr * np.abs(dM).max())
        lw, lb = layer.get_weights()
        close(lw, M * alpha.reshape(-1, 1), f"weights after step {i} (lr {lr})", rtol=3e-4, atol=2e-5)
        require((lb is None) == (c["bias"] == "none"), "bias presence")
        if lb is not None:
            close(lb, B * (alpha if c["bias"] == "analog" else 1.0), f"bias after step {i} (lr {lr})", rtol=3e-4, atol=2e-5)
    rec.label(c["kind"], "bias=" + c["bias"], "tiles>1" if len(tiles) > 1 else "1-tile", "lr-comp" if c["lrc"] else "-",
              "input-range" if c["ir"] else "-", "learned-scale" if los else "-", "omega" if c["omega"] else "-")
    rec.hit(changed > 1e-4)


@st.composite
def tile_cases(draw):
    c = {"kind": draw(st.sampled_from(["fp", "ideal", "none", "nonedev", "inference"])), "n_in": draw(st.integers(1, 9)),
         "n_out": draw(st.integers(1, 7)), "bias": draw(st.booleans()), "it": draw(st.booleans()), "ot": draw(st.booleans()),
         "omega": draw(st.sampled_from([0.0, 0.6])), "cw": draw(st.booleans()), "lrc": draw(st.booleans()),
         "w": draw(gen.data(["normal", "uniform", "grid"], (0.5, 0.2))),
         "ups": draw(st.lists(st.fixed_dictionaries({"nb": st.integers(1, 12), "lr": st.sampled_from([0.1, 0.01, 1.0, 0.0]),
                                                     "x": gen.data(), "d": gen.data(),
                                                     "lay": st.lists(st.sampled_from(LAYOUTS), min_size=2, max_size=2)}), min_size=1, max_size=4)),
         "extra": draw(st.sampled_from([None, None, 3]))}
    return c


def check_tile(c, rec):
    spec = dict(KINDS[c["kind"]])
    n_in, n_out = c["n_in"], c["n_out"]
    spec["mapping"] = {"digital_bias": False, "weight_scaling_omega": c["omega"], "weight_scaling_columnwise": c["cw"],
                       "weight_scaling_lr_compensation": c["lrc"]}
    rpu = cfg.config(spec)
    tile = rpu.tile_class(n_out, n_in, rpu, bias=c["bias"], in_trans=c["it"], out_trans=c["ot"])
    w = cfg.ten(c["w"], (n_out, n_in))
    b = cfg.ten({"k": "uniform", "s": c["w"]["s"] + 3}, (n_out,)) if c["bias"] else None
    tile.set_weights(w, b)
    M, B = npy(w).copy(), (npy(b).copy() if c["bias"] else None)
    changed = 0.0
    for i, u in enumerate(c["ups"]):
        lead = (u["nb"],) if c["extra"] is None else (u["nb"], c["extra"])
        xv, dv = cfg.arr(u["x"], lead + (n_in,)), cfg.arr(u["d"], lead + (n_out,))
        x = torch.from_numpy(np.ascontiguousarray(np.moveaxis(xv, -1, 0) if c["it"] else xv))
        d = torch.from_numpy(np.ascontiguousarray(np.moveaxis(dv, -1, 0) if c["ot"] else dv))
        tile.set_learning_rate(u["lr"])
        require(abs(tile.get_learning_rate() - u["lr"]) < 1e-6, f"learning rate {tile.get_learning_rate()} after setting {u['lr']}")
        if "lay" in u:
            x, d = laid_out(x, u["lay"][0]), laid_out(d, u["lay"][1])
            xv, dv = (np.moveaxis(x.numpy(), 0, -1) if c["it"] else x.numpy()), (np.moveaxis(d.numpy(), 0, -1) if c["ot"] else d.numpy())
        x0, d0 = x.clone(), d.clone()
        tile.update(x, d)
        require(torch.equal(x, x0) and torch.equal(d, d0), "update changed its inputs")
        x2, d2 = xv.reshape(-1, n_in).astype(np.float64), dv.reshape(-1, n_out).astype(np.float64)
        step = d2.T @ x2
        M = M - u["lr"] * step
        changed = max(changed, np.abs(u["lr"] * step).max())
        if c["bias"]:
            B = B - u["lr"] * d2.sum(0)
        lw, lb = tile.get_weights()
        close(lw, M, f"weights after update {i} (lr {u['lr']})", rtol=3e-4, atol=2e-5)
        if c["bias"]:
            close(lb, B, f"bias after update {i} (lr {u['lr']})", rtol=3e-4, atol=2e-5)
    rec.label(c["kind"], f"in_trans={c['it']}", f"out_trans={c['ot']}")
    rec.hit(changed > 1e-4)


LANES = [Lane("layer", cases(), check, quick=1500, thorough=60000), Lane("tile", tile_cases(), check_tile, quick=1200, thorough=40000)]
