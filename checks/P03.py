"""P03: input gradients are the adjoint of the analog forward pass under the configured backward settings."""
import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogLinear
from aihwkit.simulator.parameters.enums import AnalogMVType
from vlib import cfg, gen
from vlib.core import Lane, Violation
from vlib.iomodel import Io, Pars, ref_rows
from vlib.util import LAYOUTS, close, laid_out, npy, require
from checks.P02 import io_strategy

PROPERTY = "P03"
RULE = ("cases: lane exact: every tile kind with perfect forward and backward, transposed input/output layouts, extra batch "
        "dimensions, scales and biases; lane managed: C++ tiles with drawn backward IO parameters (quantisers, bounds, noise "
        "management, asymmetries, IR drop, non-linearity, offsets) against the float64 reference applied to the transposed "
        "weights; lane mask: forward output bound hit, gradients of saturated outputs only are dropped; lane ste: torch tile "
        "with quantisers, straight-through gradient. Non-trivial: the output gradient and the weights are not all zero, and in "
        "the managed lane a quantiser, bound or non-ideality is active.")


def build(c, forward, backward=None):
    kind = c["kind"]
    spec = {"kind": kind, "mapping": {"digital_bias": c["bias"] != "analog", "weight_scaling_omega": c["omega"],
                                      "weight_scaling_columnwise": c["cw"], "learn_out_scaling": c["los"],
                                      "out_scaling_columnwise": c["ocw"], "max_input_size": 0, "max_output_size": 0}}
    if kind != "fp":
        spec["forward"] = forward
    if kind in ("single", "unit"):
        spec["backward"] = backward or {"is_perfect": True}
    if kind == "single":
        spec["device"] = {"cls": c.get("dev", "IdealDevice")}
    elif kind == "unit":
        spec["device"] = {"cls": "VectorUnitCell", "unit_cell_devices": [{"cls": "ConstantStepDevice"}, {"cls": "SoftBoundsDevice"}]}
    if c.get("ir"):
        spec["pre_post"] = {"input_range": {"enable": True, "learn_input_range": True, "init_from_data": 0, "init_value": c["ir"]}}
    return cfg.config(spec)


COMMON = {"n_in": st.one_of(st.integers(1, 6), st.integers(7, 30)), "n_out": st.one_of(st.integers(1, 5), st.integers(6, 20)),
          "w": gen.data(["normal", "uniform", "grid", "sparse", "outlier"], (0.5, 0.2, 1.0)),
          "omega": st.sampled_from([0.0, 0.6, 1.0]), "cw": st.booleans(), "los": st.booleans(), "ocw": st.booleans(),
          "x": gen.data(), "g": gen.data(mags=(1.0, 0.01, 5.0)), "batch": st.integers(1, 5), "seed": gen.seeds}


def setup(c, tile):
    """Set weights; returns float64 logical weight, bias."""
    w = cfg.ten(c["w"], (c["n_out"], c["n_in"]))
    b = cfg.ten({"k": "uniform", "s": c["seed"]}, (c["n_out"],)) if c["bias"] != "none" else None
    tile.set_weights(w, b)
    if c["los"]:
        tile.set_learned_out_scales(cfg.ten({"k": "pos", "s": c["seed"] + 1}, tuple(tile.out_scaling_alpha.shape)))
    lw, lb = tile.get_weights()
    return npy(lw), None if lb is None else npy(lb)


@st.composite
def exact_cases(draw):
    c = {k: draw(v) for k, v in COMMON.items()}
    c["kind"] = draw(st.sampled_from(["fp", "single", "unit", "inference", "torch"]))
    c["dev"] = draw(st.sampled_from(["IdealDevice", "ConstantStepDevice", "LinearStepDevice"]))
    c["bias"] = draw(st.sampled_from(["none", "digital"] + (["analog"] if c["kind"] != "torch" else [])))
    c["in_trans"] = draw(st.booleans()) if c["kind"] != "torch" else False
    c["out_trans"] = draw(st.booleans()) if c["kind"] != "torch" else False
    c["extra"] = draw(st.integers(0, 2)) if not (c["in_trans"] or c["out_trans"]) else 0
    c["ideal_mv"] = draw(st.booleans())
    c["train"] = draw(st.booleans())
    c["lay"] = draw(st.lists(st.sampled_from(LAYOUTS), min_size=2, max_size=2))
    c["oscale"] = draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])) if c["kind"] in ("single", "unit") else 1.0
    if c["kind"] in ("inference", "torch"):
        c["ir"] = draw(st.sampled_from([None, 16.0, 64.0]))
    return c


def check_exact(c, rec):
    perf = {"mv_type": "Ideal"} if c["ideal_mv"] and c["kind"] != "torch" else {"is_perfect": True}
    fwd = dict(perf, out_scale=c["oscale"]) if c["oscale"] != 1.0 else perf
    rpu = build(c, fwd, fwd)
    tile = rpu.tile_class(c["n_out"], c["n_in"], rpu, c["bias"] != "none", c["in_trans"], c["out_trans"]) \
        if c["kind"] != "torch" else rpu.tile_class(c["n_out"], c["n_in"], rpu, c["bias"] != "none")
    tile.train(c["train"])
    W, b = setup(c, tile)
    shape = (c["batch"],) + (2,) * c["extra"] + (c["n_in"],)
    x = cfg.ten(c["x"], shape)
    xt = laid_out(x.t().contiguous() if c["in_trans"] else x, c["lay"][0]).detach()
    x = xt.t() if c["in_trans"] else xt
    xt.requires_grad_(True)
    y = tile(xt)
    f = c["oscale"]
    ana = npy(x) @ W.T * f
    yr = ana if b is None else (ana + b * (f if c["bias"] == "analog" else 1.0))
    yl = y.t() if c["out_trans"] else y
    if c["bias"] == "analog" and c.get("ir") and np.any(b != 0):
        wrong = ana + b * c["ir"]
        if np.allclose(npy(yl), wrong, rtol=2e-4, atol=1e-4 * max(1.0, np.abs(wrong).max())) and not np.allclose(npy(yl), yr, rtol=2e-4, atol=1e-4):
            rec.known.append(("F06", f"bias {b[:3]} enters the output as {(b * c['ir'])[:3]} with input range {c['ir']}"))
            yr = wrong
    close(yl, yr, "output", rtol=2e-4)
    g = cfg.ten(c["g"], tuple(yr.shape))
    gt = laid_out(g.t().contiguous() if c["out_trans"] else g, c["lay"][1])
    g = gt.t() if c["out_trans"] else gt
    y.backward(gt)
    gx = xt.grad.t() if c["in_trans"] else xt.grad
    close(gx, npy(g) @ W * f, "input gradient", rtol=2e-4)
    g2, n = npy(g).reshape(-1, c["n_out"]), c["n_out"]
    if c["bias"] == "digital":
        close(tile.bias.grad, g2.sum(0), "digital bias gradient", rtol=2e-4)
    if c["los"]:
        # y_analog = alpha * y0, so d/dalpha = sum g * y0
        alpha = np.broadcast_to(npy(tile.out_scaling_alpha), (n,))
        y0 = ((yr - (b if c["bias"] == "digital" else 0.0)).reshape(-1, n)) / alpha
        ga = (g2 * y0).sum(0)
        ga = ga if tile.out_scaling_alpha.numel() == n and c["ocw"] else ga.sum(keepdims=True)
        close(tile.out_scaling_alpha.grad, ga, "output scaling gradient", rtol=5e-4, atol=1e-4 * (np.abs(g2 * y0).sum() + 1e-3))
    rec.label(c["kind"], "bias=" + c["bias"], f"trans={int(c['in_trans'])}{int(c['out_trans'])}", f"dims={2 + c['extra']}",
              "ir" if c.get("ir") else "no-ir", "out-scaling" if c["los"] else "-")
    rec.hit(np.any(npy(g) != 0) and np.any(W != 0))


@st.composite
def managed_cases(draw):
    c = {k: draw(v) for k, v in COMMON.items()}
    c["kind"] = draw(st.sampled_from(["single", "single", "unit"]))
    c["bias"] = draw(st.sampled_from(["none", "digital", "analog"]))
    c["io"] = draw(io_strategy(False))
    if c["io"]["noise_management"] != "None":
        c["io"].pop("inp_bound", None)
    c["fwd_avg"] = draw(st.booleans())            # a forward pass with its own running average
    c["steps"] = draw(st.integers(1, 3))
    c["rew"] = draw(st.booleans())
    return c


def check_managed(c, rec):
    fwd = {"noise_management": "AverageAbsMax", "out_noise": 0.0, "inp_res": -1.0, "out_res": -1.0, "out_bound": 0.0} if c.get("fwd_avg") else {"is_perfect": True}
    rpu = build(c, fwd, c["io"])
    layer = AnalogLinear(c["n_in"], c["n_out"], bias=c["bias"] != "none", rpu_config=rpu)
    tile = next(iter(layer.analog_tiles()))
    setup(c, tile)
    W = npy(tile.tile.get_weights())
    ms = npy(tile.get_mapping_scales()).reshape(-1) if tile.get_mapping_scales() is not None else np.ones(1)
    ls = npy(tile.out_scaling_alpha) if c["los"] else np.ones(1)
    io = Io(rpu.backward, backward=True)
    pars = Pars(tile.get_backward_parameters(), W.shape[0], W.shape[1], backward=True)
    info, compared, state = {}, 0, {"aux": -1.0}
    for i in range(c["steps"]):
        if i and c.get("rew"):            # other weights, the same systematic variations
            setup(dict(c, w=dict(c["w"], s=c["w"]["s"] + 7 * i)), tile)
            W = npy(tile.tile.get_weights())
            ms = npy(tile.get_mapping_scales()).reshape(-1) if tile.get_mapping_scales() is not None else np.ones(1)
            ls = npy(tile.out_scaling_alpha) if c["los"] else np.ones(1)
        x = cfg.ten(dict(c["x"], s=c["x"]["s"] + i), (c["batch"], c["n_in"])).requires_grad_(True)
        y = layer(x)
        g = cfg.ten(dict(c["g"], s=c["g"]["s"] + i), tuple(y.shape))
        y.backward(g)
        gin = npy(g) * ls.reshape(1, -1) * ms.reshape(1, -1)
        ref, ok = ref_rows(W.T, gin, io, pars, info, state)
        ref, ok = ref[:, :c["n_in"]], ok[:, :c["n_in"]]
        got = npy(x.grad)
        mag = np.abs(ref).max() if ref.size else 0.0
        tol = 1e-5 * max(1.0, mag) + 3e-4 * np.maximum(np.abs(ref), 0.05 * mag)
        bad = ok & ~(np.abs(got - ref) <= tol)
        compared += int(ok.sum())
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            raise Violation(f"input gradient step {i} element {k}: got {got[k]:.7g}, documented backward pass gives {ref[k]:.7g} "
                            f"({int(bad.sum())} of {bad.size} differ)")
    for k in info:
        rec.label(k)
    rec.label(c["kind"], "nm=" + io.nm, io.mv, "bias=" + c["bias"])
    rec.hit(compared > 0 and not io.perfect and np.any(gin != 0) and (io.ir > 0 or io.orr > 0 or "saturated" in info))


@st.composite
def mask_cases(draw):
    c = {k: draw(v) for k, v in COMMON.items()}
    c["kind"] = draw(st.sampled_from(["single", "inference", "unit"]))
    c["bias"] = draw(st.sampled_from(["none", "digital"]))
    c["los"] = False
    c["bound"] = draw(st.sampled_from([0.3, 1.0, 0.0, 2.5]))
    c["oscale"] = draw(st.sampled_from([1.0, 0.5, 3.0]))
    return c


def check_mask(c, rec):
    rpu = build(c, {"out_noise": 0.0, "inp_res": -1, "out_res": -1, "inp_bound": 100.0, "out_bound": c["bound"],
                    "noise_management": "None", "bound_management": "None", "out_scale": c["oscale"]})
    layer = AnalogLinear(c["n_in"], c["n_out"], bias=c["bias"] != "none", rpu_config=rpu)
    tile = next(iter(layer.analog_tiles()))
    W, b = setup(c, tile)
    ms = npy(tile.get_mapping_scales()).reshape(-1) if tile.get_mapping_scales() is not None else np.ones(1)
    x = cfg.ten(c["x"], (c["batch"], c["n_in"])).requires_grad_(True)
    y = layer(x)
    raw = npy(x) @ (W / ms.reshape(-1, 1)).T
    bound = c["bound"] if c["bound"] > 0 else np.inf
    yr = np.clip(raw, -bound, bound) * c["oscale"] * ms.reshape(1, -1)
    if b is not None:
        yr = yr + b
    close(y, yr, "output", rtol=2e-4)
    g = cfg.ten(c["g"], tuple(yr.shape))
    y.backward(g)
    keep = np.abs(raw) < bound
    grey = (np.abs(raw) > 0.998 * bound) & (np.abs(raw) < 1.001 * bound)
    rows = ~grey.any(1)
    close(npy(x.grad)[rows], ((npy(g) * keep) @ W)[rows], "input gradient with saturated outputs", rtol=3e-4)
    rec.label(c["kind"], "saturated" if (~keep).any() else "unsaturated", "all-saturated" if (~keep).all() else "-")
    rec.hit((~keep).any() and keep.any() and np.any(npy(g) != 0))


@st.composite
def ste_cases(draw):
    c = {k: draw(v) for k, v in COMMON.items()}
    c["kind"] = "torch"
    c["bias"] = draw(st.sampled_from(["none", "digital"]))
    c["io"] = {"out_noise": 0.0, "inp_res": draw(st.sampled_from([-1.0, 254.0, 1 / 126])),
               "out_res": draw(st.sampled_from([-1.0, 510.0, 1 / 510])), "out_bound": 1000.0,
               "noise_management": draw(st.sampled_from(["AbsMax", "Constant"])), "bound_management": "None", "nm_thres": 0.0}
    if c["io"]["noise_management"] == "Constant":
        c["io"]["nm_thres"] = 1000.0
    return c


def check_ste(c, rec):
    rpu = build(c, c["io"])
    layer = AnalogLinear(c["n_in"], c["n_out"], bias=c["bias"] != "none", rpu_config=rpu)
    tile = next(iter(layer.analog_tiles()))
    W, _ = setup(c, tile)
    x = cfg.ten(c["x"], (c["batch"], c["n_in"])).requires_grad_(True)
    y = layer(x)
    g = cfg.ten(c["g"], tuple(y.shape))
    y.backward(g)
    rows = np.ones(len(npy(x)), bool)
    if c["io"]["noise_management"] == "Constant":
        ref = npy(g) @ W
        close(npy(x.grad)[rows], ref[rows], "straight-through input gradient", rtol=3e-4)
    else:
        # the scale's own dependence on the largest input only touches that input
        ref, got = npy(g) @ W, npy(x.grad)
        other = np.abs(npy(x)) < np.abs(npy(x)).max(1, keepdims=True)
        tol = 1e-5 + 3e-4 * (np.abs(ref).max() if ref.size else 0)
        bad = other & (np.abs(got - ref) > tol)
        require(not bad.any(), f"straight-through input gradient differs at {np.argwhere(bad)[:1]}")
    rec.label("nm=" + c["io"]["noise_management"])
    rec.hit(rows.any() and np.any(npy(g) != 0) and np.any(W != 0))


LANES = [Lane("exact", exact_cases(), check_exact, quick=1400, thorough=60000),
         Lane("managed", managed_cases(), check_managed, quick=1200, thorough=60000),
         Lane("mask", mask_cases(), check_mask, quick=500, thorough=20000),
         Lane("ste", ste_cases(), check_ste, quick=400, thorough=10000)]
