"""P02: the forward pass of an analog tile equals the documented analog MVM model (deterministic settings)."""
import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogLinear
from vlib import cfg, gen
from vlib.core import Lane, Violation
from vlib.iomodel import Io, Pars, ref_rows, ref_torch_batch
from vlib.util import LAYOUTS, close, laid_out, npy, require

PROPERTY = "P02"
RULE = ("cases: a layer (C++ or torch tile) with drawn sizes, weights, bias placement, weight scaling and IO parameters without "
        "stochastic noise (resolutions, bounds, noise / bound management, MV type, asymmetries, IR drop, non-linearity, voltage "
        "offsets, series resistance, input range), and two input batches; outputs compared element by element with a float64 "
        "reference of the documented pipeline; elements decided by a rounding tie are not compared. Non-trivial: an input or "
        "output quantiser, a bound hit, a bound-management round or a non-ideality is active and at least one element was "
        "compared.")


def io_strategy(torch_tile):
    res = st.sampled_from([-1.0, 1 / 126, 1 / 30, 254.0, 0.25, 14.0])
    d = {
        "out_noise": st.just(0.0),
        "inp_res": res, "out_res": res,
        "out_bound": st.sampled_from([12.0, 1.0, 3.0, 0.5, 0.0]),
        "noise_management": st.sampled_from(["AbsMax", "None", "Max", "Constant"] + ([] if torch_tile else ["AbsMaxNPSum", "AverageAbsMax"])),
        "bound_management": st.sampled_from(["Iterative", "None"] + ([] if torch_tile else ["IterativeWorstCase"])),
    }
    o = {
        "inp_bound": st.sampled_from([1.0, 0.5, 2.0, 0.0]),
        "nm_thres": st.sampled_from([0.0, 0.5, 1.5]),
        "out_scale": st.sampled_from([1.0, 0.5, 2.0]),
        "max_bm_factor": st.sampled_from([1000, 1, 3, 8]),
        "max_bm_res": st.sampled_from([0.25, 0.05, 0.5]),
        "inp_asymmetry": st.sampled_from([0.0, 0.1, -0.2]),
        "out_asymmetry": st.sampled_from([0.0, 0.1, 0.3]),
        "is_perfect": st.sampled_from([False, False, False, True]),
    }
    if not torch_tile:
        o.update({
            "mv_type": st.sampled_from(["OnePass", "PosNegSeparate", "PosNegSeparateDigitalSum"]),
            "bm_test_negative_bound": st.booleans(),
            "ir_drop": st.sampled_from([0.0, 1.0, 0.5]),
            "ir_drop_g_ratio": st.sampled_from([1.0 / 0.35 / 5e-6, 50.0, 200.0]),
            "out_nonlinearity": st.sampled_from([0.0, 0.2, 1.0]),
            "out_nonlinearity_std": st.sampled_from([0.0, 0.3]),
            "slope_calibration": st.sampled_from([0.0, 0.5]),
            "v_offset_std": st.sampled_from([0.0, 0.1]),
            "v_offset_w_min": st.sampled_from([-1.0, 0.0, -0.5]),
            "r_series": st.sampled_from([0.0, 0.02]),
            "w_read_asymmetry_dtod": st.sampled_from([0.0, 0.2]),
        })
    return st.fixed_dictionaries(d, optional=o)


def _systematic(f, pars, n_out):
    """The factors drawn at construction follow the documented formulas."""
    ob = f.out_bound if 0 < f.out_bound < float("inf") else 1.0
    if f.out_nonlinearity > 0:
        require(pars.nl.size == n_out, "no output non-linearities drawn")
        if f.out_nonlinearity_std == 0:
            close(pars.nl, np.full(n_out, f.out_nonlinearity / ob), "output non-linearity", 1e-4, 1e-7)
    if f.slope_calibration > 0:
        # y / (1 + n y) has slope one at y = slope_calibration * out_bound
        n = (np.abs(pars.nl).mean() if f.out_nonlinearity > 0 else 0.0) + f.r_series
        close(pars.nlf, (1 + n * f.slope_calibration * ob) ** 2, "factor of the slope calibration", 1e-4, 1e-6)


@st.composite
def cases(draw, torch_tile):
    io = draw(io_strategy(torch_tile))
    if io["noise_management"] != "None":
        io.pop("inp_bound", None)          # documented: noise management expects bound 1
    kind = "torch" if torch_tile else draw(st.sampled_from(["single", "single", "inference", "unit"]))
    c = {"kind": kind, "io": io,
         "n_in": draw(st.one_of(st.integers(1, 6), st.integers(7, 40))), "n_out": draw(st.one_of(st.integers(1, 5), st.integers(6, 20))),
         "w": draw(gen.data(["normal", "uniform", "grid", "sparse", "pos", "const", "outlier"], (0.5, 0.2, 1.0))),
         "bias": draw(st.sampled_from(["none", "digital", "analog"])) if kind != "torch" else draw(st.sampled_from(["none", "digital"])),
         "omega": draw(st.sampled_from([0.0, 0.6, 1.0])), "cw": draw(st.booleans()), "los": draw(st.booleans()),
         "mode": draw(st.sampled_from(["eval", "train"])), "rew": draw(st.booleans()), "setp": draw(st.one_of(st.just(0), st.just(0), st.integers(1, 999))),
         "batches": draw(st.lists(st.tuples(st.integers(1, 5), gen.data(mags=(1.0, 0.2, 3.0))).map(list), min_size=1, max_size=2))}
    if kind in ("inference", "torch") and c["bias"] != "analog":    # analog bias with input range: finding F06, see P03
        c["ir"] = draw(st.sampled_from([None, None, 1.0, 0.7]))
    return c


def check(c, rec):
    spec = {"kind": c["kind"], "forward": c["io"],
            "mapping": {"digital_bias": c["bias"] == "digital", "weight_scaling_omega": c["omega"], "weight_scaling_columnwise": c["cw"],
                        "learn_out_scaling": c["los"], "max_input_size": 0, "max_output_size": 0}}
    if c["kind"] == "single":
        spec["device"] = {"cls": "IdealDevice"}
    elif c["kind"] == "unit":
        spec["device"] = {"cls": "VectorUnitCell", "unit_cell_devices": [
            {"cls": "ConstantStepDevice"}, {"cls": "SoftBoundsDevice"}]}
    if c.get("ir"):
        spec["pre_post"] = {"input_range": {"enable": True, "learn_input_range": True, "init_from_data": 0, "init_value": c["ir"]}}
    rpu = cfg.config(spec)
    n_in, n_out = c["n_in"], c["n_out"]
    layer = AnalogLinear(n_in, n_out, bias=c["bias"] != "none", rpu_config=rpu)
    w = cfg.ten(c["w"], (n_out, n_in))
    b = cfg.ten({"k": "uniform", "s": c["w"]["s"] + 1, "m": 0.5}, (n_out,)) if c["bias"] != "none" else None
    layer.set_weights(w, b)
    tile = next(iter(layer.analog_tiles()))
    if c["los"]:
        alpha = cfg.ten({"k": "pos", "s": c["w"]["s"] + 2}, tuple(tile.out_scaling_alpha.shape))
        tile.set_learned_out_scales(alpha)
    layer.train(c["mode"] == "train")
    W = npy(tile.tile.get_weights())          # normalised weights incl. the analog bias column
    require(W.shape == (n_out, n_in + (c["bias"] == "analog")), f"tile weight shape {W.shape}")
    ms = npy(tile.get_mapping_scales()) if tile.get_mapping_scales() is not None else np.ones(1)
    ls = npy(tile.out_scaling_alpha) if c["los"] else np.ones(1)
    # the logical weights are the scaled tile weights
    wl, _ = layer.get_weights()
    if c["kind"] != "unit":
        d = np.abs(npy(wl) - npy(w) * ls.reshape(-1, 1)).max()
        require(d <= 1e-5 * max(1.0, np.abs(npy(w)).max()), f"logical weights differ from the weights set by {d}")
    io = Io(rpu.forward, torch_tile=c["kind"] == "torch")
    pars = Pars(tile.get_forward_parameters(), W.shape[1], n_out) if c["kind"] != "torch" else Pars({}, 0, 0)
    if c["kind"] != "torch" and not io.perfect and io.w_asym and io.mv != "OnePass":
        require(pars.wa is not None, "no w_asymmetry drawn")
    if c["kind"] != "torch" and not io.perfect:
        _systematic(rpu.forward, pars, n_out)
    if c["kind"] != "torch" and c.get("setp"):
        # other parameters than those drawn: they are used from now on, and nothing else changes
        old = tile.get_forward_parameters()
        back = {k: npy(v).copy() for k, v in tile.get_backward_parameters().items()}
        new = {k: v.float() * (1.0 + 0.3 * cfg.ten({"k": "uniform", "s": c["setp"] + i}, tuple(v.shape))) if v.dim() and v.numel() and k != "out_noise_values"
               else v for i, (k, v) in enumerate(sorted(old.items()))}
        part = {k: v for k, v in new.items() if v.dim() and v.numel()}
        if c["setp"] % 2:
            tile.set_forward_parameters(part)
        else:
            tile.set_forward_parameters(**part)
        got = tile.get_forward_parameters()
        require(set(got) == set(old), f"parameters {sorted(got)} after setting some of {sorted(old)}")
        for k, v in new.items():
            close(got[k], v, f"forward parameter {k} set and read", 1e-6, 1e-9)
        for k, v in tile.get_backward_parameters().items():
            require(np.array_equal(npy(v), back[k]), f"backward parameter {k} changed with the forward parameters")
        require(np.array_equal(npy(tile.tile.get_weights()), W), "setting the forward parameters changed the weights")
        if part:
            rec.label("parameters set")
        pars = Pars(new, W.shape[1], n_out)
    info, state, compared = {}, {"aux": -1.0}, 0
    for i, (nb, xs) in enumerate(c["batches"]):
        if i and c.get("rew"):            # other weights, the same systematic variations
            b = None if b is None else -b
            layer.set_weights(cfg.ten(dict(c["w"], s=c["w"]["s"] + 7), (n_out, n_in)), b)
            if c["los"]:
                tile.set_learned_out_scales(alpha)
            W = npy(tile.tile.get_weights())
            ms = npy(tile.get_mapping_scales()) if tile.get_mapping_scales() is not None else np.ones(1)
            ls = npy(tile.out_scaling_alpha) if c["los"] else np.ones(1)
        x = laid_out(cfg.ten(xs, (nb, n_in)), LAYOUTS[xs["s"] % len(LAYOUTS)])
        y = npy(layer(x))
        xr = npy(x)
        if c.get("ir"):
            r = float(c["ir"])
            if np.any(np.abs(xr) > r):
                info["range_clip"] = info.get("range_clip", 0) + 1
            xr = np.clip(xr, -r, r) / np.float64(np.float32(r))
        if c["bias"] == "analog":
            xr = np.concatenate([xr, np.ones((nb, 1))], axis=1)
        if c["kind"] == "torch":
            ref, ok = ref_torch_batch(W, xr, io, info)
        else:
            ref, ok = ref_rows(W, xr, io, pars, info, state)
        mag = np.abs(ref).max() if ref.size else 0.0
        scale = ms.reshape(1, -1) * ls.reshape(1, -1) * (c["ir"] if c.get("ir") else 1.0)
        ref = ref * scale
        if c["bias"] == "digital":
            ref = ref + npy(b)
        require(y.shape == ref.shape, f"batch {i}: output shape {y.shape} instead of {ref.shape}")
        tol = 1e-5 + 3e-4 * np.maximum(np.abs(ref), 0.05 * mag * np.abs(scale))
        bad = ok & ~(np.abs(y - ref) <= tol)
        compared += int(ok.sum())
        if bad.any():
            k = np.argwhere(bad)[0]
            raise Violation(f"batch {i} element {tuple(k)}: got {y[tuple(k)]:.7g}, documented model gives {ref[tuple(k)]:.7g} "
                            f"({int(bad.sum())} of {bad.size} differ)")
    for k in info:
        rec.label(k)
    rec.label(c["kind"], "nm=" + io.nm, "bm=" + io.bm, io.mv, "bias=" + c["bias"], c["mode"])
    for k in ("ir_drop", "out_nonlinearity", "v_offset_std", "r_series", "slope_calibration", "inp_asymmetry", "out_asymmetry",
              "w_read_asymmetry_dtod", "nm_thres"):
        if c["io"].get(k):
            rec.label(k)
    rec.hit(compared > 0 and not io.perfect and (io.ir > 0 or io.orr > 0 or "bm_rounds" in info or "saturated" in info))
    if compared == 0:
        rec.label("nothing-compared")


LANES = [Lane("cpp", cases(False), check, quick=2400, thorough=120000), Lane("torch", cases(True), check, quick=900, thorough=40000)]
