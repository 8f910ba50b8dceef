"""P06: physical limits of resistive devices hold over any noisy history."""
import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from vlib import cfg, gen, gencomp, gendev
from vlib.core import Lane, Skip
from vlib.util import close, npy, require, same

PROPERTY = "P06"
RULE = ("cases: a tile of any resistive device or unit cell (all models, device-to-device and cycle-to-cycle variation, write noise, corrupt "
        "devices, decay, diffusion, all pulse types) and a history of mini-batch updates, post-update steps, weight writes, decay, drift, reset and "
        "clipping; after every step all hidden weights are finite and inside the bounds of their own device, hidden parameters are unchanged, the "
        "visible weights are the documented combination of the hidden ones, updates with zero learning rate or zero input change nothing where "
        "they must not, devices move only in the direction of the pulses and by multiples of their step. Non-trivial: an update changed the weights.")
CONSTANT = ("max_bound", "min_bound", "dwmin", "decay_scales", "diffusion_rates", "reset_bias", "drift_nu", "slope_", "gamma_", "reference")
REF = ("SoftBoundsReferenceDevice", "PowStepReferenceDevice")
PULSE = ["StochasticCompressed", "StochasticCompressed", "Stochastic", "MeanCount", "DeterministicImplicit", "NoneWithDevice"]
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("update"), "x": gen.data(None, (1.0, 0.3, 5.0)), "d": gen.data(None, (1.0, 0.2, 5.0)), "b": st.integers(1, 3),
                           "lr": st.sampled_from([0.1, 0.0, 0.01, 0.1, 1.0, 10.0]), "mask": st.sampled_from(["none", "none", "cols", "rows", "all"])}),
    st.fixed_dictionaries({"op": st.just("update"), "x": gen.data(["pos", "const"], (1.0, 0.3)), "d": gen.data(["pos", "const", "negconst"], (1.0, 0.2)),
                           "b": st.integers(1, 3), "lr": st.sampled_from([0.5, 0.05]), "mask": st.sampled_from(["none", "cols", "rows"])}),
    st.fixed_dictionaries({"op": st.just("post")}),
    st.fixed_dictionaries({"op": st.just("set"), "w": gen.data(None, (0.3, 1.0, 5.0))}),
    st.fixed_dictionaries({"op": st.just("decay"), "alpha": st.sampled_from([1.0, 0.5])}),
    st.fixed_dictionaries({"op": st.just("diffuse")}),
    st.fixed_dictionaries({"op": st.just("clip"), "v": st.sampled_from([0.2, 1.0])}),
    st.fixed_dictionaries({"op": st.just("reset"), "p": st.sampled_from([1.0, 0.5])}),
)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["single", "single", "single", "compound", "compound", "mixed"]))
    kw = dict(lifecycle=True)
    if kind == "single":
        dev = draw(gendev.single(std=(0.0, 0.3, 0.0), write=(0.0, 0.0, 1.0), lifecycle=True))
        if draw(st.integers(0, 3)) == 0 and not dev.get("write_noise_std"):
            dev["drift"] = {"nu": 0.1, "nu_dtod": 0.2, "t_0": 1.0}
    elif kind == "compound":
        dev = draw(gencomp.compound(False))
    else:
        dev = draw(gencomp.mixedprec(False, corrupt=False))
    up = {"pulse_type": draw(st.sampled_from(PULSE)), "desired_bl": draw(st.sampled_from([1, 5, 31])), "fixed_bl": draw(st.booleans()),
          "update_bl_management": draw(st.booleans()), "update_management": draw(st.booleans()), "sto_round": draw(st.booleans())}
    return {"kind": kind, "dev": dev, "up": up, "n": [draw(st.integers(1, 4)), draw(st.integers(1, 5))], "seed": draw(gen.seeds),
            "w": draw(gen.data(None, (0.3, 1.0))), "ops": draw(st.lists(OPS, min_size=2, max_size=8))}


def tile_of(c):
    dev = dict(c["dev"])
    dev["construction_seed"] = 1 + c["seed"] % 10000
    kind = {"single": "single", "compound": "unit", "mixed": "digrank"}[c["kind"]]
    rpu = cfg.config({"kind": kind, "device": dev, "mapping": {"weight_scaling_omega": 0.0, "digital_bias": False, "learn_out_scaling": False}, "update": c["up"]})
    t = rpu.tile_class(c["n"][0], c["n"][1], rpu, bias=False)
    return t, rpu


def state(t):
    hp = {k: npy(v) for k, v in t.get_hidden_parameters().items()}
    return npy(t.get_weights(apply_weight_scaling=False)[0]), hp


def devices(c):
    """[(device spec, suffix of its hidden parameters)]"""
    d = c["dev"]
    if c["kind"] == "mixed":
        d = d["device"]
        if "unit_cell_devices" not in d:
            return [(d, "")]
    if "unit_cell_devices" not in d:
        return [(d, "")]
    l = d["unit_cell_devices"]
    if d["cls"] == "OneSidedUnitCell":
        l = [l[0], l[0]]
    if d["cls"].endswith("TransferCompound"):           # the second device is used for all slow ones
        l = [l[0]] + [l[1]] * (len(l) - 1)
    return [(x, f"_{i}") for i, x in enumerate(l)]


def gammas(dev):
    n = len(dev["unit_cell_devices"])
    if dev["cls"] == "VectorUnitCell":
        return dev.get("gamma_vec") or [1.0 / n] * n
    if dev["cls"] == "ReferenceUnitCell":
        return [1.0, -1.0]
    if dev["cls"] == "OneSidedUnitCell":
        return [-1.0, 1.0]
    g = dev.get("gamma", 0.0)
    return [g ** (n - 1 - k) if n - 1 - k else 1.0 for k in range(n)]


def invariants(c, rec, prev, op, w, hp, hp0, where):
    require(np.isfinite(w).all(), f"{where}: weights are not finite: {w.ravel()[:6]}")
    for k, v in hp.items():
        require(np.isfinite(v).all(), f"{where}: hidden parameter {k} is not finite")
        if k.startswith(CONSTANT):
            same(v, hp0[k], f"{where}: hidden parameter {k}")
    comp = c["dev"]["device"] if c["kind"] == "mixed" else c["dev"]
    for spec, suf in devices(c):
        mx, mn = hp["max_bound" + suf], hp["min_bound" + suf]
        ref = hp.get("reference" + suf, 0.0) if spec["cls"] in REF else 0.0
        if "persistent_weights" + suf in hp and spec.get("write_noise_std", 0.0) > 0:
            v = hp["persistent_weights" + suf]
        else:
            v = w if suf == "" else hp["hidden_weights" + suf]
        lo, hi = np.minimum(mn, np.maximum(mn, mx)), np.maximum(mn, mx)
        if spec.get("write_noise_std", 0.0) > 0 and spec.get("apply_write_noise_on_set") is False and "persistent_weights" + suf not in hp:
            continue
        eps = 2e-6 * (1 + np.abs(ref))
        bad = (v + ref > hi + eps) | (v + ref < lo - eps)
        if spec["cls"] in REF and bad.any():
            # F82: writing, decay and diffusion clip the weight without its reference
            resets = comp["cls"] == "OneSidedUnitCell" or comp.get("with_reset_prob")
            weak = (v > hi + eps) | (v < lo - eps)
            touched = np.abs(v - prev["v" + suf]) > 0 if op == "update" and c["up"]["pulse_type"] != "NoneWithDevice" and not resets else np.zeros(v.shape, bool)
            if (bad & ~weak & ~touched).any():
                rec.known.append(("F82", f"{spec['cls']}: a written weight plus its reference is outside the bounds of the device"))
            bad &= weak | touched
        prev["v" + suf] = v
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            require(False, f"{where}: weight{suf} {v[i]:.7g} of {spec['cls']} is outside its bounds [{(lo - ref)[i]:.7g}, {(hi - ref)[i]:.7g}]")
    if "unit_cell_devices" in comp:
        hs = [hp["hidden_weights" + suf] for _, suf in devices(c)]
        g = gammas(comp)
        if comp["cls"].endswith("TransferCompound") and not comp.get("gamma"):
            close(w, hs[-1], f"{where}: visible weights of a fully hidden cell", rtol=0, atol=0)
        elif comp["cls"] in ("ChoppedTransferCompound", "DynamicTransferCompound"):
            rest = w - hs[-1]
            close(np.abs(rest), np.abs(g[0] * hs[0]), f"{where}: visible weights of a chopped cell", rtol=1e-5, atol=1e-5)
        else:
            close(w, sum(a * b for a, b in zip(g, hs)), f"{where}: visible weights of the unit cell", rtol=1e-5, atol=2e-6)


def quiet_weights(c, hp, w):
    """All weights that an update without pulses must not touch (write noise is drawn for visible ones)."""
    out = {}
    for spec, suf in devices(c):
        if spec.get("write_noise_std", 0.0) > 0:
            out["p" + suf] = hp["persistent_weights" + suf]
        else:
            out["w" + suf] = w if suf == "" else hp["hidden_weights" + suf]
    return out


def monotone(spec):
    if spec.get("dw_min_std", 0.0) > 0 or spec.get("reverse_up") or spec.get("reverse_down") or not spec.get("enforce_consistency", True):
        return False
    if spec["cls"] == "LinearStepDevice" or spec["cls"] in REF:
        return False
    return not (spec.get("write_noise_std", 0.0) > 0)


def check(c, rec):
    t, rpu = tile_of(c)
    t.set_weights(cfg.ten(c["w"], c["n"]), apply_weight_scaling=False)
    w, hp0 = state(t)
    hp = hp0
    devs = devices(c)
    comp = c["dev"]["device"] if c["kind"] == "mixed" else c["dev"]
    simple = c["kind"] == "single" or (c["kind"] == "compound" and comp["cls"] in ("VectorUnitCell", "ReferenceUnitCell"))
    corrupt = [(hp0["max_bound" + s] <= hp0["min_bound" + s]) for _, s in devs]
    prev = {}
    invariants(c, rec, prev, "set", w, hp, hp0, "initial weights")
    moved = False
    noreset = any(d.get("write_noise_std", 0.0) > 0 for d, _ in devs) or c["kind"] == "mixed"
    for i, op in enumerate(c["ops"]):
        where = f"op {i} {op['op']}"
        before, hb = w, hp
        if op["op"] == "update":
            x = cfg.ten(op["x"], (op["b"], c["n"][1])).clone()
            d = cfg.ten(op["d"], (op["b"], c["n"][0])).clone()
            if op["mask"] in ("cols", "all"):
                x[:, ::2] = 0
            if op["mask"] in ("rows", "all"):
                d[:, ::2] = 0
            if op["mask"] == "all":
                x[:] = 0
            t.set_learning_rate(op["lr"])
            xc, dc = x.clone(), d.clone()
            t.update(x, d)
            same(x, xc, f"{where}: input after the update")
            same(d, dc, f"{where}: gradient after the update")
            w, hp = state(t)
            rec.label(c["dev"]["cls"], c["up"]["pulse_type"])
            moved |= not np.array_equal(w, before) or any(not np.array_equal(hp[k], hb[k]) for k in hp)
            invariants(c, rec, prev, op["op"], w, hp, hp0, where)
            if simple:
                q0, q1 = quiet_weights(c, hb, before), quiet_weights(c, hp, w)
                xs, ds = npy(x), npy(d)
                up = -np.einsum("bo,bi->boi", ds, xs)                       # direction of each sample
                idle = (up == 0).all(0)
                for k in q0:
                    if op["lr"] == 0.0:
                        same(q1[k], q0[k], f"{where}: learning rate zero, weights {k}")
                    elif c["up"]["pulse_type"] != "NoneWithDevice":
                        same(q1[k][idle], q0[k][idle], f"{where}: crosspoints without pulses, weights {k}")
                for (spec, suf), cor in zip(devs, corrupt):
                    key = ("p" if spec.get("write_noise_std", 0.0) > 0 else "w") + suf
                    if c["up"]["pulse_type"] != "NoneWithDevice" and spec["cls"] not in REF:
                        same(q1[key][cor], q0[key][cor], f"{where}: devices without range moved ({spec['cls']})")
                    if monotone(spec) and c["up"]["pulse_type"] != "NoneWithDevice":
                        pos, neg = (up >= 0).all(0), (up <= 0).all(0)
                        dw = q1[key] - q0[key]
                        inr = (hp0["max_bound" + suf] >= hp0["min_bound" + suf])
                        s = 1.0
                        if comp["cls"] == "ReferenceUnitCell" or (comp.get("gamma_vec") and comp["gamma_vec"][int(suf[1:] or 0)] < 0):
                            s = None                                       # sign convention of the cell decides
                        if s:
                            require(not (dw[pos & inr] < -1e-6).any(), f"{where}: {spec['cls']} moved down with up pulses")
                            require(not (dw[neg & inr] > 1e-6).any(), f"{where}: {spec['cls']} moved up with down pulses")
                    if (spec["cls"] == "ConstantStepDevice" and spec.get("dw_min_std", 0.0) == 0 and c["up"]["pulse_type"] != "NoneWithDevice"
                            and c["kind"] == "single"):
                        one = ((up >= 0).all(0) | (up <= 0).all(0)) & ~cor
                        dw = q1[key] - q0[key]
                        free = one & (q1[key] < hp0["max_bound"] - 1e-5) & (q1[key] > hp0["min_bound"] + 1e-5)
                        step = np.where((up.sum(0) > 0), hp0["dwmin_up"], hp0["dwmin_down"])
                        free &= np.abs(step) > 1e-5
                        n = np.where(free, dw / np.where(free, step, 1), 0)
                        require((np.abs(n - np.rint(n)) <= 1e-3 + 3e-7 / np.abs(np.where(free, step, 1)) * (1 + np.abs(n)))[free].all(),
                                f"{where}: change is no multiple of the device step: {n[free][:6]}")
                        m = op["b"] * max(c["up"]["desired_bl"], 1)
                        if c["up"]["fixed_bl"] or c["up"]["update_bl_management"]:
                            require((np.abs(n[free]) <= m + 0.01).all(), f"{where}: {np.abs(n).max()} pulses from {m} slots")
            continue
        if op["op"] == "post":
            t.post_update_step()
        elif op["op"] == "set":
            t.set_weights(cfg.ten(op["w"], c["n"]), apply_weight_scaling=False)
        elif op["op"] == "decay":
            t.tile.decay_weights(op["alpha"])
        elif op["op"] == "diffuse":
            t.tile.diffuse_weights()
        elif op["op"] == "clip":
            t.tile.clip_weights(parameters_to_bindings(cfg.config({"kind": "inference", "clip": {"type": "FixedValue", "fixed_value": op["v"]}}).clip,
                                                       t.get_data_type()))
        elif op["op"] == "reset":
            if noreset:
                continue
            t.reset(op["p"])
        w, hp = state(t)
        invariants(c, rec, prev, op["op"], w, hp, hp0, where)
    rec.hit(moved)


F82 = {"kind": "single", "dev": {"cls": "SoftBoundsReferenceDevice", "dw_min_std": 0.0, "w_max_dtod": 0.0, "w_min_dtod": 0.0, "reference_mean": 0.1},
       "up": {"pulse_type": "StochasticCompressed", "desired_bl": 5}, "n": [1, 2], "seed": 1, "w": {"k": "const", "s": 0, "m": 0.6}, "ops": [{"op": "post"}]}
LANES = [Lane("history", cases(), check, quick=3500, thorough=100000, explicit=[F82])]
