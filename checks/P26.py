"""P26: the time-dependent IR drop tile computes the currents of the resistive crossbar."""
import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogConv2d, AnalogLinear
from aihwkit.simulator.tiles import analog_mvm_irdrop_t as IRMOD

from checks import P15
from vlib import cfg, gen
from vlib.core import Lane, Violation
from vlib.util import close, npy, require, same

PROPERTY = "P26"
RULE = ("cases: lane nodal: an evaluated layer on a time-dependent IR drop tile (tile and physical sizes, wire resistance, read voltage, conductance "
        "converter, one-pass / split / bit-wise inputs, sum or trapezoid integration, ADC, time resolution, batch dimensions, with or without the C++ "
        "extension) against a nodal analysis of every column of the crossbar at every time slice. Lane structure: the same layers: training or no wire "
        "resistance is the ordinary noise-free product, split and bit-wise inputs recombine, small resistances converge to it, every sample of a batch is "
        "computed alone, convolutions equal the linear layer on unfolded patches. Non-trivial: the IR drop changes the result by more than 1% / at least two inputs.")


@st.composite
def convs(draw):
    c = {"name": draw(st.sampled_from(["single", "single", "npair", "dual", "custom"]))}
    lo = draw(st.sampled_from([0.0, 0.0, 1.0, 4.5]))
    if draw(st.booleans()) or c["name"] == "custom":
        c["g_max"], c["g_min"] = lo + draw(st.sampled_from([10.0, 25.0, 80.0])), lo
    if c["name"] in ("npair", "dual", "custom"):
        c["f"] = [draw(st.sampled_from([1.0, 2.0, 0.5, 4.0])) for _ in range(2 if c["name"] == "dual" else draw(st.integers(1, 3)))]
    if c["name"] == "custom":
        c["bins"], c["ts"] = draw(st.sampled_from([1, 2])), draw(gen.seeds)
    return c


@st.composite
def cases(draw):
    mv = draw(st.sampled_from(["OnePass", "OnePass", "SplitMode", "BitWise"]))
    n_in = draw(st.integers(1, 24))
    pad = draw(st.sampled_from([0, 0, 1, 2, 3, 8]))
    phys = n_in + pad
    ext = draw(st.sampled_from([True, True, False]))
    return {"n": [n_in, draw(st.integers(1, 6))], "phys": phys, "explicit_phys": pad > 0 or draw(st.booleans()), "ext": ext,
            "mv": mv, "bits": draw(st.integers(3, 7)), "shift": draw(st.integers(1, 3)), "sum": draw(st.booleans()),
            "adc": draw(st.sampled_from([None, None, 1.0, 10.0, 0.1])), "scale": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5])) if mv != "BitWise" else 1.0,
            "ir": draw(st.sampled_from([1.0, 1.0, 10.0, 100.0, 0.1])), "rs": draw(st.sampled_from([0.15, 0.15, 1.0, 5.0])),
            "v": draw(st.sampled_from([0.4005, 0.4, 0.39])), "conv": draw(convs()), "w": draw(gen.data(mags=(1.0, 0.2, 3.0))), "xs": draw(gen.seeds),
            "xk": draw(st.sampled_from(["grid", "grid", "full", "sparse", "pos"])), "batch": draw(st.sampled_from([[1], [3], [2, 2], [1, 1, 2]])),
            "bias": draw(st.booleans()), "nm": draw(st.sampled_from(["None", "None", "Constant", "AbsMax"])), "bound": draw(st.sampled_from([0.0, 0.0, 0.5]))}


def steps_of(c):
    """(1/inp_res, number of input levels above zero)."""
    if c["mv"] == "OnePass":
        return 2 ** c["bits"], 2 ** (c["bits"] - 1)
    return 2 ** c["bits"] - 2, 2 ** (c["bits"] - 1) - 1


def build(c, **over):
    inv, _ = steps_of(c)
    f = {"inp_noise": 0.0, "out_noise": 0.0, "inp_res": 1.0 / inv, "out_res": -1.0, "out_bound": c["bound"], "noise_management": c["nm"],
         "bound_management": "None", "mv_type": c["mv"], "split_mode_bit_shift": c["shift"], "ir_drop": c["ir"], "ir_drop_rs": c["rs"],
         "ir_drop_v_read": c["v"], "ir_drop_segments": c["phys"] if not c["ext"] else 1, "ir_drop_integration_sum": c["sum"],
         "adc_quantization": c["adc"] is not None, "ir_drop_time_step_resolution_scale": c["scale"]}
    if c["adc"] is not None:
        f["adc_frequency"] = c["adc"]
    if c["nm"] == "Constant":
        f["nm_thres"] = 2.0
    f.update(over.pop("forward", {}))
    rpu = cfg.config({"kind": over.pop("kind", "irdrop"), "forward": f,
                      "mapping": {"max_input_size": c["phys"] if c["explicit_phys"] else 0, "max_output_size": 0, "weight_scaling_omega": 0.0,
                                  "weight_scaling_columnwise": False, "learn_out_scaling": False}})
    rpu.noise_model.g_converter = P15.converter(c["conv"])
    m = AnalogLinear(c["n"][0], c["n"][1], bias=c["bias"], rpu_config=rpu)
    w = cfg.arr(c["w"], (c["n"][1], c["n"][0]))
    b = cfg.arr({"k": "normal", "s": c["xs"] + 1}, (c["n"][1],))
    m.set_weights(torch.from_numpy(w), torch.from_numpy(b) if c["bias"] else None)
    return m.eval(), w, (b if c["bias"] else np.zeros(c["n"][1]))


def inputs(c):
    """Inputs on the grid of the PWM (in units of the scale of the noise management)."""
    _, levels = steps_of(c)
    r = np.random.RandomState(c["xs"])
    shape = tuple(c["batch"]) + (c["n"][0],)
    k = r.randint(-levels, levels + 1, shape)
    if c["xk"] == "full":
        k = levels * r.randint(-1, 2, shape)
    elif c["xk"] == "sparse":
        k = k * (r.rand(*shape) < 0.3)
    elif c["xk"] == "pos":
        k = np.abs(k)
    s = 2.0 if c["nm"] == "Constant" else 1.0
    if c["nm"] == "AbsMax":
        k[..., 0] = levels
        s = 4.0
    return k, s, (k / levels * s).astype(np.float32)


def column_currents(gp, gm, x, times, rw, v_read):
    """Current into the ADC [uA] of every column and time; nodal analysis. gp, gm: [N, M] (uS), x: [B, N] -> [B, M, T]; last row is next to the ADC."""
    N, M = gp.shape
    B, T = x.shape[0], len(times)
    pos = x[:, :, None] > times
    neg = x[:, :, None] < -times
    zero = ~(pos | neg)
    g_t = (gp + gm).T                                               # [M, N]
    inj = (gp.T[None, :, :, None] * np.where(pos, 0.6, np.where(neg, 0.2, 0.4))[:, None]
           + gm.T[None, :, :, None] * np.where(pos, 0.2, np.where(neg, 0.6, 0.4))[:, None])      # [B, M, N, T]
    del zero
    out = np.zeros((B, M, T))
    gw = 1.0 / rw
    for m in range(M):
        A = np.diag(g_t[m].copy())
        for i in range(N - 1):
            A[i, i] += gw
            A[i + 1, i + 1] += gw
            A[i, i + 1] -= gw
            A[i + 1, i] -= gw
        A[N - 1, N - 1] += 2 * gw
        rhs = inj[:, m].transpose(1, 0, 2).reshape(N, B * T).copy()
        rhs[N - 1] += 2 * gw * v_read
        v = np.linalg.solve(A, rhs)[N - 1].reshape(B, T)
        out[:, m] = (v - v_read) * 2 * gw
    return out


def phase(c, gs, params, k, levels, t_max_k, steps, rw):
    """Result of one phase with integer inputs k [B, N] in units of weight times input, and one ADC tick in the same units."""
    times = np.arange(steps) * t_max_k / (steps - 1) + 1e-6     # a level lasts its number of slices
    fs = params.get("f_lst", [1.0])
    y, tick, mag = 0.0, 0.0, 0.0
    for f, gp, gm in zip(fs, gs[::2], gs[1::2]):
        M = gp.shape[1]
        q = np.zeros((k.shape[0], M))
        for cols, fl in ((slice(0, None, 2), False), (slice(1, None, 2), True)):
            if gp[:, cols].shape[1] == 0:
                continue
            kk = k[:, ::-1] if fl else k
            i = column_currents(gp[::-1, cols] if fl else gp[:, cols], gm[::-1, cols] if fl else gm[:, cols], kk, times, rw, c["v"])
            if c["sum"]:
                z = i.sum(-1)
            else:
                z = np.trapezoid(np.concatenate([i[..., :1], i], -1), axis=-1)
            q[:, cols] = z * t_max_k / (steps - 1)
            mag = max(mag, (np.abs(i).sum(-1).max() + 0.02 * steps * (gp + gm).sum(0).max()) * abs(f))
        if c["adc"] is not None:
            q = np.trunc(q / 100 * c["adc"]) * 100 / c["adc"]
            tick += abs(f) * 100 / c["adc"]
        y = y + f * q
    norm = 1.0 / (float(params["scale_ratio"]) * 0.2 * levels)
    return y * norm, tick * norm, mag * norm


def model(c, w, k):
    _, levels = steps_of(c)
    n_in, n_out = c["n"]
    pad = c["phys"] - n_in if c["explicit_phys"] else 0
    p1 = pad // 2
    wp = np.zeros((n_in + pad, n_out), np.float32)
    wp[p1:p1 + n_in] = w.T
    gs, params = P15.converter(c["conv"]).convert_to_conductances(torch.from_numpy(wp))
    gs = [npy(g) for g in gs]
    params = {a: (float(b) if a == "scale_ratio" else b) for a, b in params.items()}
    kp = np.zeros((int(np.prod(c["batch"])), n_in + pad))
    kp[:, p1:p1 + n_in] = k.reshape(-1, n_in)
    rw = 1e-6 * c["ir"] * c["rs"]
    sg = np.sign(kp)
    tot, tick, mag = 0.0, 0.0, 0.0
    if c["mv"] == "OnePass":
        parts = [(1, kp, levels, int((levels + 1) * c["scale"]))]
    elif c["mv"] == "SplitMode":
        s = 2 ** c["shift"]
        hi = 2 ** (c["bits"] - c["shift"] - 1)
        parts = [(1, sg * (np.abs(kp) % s), s - 1, int(s * c["scale"])), (s, sg * (np.abs(kp) // s), hi - 1, int(hi * c["scale"]))]
    else:
        parts = [(2 ** b, sg * ((np.abs(kp).astype(int) >> b) & 1), 1, 2) for b in range(c["bits"] - 1)]
    for f, kk, tm, steps in parts:
        y, t, g = phase(c, gs, params, kk, levels, tm, steps, rw)
        if c["bound"] > 0:
            y = np.clip(y, -c["bound"], c["bound"])
        tot, tick, mag = tot + f * y, tick + f * t, mag + f * g
    return tot, tick, mag


class Ext:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old = IRMOD.extension_ops
        if not self.on:
            IRMOD.extension_ops = None

    def __exit__(self, *a):
        IRMOD.extension_ops = self.old


def fix(c):
    """A split leaves at least one bit above; a coarser time resolution leaves at least two slices in each phase."""
    if c["mv"] == "SplitMode":
        if c["scale"] < 1:
            c["bits"], c["shift"] = max(c["bits"], 5), 2
        elif c["shift"] >= c["bits"] - 1:
            c["shift"] = 1


def check(c, rec):
    fix(c)
    k, s, x = inputs(c)
    if c["nm"] == "AbsMax":
        pass
    m, w, b = build(c)
    with Ext(c["ext"]), torch.no_grad():
        y = npy(m(torch.from_numpy(x))).reshape(-1, c["n"][1])
    tot, tick, mag = model(c, w, k)
    want = tot * s + b
    got = y
    # float32 currents of conductances; one ADC tick where the charge is next to a tick
    tol = 2e-5 * mag * s + 1e-5 * np.abs(want).max() + 1e-6
    tick_tol = tick * s * 1.001
    d = np.abs(got - want)
    if c["adc"] is None:
        bad = d > tol
    else:
        ticks = d > tol
        # an ADC tick is only accepted where the undigitised charge is at a boundary: few outputs
        bad = d > tol + tick_tol
        if ticks.mean() > 0.34 and ticks.sum() > 2 and tick_tol > 4 * tol:
            bad = ticks
    if bad.any():
        i = np.unravel_index(int(np.argmax(np.where(bad, d, 0))), d.shape)
        raise Violation(f"currents of the crossbar: output {i} is {got[i]:.7g} instead of {want[i]:.7g} (tol {tol:.3g}, tick {tick_tol:.3g}, "
                        f"without IR drop {(k.reshape(-1, c['n'][0]) / steps_of(c)[1] * s @ w.T.astype(float) + b)[i]:.6g})")
    plain = k.reshape(-1, c["n"][0]) / steps_of(c)[1] * s @ w.T.astype(float) + b
    rec.label(c["mv"], c["conv"]["name"])
    rec.hit(bool((np.abs(plain - want) > 0.01 * np.abs(plain).max() + 1e-6).any()))


# ---- structure

@st.composite
def struct_cases(draw):
    c = draw(cases())
    c["what"] = draw(st.sampled_from(["train", "off", "limit", "alone", "conv", "noise", "torch"]))
    return c


def check_structure(c, rec):
    fix(c)
    what = c["what"]
    c["bound"] = 0.0
    k, s, x = inputs(c)
    xt = torch.from_numpy(x)
    plain = (k / steps_of(c)[1] * s) @ npy(cfg.arr(c["w"], (c["n"][1], c["n"][0]))).T
    rec.label(what, c["mv"])
    rec.hit(c["n"][0] > 1)
    with Ext(c["ext"]):
        if what in ("train", "off"):
            m, w, b = build(c, forward={"ir_drop": 0.0} if what == "off" else {})
            if what == "train":
                m.train()
            y = m(xt)
            close(y, plain + b, f"{what}: no IR drop", rtol=2e-4, atol=2e-5)
            if what == "train":
                for p in m.parameters():
                    p.grad = None
                y.sum().backward()
        elif what == "limit":
            c.update(scale=1.0, sum=True, adc=None, v=0.4)
            m, w, b = build(c, forward={"ir_drop": 1e-5, "ir_drop_v_read": 0.4})
            with torch.no_grad():
                y = npy(m(xt))
            if c["conv"]["name"] == "custom":                # common modes only cancel up to its table
                return
            d = np.abs(y - plain - b)
            require((d <= 2e-3 * (np.abs(plain).max() + np.abs(w).max() * s) + 1e-6).all(),
                    f"vanishing wire resistance: off by {d.max():.5g} (scale {np.abs(plain).max():.4g})")
        elif what == "alone":
            m, w, b = build(c)
            with torch.no_grad():
                full = npy(m(xt)).reshape(-1, c["n"][1])
                flat = xt.reshape(-1, c["n"][0])
                for i in range(flat.shape[0]):
                    close(m(flat[i:i + 1])[0], full[i], f"sample {i} alone", rtol=1e-5, atol=1e-6)
                close(m(flat), full, "flattened batch", rtol=1e-5, atol=1e-6)
                nc = torch.from_numpy(np.asfortranarray(npy(flat).astype(np.float32)).T.copy()).T
                close(m(nc), full, "not contiguous batch", rtol=1e-5, atol=1e-6)
        elif what == "torch":
            c["mv"] = "OnePass"
            k, s, x = inputs(c)
            m, w, b = build(c, forward={"ir_drop": 0.0})
            f = m.analog_tiles().__next__().rpu_config.forward
            spec = {"inp_noise": 0.0, "out_noise": 0.0, "inp_res": f.inp_res, "out_res": -1.0, "out_bound": 0.0, "noise_management": c["nm"],
                    "bound_management": "None", "nm_thres": f.nm_thres}
            rpu = cfg.config({"kind": "torch", "forward": spec, "mapping": {"weight_scaling_omega": 0.0, "learn_out_scaling": False, "weight_scaling_columnwise": False,
                                                                           "max_input_size": 0, "max_output_size": 0}})
            o = AnalogLinear(c["n"][0], c["n"][1], bias=c["bias"], rpu_config=rpu)
            o.set_weights(torch.from_numpy(w), torch.from_numpy(b) if c["bias"] else None)
            o.eval()
            x2 = torch.from_numpy(cfg.arr({"k": "uniform", "s": c["xs"]}, x.shape))
            a1, a2 = x2.clone().requires_grad_(), x2.clone().requires_grad_()
            y1, y2 = m(a1), o(a2)
            close(y1, y2, "no wire resistance: ordinary torch tile", rtol=1e-5, atol=1e-6)
            y1.pow(2).sum().backward()
            y2.pow(2).sum().backward()
            close(a1.grad, a2.grad, "input gradient", rtol=1e-4, atol=1e-5)
        elif what == "noise":
            c["conv"] = dict(c["conv"], name="single")
            outs = []
            for z in (0.0, 1.0, 3.0):
                m, w, b = build(c, forward={"ir_drop": 0.0, "apply_xdep_pcm_read_noise": True, "xdep_pcm_read_noise_scale": z})
                torch.manual_seed(c["xs"])
                with torch.no_grad():
                    outs.append(npy(m(xt)) - b)
            close(outs[0], plain, "read noise of zero scale", rtol=2e-4, atol=2e-5)
            if c["mv"] == "OnePass" and c["nm"] != "AbsMax":
                close(outs[2] - outs[0], 3 * (outs[1] - outs[0]), "read noise is not proportional to its scale", rtol=1e-3, atol=1e-4)
                if (npy(cfg.arr(c["w"], (c["n"][1], c["n"][0]))) != 0).any(1).all() and (x != 0).all():
                    require((np.abs(outs[1] - outs[0]) > 0).all(), "read noise missing")
            if c["mv"] == "OnePass" and c["nm"] != "AbsMax":          # the noise depends on the mean magnitude of the inputs only
                m, w, b = build(c, forward={"ir_drop": 0.0, "apply_xdep_pcm_read_noise": True, "xdep_pcm_read_noise_scale": 1.0})
                sg = np.where(cfg.arr({"k": "uniform", "s": c["xs"] + 1}, x.reshape(-1, c["n"][0]).shape) < 0, -1.0, 1.0).astype(np.float32)
                v = float(np.abs(x).max()) or 1.0
                one = v * np.eye(c["n"][0], dtype=np.float32)
                res = []
                for z in (one, one * sg[:1], one[::-1].copy()):
                    torch.manual_seed(c["xs"])
                    with torch.no_grad():
                        res.append(npy(m(torch.from_numpy(z))) - b)
                close(res[1], res[0] * sg[:1].T, "inputs of other signs", rtol=1e-3, atol=1e-4 * v)
                close(res[2], res[0][::-1], "inputs in another order", rtol=1e-3, atol=1e-4 * v)
        else:
            kh = min(2, c["n"][0])
            inv, _ = steps_of(c)
            c["n"] = [kh * 2 * 2, c["n"][1]]
            c["phys"] = c["n"][0] + (c["phys"] % 5 if c["explicit_phys"] else 0)
            lin, w, b = build(c)
            rpu = next(lin.analog_tiles()).rpu_config
            cv = AnalogConv2d(kh, c["n"][1], 2, bias=c["bias"], rpu_config=rpu)
            cv.set_weights(torch.from_numpy(w), torch.from_numpy(b) if c["bias"] else None)
            cv.eval()
            img = torch.from_numpy(cfg.arr({"k": "grid", "s": c["xs"]}, (2, kh, 3, 4)))
            with torch.no_grad():
                y = cv(img)
                patches = torch.nn.functional.unfold(img, 2).transpose(1, 2)
                want = lin(patches.contiguous()).transpose(1, 2).reshape(y.shape)
            close(y, want, "convolution on a tile with IR drop", rtol=1e-5, atol=1e-6)


LANES = [Lane("nodal", cases(), check, quick=700, thorough=25000), Lane("structure", struct_cases(), check_structure, quick=900, thorough=25000)]
