"""P09: weight lifecycle operations (decay, diffusion, reset, drift, clipping, remapping)."""
import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.simulator.rpu_base import devices as bdev
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from vlib import cfg, gen, gendev
from vlib.core import Lane, Skip
from vlib.stats import mean_std
from vlib.util import close, npy, require, same

PROPERTY = "P09"
RULE = ("ops: a tile (floating point, ideal, every single device with device-to-device variation, unit cell vector device, inference, "
        "torch inference), a drawn sequence of decay, drift, reset, clip, remap, set and post-update calls; after each call the "
        "weights equal a float64 model of that call applied to the weights before it (drift: with the whole drift history). "
        "Non-trivial: at least one call changed the weights. stat: diffusion, reset spread and probability, drift and read "
        "noise of 900 devices have the configured mean and spread.")

CLIPS = st.one_of(
    st.fixed_dictionaries({"type": st.just("FixedValue"), "fixed_value": st.sampled_from([0.5, 0.2, 1.5, -1.0])}),
    st.fixed_dictionaries({"type": st.just("LayerGaussian"), "sigma": st.sampled_from([1.0, 2.5, 0.5]),
                           "fixed_value": st.sampled_from([-1.0, 0.3])}),
    st.fixed_dictionaries({"type": st.just("AverageChannelMax"), "fixed_value": st.sampled_from([-1.0, 0.3])}),
    st.fixed_dictionaries({"type": st.just("None")}))
REMAPS = st.one_of(
    st.fixed_dictionaries({"type": st.just("LayerwiseSymmetric"), "remapped_wmax": st.sampled_from([1.0, 0.6, 2.0])}),
    st.fixed_dictionaries({"type": st.just("ChannelwiseSymmetric"), "remapped_wmax": st.sampled_from([1.0, 0.6])}),
    st.fixed_dictionaries({"type": st.just("ChannelwiseSymmetric"), "max_scale_range": st.sampled_from([2.0, 1.2]),
                           "max_scale_ref": st.sampled_from([0.0, 0.3])}),
    st.fixed_dictionaries({"type": st.just("None")}))
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("decay"), "alpha": st.sampled_from([1.0, 0.5, 2.0, 0.0])}),
    st.fixed_dictionaries({"op": st.just("drift"), "dt": st.sampled_from([1.0, 0.4, 10.0, 1000.0])}),
    st.fixed_dictionaries({"op": st.just("drift"), "dt": st.sampled_from([1.0, 3.0, 100.0])}),
    st.fixed_dictionaries({"op": st.just("reset"), "start": st.integers(0, 5), "n": st.sampled_from([1, 2, 3, -1]),
                           "p": st.sampled_from([1.0, 1.0, 0.0])}),
    st.fixed_dictionaries({"op": st.just("clip"), "par": CLIPS}),
    st.fixed_dictionaries({"op": st.just("remap"), "par": REMAPS, "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("set"), "w": gen.data(None, (0.5, 1.0, 3.0))}),
    st.fixed_dictionaries({"op": st.just("post")}),
    st.fixed_dictionaries({"op": st.just("retune"), "clip": CLIPS, "remap": REMAPS}),
)


@st.composite
def drift_par(draw, full):
    d = {"nu": draw(st.sampled_from([0.0, 0.1, 0.05])), "t_0": draw(st.sampled_from([1.0, 2.0])),
         "reset_tol": draw(st.sampled_from([1e-7, 1e-4]))}
    if full and d["nu"]:
        d["nu_dtod"] = draw(st.sampled_from([0.0, 0.3]))
        off = draw(st.sampled_from([(1.0, 0.0, 0.0), (0.1, 20.0, 0.0), (1.0, 4.0, -0.5), (0.5, 8.0, 0.25), (0.05, 90.0, -1.0)]))
        d["wg_ratio"], d["g_offset"], d["w_offset"] = off
        if d["g_offset"] > 0:                     # (conductances stay positive)
            d["nu_k"] = draw(st.sampled_from([0.0, 0.01, -0.02]))
            d["log_g0"] = draw(st.sampled_from([0.0, 1.5]))
    return d


def torch_remap(par):
    return {"type": "ChannelwiseSymmetric"} if par.get("max_scale_range") or par.get("remapped_wmax", 1.0) != 1.0 else par


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["fp", "ideal", "single", "single", "single", "inference", "torch", "vector"]))
    spec = {"kind": kind, "mapping": {"digital_bias": True, "weight_scaling_omega": draw(st.sampled_from([0.0, 0.6]))}}
    if kind == "fp":
        spec["device"] = {"cls": "FloatingPointDevice"}
    elif kind == "ideal":
        spec.update(kind="single", device={"cls": "IdealDevice"})
    elif kind in ("single", "vector"):
        def dev():
            d = draw(gendev.single(lifecycle=True, write=(0.0, 0.0, 1.0) if kind == "single" else (0.0,)))
            d.update(diffusion=0.0, diffusion_dtod=0.0, reset_std=0.0)
            return d
        d = dev()
        if kind == "vector":
            spec["kind"] = "unit"
            d = {"cls": "VectorUnitCell", "unit_cell_devices": [d] + [dev() for _ in range(draw(st.integers(0, 2)))]}
            if draw(st.booleans()):
                d["gamma_vec"] = [draw(st.sampled_from([1.0, 0.5, -0.5])) for _ in d["unit_cell_devices"]]
        elif d.get("write_noise_std"):
            d["lifetime"] = draw(st.sampled_from([10.0, 2.5]))
        else:
            d["drift"] = draw(drift_par(True))
        spec["device"] = d
    if kind in ("fp", "ideal"):
        spec["device"].update(lifetime=draw(st.sampled_from([0.0, 10.0, 0.5, 1.5])))
        spec["device"].update({"drift": draw(drift_par(False))} if kind == "fp" else {"reset_std": 0.0})
    if kind in ("inference", "torch"):
        spec["clip"], spec["remap"] = draw(CLIPS), draw(REMAPS)
        if kind == "torch":
            if spec["clip"]["type"] == "AverageChannelMax":
                spec["clip"] = {"type": "LayerGaussian", "sigma": 1.5, "fixed_value": -1.0}
            spec["remap"] = torch_remap(spec["remap"])
        if draw(st.booleans()):
            spec["mapping"].update(learn_out_scaling=True, out_scaling_columnwise=draw(st.booleans()))
    return {"ls": draw(gen.seeds), "spec": spec, "on_the_fly": draw(st.booleans()), "kind": kind, "n_out": draw(st.integers(1, 4)), "n_in": draw(st.integers(1, 6)),
            "w": draw(gen.data(None, (0.4, 1.0))), "ops": draw(st.lists(OPS, min_size=1, max_size=7))}


def kind_learned(c):
    return c["spec"]["mapping"].get("learn_out_scaling", False)


def clip_value(par, w):
    """Documented threshold of a weight clip (None: no clipping)."""
    t, f = par["type"], par.get("fixed_value", -1.0)
    if t == "None":
        return None
    if t == "FixedValue":
        return f
    if t == "LayerGaussian":
        if w.size < 2:
            raise Skip("the standard deviation of one weight is undefined")
        c = float(np.std(w, ddof=1)) * par["sigma"]
        if np.std(w) < 1e-5 * np.abs(w).max():
            raise Skip("the standard deviation of constant weights is rounding noise")
    else:
        c = float(np.abs(w).max(1).mean())
    return min(c, f) if f > 0 else c


def remap(par, w, scales):
    """Documented remapping: returns the new scales (weights * scales is unchanged)."""
    t, wmax = par["type"], par.get("remapped_wmax", 1.0)
    if t == "None":
        return scales
    if t == "LayerwiseSymmetric":
        a = np.abs(w).max() / wmax
        return scales * a if a > 0 else scales
    a = np.abs(w).max(1) / wmax
    rng = par.get("max_scale_range", 0.0)
    if rng <= 0:
        return scales * np.where(a > 0, a, 1.0)
    lo = max(scales.min(), 0.0)
    if lo > 0 and par.get("max_scale_ref", 0.0):
        lo = max(lo, par["max_scale_ref"])
    new = np.where(a > 0, a * scales, scales)
    return np.minimum(new, lo * rng) if lo > 0 else new


class Drift:
    """The documented power law with reset of changed weights."""

    def __init__(self, par, nu):
        self.par, self.nu, self.t, self.t0, self.w0, self.prev = par, nu, 0.0, None, None, None

    def __call__(self, w, dt, lo=None, hi=None):
        p = self.par
        f32 = np.float32
        if self.w0 is None:
            self.w0, self.prev, self.t0 = w.copy(), w.copy(), np.zeros_like(w)
        self.t += dt / p.get("t_0", 1.0)
        tol = p.get("reset_tol", 1e-7)
        ch = np.abs(f32(self.prev) - f32(w)) > f32(tol)
        self.t0, self.w0 = np.where(ch, self.t, self.t0), np.where(ch, w, self.w0)
        wg, go, wo = p.get("wg_ratio", 1.0), p.get("g_offset", 0.0), p.get("w_offset", 0.0)
        nu = self.nu
        if p.get("nu_k"):
            if np.any((w - wo) / wg + go < 0.05):
                raise Skip()        # no logarithm of the conductance
            nu = nu - p["nu_k"] * (np.log((w - wo) / wg + go) - p.get("log_g0", 0.0))
        s = np.maximum(self.t - self.t0, 1.0) ** -nu
        g = (self.w0 - wo) / wg + go
        out = np.where(ch, w, (g * s - go) * wg + wo)
        if lo is not None:
            out = np.clip(out, lo, hi)
        return out

    def commit(self, w):
        self.prev = w.copy()


def check(c, rec):
    spec = c["spec"]
    rpu = cfg.config(spec)
    if c["kind"] == "inference":
        rpu.runtime.on_the_fly_bindings = c["on_the_fly"]
    tile = rpu.tile_class(c["n_out"], c["n_in"], rpu, bias=False)
    tile.set_weights(cfg.ten(c["w"], (c["n_out"], c["n_in"])))
    if tile.get_learned_out_scales() is not None and kind_learned(c):
        a = tile.get_learned_out_scales()
        a.data.copy_(torch.from_numpy(np.random.RandomState(c["ls"]).uniform(0.3, 2.0, tuple(a.shape))))
        rec.label("learned-scales")
    core, kind = tile.tile, c["kind"]
    dev = spec.get("device", {})
    noisy = dev.get("write_noise_std", 0.0) > 0
    if kind == "vector":
        return vector(c, rec, tile)
    get = lambda: npy(core.get_weights()).copy()  # noqa
    hid = lambda: {k: npy(v) for k, v in tile.get_hidden_parameters().items()}  # noqa
    h = hid() if kind == "single" else {}
    lo, hi = h.get("min_bound"), h.get("max_bound")
    clipb = (lambda x: np.clip(x, lo, hi)) if lo is not None else (lambda x: x)
    state = (lambda: hid()["persistent_weights"]) if noisy else get
    dp = dev.get("drift", {})
    drift = None
    if kind in ("fp", "ideal", "single"):
        nu = np.full((c["n_out"], c["n_in"]), dp.get("nu", 0.0))
        if kind == "single" and dp.get("nu"):
            nu = h["drift_nu"]
            if not dp.get("nu_dtod"):
                close(nu, np.full_like(nu, dp["nu"]), "drift exponents without device variation")
        drift = Drift(dp, nu) if (kind == "fp" or dp.get("nu", 0.0) > 0) else None
    if kind == "single":
        w = state()
        require((lo <= hi).all() or True, "bounds")
        if not noisy:
            require(((w >= lo - 1e-6) & (w <= hi + 1e-6)).all(), "weights set outside the device bounds")
    scales = cfg.arr({"k": "pos", "s": 5, "m": 2.0}, (c["n_out"],)).astype(np.float64)
    changed = False
    for i, o in enumerate(c["ops"]):
        w = state()
        what = f"call {i} ({o['op']})"
        lr = None
        if o["op"] == "set":
            core.set_weights(cfg.ten(o["w"], w.shape))
            if not noisy:
                close(state(), clipb(cfg.arr(o["w"], w.shape)), what, 1e-6, 1e-7)
        elif o["op"] == "decay":
            if kind in ("inference", "torch"):
                continue
            (tile if i % 2 else core).decay_weights(o["alpha"])      # the methods of the tile and of its core agree
            exp = decay(kind, dev, h, w, o["alpha"])
            close(state(), clipb(exp), what, 1e-5, 1e-6)
        elif o["op"] == "drift":
            if drift is None or noisy:
                continue
            exp = drift(w, o["dt"], lo, hi)
            (tile if i % 2 else core).drift_weights(o["dt"])
            close(state(), exp, what, 2e-5, 2e-6 + 3e-6 * abs(dp.get("g_offset", 0) * dp.get("wg_ratio", 1)))
            drift.commit(state())
            rec.label("drift")
        elif o["op"] == "reset":
            if kind not in ("ideal", "single"):
                continue
            start = o["start"] % c["n_in"]
            n = min(o["n"], c["n_in"])
            (tile if i % 2 else core).reset_columns(start, n, o["p"])
            exp = w.copy()
            cols = [(start + k) % c["n_in"] for k in range(c["n_in"] if n < 0 else n)]
            if o["p"] > 0:
                exp[:, cols] = clipb(h["reset_bias"] if h else np.zeros_like(w))[:, cols]
            close(state(), exp, what, 1e-6, 1e-7)
        elif o["op"] == "clip":
            if kind == "torch":
                continue
            par = dict(o["par"])
            bp = parameters_to_bindings(cfg.config({"kind": "inference", "clip": par}).clip, tile.get_data_type())
            if kind == "single" and par["type"] != "FixedValue":
                try:
                    core.clip_weights(bp)
                except RuntimeError:
                    same(state(), w, what + ": refused, but weights changed")
                    continue
                require(False, what + ": sophisticated clipping accepted for a training device")
            core.clip_weights(bp)
            v = clip_value(par, w)
            if par["type"] == "FixedValue" and kind in ("ideal", "single"):
                exp = np.clip(w, -v, v) if v > 0 else w
                exp = clipb(exp)
            else:
                exp = np.clip(w, -v, v) if v is not None and v > 0 else w
            close(state(), exp, what, 1e-5, 1e-6)
            require((np.abs(state()) <= np.abs(w) + 1e-6).all() or kind == "single", what + ": increased a weight")
        elif o["op"] == "remap":
            if kind not in ("fp", "inference"):
                continue
            par = dict(o["par"])
            s = cfg.arr({"k": "pos", "s": o["s"], "m": 2.0}, (c["n_out"],))
            ts = torch.from_numpy(s.copy())
            out = npy(core.remap_weights(parameters_to_bindings(cfg.config({"kind": "inference", "remap": par}).remap,
                                                                tile.get_data_type()), ts))
            close(out, remap(par, w, s.astype(np.float64)), what + ": scales", 1e-5, 1e-7)
            close(get() * out[:, None], w * s[:, None], what + ": weights times scales", 1e-5, 1e-6)
        elif o["op"] == "retune":
            # parameters that vary during the training take effect with the next step
            if kind not in ("inference", "torch") or (kind == "inference" and not c["on_the_fly"]):
                continue
            for k in ("clip", "remap"):
                if (spec[k]["type"] == "None") != (o[k]["type"] == "None") or (kind == "torch" and o[k]["type"] == "AverageChannelMax"):
                    continue
                par = torch_remap(o[k]) if kind == "torch" and k == "remap" else o[k]
                setattr(tile.rpu_config, k, getattr(cfg.config({"kind": "inference", k: dict(par)}), k))
                spec[k] = dict(par)
            rec.label("retuned")
        elif o["op"] == "post":
            post(c, tile, rec, get if not noisy else state, h, clipb, what)
        now = state()
        require(np.isfinite(now).all(), what + ": weights not finite")
        changed |= not np.array_equal(now, w)
        if noisy:
            require(np.abs(get() - now).max() <= 7 * dev["write_noise_std"] * dev.get("dw_min", 1.0), what + ": write noise too large")
    rec.label(kind, dev.get("cls", kind), *[o["op"] for o in c["ops"]])
    rec.hit(changed)


def decay(kind, dev, h, w, alpha):
    if kind == "single":
        return (w - h["reset_bias"]) * (1 + alpha * (h["decay_scales"] - 1)) + h["reset_bias"]
    life = dev.get("lifetime", 0.0)
    s = 1 - alpha / life if life > 1 else 1.0
    return w * s if 0 < s < 1 else w


def post(c, tile, rec, state, h, clipb, what):
    """post_update_step: diffusion and decay of the device (rpucuda tiles); clip, remap of the inference tiles."""
    kind, spec = c["kind"], c["spec"]
    w = state()
    if kind in ("fp", "ideal", "single"):
        tile.post_update_step()
        if spec["device"].get("lifetime", 0.0) > 0:
            w = clipb(decay(kind, spec["device"], h, w, 1.0))
        close(state(), w, what, 1e-5, 1e-6)
        return
    scales = tile.get_scales()
    s = npy(scales).reshape(-1) if scales is not None else np.ones(1)
    s = np.broadcast_to(s, (c["n_out"],)).astype(np.float64)
    tile.post_update_step()
    v = clip_value(spec["clip"], w)
    exp = np.clip(w, -v, v) if v is not None and v > 0 else w
    par = spec["remap"]
    new = tile.get_scales()
    n = npy(new).reshape(-1) if new is not None else np.ones(1)
    n = np.broadcast_to(n, (c["n_out"],))
    close(state() * n[:, None], exp * s[:, None], what + ": clipped weights times scales", 2e-5, 1e-6)
    if par["type"] != "None":
        if kind == "torch":
            m = np.abs(exp * s[:, None])
            m = np.full(len(m), m.max()) if par["type"] == "LayerwiseSymmetric" else m.max(1)
            close(n, np.where(m > 0, m, s), what + ": remapped scales", 2e-5, 1e-7)
        else:
            close(n, remap(par, exp, s), what + ": remapped scales", 2e-5, 1e-7)
        rec.label("post-remap")


def vector(c, rec, tile):
    """A vector unit cell applies the operations to each hidden device."""
    core = tile.tile
    n = len(c["spec"]["device"]["unit_cell_devices"])
    gam = np.array(c["spec"]["device"].get("gamma_vec") or [1.0 / n] * n)
    hid = lambda: {k: npy(v) for k, v in tile.get_hidden_parameters().items()}  # noqa
    h = hid()
    changed = False
    for i, o in enumerate(c["ops"]):
        what = f"call {i} ({o['op']})"
        before = hid()
        if o["op"] == "decay":
            (tile if i % 2 else core).decay_weights(o["alpha"])
        elif o["op"] == "reset":
            start, m = o["start"] % c["n_in"], min(o["n"], c["n_in"])
            (tile if i % 2 else core).reset_columns(start, m, o["p"])
            cols = [(start + k) % c["n_in"] for k in range(c["n_in"] if m < 0 else m)]
        elif o["op"] == "set":
            core.set_weights(cfg.ten(o["w"], (c["n_out"], c["n_in"])))
        else:
            continue
        after = hid()
        for k in range(n):
            w, lo, hi = before[f"hidden_weights_{k}"], h[f"min_bound_{k}"], h[f"max_bound_{k}"]
            rb = h[f"reset_bias_{k}"]
            if o["op"] == "decay":
                exp = np.clip((w - rb) * (1 + o["alpha"] * (h[f"decay_scales_{k}"] - 1)) + rb, lo, hi)
            elif o["op"] == "reset":
                exp = w.copy()
                if o["p"] > 0:
                    exp[:, cols] = np.clip(rb, lo, hi)[:, cols]
            else:
                exp = np.clip(cfg.arr(o["w"], w.shape), lo, hi)
            close(after[f"hidden_weights_{k}"], exp, f"{what}: hidden device {k}", 1e-5, 1e-6)
            changed |= not np.array_equal(after[f"hidden_weights_{k}"], w)
        close(core.get_weights(), sum(g * after[f"hidden_weights_{k}"] for k, g in enumerate(gam)), what + ": visible weights", 1e-5, 1e-6)
    rec.label("vector", *[o["op"] for o in c["ops"]])
    rec.hit(changed)


@st.composite
def stat_cases(draw):
    what = draw(st.sampled_from(["diffusion", "diffusion", "reset", "reset_prob", "nu_std", "w_noise", "post_diffusion"]))
    kind = draw(st.sampled_from(["ideal", "single", "single"] + (["fp"] if "diffusion" in what else [])))
    if what in ("nu_std", "w_noise"):
        kind = "single"
    if kind == "single":
        d = {"cls": draw(st.sampled_from(["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "ExpStepDevice", "PowStepDevice"])),
             "w_max": 5.0, "w_min": -5.0, "w_max_dtod": 0.0, "w_min_dtod": 0.0}
    else:
        d = {"cls": "FloatingPointDevice" if kind == "fp" else "IdealDevice"}
    return {"what": what, "kind": kind, "device": d, "v": draw(st.sampled_from([0.1, 0.02, 0.3])), "dtod": draw(st.sampled_from([0.0, 0.3])),
            "p": draw(st.sampled_from([0.5, 0.1, 0.9])), "bias": draw(st.sampled_from([0.0, 0.3]))}


def stat(c, rec):
    d, n, v = dict(c["device"]), 30, c["v"]
    what = c["what"]
    if "diffusion" in what:
        d["diffusion"] = v
        if c["kind"] == "single":
            d["diffusion_dtod"] = c["dtod"]
    if "reset" in what:
        d["reset_std"] = v
        if c["kind"] == "single":
            d["reset"], d["reset_dtod"] = c["bias"], c["dtod"] * 0.1
    if what == "nu_std":
        d["drift"] = {"nu": 0.1, "nu_dtod": c["dtod"], "nu_std": v}
    if what == "w_noise":
        d["drift"] = {"nu": 1e-9, "w_noise_std": v}
    rpu = cfg.config({"kind": "fp" if c["kind"] == "fp" else "single", "device": d, "mapping": {"weight_scaling_omega": 0.0}})
    tile = rpu.tile_class(n, n, rpu, bias=False)
    core = tile.tile
    w0 = cfg.ten({"k": "pos", "s": 3, "m": 0.5}, (n, n))
    core.set_weights(w0)
    w = npy(core.get_weights()).copy()
    h = {k: npy(x) for k, x in tile.get_hidden_parameters().items()} if c["kind"] == "single" else {}
    if "diffusion" in what:
        for _ in range(3):
            w = npy(core.get_weights()).copy()
            tile.post_update_step() if what == "post_diffusion" else core.diffuse_weights()
            rate = np.abs(h["diffusion_rates"]) if h else v
            mean_std(npy(core.get_weights()) - w, 0.0, rate, "diffusion")
    elif what == "reset":
        core.reset_columns(0, -1, 1.0)
        mean_std(core.get_weights(), h.get("reset_bias", 0.0), v, "reset spread")
        if c["kind"] == "single":
            mean_std(h["reset_bias"], c["bias"], c["dtod"] * 0.1, "reset bias")
    elif what == "reset_prob":
        core.reset_columns(0, -1, c["p"])
        ch = npy(core.get_weights()) != w
        mean_std(ch, c["p"], np.sqrt(c["p"] * (1 - c["p"])), "fraction of reset devices", fourth=1 / (c["p"] * (1 - c["p"])))
    elif what == "nu_std":
        core.drift_weights(50.0)
        nu = -np.log(npy(core.get_weights()) / w) / np.log(50.0)
        mean_std(nu, h["drift_nu"], np.abs(h["drift_nu"]) * v, "drift exponent", rel=0.01)
    else:
        core.drift_weights(50.0)
        mean_std(npy(core.get_weights()) - w, 0.0, v, "weight noise of the drift", rel=0.01)
    rec.label(what, c["kind"])
    rec.hit(True)


LANES = [Lane("ops", cases(), check, quick=3000, thorough=300000), Lane("stat", stat_cases(), stat, quick=120, thorough=3000)]
