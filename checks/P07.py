"""P07: the response of a resistive device to single pulses, and the statistics of its parameters."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import cfg, devmodel, gen, gendev
from vlib.core import Lane, Skip
from vlib.stats import mean_std, same_dist, uncorrelated
from vlib.util import npy, require

PROPERTY = "P07"
RULE = ("step: a device model with drawn parameters and device-to-device variation, noise-free cycles; the weights after 1 to 4 "
        "pulses at selected crosspoints equal the documented response computed from the hidden parameters; non-trivial: at least "
        "one weight moved. noise: the change of 900 identical devices after one pulse has the documented mean and spread "
        "(multiplicative, additive, complex and write noise). population: hidden parameters of 900 devices follow the documented "
        "device-to-device distributions (two-sample test against an independent sampler). Non-trivial there: a spread above 0.")


def _tile(dev, n_out, n_in, upd):
    rpu = cfg.config({"kind": "single", "device": dev, "update": dict({"update_bl_management": False, "update_management": False,
                                                                       "fixed_bl": True}, **upd),
                      "mapping": {"weight_scaling_omega": 0.0}})
    tile = rpu.tile_class(n_out, n_in, rpu)
    return tile, rpu.device


def _granularity(dev, par):
    """Step size the pulse number refers to."""
    return devmodel_par(dev, par).dw_min


def devmodel_par(dev, par):
    """The parameters as the device model sees them (SoftBoundsPmax is a SoftBounds with derived values)."""
    if dev["cls"] == "SoftBoundsPmaxDevice":
        import copy
        p = copy.copy(par)
        b = (par.range_max - par.range_min) / (1 - np.exp(-par.p_max * par.alpha))
        p.w_min, p.w_max = par.range_min, par.range_min + b
        p.dw_min, p.up_down = b * par.alpha, 1 + 2 * par.range_min / b
        return p
    return par


def pulses(tile, dw, x, d, bl):
    """Send bl pulses to the crosspoints given by the signs of x and d: d * x > 0 lowers the weight."""
    core = tile.tile
    core.set_learning_rate(float(dw * bl))
    core.update(torch.tensor(x, dtype=torch.float32).reshape(1, -1) * 20, torch.tensor(d, dtype=torch.float32).reshape(1, -1) * 20, False)


@st.composite
def step_cases(draw):
    n_out, n_in = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    ups = draw(st.lists(st.tuples(st.lists(st.sampled_from([1, -1, 0]), min_size=n_in, max_size=n_in),
                                  st.lists(st.sampled_from([1, -1, 0]), min_size=n_out, max_size=n_out)),
                        min_size=1, max_size=4))
    return {"dev": draw(gendev.single()), "n_out": n_out, "n_in": n_in, "ups": ups, "bl": draw(st.integers(1, 4)),
            "w": draw(gen.data(["uniform", "normal", "const", "negconst", "zeros", "ramp"], (0.5, 0.2, 1.0))),
            "pulse": draw(st.sampled_from(["StochasticCompressed", "Stochastic", "MeanCount", "DeterministicImplicit"]))}


def step_check(c, rec):
    tile, par = _tile(c["dev"], c["n_out"], c["n_in"], {"pulse_type": c["pulse"], "desired_bl": c["bl"]})
    par = devmodel_par(c["dev"], par)
    core = tile.tile
    core.set_weights(cfg.ten(c["w"], (c["n_out"], c["n_in"])))
    hp = devmodel.hidden(tile)
    mod = 0
    bl = c["bl"]
    for x, d in c["ups"]:
        w = npy(core.get_weights())
        pulses(tile, par.dw_min, x, d, bl)
        got = npy(core.get_weights())
        sign = np.outer(d, x)
        exp, lo, hi = w.copy(), w - 1e-6, w + 1e-6
        for _ in range(bl):
            def f(v):
                return np.where(sign < 0, devmodel.pulse(par, par, hp, v, True),
                                np.where(sign > 0, devmodel.pulse(par, par, hp, v, False), v))
            exp, lo, hi = f(exp), f(lo), f(hi)
        tol = 3e-6 + 2 * np.abs(hi - lo) + 2e-4 * np.abs(exp - w)
        bad = ~(np.abs(got - exp) <= tol)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            h = {k: float(v[i]) for k, v in hp.items() if v.shape == w.shape}
            require(False, f"{c['dev']['cls']} at {i}: {bl} pulse(s) with sign(x*d)={sign[i]} moved the weight from {w[i]:.7g} to "
                           f"{got[i]:.7g}, documented response {exp[i]:.7g}; hidden parameters {h}")
        mod += int((np.abs(got - w) > 1e-7).sum())
        rec.label(f"bl{bl}")
    rec.label(c["dev"]["cls"])
    for k in ("corrupt_devices_prob", "perfect_bias", "reverse_up", "reverse_down", "subtract_symmetry_point"):
        if c["dev"].get(k):
            rec.label(k)
    rec.hit(mod > 0)


@st.composite
def noise_cases(draw):
    dev = draw(gendev.single(dtod=False, std=(0.1, 0.3), write=(0.0, 0.0, 1.0, 3.0), dw=(0.002, 0.01)))
    return {"dev": dev, "up": draw(st.booleans()), "w": draw(gen.floats(-0.15, 0.15, 2)), "n": 30,
            "pulse": draw(st.sampled_from(["StochasticCompressed", "Stochastic", "MeanCount", "DeterministicImplicit"]))}


def noise_check(c, rec):
    n, dev = c["n"], c["dev"]
    tile, par = _tile(dev, n, n, {"pulse_type": c["pulse"], "desired_bl": 1})
    par = devmodel_par(dev, par)
    core = tile.tile
    core.set_weights(torch.full((n, n), c["w"]))
    hp = devmodel.hidden(tile)
    wn = dev.get("write_noise_std", 0.0) * par.dw_min
    w = hp["persistent_weights"] if wn else npy(core.get_weights())
    if wn:
        shown = npy(core.get_weights())
        if dev.get("apply_write_noise_on_set", True):
            mean_std(shown - w, 0.0, wn, "write noise on set", fourth=3.2)
        else:
            require(np.abs(shown - w).max() < 1e-6, "weights shown after set without write noise differ from the persistent ones")
    pulses(tile, par.dw_min, np.ones(n), np.ones(n) * (-1 if c["up"] else 1), 1)
    hp2 = devmodel.hidden(tile)
    got = hp2["persistent_weights"] if wn else npy(core.get_weights())
    f0, f1, f2 = (devmodel.pulse(par, par, hp, w, c["up"], noise=z) for z in (0.0, 0.5, -0.5))
    if np.abs((f1 + f2) / 2 - f0).max() > 1e-7 + 1e-4 * np.abs(f0 - w).max() or np.abs(f1 - f0).max() < 1e-9:
        raise Skip()      # clipped or vanishing response
    std = np.abs(f1 - f2)
    for z in (4.0, -4.0):
        lim = devmodel.pulse(par, par, hp, w, c["up"], noise=z)
        if np.abs(lim - f0 - (f1 - f0) * 2 * z).max() > 1e-6:
            raise Skip()
    mean_std(got - w, f0 - w, std, f"{dev['cls']}: change by one {'up' if c['up'] else 'down'} pulse", fourth=3.2)
    same_dist((got - f0) / std, np.random.RandomState(5).randn(20000), f"{dev['cls']}: cycle-to-cycle noise shape")
    u = (got - f0)
    uncorrelated(u[:, 1:], u[:, :-1], "cycle noise of neighbouring devices")
    uncorrelated(u[1:], u[:-1], "cycle noise of neighbouring devices")
    if wn:
        mean_std(npy(core.get_weights()) - got, 0.0, wn, "write noise after the update", fourth=3.2)
        rec.label("write_noise")
    rec.label(dev["cls"], "up" if c["up"] else "down")
    rec.hit(np.abs(f0 - w).max() > 1e-6)


def population(dev, par, n_rows, n_cols, r):
    """Independent sampler of the documented parameter distributions."""
    par = devmodel_par(dev, par)
    shape = (n_rows, n_cols)
    g = lambda: r.randn(*shape)                                       # noqa
    out = {}
    mx, mn = par.w_max * (1 + par.w_max_dtod * g()), par.w_min * (1 + par.w_min_dtod * g())
    gain = np.exp(par.dw_min_dtod * g()) if par.dw_min_dtod_log_normal else 1 + par.dw_min_dtod * g()
    b = par.up_down_dtod * g()
    su = (min(par.up_down, 0) + gain + b) * par.dw_min
    sd = (-max(par.up_down, 0) + gain - b) * par.dw_min
    if par.enforce_consistency:
        su, sd = np.abs(su), np.abs(sd)
        lo, hi = np.minimum(mn, mx), np.maximum(mn, mx)
        mx, mn = np.abs(hi), -np.abs(lo)
    else:
        m = (mx + mn) / 2
        bad = mn > mx
        mx, mn = np.where(bad, m, mx), np.where(bad, m, mn)
    cor = r.rand(*shape) < par.corrupt_devices_prob
    lo, hi = np.maximum(mn, -par.corrupt_devices_range), np.minimum(mx, par.corrupt_devices_range)
    val = lo + (hi - lo) * r.rand(*shape)
    mx, mn, su, sd = np.where(cor, val, mx), np.where(cor, val, mn), np.where(cor, 0, su), np.where(cor, 0, sd)
    if par.perfect_bias:
        su[:, -1] = sd[:, -1] = par.dw_min
        mx[:, -1], mn[:, -1] = 100 * par.w_max, 100 * par.w_min
    out["diffusion_rates"] = np.abs(par.diffusion * (1 + par.diffusion_dtod * g()))
    out["reset_bias"] = par.reset + par.reset_dtod * g()
    if par.lifetime > 0:
        t = par.lifetime * (1 + par.lifetime_dtod * g())
        out["decay_scales"] = np.where(t > 1, 1 - 1 / np.where(t > 1, t, 2), 0)
    else:
        out["decay_scales"] = np.ones(shape)
    name = dev["cls"]
    if name in ("LinearStepDevice", "SoftBoundsDevice", "SoftBoundsPmaxDevice"):
        lin = name == "LinearStepDevice"
        gu = (par.gamma_up + par.gamma_up_dtod * g()) if lin else np.ones(shape)
        gd = (par.gamma_down + par.gamma_down_dtod * g()) if lin else np.ones(shape)
        if not (lin and par.allow_increasing):
            gu, gd = np.abs(gu), np.abs(gd)
        mean_ref = par.mean_bound_reference if lin else False
        a, z = (np.full(shape, par.w_max), np.full(shape, par.w_min)) if mean_ref else (mx, mn)
        ru = z - par.reverse_offset if par.reverse_up else a
        rd = a + par.reverse_offset if par.reverse_down else z
        out["slope_up"] = np.where(ru != 0, -gu * su / np.where(ru != 0, ru, 1), 0)
        out["slope_down"] = np.where(rd != 0, -gd * sd / np.where(rd != 0, rd, 1), 0)
    if name in ("PowStepDevice", "PowStepReferenceDevice"):
        gain, b = 1 + par.pow_gamma_dtod * g(), par.pow_up_down_dtod * g()
        out["gamma_up"] = (min(par.pow_up_down, 0) + gain + b) * par.pow_gamma
        out["gamma_down"] = (-max(par.pow_up_down, 0) + gain - b) * par.pow_gamma
        if par.enforce_consistency:
            out["gamma_up"], out["gamma_down"] = np.abs(out["gamma_up"]), np.abs(out["gamma_down"])
    if "Reference" in name:
        if name.startswith("Soft"):
            ok = (mx > 0) & (mn < 0)
            mx, mn = np.where(ok, mx / np.abs(1 + par.slope_up_dtod * g()), mx), np.where(ok, mn / np.abs(1 + par.slope_down_dtod * g()), mn)
        out["reference"] = par.reference_mean + par.reference_std * g()
    out.update(max_bound=mx, min_bound=mn, dwmin_up=su, dwmin_down=sd)
    return out


@st.composite
def pop_cases(draw):
    return {"dev": draw(gendev.single(lifecycle=True)), "n": draw(st.sampled_from([20, 30]))}


def pop_check(c, rec):
    dev, n = c["dev"], c["n"]
    tile, par = _tile(dev, n, n, {})
    hp = devmodel.hidden(tile)
    ref = population(dev, par, 200, n, np.random.RandomState(1))
    ref["drift_nu"] = np.zeros(1)
    sp = dev.get("subtract_symmetry_point")
    require(set(hp) == set(ref) | ({"persistent_weights"} if dev.get("write_noise_std") else set()),
            f"hidden parameters {sorted(hp)} instead of {sorted(ref)}")
    if sp:
        # the symmetry point: up and down responses cancel there
        mx, mn, su, sd = (hp[k] for k in ("max_bound", "min_bound", "dwmin_up", "dwmin_down"))
        ok = (mx > 0) & (mn < 0) & (su > 0) & (sd > 0)
        if dev["cls"].startswith("Soft"):
            s = np.where(ok, (su - sd) / np.where(ok, su / np.where(ok, mx, 1) - sd / np.where(ok, mn, 1), 1), 0)
        else:
            s = np.zeros_like(mx)
            r = np.where(ok, mx - mn, 1)
            steps = dev["n_estimation_steps"]
            m = np.where(ok, np.minimum(np.round(10 * r / np.where(ok, np.minimum(su, sd), 1)), 10000), 0) if steps <= 0 else np.full(mx.shape, steps)
            with np.errstate(invalid="ignore"):
                for i in range(int(m.max())):
                    inc = -sd * np.power(np.maximum((s - mn) / r, 0), hp["gamma_down"]) + su * np.power(np.maximum((mx - s) / r, 0), hp["gamma_up"])
                    s = s + np.where(ok & (i < m), inc, 0)
        t1 = (hp["reset_bias"] - s)
        same_dist(t1[ok], ref["reset_bias"], "reset bias without the symmetry point", tol=2e-4)
        hp["reference"] = np.where(ok, hp["reference"] - s, hp["reference"])
        hp["reset_bias"] = np.where(ok, hp["reset_bias"] - s, hp["reset_bias"])
        if not (ref["reference"].std() or ref["reset_bias"].std()):
            require(np.abs(hp["reference"] - ref["reference"].flat[0]).max() < 2e-4,
                    f"{dev['cls']}: reference is not the mean plus the symmetry point")
            hp["reference"], hp["reset_bias"] = ref["reference"], ref["reset_bias"]
    for k, v in ref.items():
        if sp and k in ("reference", "reset_bias") and np.ptp(v) == 0:
            require(np.abs(hp[k] - v.flat[0]).max() < 2e-4, f"{k} is not the mean plus the symmetry point")
            continue
        same_dist(hp[k], v, f"{dev['cls']}: hidden parameter {k}")
    with np.errstate(divide="ignore", invalid="ignore"):
        for a, b in (("dwmin_up", "dwmin_down"), ("slope_up", "dwmin_up"), ("slope_down", "dwmin_down"), ("gamma_up", "gamma_down")):
            if a in ref:
                q = [np.nan_to_num(np.arctan2(x[a] / par_scale(ref[a]), x[b] / par_scale(ref[b]))) for x in (hp, ref)]
                same_dist(q[0], q[1], f"{dev['cls']}: joint distribution of {a} and {b}")
        same_dist(hp["max_bound"] + hp["min_bound"], ref["max_bound"] + ref["min_bound"], "joint distribution of the bounds")
    if ref["dwmin_up"].std() > 0 and not dev.get("perfect_bias") and not dev.get("corrupt_devices_prob"):
        for v in ("dwmin_up", "max_bound"):
            uncorrelated(hp[v][:, 1:], hp[v][:, :-1], f"{v} of neighbouring devices")
            uncorrelated(hp[v][1:], hp[v][:-1], f"{v} of neighbouring devices")
    rec.label(dev["cls"])
    rec.hit(any(v.std() > 0 for v in ref.values()))


def par_scale(v):
    s = np.max(np.abs(v))
    return s if s > 0 else 1.0


LANES = [Lane("step", step_cases(), step_check, 4000),
         Lane("noise", noise_cases(), noise_check, 700),
         Lane("population", pop_cases(), pop_check, 500)]
