"""P08: the number of update pulses (bit lines, probabilities, update management) and the expected weight update."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vlib import cfg, gen, gendev
from vlib.core import Lane, Skip
from vlib.util import close, npy, require

PROPERTY = "P08"
RULE = ("pulses: identical constant-step devices (step a power of 2, so pulse counts are exact); repeated updates with drawn x, d, "
        "learning rate, pulse type, pulse train length, resolution and management settings; the net pulse count of every crosspoint "
        "is compared with the documented product of probabilities (exact for deterministic pulse types, Bernstein bound with error "
        "rate 1e-10 otherwise; the total with its exact variance). outer: with one slot per update the pulses form an outer product. "
        "size: the mean of an up and a down update of every device model at zero weight equals learning rate * x * d. "
        "float: pulse types None / NoneWithDevice are exact (clipped) SGD. Non-trivial: some pulses were expected.")
DW = [2.0 ** -10, 2.0 ** -7]
VALS = st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5, 0.37, -0.83, 0.05, -0.02, 2.3])


@st.composite
def upd(draw, pulse=("StochasticCompressed", "Stochastic", "MeanCount", "DeterministicImplicit")):
    u = {"pulse_type": draw(st.sampled_from(list(pulse))), "desired_bl": draw(st.sampled_from([1, 5, 31, 40])),
         "fixed_bl": draw(st.booleans()), "update_bl_management": draw(st.booleans()), "update_management": draw(st.booleans()),
         "um_grad_scale": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])), "sto_round": draw(st.sampled_from([False, False, True]))}
    r = draw(st.sampled_from([0.0, 0.0, 0.1, 0.01, 20.0, -1.0]))
    u["res"] = r
    u["x_res_implicit"], u["d_res_implicit"] = r, draw(st.sampled_from([0.0, 0.05, 30.0]))
    return u


@st.composite
def cases(draw):
    n_out, n_in = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    m = draw(st.integers(1, 3))
    return {"n_out": n_out, "n_in": n_in, "upd": draw(upd()), "dw": draw(st.sampled_from(DW)),
            "lr": draw(st.sampled_from([1.0, 0.01, 0.1, 4.0, 30.0, 80.0, 5.3, 44.37])),      # in units of dw
            "x": draw(st.lists(st.lists(VALS, min_size=n_in, max_size=n_in), min_size=m, max_size=m)),
            "d": draw(st.lists(st.lists(VALS, min_size=n_out, max_size=n_out), min_size=m, max_size=m)),
            "w0": draw(st.sampled_from([0.0, 0.25])), "scale": draw(st.sampled_from([1.0, 0.1]))}


def fix_res(r):
    return 0.0 if r < 0 else (1.0 / r if r > 1 else r)


def bl_ab(u, lr, dw, xm, dm):
    """Documented pulse train length and scales (docstring of UpdateParameters)."""
    des, ublm = u["desired_bl"], u["update_bl_management"]
    um = u["update_management"] or ublm

    def ceil(v):
        if abs(v - round(v)) < 1e-4:
            raise Skip()
        return math.ceil(v)
    if u["fixed_bl"] or ublm or dw * des >= lr:
        bl = des
        a = math.sqrt(lr / (dw * bl))
    else:
        bl, a = (ceil(lr / dw) if abs(lr / dw - round(lr / dw)) > 1e-9 else round(lr / dw)), 1.0
    b = a
    if um:
        if xm == 0 or dm == 0:
            return 0, 0.0, 0.0
        d_ = u["um_grad_scale"] * dm
        k = lr * xm * d_ / dw
        if ublm:
            bl = min(ceil(k), des) if k < des * 1.001 else des
            a = b = math.sqrt(lr / (dw * bl))
        if k > des:
            d_ *= des / k
        a, b = a * math.sqrt(xm / d_), b * math.sqrt(d_ / xm)
    return bl, a, b


def disc(v, res):
    """Discretised probability; raises Skip when the rounding is ambiguous."""
    if res <= 0:
        return v
    q = v / res
    if np.any(np.abs(q - np.floor(q) - 0.5) < 1e-3):
        raise Skip()
    return np.rint(q) * res


def rint(v):
    if np.any(np.abs(v - np.floor(v) - 0.5) < 2e-3):
        raise Skip()
    return np.rint(v)


def dist(v, res, sto):
    """Probability values with weights for stochastic rounding: list of (value, weight)."""
    if not sto or res <= 0:
        return [(disc(v, res), 1.0)]
    f = math.floor(v / res)
    w = v / res - f
    return [(f * res, 1 - w), ((f + 1) * res, w)]


def expected(u, lr, dw, x, d):
    """-> (mean count, variance) per crosspoint, deterministic flag, probabilities or None."""
    x, d = np.asarray(x), np.asarray(d)
    bl, a, b = bl_ab(u, lr, dw, np.abs(x).max(), np.abs(d).max())
    sgn = -np.sign(np.outer(d, x))
    zero = np.zeros(sgn.shape)
    if bl == 0:
        return zero, zero, True, None
    typ, sto = u["pulse_type"], u["sto_round"]
    res = fix_res(u["res"])
    if typ in ("MeanCount", "DeterministicImplicit"):
        rx, rd = (res, res) if typ == "MeanCount" else (fix_res(u["x_res_implicit"]), fix_res(u["d_res_implicit"]))
        if sto and (rx > 0 or rd > 0):
            raise Skip()
        px, pd = disc(np.abs(x) * b, rx), disc(np.abs(d) * a, rd)
        if typ == "MeanCount":
            cx, cd = np.minimum(rint(bl * px), bl), np.minimum(rint(bl * pd), bl)
            n = rint(np.outer(cd, cx) / bl)
        else:
            n = rint(bl * np.outer(np.minimum(pd, 1), np.minimum(px, 1)))
        return sgn * n, zero, True, None
    dx = [[(min(p, 1.0), w) for p, w in dist(abs(v) * b, res, sto)] for v in x]
    dd = [[(min(p, 1.0), w) for p, w in dist(abs(v) * a, res, sto)] for v in d]
    mean, var = np.zeros(sgn.shape), np.zeros(sgn.shape)
    for i, pi in enumerate(dd):
        for j, pj in enumerate(dx):
            m1 = m2 = 0.0
            for p, w in pi:
                for q, v in pj:
                    r = p * q
                    m1 += w * v * bl * r
                    m2 += w * v * (bl * r * (1 - r) + (bl * r) ** 2)
            mean[i, j], var[i, j] = m1, m2 - m1 * m1
    probs = (bl, np.array([p[0][0] for p in dd]), np.array([p[0][0] for p in dx])) if not sto or res <= 0 else None
    return sgn * mean, np.maximum(var, 0), False, probs


def make(c, dev=None, **kw):
    dev = dev or {"cls": "ConstantStepDevice", "dw_min": c["dw"], "dw_min_dtod": 0.0, "dw_min_std": 0.0, "up_down_dtod": 0.0,
                  "w_max": 8000.0, "w_min": -8000.0, "w_max_dtod": 0.0, "w_min_dtod": 0.0}
    rpu = cfg.config({"kind": "single", "device": dev, "update": dict(c["upd"], **kw)})
    return rpu.tile_class(c["n_out"], c["n_in"], rpu)


def check(c, rec):
    dw, lr = c["dw"], c["lr"] * c["dw"]
    c["x"] = [[v * c["scale"] for v in r] for r in c["x"]]
    tile = make(c)
    w0 = torch.full((c["n_out"], c["n_in"]), c["w0"])
    tile.tile.set_weights(w0)
    tile.tile.set_learning_rate(lr)
    u = c["upd"]
    tot, var, det, big = 0.0, 0.0, True, 1.0
    t_mean = t_var = 0.0
    exact_total = True
    reps = 1 if u["pulse_type"] in ("MeanCount", "DeterministicImplicit") else 700
    for x, d in zip(c["x"], c["d"]):
        m, v, dt, probs = expected(u, np.float32(lr), dw, np.float32(x), np.float32(d))
        tot, var, det = tot + reps * m, var + reps * v, det and dt
        big = max(big, u["desired_bl"] if u["sto_round"] else 1.0)
        if probs is not None:
            # the signed total of one slot is (sum of d pulses) * (sum of x pulses)
            bl, pd, px = probs
            sd, sx = np.sign(d), np.sign(x)
            ma, mb = (sd * pd).sum(), (sx * px).sum()
            qa, qb = ma ** 2 + (pd * (1 - pd) * (sd != 0)).sum(), mb ** 2 + (px * (1 - px) * (sx != 0)).sum()
            t_mean, t_var = t_mean - reps * bl * ma * mb, t_var + reps * bl * (qa * qb - (ma * mb) ** 2)
        elif not dt:
            exact_total = False
    xs = torch.tensor(c["x"]).repeat(reps, 1)
    ds = torch.tensor(c["d"]).repeat(reps, 1)
    tile.tile.update(xs, ds, False)
    got = (npy(tile.tile.get_weights()) - c["w0"]) / dw
    require(np.abs(got - np.rint(got)).max() < 1e-6, f"weight change is not a multiple of the step: {got}")
    t = 24.0
    tol = np.zeros_like(tot) if det else np.sqrt(2 * var * t) + big * t / 3 * (var > 0)
    bad = np.abs(got - tot) > tol + 1e-5 * np.abs(tot) + (1e-3 if det else 1.0)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        require(False, f"crosspoint {i}: {got[i]:.0f} net pulses in {reps} update(s), expected {tot[i]:.3f} +- {tol[i]:.1f} (standard "
                       f"deviation {math.sqrt(var[i]):.2f})")
    if exact_total and not det and t_var > 200:
        require(abs(got.sum() - t_mean) <= 6.5 * math.sqrt(t_var),
                f"total of {got.sum():.0f} net pulses in {reps} updates, expected {t_mean:.1f} +- {math.sqrt(t_var):.1f}")
    rec.label(u["pulse_type"], f"ublm{u['update_bl_management']}", f"um{u['update_management']}", f"sto{u['sto_round']}")
    rec.hit(np.abs(tot).max() > 0.5)


@st.composite
def outer_cases(draw):
    return {"n_out": draw(st.integers(2, 6)), "n_in": draw(st.integers(2, 6)), "dw": DW[0], "s": draw(gen.seeds),
            "upd": {"pulse_type": draw(st.sampled_from(["StochasticCompressed", "Stochastic"])), "desired_bl": 1, "fixed_bl": True,
                    "update_bl_management": False, "update_management": draw(st.booleans())}, "m": draw(st.integers(1, 12))}


def outer_check(c, rec):
    tile = make(c)
    tile.tile.set_weights(torch.zeros(c["n_out"], c["n_in"]))
    tile.tile.set_learning_rate(c["dw"])
    r = np.random.RandomState(c["s"])
    seen = 0
    hits = np.zeros((c["n_out"], c["n_in"]))
    for _ in range(c["m"]):
        x, d = r.choice([0.5, -0.5, 0.9, 0.0], c["n_in"]), r.choice([0.5, -0.5, 0.9, 0.0], c["n_out"])
        before = npy(tile.tile.get_weights())
        tile.tile.update(torch.tensor(x, dtype=torch.float32).reshape(1, -1), torch.tensor(d, dtype=torch.float32).reshape(1, -1), False)
        ch = (npy(tile.tile.get_weights()) - before) / c["dw"]
        require(set(np.unique(ch)) <= {-1.0, 0.0, 1.0}, f"one slot moved a device by {ch} steps")
        p = ch * -np.sign(np.outer(d, x))
        require(p.min() >= 0, "a pulse moved a weight against the gradient")
        rows, cols = p.any(1), p.any(0)
        require(np.array_equal(p > 0, np.outer(rows, cols)),
                f"pulses of one slot are not the coincidences of row and column pulses: {p.tolist()}")
        seen += int(p.sum() > 1)
        hits += p
    rec.hit(seen)


SIZE_DEV = ["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "SoftBoundsReferenceDevice", "ExpStepDevice", "PowStepDevice"]


@st.composite
def size_cases(draw):
    name = draw(st.sampled_from(SIZE_DEV))
    dev = {"cls": name, "dw_min": draw(st.sampled_from([1e-4, 2e-4])), "dw_min_dtod": 0.0, "dw_min_std": 0.0, "up_down_dtod": 0.0,
           "w_max": 0.8, "w_min": -0.8, "w_max_dtod": 0.0, "w_min_dtod": 0.0}
    if name == "ExpStepDevice":
        for k in ("A_up", "A_down"):
            dev[k] = draw(st.sampled_from([0.05, 0.3, 0.6]))
        for k in ("gamma_up", "gamma_down"):
            dev[k] = draw(st.sampled_from([0.5, 1.0, 2.0]))
        dev["a"], dev["b"] = 0.244, draw(st.sampled_from([0.0, 0.2, -0.1]))
    if name == "PowStepDevice":
        dev["pow_gamma"], dev["pow_gamma_dtod"] = draw(st.sampled_from([0.5, 1.0, 2.0])), 0.0
    if name == "LinearStepDevice":
        dev["gamma_up"], dev["gamma_down"] = draw(st.sampled_from([0.0, 0.5])), draw(st.sampled_from([0.0, 0.5]))
    return {"dev": dev, "n_out": 1, "n_in": 1, "m": draw(st.sampled_from([20, 29])), "x": draw(st.sampled_from([1.0, 0.3])),
            "d": draw(st.sampled_from([1.0, 0.7])), "ublm": draw(st.booleans()), "n": draw(st.integers(1, 3)),
            "pulse": draw(st.sampled_from(["DeterministicImplicit", "MeanCount"]))}


def size_check(c, rec):
    dev = c["dev"]
    c["upd"] = {"pulse_type": c["pulse"], "desired_bl": 2000, "update_bl_management": c["ublm"], "update_management": True}
    lr = c["m"] * dev["dw_min"] / (c["x"] * c["d"])
    ch = []
    for s in (1, -1):
        tile = make(c, dev)
        tile.tile.set_weights(torch.zeros(1, 1))
        tile.tile.set_learning_rate(lr)
        for _ in range(c["n"]):
            tile.tile.update(torch.tensor([[c["x"]]]), torch.tensor([[s * c["d"]]]), False)
        ch.append(float(tile.tile.get_weights()))
    require(ch[0] < 0 < ch[1], f"updates with opposite gradients changed the weight by {ch}")
    want = c["n"] * c["m"] * dev["dw_min"]
    got = (ch[1] - ch[0]) / 2
    require(abs(got - want) < 0.06 * want, f"{dev['cls']}: mean change {got:.6g} per update pair, learning rate * x * d = {want:.6g}")
    rec.label(dev["cls"])
    rec.hit()


@st.composite
def float_cases(draw):
    return {"n_out": draw(st.integers(1, 6)), "n_in": draw(st.integers(1, 6)), "b": draw(st.integers(1, 4)), "steps": draw(st.integers(1, 3)),
            "kind": draw(st.sampled_from(["None", "NoneWithDevice", "ideal", "inference"])), "dev": draw(gendev.single(lifecycle=False)),
            "lr": draw(st.sampled_from([0.1, 0.01, 1.0])), "x": draw(gen.data()), "d": draw(gen.data()), "w": draw(gen.data(mags=(0.3,)))}


def float_check(c, rec):
    kind = c["kind"]
    dev = {"cls": "IdealDevice"} if kind == "ideal" else c["dev"]
    if kind == "inference":
        rpu = cfg.config({"kind": "inference"})
    else:
        rpu = cfg.config({"kind": "single", "device": dev, "update": {"pulse_type": kind if kind != "ideal" else "StochasticCompressed"}})
    tile = rpu.tile_class(c["n_out"], c["n_in"], rpu)
    core = tile.tile
    core.set_weights(cfg.ten(c["w"], (c["n_out"], c["n_in"])))
    core.set_learning_rate(c["lr"])
    w = npy(core.get_weights())
    w0 = w.copy()
    hp = {k: npy(v) for k, v in tile.get_hidden_parameters().items()} if kind == "NoneWithDevice" else {}
    for k in range(c["steps"]):
        x, d = cfg.arr(dict(c["x"], s=c["x"]["s"] + k), (c["b"], c["n_in"])), cfg.arr(dict(c["d"], s=c["d"]["s"] + k), (c["b"], c["n_out"]))
        core.update(torch.from_numpy(x), torch.from_numpy(d), False)
        if kind == "NoneWithDevice":
            for i in range(c["b"]):
                w = np.clip(w - c["lr"] * np.outer(d[i].astype(float), x[i].astype(float)), hp["min_bound"], np.maximum(hp["min_bound"], hp["max_bound"]))
        else:
            w = w - c["lr"] * d.astype(float).T @ x.astype(float)
    close(core.get_weights(), w, f"weights after floating point update ({kind})", atol=2e-5)
    rec.label(kind)
    rec.hit(np.abs(w - w0).max() > 1e-4)


LANES = [Lane("pulses", cases(), check, 2500), Lane("outer", outer_cases(), outer_check, 500),
         Lane("size", size_cases(), size_check, 400), Lane("float", float_cases(), float_check, 700)]
