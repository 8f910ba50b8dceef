"""P21: weight modifiers act on the weights of training passes only, as documented."""
import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogConv2d, AnalogLinear
from aihwkit.optim import AnalogSGD
from vlib import cfg, gen
from vlib.core import Lane, Skip
from vlib.stats import mean_std, same_dist
from vlib.util import close, npy, require, same

PROPERTY = "P21"
RULE = ("cases: an inference layer (C++ or torch tile) with a weight modifier of any type and parameters (drop connect, saved last "
        "column, relative or assumed maximum, stochastic rounding), small or large weight matrices. Lane history: steps, evaluation "
        "and training passes, new weights and modes in any order; lane exact: deterministic modifiers (discretisations) compared "
        "elementwise; lane noise: the distribution of the modified weights at several weight levels compared with the documented "
        "one. Non-trivial: the modified weights differ from the weights.")
CPP = ["Discretize", "MultNormal", "AddNormal", "DiscretizeAddNormal", "DoReFa", "Poly", "ProgNoise", "DropConnect", "Copy", "None"]
TORCH = ["Discretize", "MultNormal", "AddNormal", "None", "Copy"]


@st.composite
def modifiers(draw, tile, types=None):
    t = draw(st.sampled_from(types or (CPP if tile == "inference" else TORCH)))
    m = {"type": t, "rel_to_actual_wmax": draw(st.booleans()), "assumed_wmax": draw(st.sampled_from([1.0, 0.5, 2.0]))}
    if t in ("MultNormal", "AddNormal", "DiscretizeAddNormal", "Poly", "ProgNoise"):
        m["std_dev"] = draw(st.sampled_from([0.1, 0.03, 0.5]))
    if t in ("Discretize", "DiscretizeAddNormal", "DoReFa"):
        m["res"] = draw(st.sampled_from([0.125, 0.05, 0.03, 0.3]))
        m["sto_round"] = draw(st.booleans())
    if t == "DoReFa":
        m["dorefa_clip"] = draw(st.sampled_from([0.6, 1.0]))
    if t in ("Poly", "ProgNoise"):
        m["coeffs"] = draw(st.lists(gen.floats(0.05, 1.0, 2), min_size=1, max_size=4))
        if t == "ProgNoise":
            m["g_max"], m["std_dev"] = draw(st.sampled_from([25.0, 10.0])), draw(st.sampled_from([1.0, 5.0]))
    if tile == "inference" and t != "None":
        m["pdrop"] = draw(st.sampled_from([0.0, 0.0, 0.2, 0.5])) if t != "DropConnect" else draw(st.sampled_from([0.2, 0.5]))
        m["copy_last_column"] = draw(st.sampled_from([False, False, True]))
        m["enable_during_test"] = draw(st.sampled_from([False, False, False, True]))
    elif tile == "torch":
        m["per_batch_sample"] = draw(st.booleans())
    return m


def amax(m, w):
    if not m["rel_to_actual_wmax"]:
        return m["assumed_wmax"]
    a = np.abs(w[:, :-1] if m.get("copy_last_column") else w)
    a = a.max() if a.size else 0.0
    return a if a > 0 else 1.0


def noisy(m, w, am, r, torch_tile, half=False):
    """Samples of the modified weights (before dropping) of the weight values w, all random numbers from r.  half: half the step size."""
    t = m["type"]
    w = w.copy()
    if t in ("Discretize", "DiscretizeAddNormal"):
        step = m["res"] * am * (1 if half else 2)
        u = r.rand(*w.shape) - 0.5 if m["sto_round"] else 0.0
        w = rnd(w / step + u) * step
        if t == "DiscretizeAddNormal":
            w = w + m["std_dev"] * am * r.randn(*w.shape)
    elif t == "DoReFa":
        v = np.tanh(w) * abs(m["dorefa_clip"] / np.tanh(am))
        u = r.rand(*w.shape) - 0.5 if m["sto_round"] else 0.0
        w = rnd(v / m["res"] + u) * m["res"]
    elif t == "MultNormal":
        w = w * (1 + m["std_dev"] * (1 if torch_tile else am) * r.randn(*w.shape))
    elif t == "AddNormal":
        w = w + m["std_dev"] * am * r.randn(*w.shape)
    elif t in ("Poly", "ProgNoise"):
        a = np.abs(w) / am
        sig = sum(c * a ** k for k, c in enumerate(m["coeffs"])) * m["std_dev"]
        z = r.randn(*w.shape)
        if t == "Poly":
            w = w + am * sig * z
        else:
            sgn = np.where(w < 0, -1.0, 1.0)
            w = sgn * np.abs(w + am * sig / m["g_max"] * z)
    return w


def rnd(v):
    return np.sign(v) * np.floor(np.abs(v) + 0.5)


def active(m):
    return m["type"] not in ("None", "Copy") or m.get("pdrop", 0.0) > 0


def layer(c, n_out, n_in):
    maps = {"digital_bias": not c["analog_bias"], "weight_scaling_omega": 0.0}
    rpu = cfg.config({"kind": c["tile"], "forward": {"is_perfect": True}, "modifier": c["mod"], "mapping": maps})
    rpu.drift_compensation = None
    lay = AnalogLinear(n_in, n_out, bias=c["analog_bias"], rpu_config=rpu)
    return lay


def stored(lay):
    """All analog weights including the bias column."""
    t = next(lay.analog_tiles())
    return npy(t.tile.get_weights())


def probe(lay, train):
    """The weights a pass uses: [out, in (+1)]."""
    lay.train(train)
    n = lay.in_features
    with torch.no_grad():
        y = npy(lay(torch.cat([torch.zeros(1, n), torch.eye(n)])))
    if next(lay.analog_tiles()).analog_bias:
        return np.concatenate([(y[1:] - y[0]).T, y[0][:, None]], 1)
    return y[1:].T


# ---- where the modified weights are used

@st.composite
def history_cases(draw):
    tile = draw(st.sampled_from(["inference", "inference", "torch"]))
    mod = draw(modifiers(tile))
    mod["per_batch_sample"] = False
    return {"tile": tile, "mod": mod, "analog_bias": tile == "inference" and draw(st.booleans()),
            "n": [draw(st.integers(1, 6)), draw(st.integers(2, 6))], "w": draw(gen.data(["normal", "uniform", "pos", "sparse"])),
            "ops": draw(st.lists(st.fixed_dictionaries({"op": st.sampled_from(["step", "step", "train", "back", "eval", "set", "read", "copy"]),
                                                        "s": gen.seeds}), min_size=1, max_size=7))}


def bound(m, w, am, torch_tile):
    """Largest plausible distance to the weight (8 sigma), or None."""
    sig = 0.0
    t = m["type"]
    if t == "AddNormal":
        sig = m["std_dev"] * am
    elif t == "MultNormal":
        sig = m["std_dev"] * np.abs(w) * (1 if torch_tile else am)
    elif t in ("Poly", "ProgNoise"):
        a = np.abs(w) / am
        sig = sum(c * a ** k for k, c in enumerate(m["coeffs"])) * m["std_dev"] * am / (m["g_max"] if t == "ProgNoise" else 1)
    elif t in ("Discretize", "DiscretizeAddNormal"):
        return m["res"] * am * (2.01 if m["sto_round"] else 1.01) + 8 * (m["std_dev"] * am if "std_dev" in m else 0)
    elif t == "DoReFa":
        return None
    return 8 * sig + 1e-6


def check_history(c, rec):
    torch.manual_seed(c["w"]["s"] % 10 ** 6)
    n_in, n_out = c["n"]
    lay = layer(c, n_out, n_in)
    m = c["mod"]
    W = cfg.ten(c["w"], (n_out, n_in))
    b = torch.linspace(-0.4, 0.6, n_out) if c["analog_bias"] else None
    lay.set_weights(W, b)
    cur = stored(lay)
    opt = AnalogSGD(lay.parameters(), lr=0.0)
    mod, hits = None, 0                                  # currently modified weights (unknown values, but fixed until the next step)
    tt = c["tile"] == "torch"
    for k, o in enumerate(c["ops"]):
        what = f"step {k} ({o['op']})"
        if o["op"] in ("step", "back"):
            lay.train()
            x = cfg.ten({"k": "normal", "s": o["s"], "m": 1.0}, (3, n_in)).requires_grad_()
            d = cfg.ten({"k": "normal", "s": (o["s"] + 1) % 2 ** 31, "m": 1.0}, (3, n_out))
            lr = 0.05 if o["op"] == "step" and o["s"] % 2 else 0.0
            for g in opt.param_groups:
                g["lr"] = lr
            opt.zero_grad()
            y = lay(x)
            y.backward(d)
            # forward and backward use the same weights; solve for them
            if not tt:
                wu = probe(lay, True)
                xa = np.concatenate([npy(x), np.ones((3, 1))], 1) if c["analog_bias"] else npy(x)
                close(y, xa @ wu.T, f"{what}: training output with the modified weights", rtol=1e-4, atol=1e-5)
                close(x.grad, npy(d) @ wu[:, :n_in], f"{what}: input gradient with the modified weights", rtol=1e-4, atol=1e-5)
            if o["op"] == "step":
                old = cur
                opt.step()
                cur = stored(lay)
                xa = np.concatenate([npy(x), np.ones((3, 1))], 1) if c["analog_bias"] else npy(x)
                close(cur, old - lr * npy(d).T @ xa, f"{what}: the update acts on the unmodified weights", rtol=1e-4, atol=1e-5)
                new = probe(lay, True)
                if not tt and active(m) and mod is not None and m["type"] in ("AddNormal", "DiscretizeAddNormal") and not m.get("pdrop"):
                    q = slice(None, -1) if m.get("copy_last_column") else slice(None)
                    require(new[:, q].size == 0 or not np.allclose((new - cur)[:, q], (mod - old)[:, q], atol=1e-9), f"{what}: weight noise not renewed")
                mod = new
        elif o["op"] == "set":
            W = cfg.ten({**c["w"], "s": o["s"], "m": 0.7}, (n_out, n_in))
            lay.set_weights(W, b)
            cur = stored(lay)
            if not tt:
                mod = probe(lay, True)                   # modified again or not: but never the old ones
        elif o["op"] == "read":
            lay.get_weights()
        elif o["op"] == "copy":
            import copy
            lay = copy.deepcopy(lay)
            opt = AnalogSGD(lay.parameters(), lr=0.0)
        same(stored(lay), cur, f"{what}: stored weights")
        am = amax(m, cur)
        tr = probe(lay, True)
        if not tt:
            if mod is None:
                close(tr, cur, f"{what}: weights of training passes before the first step", rtol=1e-5, atol=1e-6)
            else:
                close(tr, mod, f"{what}: weights of training passes within one mini-batch", rtol=1e-5, atol=1e-6)
        if not active(m):
            close(tr, cur, f"{what}: weights of training passes without modifier", rtol=1e-5, atol=1e-6)
        lim = bound(m, cur, am, tt)
        if lim is not None:
            bad = ~((np.abs(tr - cur) <= lim + 1e-5) | ((np.abs(tr) < 1e-6) & (m.get("pdrop", 0) > 0)))
            require(not bad.any(), f"{what}: modified weights {tr[bad][:4]} too far from the weights {cur[bad][:4]}")
        if m.get("copy_last_column"):
            close(tr[:, -1], cur[:, -1], f"{what}: last column in training passes", rtol=1e-5, atol=1e-6)
        ev = probe(lay, False)
        if m.get("enable_during_test") and mod is not None:
            close(ev, tr, f"{what}: weights of evaluation passes with enable_during_test", rtol=1e-5, atol=1e-6)
        else:
            close(ev, cur, f"{what}: weights of evaluation passes", rtol=1e-5, atol=1e-6)
        hits += bool(np.abs(tr - cur).max() > 1e-4)
    rec.label(c["tile"], m["type"], *[k for k in ("pdrop", "copy_last_column", "enable_during_test") if m.get(k)])
    rec.hit(hits > 0)


# ---- deterministic modifiers

@st.composite
def exact_cases(draw):
    tile = draw(st.sampled_from(["inference", "inference", "torch"]))
    mod = draw(modifiers(tile, ["Discretize", "DoReFa"] if tile == "inference" else ["Discretize"]))
    mod.update(sto_round=False, per_batch_sample=draw(st.booleans()) if tile == "torch" else False, res=draw(st.sampled_from([0.125, 0.05, 0.03, 0.3, 1 / 64])))
    mod.pop("pdrop", None)
    return {"tile": tile, "mod": mod, "analog_bias": tile == "inference" and draw(st.booleans()),
            "n": [draw(st.integers(1, 7)), draw(st.integers(1, 7))], "w": draw(gen.data())}


def check_exact(c, rec):
    n_in, n_out = c["n"]
    lay = layer(c, n_out, n_in)
    m = c["mod"]
    lay.set_weights(cfg.ten(c["w"], (n_out, n_in)), torch.linspace(-0.4, 0.6, n_out) if c["analog_bias"] else None)
    opt = AnalogSGD(lay.parameters(), lr=0.0)
    lay.train()
    lay(torch.ones(1, n_in)).sum().backward()
    opt.step()
    w = stored(lay)
    got = probe(lay, True)
    r = np.random.RandomState(0)
    am = amax(m, w)
    diffs = []
    for half in (False, True):
        exp = noisy(m, w, am, r, c["tile"] == "torch", half)
        if m.get("copy_last_column"):
            exp[:, -1] = w[:, -1]
        # values at a rounding edge may go either way
        step = m["res"] * (1 if m["type"] == "DoReFa" else am * (1 if half else 2))
        v = np.tanh(w) * abs(m.get("dorefa_clip", 1.0) / np.tanh(am)) if m["type"] == "DoReFa" else w
        edge = np.abs(np.abs(v / step) % 1 - 0.5) < 1e-3
        d = np.abs(got - exp)
        d = np.where(edge, np.maximum(d - step, 0), d)
        diffs.append(float(d.max()))
    tol = 1e-5 * max(1.0, np.abs(w).max())
    if diffs[0] > tol:
        if c["tile"] == "inference" and m["type"] == "Discretize" and diffs[1] <= tol:
            rec.known.append(("F57", "weight modifier Discretize of the C++ tile uses steps of res * w_max (twice as many as documented)"))
        else:
            require(False, f"{m}: modified weights differ by {diffs[0]:.4g}: weights {w.ravel()[:6]}, used {got.ravel()[:6]}, "
                           f"expected {noisy(m, w, am, r, False).ravel()[:6]}")
    rec.label(c["tile"], m["type"])
    rec.hit(bool(np.abs(got - w).max() > 1e-6))


# ---- noise statistics

@st.composite
def noise_cases(draw):
    tile = draw(st.sampled_from(["inference", "inference", "torch"]))
    mod = draw(modifiers(tile, ["MultNormal", "AddNormal", "DiscretizeAddNormal", "Poly", "ProgNoise", "DropConnect", "Copy", "Discretize", "DoReFa"]
                         if tile == "inference" else ["MultNormal", "AddNormal", "Discretize"]))
    mod["enable_during_test"] = False
    if mod["type"] == "Copy":
        mod["pdrop"] = draw(st.sampled_from([0.2, 0.5]))
    return {"tile": tile, "mod": mod, "analog_bias": False, "m": draw(st.sampled_from([1.0131, 0.6071])), "s": draw(gen.seeds),
            "conv": tile == "torch" and draw(st.booleans()) and not mod.get("per_batch_sample")}


def check_noise(c, rec):
    m = c["mod"]
    torch.manual_seed(c["s"] % 10 ** 6)
    lv = np.array([1.0, -0.7131, 0.3137, 0.0519, 0.0, -0.2071]) * c["m"]
    n = 900
    r = np.random.RandomState((c["s"] + 3) % 2 ** 31)
    tt = c["tile"] == "torch"
    out = []
    W = torch.tensor(np.repeat(lv[:, None], n, 1), dtype=torch.float32)
    if c["conv"]:
        rpu = cfg.config({"kind": "torch", "forward": {"is_perfect": True}, "modifier": m, "mapping": {"weight_scaling_omega": 0.0}})
        lay = AnalogConv2d(n, len(lv), 1, bias=False, rpu_config=rpu).train()
        lay.set_weights(W, None)
        with torch.no_grad():
            for _ in range(2):
                out.append(npy(lay(torch.eye(n).reshape(1, n, n, 1)))[0, :, :, 0])
    elif tt and m.get("per_batch_sample"):
        lay = layer(c, len(lv), 4).train()
        lay.set_weights(W[:, :4], None)
        with torch.no_grad():
            y = npy(lay(torch.tensor([[1.0, 0, 0, 0], [0, 0, 1.0, 0]]).repeat(n, 1)))
        out.append(y[0::2].T)
        out.append(y[1::2].T)
    else:
        lay = layer(c, len(lv), n).train()
        lay.set_weights(W, None)
        opt = AnalogSGD(lay.parameters(), lr=0.0)
        for _ in range(2):
            lay(torch.ones(1, n)).sum().backward()
            opt.step()
            out.append(probe(lay, True))
    w = npy(W)
    am = amax(m, w)
    got = np.concatenate([o[:, :-1] if m.get("copy_last_column") else o for o in out], 1)
    p = m.get("pdrop", 0.0)
    known = False
    for i, v in enumerate(lv):
        g = got[i]
        if p > 0:
            zero = np.abs(g) < 1e-9
            k = zero.mean()
            base = noisy(m, np.full(4000, v), am, r, tt, half=True)
            pz = p + (1 - p) * (np.abs(base) < 1e-9).mean()
            require(abs(k - pz) < 5.5 * np.sqrt(pz * (1 - pz) / len(g)) + 0.012 * (pz > p + 1e-6), f"{m}: {k:.3f} of the weights {v:.3g} dropped, expected {pz:.3f}")
            g = g[~zero]
            if m["type"] in ("Discretize", "DoReFa", "DropConnect", "Copy", "DiscretizeAddNormal") and len(g) < 300:
                continue
        what = f"{m}: modified weights at {v:.3g}"
        for half in ((False, True) if m["type"] in ("Discretize", "DiscretizeAddNormal") and not tt else (False,)):
            s = noisy(m, np.full(6000, v), am, r, tt, half)
            if p > 0:
                s = s[np.abs(s) >= 1e-9]
                if not len(s):
                    continue
            # round to a fine grid: discrete values agree up to rounding errors
            try:
                same_dist(np.round(g, 4), np.round(s, 4), what, 1e-4)
                known = known or half
                break
            except Exception:
                if half or m["type"] not in ("Discretize", "DiscretizeAddNormal") or tt:
                    raise
    if known:
        rec.known.append(("F57", "weight modifier Discretize of the C++ tile uses steps of res * w_max (twice as many as documented)"))
    # independent between devices and mini-batches
    if m["type"] in ("AddNormal", "Poly", "DiscretizeAddNormal") and p == 0 and not (m["type"] == "Poly" and m["coeffs"][0] < 0.01):
        z = [o[:, :-1] - o[:, :-1].mean(1, keepdims=True) for o in out]
        sd = [np.maximum(v.std(1, keepdims=True), 1e-9) for v in z]
        z = [a / b for a, b in zip(z, sd)]
        for a, b, what in ((z[0], z[1], "successive mini-batches"), (z[0][:-1], z[0][1:], "neighbouring rows"), (z[0][:, 1:], z[0][:, :-1], "neighbouring columns")):
            cor = float((a * b).mean())
            require(abs(cor) < 5.5 / np.sqrt(a.size), f"{m}: weight noise of {what} is correlated ({cor:.3f})")
    rec.label(c["tile"], m["type"], "pdrop" if p else "all", "per_batch" if m.get("per_batch_sample") else "")
    rec.hit(bool(np.abs(got - lv[:, None]).max() > 1e-4))


LANES = [Lane("history", history_cases(), check_history, quick=1000, thorough=20000), Lane("exact", exact_cases(), check_exact, quick=1000, thorough=20000),
         Lane("noise", noise_cases(), check_noise, quick=300, thorough=5000)]
