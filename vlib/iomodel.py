"""Reference model of the documented analog matrix-vector product (deterministic part), written from the parameter
documentation of IOParameters and evaluated in float64.

ref_rows(...) returns (values, ok): ok marks the outputs whose value is not decided by a rounding tie (closer than the
float32 accuracy to a quantisation threshold or to the bound), which are the only ones a check may compare.
"""
import math

import numpy as np

INF = float("inf")
TIE = 2e-3


class Io:
    """Plain view of an IOParameters dataclass."""

    def __init__(self, io, backward=False, torch_tile=False):
        g = lambda n, d=0.0: getattr(io, n, d)   # noqa: E731
        self.perfect = g("is_perfect", False) or g("mv_type").value == "Ideal"
        self.mv = g("mv_type").value
        self.ib = g("inp_bound") if g("inp_bound") > 0 else INF
        self.ob = g("out_bound") if g("out_bound") > 0 else INF
        res = lambda r: 0.0 if r <= 0 else (1.0 / r if r > 1.0 else r)   # noqa: E731
        self.ir = res(g("inp_res")) * 2.0 * g("inp_bound")
        self.orr = res(g("out_res")) * 2.0 * g("out_bound")
        self.ir = self.ir if self.ir > 0 else 0.0
        self.orr = self.orr if self.orr > 0 else 0.0
        self.inp_asym, self.out_asym = g("inp_asymmetry"), g("out_asymmetry")
        self.inp_noise = g("inp_noise")
        self.out_scale = g("out_scale", 1.0)
        self.bm = "None" if backward else g("bound_management").value
        self.nm = g("noise_management").value
        self.thres = g("nm_thres") if self.nm != "None" else 0.0
        self.assumed = getattr(io, "nm_assumed_wmax", 0.6)
        self.decay = getattr(io, "nm_decay", 1e-3)
        self.max_factor, self.max_res = g("max_bm_factor", 1000), g("max_bm_res", 0.25)
        self.test_neg = g("bm_test_negative_bound", True)
        self.ir_drop, self.g_ratio = g("ir_drop"), g("ir_drop_g_ratio", 1.0)
        self.v_w_min, self.rs = g("v_offset_w_min"), max(g("r_series"), 0.0)
        self.rs_max = getattr(io, "r_series_max_total", INF)
        self.voffset = g("v_offset_std") > 0 or self.rs > 0
        self.has_nl = g("out_nonlinearity") > 0
        self.slope = g("slope_calibration")
        self.w_asym = g("w_read_asymmetry_dtod") > 0
        self.backward = backward


class Pars:
    """The systematic (drawn once) factors of a tile."""

    def __init__(self, d, n_in, n_out, backward=False):
        f = lambda k: np.asarray(d.get(k, []), dtype=np.float64).ravel()   # noqa: E731
        self.v = f("v_offset")
        self.nl = f("out_nonlinearity")
        x = f("out_nonlinearity_factor")
        self.nlf = float(x[0]) if x.size else 1.0
        a = f("w_asymmetry")
        self.wa = None
        if a.size == n_in * n_out:
            self.wa = a.reshape(n_in, n_out).T if backward else a.reshape(n_out, n_in)


def quant(v, res):
    """Round to the grid; second value: distance (in steps) to the nearest tie."""
    if res <= 0:
        return v, np.full(v.shape, 1.0)
    q = v / res
    return np.rint(q) * res, np.abs(np.abs(q - np.floor(q)) - 0.5)


def nm_value(x, io, kind, state=None):
    amax = float(np.max(np.abs(x))) if x.size else 0.0
    cap = lambda v: min(v, io.thres) if io.thres > 0 else v   # noqa: E731
    if kind == "None":
        return 1.0
    if kind == "AbsMax":
        return cap(amax)
    if kind == "Constant":
        return io.thres if io.thres > 0 else 1.0
    if kind == "Max":
        return cap(float(np.max(x)))
    if kind == "AverageAbsMax":
        state["aux"] = amax if state["aux"] < 0 else state["aux"] * (1 - io.decay) + io.decay * amax
        return state["aux"]
    if kind == "AbsMaxNPSum":
        ps, ns = float(x[x > 0].sum()), float(-x[x < 0].sum())
        s = max(ps, ns) * io.assumed / (1.0 if math.isinf(io.ob) else io.ob)
        a = cap(amax)
        if io.ir > 0:
            s = min(a / io.ir * io.max_res, s)
        return max(a, s)
    raise ValueError(kind)


def single_pass(W, xin, io, p):
    y = W @ xin
    n_in = W.shape[1]
    if io.ir_drop > 0:
        cur = np.abs(W) @ np.abs(xin)
        a = cur * n_in / io.g_ratio
        c = a * (a * (0.05 * a - 0.2) + 0.5)
        prof = 1.0 - (1.0 - np.arange(n_in) / n_in) ** 2
        y = y - io.ir_drop * c * (W @ (xin * prof))
    if io.voffset:
        v = p.v if p.v.size else np.zeros(len(y))
        lim = lambda z: 1.0 + np.minimum(io.rs * np.abs(z), io.rs_max)   # noqa: E731
        if io.v_w_min == 0.0:
            y = (1.0 - v) * y / lim(y)
        else:
            ref = -io.v_w_min * xin.sum()
            pos = y + ref
            y = (1.0 - v) * pos / lim(pos) - (1.0 + v) * ref / lim(ref)
    return y


def finalize(y, io, p):
    """-> (values, ok, passed or None when undecidable)"""
    with_nl = (io.has_nl or io.rs > 0) and p.nl.size == len(y)
    if with_nl:
        y = p.nlf * y / (1.0 + np.abs(p.nl * y))
    if io.out_asym > 0:
        y = np.where(y < 0, y * (1.0 - io.out_asym), y)
    q, tie = quant(y, io.orr)
    ok = tie > TIE * (1 + np.abs(y) / io.orr * 1e-3) if io.orr > 0 else np.full(y.shape, True)
    hi, lo = q > io.ob, q < -io.ob
    near = np.abs(np.abs(q) - io.ob) <= 1e-4 * io.ob if not math.isinf(io.ob) else np.full(y.shape, False)
    if io.orr > 0 and not math.isinf(io.ob):
        # quantised values: a tie next to the bound decides the bound test too
        near = near | (~ok & (np.abs(np.abs(q) - io.ob) <= 1.5 * io.orr))
    out = np.clip(q, -io.ob, io.ob)
    tested = hi | (lo if io.test_neg else False)
    sure_fail = np.any(tested & ~near)
    maybe = np.any(near & ((y > 0) | io.test_neg))
    passed = False if sure_fail else (None if maybe else True)
    return out, ok, passed


def analog_mv(W, x, io, p, scale):
    """-> values, ok, passed (None: undecidable)"""
    v = x * scale
    v, tie = quant(v, io.ir)
    in_ok = bool(np.all(tie > TIE)) if io.ir > 0 else True
    v = np.clip(v, -io.ib, io.ib)
    if io.inp_asym != 0:
        v = np.where(v < 0, v * (1.0 - io.inp_asym), v)
    if io.mv == "OnePass":
        y, ok, passed = finalize(single_pass(W, v, io, p), io, p)
    else:
        Wn = W * p.wa if (io.w_asym and p.wa is not None) else W
        neg = single_pass(Wn, np.where(v < 0, v, 0.0), io, p)
        pos = single_pass(W, np.where(v > 0, v, 0.0), io, p)
        if io.mv == "PosNegSeparate":
            y, ok, passed = finalize(neg + pos, io, p)
        else:
            yn, okn, pn = finalize(neg, io, p)
            yp, okp, pp = finalize(pos, io, p)
            y, ok = yn + yp, okn & okp
            passed = False if (pn is False or pp is False) else (None if (pn is None or pp is None) else True)
    if not in_ok:
        ok = np.zeros_like(ok)
        passed = None
    return y, ok, passed


def ref_row(W, x, io, p, state, info):
    """One input vector through the analog tile."""
    if io.perfect:
        return io.out_scale * (W @ x), np.full(W.shape[0], True)
    nmv = nm_value(x, io, io.nm, state)
    nm, bm = io.nm != "None", io.bm != "None"
    if nm and nmv <= 0 and (io.inp_noise <= 0 or io.backward):
        info["zero"] = info.get("zero", 0) + 1
        return np.zeros(W.shape[0]), np.full(W.shape[0], True)
    red, rnd = 0.5, 0
    while True:
        red *= 2.0
        if rnd == 1 and io.bm == "IterativeWorstCase" and io.nm != "AbsMaxNPSum":
            nmv = nm_value(x, io, "AbsMaxNPSum", state)
            red = 1.0
        rnd += 1
        scale = 1.0
        if nm and nmv > 0:
            scale /= nmv
        if bm:
            scale /= red
        y, ok, passed = analog_mv(W, x, io, p, scale)
        if not bm:
            break
        limit = int(red) > io.max_factor or (io.ir > 0 and red > io.max_res / io.ir)
        if io.ir > 0 and abs(red - io.max_res / io.ir) < 1e-4 * red:
            limit = None
        if limit is True or passed is True:
            break
        if passed is None or limit is None:
            info["undecided"] = info.get("undecided", 0) + 1
            return y, np.zeros_like(ok)
    if rnd > 1:
        info["bm_rounds"] = max(info.get("bm_rounds", 0), rnd)
    if not math.isinf(io.ob) and np.any(np.abs(y) >= io.ob * 0.9999):
        info["saturated"] = info.get("saturated", 0) + 1
    return y * io.out_scale / scale, ok


def ref_rows(W, X, io, p, info, state=None):
    state = {"aux": -1.0} if state is None else state
    out, oks = [], []
    for x in X:
        y, ok = ref_row(W, x, io, p, state, info)
        out.append(y)
        oks.append(ok)
    n = W.shape[0]
    return (np.array(out) if out else np.zeros((0, n))), (np.array(oks) if oks else np.zeros((0, n), bool))


def ref_torch_batch(W, X, io, info):
    """The torch tile: noise management per row, bound management jointly for the whole batch."""
    n_out = W.shape[0]
    if io.perfect:
        return X @ W.T, np.full((len(X), n_out), True)
    nmv = np.array([nm_value(x, io, io.nm) for x in X])
    nm, bm = io.nm != "None", io.bm != "None"
    if nm and io.nm != "Constant" and np.all(nmv == 0) and io.inp_noise <= 0:
        return np.zeros((len(X), n_out)), np.full((len(X), n_out), True)
    nmv[nmv <= 0] = 1.0
    red = 0.5
    p = Pars({}, 0, 0)
    while True:
        red *= 2.0
        scale = 1.0 / nmv / (red if bm else 1.0)
        rows = [analog_mv(W, x, io, p, s) for x, s in zip(X, scale)]
        y = np.array([r[0] for r in rows])
        ok = np.array([r[1] for r in rows])
        if not bm:
            break
        ps = [r[2] for r in rows]
        passed = False if any(q is False for q in ps) else (None if any(q is None for q in ps) else True)
        limit = red > io.max_factor or (io.ir > 0 and red > io.max_res / io.ir)
        if io.ir > 0 and abs(red - io.max_res / io.ir) < 1e-4 * red:
            limit = None
        if limit is True or passed is True:
            break
        if passed is None or limit is None:
            info["undecided"] = info.get("undecided", 0) + 1
            return y, np.zeros_like(ok)
    if red > 1:
        info["bm_rounds"] = int(red)
    if not math.isinf(io.ob) and np.any(np.abs(y) >= io.ob * 0.9999):
        info["saturated"] = info.get("saturated", 0) + 1
    return y * (io.out_scale / scale)[:, None], ok
