"""P23: compound devices (unit cells, transfer and mixed-precision compounds) follow their documented algorithm exactly."""
import copy
import io
import math
import pickle

import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogLinear
from aihwkit.simulator.tiles.transfer import TorchTransferTile
from checks import P08
from vlib import cfg, devmodel, gen, gendev
from vlib.core import Lane, Skip, Violation
from vlib.util import npy, require

PROPERTY = "P23"
RULE = ("cases: a compound device (unit cells with all update policies, reference and one-sided cells with refresh, transfer, buffered and chopped "
        "transfer compounds of two or three devices, mixed precision) with deterministic pulse trains and a history of mini-batch updates, weight "
        "writes and direct changes of the hidden weights; after every mini-batch the hidden weights, digital buffers and the visible weights equal "
        "those of a reference model of the documented recursion (pulse counts of P08, single-pulse response of P07). The same for the torch transfer tile (chopped and dynamic), also continued from copies, pickles and state dictionaries. "
        "Non-trivial: a transfer, refresh or policy switch changed a hidden weight.")
NAMES = ["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "SoftBoundsReferenceDevice", "PowStepDevice"]
DET = ("MeanCount", "DeterministicImplicit")
KINDS = ["VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound", "TransferCompound", "BufferedTransferCompound",
         "BufferedTransferCompound", "ChoppedTransferCompound", "ChoppedTransferCompound", "DynamicTransferCompound", "MixedPrecisionCompound", "MixedPrecisionCompound"]
CHOPPED = ("ChoppedTransferCompound", "DynamicTransferCompound")
VALS = st.sampled_from([0.0, 1.0, -1.0, 0.53, -0.47, 0.37, -0.83, 0.61, -0.22])


@st.composite
def upd(draw, types=DET):
    return {"pulse_type": draw(st.sampled_from(list(types))), "desired_bl": draw(st.sampled_from([1, 4, 10, 31])), "fixed_bl": draw(st.booleans()),
            "update_bl_management": draw(st.booleans()), "update_management": draw(st.booleans()), "res": 0.0, "x_res_implicit": 0.0,
            "d_res_implicit": 0.0, "sto_round": False, "um_grad_scale": 1.0}


@st.composite
def single(draw, names=NAMES, reset=False):
    d = draw(gendev.single(names, corrupt=False, dw=(0.002, 0.01, 0.05)))
    if reset:
        d["reset"], d["reset_dtod"], d["reset_std"] = draw(st.sampled_from([0.0, 0.1, -0.05])), draw(st.sampled_from([0.0, 0.05])), 0.0
    return d


@st.composite
def compound(draw):
    name = draw(st.sampled_from(KINDS))
    c = {"cls": name}
    rare = st.integers(0, 3).map(lambda v: v == 3)
    if name == "VectorUnitCell":
        n = draw(st.integers(1, 3))
        c["unit_cell_devices"] = [draw(single()) for _ in range(n)]
        c["update_policy"] = draw(st.sampled_from(["All", "SingleFixed", "SingleSequential"]))
        c["first_update_idx"] = draw(st.integers(0, n - 1))
        if draw(st.booleans()):
            c["gamma_vec"] = [draw(st.sampled_from([1.0, 0.5, -0.5, 0.25, 0.0])) for _ in range(n)]
    elif name == "ReferenceUnitCell":
        c["unit_cell_devices"] = [draw(single()) for _ in range(2)]
    elif name == "OneSidedUnitCell":
        c["unit_cell_devices"] = [draw(single(["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "PowStepDevice"], True))]
        c["refresh_every"] = draw(st.sampled_from([0, 1, 3]))
        c["units_in_mbatch"] = draw(st.booleans())
        c["refresh_upper_thres"], c["refresh_lower_thres"] = draw(st.sampled_from([(0.75, 0.25), (0.3, 0.2), (0.2, 0.05)]))
        c["refresh_forward"], c["refresh_update"] = {"is_perfect": True}, draw(upd())
        c["copy_inverted"] = draw(st.booleans())
    elif name == "MixedPrecisionCompound":
        c["device"] = draw(single())
        c["transfer_every"] = draw(st.sampled_from([1, 1, 2, 3]))
        c["n_rows_per_transfer"] = draw(st.sampled_from([-1, 1, 1, 2, 7]))
        c["granularity"] = draw(st.sampled_from([0.0, 0.01, 0.003]))
        c["transfer_lr"] = draw(st.sampled_from([1.0, 0.5, 2.0]))
        c["n_x_bins"], c["n_d_bins"] = draw(st.sampled_from([0, 7, 101, 2])), draw(st.sampled_from([0, 7, 101, 3]))
        c["stoc_round_x"] = c["stoc_round_d"] = False
    else:
        n = 2 if name in CHOPPED else draw(st.integers(2, 3))
        fp = name == "TransferCompound"
        refs = draw(st.booleans())
        c["unit_cell_devices"] = [draw(single(reset=True)) for _ in range(2)]
        c["unit_cell_devices"] += [dict(c["unit_cell_devices"][1]) for _ in range(n - 2)]
        c["gamma"] = draw(st.sampled_from([0.0, 0.5, 1.0, 0.1]))
        if draw(rare):
            c["gamma_vec"] = [draw(st.sampled_from([0.0, 0.5, -1.0])) for _ in range(n - 1)] + [draw(st.sampled_from([1.0, 0.5, -0.5]))]
        c["transfer_every"] = draw(st.sampled_from([1.0, 1.0, 2.0, 3.0, 0.0, 1.4]))
        c["units_in_mbatch"] = draw(st.booleans())
        c["transfer_columns"] = draw(st.booleans())
        c["fast_lr"] = draw(st.sampled_from([1.03, 0.0, 0.53, 0.11]))
        c["transfer_lr"] = draw(st.sampled_from([1.0, 0.53, 3.1]))
        c["scale_transfer_lr"], c["scale_fast_lr"] = draw(st.booleans()), draw(st.booleans())
        c["transfer_forward"] = {"is_perfect": True}
        types = DET + (("None",) if fp else ()) + (("NoneWithDevice",) if fp and not refs else ())
        c["transfer_update"] = draw(upd(types))
        if refs and fp:
            pass
        elif fp and c["transfer_update"]["pulse_type"] == "NoneWithDevice":
            for d in c["unit_cell_devices"]:
                if d["cls"] == "SoftBoundsReferenceDevice":       # finding F82: the clipping of reference devices
                    d["reference_mean"] = d["reference_std"] = 0.0
                    d["subtract_symmetry_point"] = False
        if name not in CHOPPED:
            c["n_reads_per_transfer"] = draw(st.sampled_from([1, 1, 2, 5]))
            if draw(rare):
                c["transfer_every_vec"] = [draw(st.sampled_from([1.0, 2.0, 0.0])) for _ in range(n)]
            c["no_self_transfer"] = draw(st.booleans())
            if draw(rare):
                c["transfer_lr_vec"] = [draw(st.sampled_from([1.0, 0.5, 0.0])) for _ in range(n)]
        if name == "TransferCompound":
            c["with_reset_prob"] = draw(st.sampled_from([0.0, 1.0])) if c["transfer_columns"] else 0.0
        else:
            c["momentum"] = draw(st.sampled_from([0.1, 0.0, 0.9, 1.0]))
            c["step"], c["forget_buffer"] = draw(st.sampled_from([1.0, 1.93, 0.57, 3.7])), draw(st.booleans())
        if name == "BufferedTransferCompound":
            c["thres_scale"] = draw(st.sampled_from([1.0, 0.2, 3.0]))
        if name in CHOPPED:
            c["in_chop_random"] = draw(st.booleans())
            c["in_chop_prob"] = draw(st.sampled_from([0.0, 1.0] if c["in_chop_random"] else [0.0, 1.0, 0.5, 0.34, 0.25]))
            c["out_chop_prob"] = draw(st.sampled_from([0.0, 0.0, 1.0]))
            c["buffer_granularity"] = draw(st.sampled_from([1.0, 0.2, 5.0]))
            c["auto_granularity"] = draw(st.sampled_from([0.0, 0.0, 5.0]))
            c["no_buffer"] = draw(rare)
            c["auto_scale"], c["auto_momentum"] = draw(st.booleans()), draw(st.sampled_from([0.99, 0.5, 0.0]))
            c["correct_gradient_magnitudes"] = draw(st.booleans())
        if name == "DynamicTransferCompound":
            for k in ("out_chop_prob", "no_buffer"):         # not used
                c.pop(k)
            c["in_chop_prob"], c["auto_momentum"] = c["in_chop_prob"] or (1.0 if c["in_chop_random"] else 0.1), c["auto_momentum"] or 0.9
            c["tail_weightening"] = draw(st.sampled_from([5.0, 1.0, 2.0, 0.5]))
            c["buffer_cap"] = draw(st.sampled_from([0.0, 0.0, 1.5, 0.4]))
            c["experimental_correct_accumulation"] = draw(rare)
    return c


VEC = st.lists(VALS, min_size=4, max_size=4)
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("update"), "x": st.lists(VEC, min_size=1, max_size=3), "d": st.lists(VEC, min_size=3, max_size=3),
                           "lr": st.sampled_from([0.107, 0.107, 0.0213, 0.531, 0.0])}),
    st.fixed_dictionaries({"op": st.just("update"), "x": st.lists(VEC, min_size=1, max_size=3), "d": st.lists(VEC, min_size=3, max_size=3),
                           "lr": st.sampled_from([0.107, 0.313])}),
    st.fixed_dictionaries({"op": st.just("hidden"), "w": gen.data(None, (0.3, 1.0))}),
    st.fixed_dictionaries({"op": st.just("set"), "w": gen.data(None, (0.3, 1.0))}),
    st.fixed_dictionaries({"op": st.just("idx"), "i": st.integers(0, 2)}))


@st.composite
def cases(draw):
    c = {"dev": draw(compound()), "up": draw(upd()), "n": [draw(st.integers(1, 4)), draw(st.integers(1, 4))], "seed": draw(gen.seeds),
         "w": draw(gen.data(None, (0.3, 0.1)))}
    c["ops"] = draw(st.lists(OPS, min_size=2, max_size=7) if c["dev"]["cls"] not in ("DynamicTransferCompound", "MixedPrecisionCompound") else st.lists(OPS, min_size=6, max_size=12))
    return c


def f32(v):
    return float(np.float32(v))


class Model:
    def __init__(self, c, tile, rpu):
        self.c, self.spec, self.tile = c, c["dev"], tile
        self.kind = self.spec["cls"]
        self.par = rpu.device
        devs = [self.par.device] if self.kind == "MixedPrecisionCompound" else list(self.par.unit_cell_devices)
        if self.kind == "OneSidedUnitCell":
            devs = [devs[0], devs[0]]
        self.devs, self.nd = devs, len(devs)
        self.idx, self.slice = 0, [0] * self.nd
        self.cur = self.spec.get("first_update_idx", 0)
        self.chop_counter, self.mx, self.md, self.count_lr = 0, 0.0, 0.0, 0.0
        d, x = c["n"]
        if self.kind.endswith("TransferCompound"):
            self.cols = self.spec["transfer_columns"]
            self.n_in, self.n_out = (x, d) if self.cols else (d, x)
            self.in_chop, self.out_chop = np.ones(self.n_in), np.ones(self.n_out)
            self.switched = np.zeros(self.n_in, bool)
            self.n_reads = min(self.par.n_reads_per_transfer, self.n_in)
            self.every = list(self.par.transfer_every_vec)
            if not self.every:
                self.every = [self.par.transfer_every * (self.n_in / self.n_reads) ** k for k in range(self.nd)]
                if self.par.no_self_transfer:
                    self.every[-1] = 0.0
            self.lrs = list(self.par.transfer_lr_vec) or [self.par.transfer_lr] * self.nd
            self.gamma = list(self.par.gamma_vec) or [self.par.gamma ** (self.nd - 1 - k) for k in range(self.nd)]
        elif self.kind == "OneSidedUnitCell":
            self.gamma = [-1.0, 1.0]
        elif self.kind != "MixedPrecisionCompound":
            self.gamma = list(self.par.gamma_vec) or [1.0 / self.nd] * self.nd
        self.events, self.ambiguous = set(), False         # a rounding that floating point decides: no comparison for this mini-batch
        self.sync()
        if self.kind == "MixedPrecisionCompound":
            self.row = 0

    def sync(self):
        hp = {k: npy(v) for k, v in self.tile.get_hidden_parameters().items()}
        self.vis = npy(self.tile.get_weights(apply_weight_scaling=False)[0])
        if self.kind == "MixedPrecisionCompound":
            self.hp, self.W, self.chi = [hp], [self.vis.copy()], hp["hidden_weights_chi"].copy()
            return
        self.hp = [{k[:-2]: v for k, v in hp.items() if k.endswith(f"_{i}")} for i in range(self.nd)]
        self.W = [h["hidden_weights"].copy() for h in self.hp]
        if self.kind == "DynamicTransferCompound":
            self.buf, self.mean, self.past = [hp["buffered_FP_weight"].copy()], hp["running_mean_weight"].copy(), hp["past_mean_weight"].copy()
            return
        self.buf = [hp[f"buffered_FP_weight_{i}"].copy() if f"buffered_FP_weight_{i}" in hp else None for i in range(self.nd - 1)]

    def trunc(self, v):
        a = np.abs(v)
        self.ambiguous |= bool(np.any((np.abs(a - np.rint(a)) < 2e-3) & (a > 0.5)))
        return np.trunc(v)

    # --- pulses
    def gran(self, k):
        p = self.devs[k]
        return f32(p.dw_min) * (0.5 ** p.pow_gamma if type(p).__name__ == "PowStepDevice" else 1.0)

    def counts(self, u, lr, gran, x, d):
        x, d = np.asarray(x, float), np.asarray(d, float)
        if lr == 0:
            return np.zeros((len(d), len(x)))
        try:
            n = P08.expected(u, abs(lr), gran, x, d)[0]
        except Skip:
            self.ambiguous, n = True, np.zeros((len(d), len(x)))
        return n if lr > 0 else -n

    def pulses(self, k, n, w=None):
        w = self.W[k] if w is None else w
        for i in range(int(np.abs(n).max(initial=0))):
            up, dn = n > i, -n > i
            w = np.where(up, devmodel.pulse(self.devs[k], self.devs[k], self.hp[k], w, True),
                         np.where(dn, devmodel.pulse(self.devs[k], self.devs[k], self.hp[k], w, False), w))
        self.W[k] = w

    def write(self, k, u, lr, x, d):
        """Update of device k: W -= lr * outer(d, x)"""
        if u["pulse_type"] in ("None", "NoneWithDevice"):
            self.W[k] = self.W[k] - lr * np.outer(d, x)
            if u["pulse_type"] == "NoneWithDevice":
                self.W[k] = np.clip(self.W[k], self.hp[k]["min_bound"], self.hp[k]["max_bound"])
        else:
            self.pulses(k, self.counts(u, lr, self.gran(k), x, d))

    # --- one vector update
    def update(self, x, d, lr, m):
        if lr == 0:
            return
        u = self.c["up"]
        getattr(self, {"VectorUnitCell": "vector", "ReferenceUnitCell": "vector", "OneSidedUnitCell": "onesided",
                       "MixedPrecisionCompound": "mixed"}.get(self.kind, "chain"))(u, x, d, lr, m)

    def vector(self, u, x, d, lr, m):
        n = self.counts(u, lr, np.mean([self.gran(k) for k in range(self.nd)]), x, d)
        pol = self.par.update_policy.value
        if pol == "SingleSequential":
            self.cur = (self.cur + 1) % self.nd
        if n.any():
            self.events.add("policy")
        for k in range(self.nd) if pol == "All" else [self.cur]:
            self.pulses(k, n)

    def onesided(self, u, x, d, lr, m):
        n = self.counts(u, lr, np.mean([self.gran(k) for k in range(2)]), x, d)
        self.pulses(1, np.maximum(n, 0))
        self.pulses(0, np.maximum(-n, 0))
        self.idx += 1
        every = self.par.refresh_every * (m if self.par.units_in_mbatch else 1)
        if every <= 0 or self.idx % every:
            return
        ut, lt, wmax = self.par.refresh_upper_thres, self.par.refresh_lower_thres, abs(self.devs[0].w_max)
        r = self.spec["refresh_update"]
        for j in range(self.W[0].shape[1]):
            wp, wm = self.W[1][:, j], self.W[0][:, j]
            hi, lo = np.maximum(wp, wm) / wmax, np.minimum(wp, wm) / wmax
            if np.any(np.abs(hi - ut) < 1e-5) or np.any(np.abs(lo - lt) < 1e-5) or np.any(np.abs(wp - wm) < 1e-6):
                self.ambiguous = True
            sel = (hi > ut) & (lo > lt)
            if not sel.any():
                continue
            self.events.add("refresh")
            diff = wp - wm
            for k, v in ((1, np.maximum(diff, 0) * sel), (0, np.maximum(-diff, 0) * sel)):
                h = self.hp[k]
                w = self.W[k].copy()
                w[sel, j] = np.clip(h["reset_bias"], h["min_bound"], h["max_bound"])[sel, j]
                self.W[k] = w
            for k, v in ((1, np.maximum(diff, 0) * sel), (0, np.maximum(-diff, 0) * sel)):
                if v.any():
                    self.pulses(k, self.counts(r, -1.0, self.gran(k), np.eye(self.W[0].shape[1])[j], v))

    def mixed(self, u, x, d, lr, m):
        def q(v, bins):
            if bins <= 0:
                return v
            half = bins // 2
            w = np.abs(v).max() / half
            try:
                return v if w == 0 else np.clip(P08.rint(v / w), -half, half) * w
            except Skip:
                self.ambiguous = True
                return v
        p = self.par
        self.chi = self.chi + lr * np.outer(q(np.asarray(d, float), p.n_d_bins), q(np.asarray(x, float), p.n_x_bins))
        every = p.transfer_every * m
        if self.idx > 0 and self.idx % every == 0:
            g = f32(p.granularity) if p.granularity > 0 else self.gran(0)
            rows = self.W[0].shape[0]
            nr = rows if p.n_rows_per_transfer < 0 else min(p.n_rows_per_transfer, rows)
            uu = dict(u, update_management=True, update_bl_management=True)
            for i in range(nr):
                r = (self.row + i) % rows
                n = self.trunc(self.chi[r] / g)
                self.chi[r] = self.chi[r] - n * g
                if n.any():
                    self.events.add("transfer")
                self.pulses(0, self.counts(uu, f32(g * p.transfer_lr), self.gran(0), n, np.eye(rows)[r]))
            self.row = (self.row + nr) % rows
        self.idx += 1

    # --- transfer compounds
    def chop(self):
        c = np.outer(self.out_chop, self.in_chop)
        return c if self.cols else c.T

    def chain(self, u, x, d, lr, m):
        p, g = self.par, self.gran(0)
        chopped = self.kind in CHOPPED
        base = (p.fast_lr * lr if p.scale_fast_lr else p.fast_lr) if p.fast_lr > 0 else lr
        if chopped:
            if p.auto_scale:
                for k, v in (("mx", np.abs(x).max()), ("md", np.abs(d).max())):
                    o = getattr(self, k)
                    tau = (1 - p.auto_momentum) / m
                    setattr(self, k, v if o <= 0 else (o if v <= 0 else (1 - tau) * o + tau * v))
                if p.fast_lr > 0:
                    base *= u["desired_bl"] * g
                    if self.mx > 0 and self.md > 0:
                        base /= self.mx * self.md
            self.count_lr = base
        self.pulses(0, self.counts(u, base, g, x, d) * (self.chop() if chopped else 1.0))
        self.idx += 1
        for j in range(self.nd):
            e = self.every[j]
            if p.units_in_mbatch:
                if abs(e * m - round(e * m)) < 1e-4 and e * m != round(e * m):
                    raise Skip()
                e = math.ceil(e * m)
            else:
                e = math.floor(e + 0.5)
            if e > 0 and self.idx % e == 0:
                self.transfer(min(j + 1, self.nd - 1), j, lr)

    def transfer(self, to, frm, lr):
        tlr = self.lrs[frm] * (lr if self.par.scale_transfer_lr else 1.0)
        if self.kind != "TransferCompound" and self.gamma[to] > 0 and self.gamma[frm] > 0:
            tlr *= self.gamma[frm] / self.gamma[to]
        s = self.slice[frm]
        for i in range(self.n_reads):
            if tlr and to != frm:
                self.events.add("transfer")
                self.read((s + i) % self.n_in, to, frm, tlr)
        self.slice[frm] = (s + self.n_reads) % self.n_in

    def read(self, s, to, frm, lr):
        p, u = self.par, self.spec["transfer_update"]
        one = np.eye(self.n_in)[s]
        v = self.W[frm][:, s] if self.cols else self.W[frm][s, :]
        v = v.copy()

        def write(vec, wlr):           # W += wlr * vec (at the slice)
            if self.cols:
                self.write(to, u, wlr, one, -vec)
            else:
                self.write(to, u, wlr, -vec, one)
        if self.kind == "TransferCompound":
            if p.with_reset_prob and self.cols:
                h = self.hp[frm]
                w = self.W[frm].copy()
                w[:, s] = np.clip(h["reset_bias"], h["min_bound"], h["max_bound"])[:, s]
                self.W[frm] = w
                self.events.add("reset")
            write(v, lr)
            return
        b = self.buf[frm]
        sl = (slice(None), s) if self.cols else (s, slice(None))
        bl, gt = u["desired_bl"], self.gran(to)
        mom = min(max(p.momentum, 0.0), 1.0)
        if self.kind == "BufferedTransferCompound":
            unit = p.thres_scale * gt
            om = b[sl] + v * abs(lr)
            n = np.clip(self.trunc(om / unit), -bl, bl)
        else:
            gf = self.gran(0)
            unit = 1.0
            bg = (p.buffer_granularity if p.buffer_granularity > 0 else 1.0) * gf
            if p.auto_granularity > 0:
                bg *= p.auto_granularity / (self.n_in * abs(p.transfer_every))
            scale = abs(lr) / bg
            if p.correct_gradient_magnitudes:
                scale = abs(lr) / self.count_lr / (bg * gt / gf)
            if self.kind == "DynamicTransferCompound":
                self.dynamic(s, sl, v, scale, mom, bl, gf, gt, write)
                return
            om = (0.0 if p.no_buffer else b[sl]) + v * scale * self.in_chop[s] * self.out_chop
            n = np.clip(self.trunc(om), -bl, bl)
        b[sl] = np.where(n != 0, om * p.momentum if p.forget_buffer else om - (1 - mom) * n * unit, om)
        if n.any():
            self.events.add("write")
            write(n, f32(p.step * gt))
        if self.kind == "ChoppedTransferCompound":
            if p.in_chop_prob > 0:
                per = 1 if p.in_chop_random else max(math.ceil(1 / p.in_chop_prob), 2)
                if self.chop_counter % per == per - 1:
                    self.in_chop[s] *= -1
                    self.events.add("chop")
            if s == self.n_in - 1:
                if p.out_chop_prob > 0:
                    self.out_chop = -self.out_chop
                self.chop_counter += 1

    def dynamic(self, s, sl, v, scale, mom, bl, gf, gt, write):
        """Difference to the mean of the last chopper period; no writes before a reference is known."""
        p, b = self.par, self.buf[0]
        period = max(math.ceil(1 / p.in_chop_prob), 2)
        sample = self.chop_counter % period + 1
        if p.experimental_correct_accumulation:
            scale /= min(sample, 1 / gf)
        if self.switched[s]:
            self.past[sl] = self.mean[sl]
        beta = min(p.tail_weightening / period, 1.0)
        om = b[sl] + (v - self.past[sl]) * self.in_chop[s] * scale
        n = np.clip(self.trunc(om), -bl, bl)
        rest = om - (1 - mom) * n
        if p.buffer_cap > 0:
            rest = np.clip(rest, -bl * p.buffer_cap, bl * p.buffer_cap)
        b[sl] = np.where(n != 0, om * p.momentum if p.forget_buffer else rest, om)
        self.mean[sl] = (1 - beta) * self.mean[sl] + beta * v
        if n.any() and self.chop_counter > period:
            self.events.add("write")
            write(n, f32(p.step * gt))
        self.switched[s] = sample == period or (p.in_chop_random and p.in_chop_prob == 1.0)
        if self.switched[s]:
            self.in_chop[s] *= -1
            self.events.add("chop")
        if s == self.n_in - 1:
            self.chop_counter += 1

    def visible(self):
        if self.kind == "MixedPrecisionCompound":
            return self.W[0]
        a = [w for w in self.W]
        if self.kind in CHOPPED:
            a[0] = a[0] * self.chop()
        return sum(g * w for g, w in zip(self.gamma, a))

    def compare(self, where):
        want, vis, wb = [w.copy() for w in self.W], self.visible(), None
        chi = self.chi.copy() if self.kind == "MixedPrecisionCompound" else None
        buf = [b.copy() if b is not None else None for b in getattr(self, "buf", [])]
        means = [self.mean.copy(), self.past.copy()] if hasattr(self, "mean") else None
        self.sync()
        if self.ambiguous:
            self.ambiguous = False
            return

        def chk(got, exp, what, scale=1.0):
            bad = ~(np.abs(got - exp) <= 3e-5 * scale + 1e-4 * np.abs(exp))
            if bad.any():
                i = tuple(int(v) for v in np.argwhere(bad)[0])
                require(False, f"{self.kind}, {where}: {what} at {i} is {got[i]:.6g}, expected {exp[i]:.6g}")
        for k in range(self.nd):
            chk(self.W[k], want[k], f"hidden weight of device {k}")
        for k, b in enumerate(buf):
            if b is not None and not (self.kind == "ChoppedTransferCompound" and self.par.no_buffer):
                chk(self.buf[k], b, f"digital buffer {k}", 1.0 + np.abs(b).max())
        if means:
            chk(self.mean, means[0], "running mean")
            chk(self.past, means[1], "mean of the last chopper period")
        if chi is not None:
            chk(self.chi, chi, "digital weight matrix chi")
        chk(self.vis, vis, "visible weight", 2.0)


def check(c, rec):
    dev = dict(c["dev"], construction_seed=1 + c["seed"] % 10000)
    rpu = cfg.config({"kind": "digrank" if dev["cls"] == "MixedPrecisionCompound" else "unit", "device": dev, "update": c["up"],
                      "mapping": {"weight_scaling_omega": 0.0, "digital_bias": False, "learn_out_scaling": False}})
    d, x = c["n"]
    t = rpu.tile_class(d, x, rpu, bias=False)
    t.tile.set_weights(cfg.ten(c["w"], [d, x]))
    m = Model(c, t, rpu)
    if dev["cls"] == "OneSidedUnitCell" and c["dev"]["copy_inverted"]:
        inverted(m)
    done = set()
    for i, op in enumerate(c["ops"]):
        where = f"step {i} ({op['op']})"
        if op["op"] == "update":
            xs = [v[:x] for v in op["x"]]
            ds = [v[:d] for v in op["d"][:len(xs)]]
            t.tile.set_learning_rate(op["lr"])
            t.tile.update(torch.tensor(xs), torch.tensor(ds), False)
            for xv, dv in zip(xs, ds):
                m.update(np.float32(xv).astype(float), np.float32(dv).astype(float), f32(op["lr"]), len(xs))
            if m.ambiguous:
                rec.label("ambiguous")
                m.events = {e for e in m.events if e in done}
            done |= m.events
            m.compare(where)
        elif op["op"] == "set":
            if c["dev"]["cls"] in CHOPPED:
                continue
            t.tile.set_weights(cfg.ten(op["w"], [d, x]))
            cur = m.cur
            m.idx, m.slice, m.row = 0, [0] * m.nd, 0
            if c["dev"]["cls"] == "VectorUnitCell" and c["dev"]["update_policy"] != "SingleFixed":
                cur = c["dev"]["first_update_idx"]
            m.cur = cur
            m.sync()
        elif op["op"] == "hidden":
            hp = t.get_hidden_parameters()
            names = [k for k in hp if "hidden_weights" in k]
            for k in names:
                w = cfg.ten(op["w"], [d, x])
                if c["dev"]["cls"] == "OneSidedUnitCell":
                    w = w.abs()
                n = int(k[-1]) if k[-1].isdigit() else 0
                h = m.hp[n]
                r = torch.tensor(h["reference"], dtype=torch.float32) if "reference" in h else 0.0
                hp[k] = w * 0.01 if k.endswith("chi") else torch.min(torch.max(w * (1 + 0.3 * n), torch.tensor(h["min_bound"], dtype=torch.float32) - r),
                                                                     torch.tensor(h["max_bound"], dtype=torch.float32) - r)
            t.set_hidden_parameters(hp)
            m.sync()
        elif op["op"] == "idx" and c["dev"]["cls"] in ("VectorUnitCell", "ReferenceUnitCell") and op["i"] < m.nd:
            t.set_hidden_update_index(op["i"])
            m.cur = op["i"]
    if c["dev"]["cls"] == "VectorUnitCell":
        require(t.get_hidden_update_index() == m.cur, f"update index {t.get_hidden_update_index()}, expected {m.cur}")
    rec.label(c["dev"]["cls"], *sorted(m.events))
    rec.hit(bool(m.events))


def inverted(m):
    """copy_inverted: the second device is the mirrored first one."""
    a, b = m.hp
    for k, v in (("max_bound", -a["min_bound"]), ("min_bound", -a["max_bound"]), ("dwmin_up", a["dwmin_down"]), ("dwmin_down", a["dwmin_up"])):
        require(np.allclose(b[k], v, atol=1e-7), f"copy_inverted: {k} of the second device is {b[k].tolist()}, expected {v.tolist()} (mirrored first one)")
    for k, v in (("slope_up", "slope_down"), ("slope_down", "slope_up")):
        if k in a:
            require(np.allclose(b[k], -a[v], atol=1e-7), f"copy_inverted: {k} is {b[k].tolist()}")
    for k, v in (("gamma_up", "gamma_down"), ("gamma_down", "gamma_up")):
        if k in a:
            require(np.allclose(b[k], a[v], atol=1e-7), f"copy_inverted: {k} is {b[k].tolist()}")


# ---- random selection of devices and slices

@st.composite
def random_cases(draw):
    kind = draw(st.sampled_from(["transfer", "transfer", "vector", "mixed"]))
    return {"kind": kind, "n": draw(st.integers(2, 5)), "cols": draw(st.booleans()), "reads": draw(st.sampled_from([1, 1, 2])),
            "buffered": draw(st.booleans()), "seed": draw(gen.seeds)}


def check_random(c, rec):
    n, dev = c["n"], {"cls": "ConstantStepDevice", "dw_min": 0.001, "dw_min_dtod": 0.0, "dw_min_std": 0.0, "up_down_dtod": 0.0, "w_max": 100.0,
                      "w_min": -100.0, "w_max_dtod": 0.0, "w_min_dtod": 0.0}
    seed = 1 + c["seed"] % 100000
    maps = {"weight_scaling_omega": 0.0, "digital_bias": False, "learn_out_scaling": False}
    up = {"pulse_type": "DeterministicImplicit", "desired_bl": 10, "update_management": False, "update_bl_management": False, "fixed_bl": True}
    total = 1000

    def tile(kind, d, d_size, x_size):
        rpu = cfg.config({"kind": kind, "device": dict(d, construction_seed=seed), "update": up, "mapping": maps})
        t = rpu.tile_class(d_size, x_size, rpu, bias=False)
        t.tile.set_weights(torch.zeros(d_size, x_size))
        t.tile.set_learning_rate(0.01)
        return t
    if c["kind"] == "vector":
        t = tile("unit", {"cls": "VectorUnitCell", "unit_cell_devices": [dict(dev) for _ in range(n)], "update_policy": "SingleRandom"}, 1, 1)
        for _ in range(total):
            t.tile.update(torch.ones(1, 1), torch.full((1, 1), -0.1), False)
        hp = t.get_hidden_parameters()
        counts = np.array([float(hp[f"hidden_weights_{k}"][0, 0]) for k in range(n)]) / 0.001
        require(abs(counts.sum() - total) < 2, f"{total} single pulses of randomly selected devices added up to {counts.sum():.2f}")
    elif c["kind"] == "transfer":
        name = "BufferedTransferCompound" if c["buffered"] else "TransferCompound"
        e = {"cls": name, "unit_cell_devices": [dict(dev), dict(dev)], "random_selection": True, "transfer_every": 1.0, "transfer_columns": c["cols"],
             "transfer_forward": {"is_perfect": True}, "transfer_lr": 1.0, "scale_transfer_lr": False, "n_reads_per_transfer": c["reads"],
             "transfer_update": dict(up)}
        if c["buffered"]:
            e |= {"thres_scale": 1.0, "momentum": 0.0, "step": 1.0}
        t = tile("unit", e, *((1, n) if c["cols"] else (n, 1)))
        hp = t.get_hidden_parameters()
        hp["hidden_weights_0"] = hp["hidden_weights_0"] * 0 + (0.00125 if c["buffered"] else 0.01)
        t.set_hidden_parameters(hp)
        x, d = torch.zeros(1, n if c["cols"] else 1), torch.zeros(1, 1 if c["cols"] else n)
        for _ in range(total):
            t.tile.update(x, d, False)
        w = npy(t.get_hidden_parameters()["hidden_weights_1"]).ravel().astype(float)
        counts = w / w.sum() * total * c["reads"]
    else:
        t = tile("digrank", {"cls": "MixedPrecisionCompound", "device": dict(dev), "random_row": True, "n_rows_per_transfer": 1,
                             "transfer_every": 1, "granularity": 0.001, "n_x_bins": 0, "n_d_bins": 0}, n, 1)
        hp = t.get_hidden_parameters()
        hp["hidden_weights_chi"] = hp["hidden_weights_chi"] * 0 + 0.0015 * 1000
        t.set_hidden_parameters(hp)
        counts, first = np.zeros(n), True
        for _ in range(total):
            t.tile.update(torch.zeros(1, 1), torch.zeros(1, n), False)
            hp = t.get_hidden_parameters()
            sel = npy(hp["hidden_weights_chi"]).ravel() < 1.0
            require(sel.sum() == (0 if first else 1), f"{sel.sum()} rows transferred at once")
            counts, first = counts + sel, False
            if sel.any():
                hp["hidden_weights_chi"] = hp["hidden_weights_chi"] * 0 + 1.5
                t.set_hidden_parameters(hp)
    m = counts.sum() / n
    chi2 = float(((counts - m) ** 2).sum() / m)
    rec.hit(True)
    rec.label(c["kind"])
    require(m > 0, "nothing selected")
    # (beyond 1e-9 for a uniform choice)
    require(chi2 < (n - 1) + 2 * math.sqrt((n - 1) * 21) + 2 * 21,
            f"{c['kind']}: random choice of {n} {'devices' if c['kind'] == 'vector' else 'slices'} is not uniform: counts {np.round(counts, 1).tolist()}")


class TorchModel(Model):
    """The python implementation (one transfer after each mini-batch at most); also the dynamic (AGAD) compound."""

    def __init__(self, c, tile, rpu):
        self.pos, self.switched = 0, None
        super().__init__(c, tile, rpu)
        self.dyn = self.kind == "DynamicTransferCompound"

    def sync(self):
        hp = {k: npy(v) for k, v in self.tile.get_hidden_parameters().items()}
        self.vis = npy(self.tile.get_weights(apply_weight_scaling=False)[0])
        self.hp = [{k[:-2]: v for k, v in hp.items() if k.endswith(f"_{i}")} for i in range(2)]
        self.W = [hp["fast_weight"].copy(), hp["slow_weight"].copy()]
        self.buf = [hp["hidden_weight"].copy()]
        self.past, self.ref = (hp[k].copy() if k in hp else None for k in ("past_mean_weight", "reference_weight"))

    def pulses(self, k, n, w=None):
        if np.abs(n).max(initial=0) > 100:         # (auto_scale starts with huge learning rates: rounding errors add up)
            self.ambiguous = True
        else:
            super().pulses(k, n, w)

    def batch(self, xs, ds, lr):
        p, g, u = self.par, self.gran(0), self.c["up"]
        m = len(xs)
        fast = p.fast_lr
        if p.auto_scale:
            fast *= u["desired_bl"] * g
            tau = (1 - p.auto_momentum) / m
            self.mx = (1 - tau) * self.mx + tau * float(np.abs(xs).max())
            self.md = (1 - tau) * self.md + tau * float(np.abs(ds).max())
            if self.mx > 0 and self.md > 0:
                fast /= self.mx * self.md
        for x, d in zip(xs, ds):
            n = self.counts(u, fast, g, x, d) * (np.ones((len(d), 1)) * self.in_chop if self.cols else self.in_chop[:, None])
            self.pulses(0, n)
        before = self.idx
        self.idx += m
        every = math.ceil(p.transfer_every * m) if p.units_in_mbatch else math.ceil(p.transfer_every)
        if self.idx // every == before // every:
            return
        self.events.add("transfer")
        bg = (p.buffer_granularity if p.buffer_granularity > 0 else 1.0) * g
        if p.auto_granularity > 0:
            bg *= p.auto_granularity / (self.n_in * every)
        if p.correct_gradient_magnitudes:
            scale = lr / fast / (bg * self.gran(1) / g)
        else:
            scale = lr / bg
        self.pos = s = (self.pos + 1) % self.n_in          # all slices in turn
        sl = (slice(None), s) if self.cols else (s, slice(None))
        v = self.W[0][sl].copy()
        per = max(int(round(1.0 / p.in_chop_prob)), 1) if p.in_chop_prob > 0 else 1
        b, bl = self.buf[0], self.spec["transfer_update"]["desired_bl"]
        om = b[sl] + scale * self.in_chop[s] * (v - (self.ref[sl] if self.dyn else 0.0))
        if self.dyn:
            beta = min(p.tail_weightening / per, 1)
            self.past[sl] = (1 - beta) * self.past[sl] + beta * v
        n = np.clip(self.trunc(om), -bl, bl)
        b[sl] = np.where(n != 0, om * p.momentum if p.forget_buffer else om - (1 - p.momentum) * n, om)
        switch = False
        if p.in_chop_prob > 0:
            if s == 0 and not p.in_chop_random:
                self.chop_counter = (self.chop_counter + 1) % per
            switch = True if p.in_chop_random else self.chop_counter == 0
        if n.any():
            self.events.add("write")
            one = np.eye(self.n_in)[s]
            lw = f32(p.step * self.gran(1))
            self.write(1, self.spec["transfer_update"], lw, one, -n) if self.cols else self.write(1, self.spec["transfer_update"], lw, -n, one)
        if switch:
            self.events.add("chop")
            self.in_chop[s] *= -1
            if self.dyn:
                self.ref[sl] = self.past[sl]

    def forget(self):
        """F106: a state dictionary has the buffers and the tiles only (copied, as models share the history)."""
        self.idx = self.pos = self.chop_counter = 0
        self.mx = self.md = 0.0
        self.in_chop, self.W, self.buf = self.in_chop.copy(), [w.copy() for w in self.W], [b.copy() for b in self.buf]
        if self.dyn:
            self.past, self.ref = self.past.copy(), self.ref.copy()

    def visible(self):
        return self.W[1]

    def compare(self, where):
        past, ref, amb = self.past, self.ref, self.ambiguous
        super().compare(where)
        if self.dyn and not amb:
            for got, exp, what in ((self.past, past, "mean of the past reads"), (self.ref, ref, "reference of the reads")):
                require(np.all(np.abs(got - exp) <= 3e-5 + 1e-4 * np.abs(exp)), lambda: f"{self.kind}, {where}: {what} is {got.tolist()}, expected {exp.tolist()}")


@st.composite
def torch_cases(draw):
    dyn = draw(st.booleans())
    c = {"cls": "DynamicTransferCompound" if dyn else "ChoppedTransferCompound", "unit_cell_devices": [draw(single()) for _ in range(2)]}
    c["units_in_mbatch"] = draw(st.booleans())
    c["transfer_every"] = draw(st.sampled_from([1.0, 2.0, 3.0, 1.5] if c["units_in_mbatch"] else [3.0, 3.0, 4.0, 5.0, 2.5]))
    c["transfer_columns"] = draw(st.booleans())
    c["fast_lr"] = draw(st.sampled_from([1.03, 0.53, 0.11]))
    c["transfer_forward"] = {"is_perfect": True}
    c["transfer_update"] = draw(upd())
    c["momentum"] = draw(st.sampled_from([0.1, 0.0, 0.9, 1.0]))
    c["step"], c["forget_buffer"] = draw(st.sampled_from([1.0, 1.93, 0.57])), draw(st.booleans())
    c["in_chop_random"] = draw(st.booleans())
    c["in_chop_prob"] = draw(st.sampled_from([0.0, 1.0] if c["in_chop_random"] else [0.0, 1.0, 0.5, 0.25]))
    c["buffer_granularity"] = draw(st.sampled_from([1.0, 0.2, 5.0]))
    c["auto_granularity"] = draw(st.sampled_from([0.0, 0.0, 5.0]))
    c["auto_scale"], c["auto_momentum"] = draw(st.booleans()), draw(st.sampled_from([0.99, 0.5, 0.0]))
    c["correct_gradient_magnitudes"] = draw(st.booleans())
    for d in c["unit_cell_devices"]:
        if d["cls"] == "SoftBoundsReferenceDevice":       # finding F82 (of P06): set_weights clips without the reference
            d["reference_mean"], d["reference_std"], d["subtract_symmetry_point"] = 0.0, 0.0, False
    if dyn:
        c["tail_weightening"] = draw(st.sampled_from([5.0, 1.0, 0.5]))
    op = st.one_of(
        st.fixed_dictionaries({"op": st.just("update"), "m": st.integers(1, 3), "x": st.lists(VEC, min_size=3, max_size=3), "d": st.lists(VEC, min_size=3, max_size=3),
                               "lr": st.sampled_from([0.107, 0.531, 0.0213]), "rep": st.integers(1, 6)}),
        st.fixed_dictionaries({"op": st.sampled_from(["hidden", "set"]), "w": gen.data(None, (0.3, 1.0))}),
        st.fixed_dictionaries({"op": st.just("state"), "how": st.sampled_from(["state_dict", "deepcopy", "pickle", "hidden"])}))
    return {"dev": c, "up": draw(upd()), "n": [draw(st.integers(1, 4)), draw(st.integers(1, 4))], "seed": draw(gen.seeds), "w": draw(gen.data(None, (0.3, 0.1))),
            "m": draw(st.integers(0, 3)), "ops": draw(st.lists(op, min_size=2, max_size=6))}


def check_torch(c, rec):
    rpu = cfg.config({"kind": "unit", "device": c["dev"], "update": c["up"],
                      "mapping": {"weight_scaling_omega": 0.0, "digital_bias": False, "learn_out_scaling": False}})
    for i, dev in enumerate(rpu.device.unit_cell_devices):
        dev.construction_seed = 1 + (c["seed"] + i) % 10000
    rpu.tile_class = TorchTransferTile
    d, x = c["n"]
    layer = AnalogLinear(x, d, False, rpu)
    t = layer.analog_module
    t.set_weights(cfg.ten(c["w"], [d, x]))
    models = [TorchModel(c, t, rpu)]        # (the first one: nothing is forgotten; after loading a state dictionary also F106)
    done = set()

    def compare(where):
        errors = []
        for m in list(models):
            try:
                m.compare(where)
            except Violation as exc:
                errors.append((m, exc))
        if len(errors) == len(models):
            raise errors[0][1]
        for m, exc in errors:
            if m is models[0]:
                rec.known.append(("F106", str(exc)))
            models.remove(m)

    for i, op in enumerate(c["ops"]):
        where = f"step {i} ({op['op']})"
        if op["op"] == "update":
            mb = c["m"] or op["m"]
            for r in range(op["rep"]):
                xs = np.array([np.roll(v, r)[:x] for v in op["x"][:mb]], dtype=np.float32)
                ds = np.array([v[:d] for v in op["d"][:mb]], dtype=np.float32)
                tx, td = torch.from_numpy(xs.copy()), torch.from_numpy(ds.copy())
                t.tile.set_learning_rate(op["lr"])
                m = models[0]
                every = m.par.transfer_every * (mb if m.par.units_in_mbatch else 1)
                if any(((m.idx % math.ceil(every)) + mb) >= 2 * math.ceil(every) for m in models):
                    rec.label("multiple")
                    return                 # (documented to be refused)
                t.tile.update(tx, td, False)
                require(np.array_equal(tx.numpy(), xs) and np.array_equal(td.numpy(), ds), f"{where}: the update changes its operands")
                for m in models:
                    m.batch(xs.astype(float), ds.astype(float), op["lr"])
                    if m.ambiguous:
                        rec.label("ambiguous")
                    else:
                        done |= m.events
                compare(where)
        elif op["op"] == "set":
            t.set_weights(cfg.ten(op["w"], [d, x]))
            for m in models:
                m.sync()
        elif op["op"] == "hidden":
            hp, m = t.get_hidden_parameters(), models[0]
            for k, h, f in (("fast_weight", m.hp[0], 1.0), ("slow_weight", m.hp[1], 1.3)):
                w = cfg.ten(op["w"], [d, x]) * f
                lo, hi = (torch.tensor(h[b], dtype=torch.float32) for b in ("min_bound", "max_bound"))
                hp[k] = torch.min(torch.max(w, lo), hi)
            hp["hidden_weight"] = cfg.ten(op["w"], [d, x]).flip(0)
            t.set_hidden_parameters(hp)
            got = t.get_hidden_parameters()
            for k, v in hp.items():
                require(np.allclose(npy(got[k]), npy(v), atol=1e-6), f"{where}: hidden parameter {k} is {got[k].tolist()} after setting {v.tolist()}")
            for m in models:
                m.sync()
        else:
            rec.label(op["how"])
            if op["how"] == "deepcopy":
                layer = copy.deepcopy(layer)
            elif op["how"] == "pickle":
                layer = pickle.loads(pickle.dumps(layer))
            elif op["how"] == "state_dict":
                buf = io.BytesIO()
                torch.save(layer.state_dict(), buf)
                buf.seek(0)
                layer = AnalogLinear(x, d, False, copy.deepcopy(rpu))
                layer.load_state_dict(torch.load(buf, weights_only=False))
            else:
                t.set_hidden_parameters(t.get_hidden_parameters())
            t = layer.analog_module
            if op["how"] == "state_dict":
                models.append(copy.copy(models[0]))
                models[-1].forget()
            for m in models:
                m.tile = t
            compare(where)
    rec.label(c["dev"]["cls"], *sorted(done))
    rec.hit(bool(done))


LANES = [Lane("history", cases(), check, quick=2500, thorough=60000),
         Lane("torch", torch_cases(), check_torch, quick=300, thorough=12000),
         Lane("random", random_cases(), check_random, quick=20, thorough=800)]
