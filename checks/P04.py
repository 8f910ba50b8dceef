"""P04: the noise of the analog MVM has the documented distribution, drawn independently for every MVM and output."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import cfg, gen
from vlib.core import Lane, Skip
from vlib.iomodel import INF, Io, nm_value
from vlib.stats import mean_std, same_dist, uncorrelated
from vlib.util import close, npy, require

PROPERTY = "P04"
RULE = ("cases: a tile (C++ or torch) with drawn weights and IO parameters containing input, output or weight noise or stochastic rounding, one drawn "
        "input (or output gradient) repeated thousands of times in batches, in training or evaluation mode, also in histories with other calls between; "
        "per output the sample is compared with a simulation of the documented pipeline (Kolmogorov-Smirnov, mean and variance, covariance of outputs), "
        "successive samples and calls are uncorrelated. Systematic variations are drawn per tile with the documented distribution and stay. "
        "Non-trivial: the documented noise of an output is not zero.")
N, NREF = 6000, 40000


@st.composite
def io_strategy(draw, torch_tile, backward):
    res = st.sampled_from([-1.0, -1.0, 1 / 126, 0.25, 14.0, 6.0])
    bm = "None" if torch_tile or backward else draw(st.sampled_from(["None", "Iterative"]))
    # (with bound management neither the bound nor halved inputs lie at or half way between quantisation levels, where a rounding would decide)
    ores = res if bm == "None" else st.sampled_from([-1.0, -1.0, 1 / 125, 0.22, 13.0, 5.0])
    io = {"is_perfect": False, "inp_res": draw(res if bm == "None" else st.sampled_from([-1.0, 1 / 127.3, 0.15, 13.3])), "out_res": draw(ores), "inp_noise": draw(st.sampled_from([0.0, 0.0, 0.1, 0.02, 0.5])),
          "out_noise": draw(st.sampled_from([0.0, 0.06, 0.3, 1.0])), "inp_sto_round": draw(st.booleans()), "out_sto_round": draw(st.booleans()),
          "out_bound": draw(st.sampled_from([12.0, 0.0, 3.0, 1.0])), "noise_management": draw(st.sampled_from(["AbsMax", "None", "Constant", "AbsMax"])),
          "bound_management": bm,
          "out_scale": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])), "out_asymmetry": draw(st.sampled_from([0.0, 0.0, 0.2])),
          "nm_thres": draw(st.sampled_from([0.0, 0.0, 0.7])), "out_noise_std": draw(st.sampled_from([0.0, 0.0, 0.3]))}
    if not torch_tile:
        io["mv_type"] = draw(st.sampled_from(["OnePass", "OnePass", "PosNegSeparate", "PosNegSeparateDigitalSum"]))
        io["inp_asymmetry"] = draw(st.sampled_from([0.0, 0.0, 0.1]))
        io["w_noise_type"] = draw(st.sampled_from(["None", "AdditiveConstant", "PCMRead"]))
        io["w_noise"] = draw(st.sampled_from([0.0, 0.02, 0.2]))
    return io


@st.composite
def cases(draw, torch_tile, backward=False):
    return {"io": draw(io_strategy(torch_tile, backward)), "kind": "torch" if torch_tile else draw(st.sampled_from(["single", "inference"])),
            "n_in": draw(st.sampled_from([1, 2, 3, 6])), "n_out": draw(st.sampled_from([1, 2, 3])), "w": draw(gen.data(None, (0.3, 1.0, 0.1))),
            "x": draw(gen.data(None, (1.0, 0.3, 3.0))), "sparse": draw(st.booleans()), "zero": draw(st.integers(0, 9).map(lambda v: v == 9)),
            "backward": backward, "train": draw(st.booleans()), "calls": draw(st.sampled_from([1, 2, 3])), "between": draw(st.booleans()),
            "shape": draw(st.sampled_from([None, 2, 10, -2])) if torch_tile else None, "seed": draw(gen.seeds)}


def sto(v, res, on, rng):
    if res <= 0:
        return v
    q = v / res
    return (np.rint(q + rng.uniform(-0.5, 0.5, q.shape)) if on else np.rint(q)) * res


def simulate(W, x, io, p, n, rng):
    """n samples of the documented noisy MVM W x (W: out x in)."""
    nmv = nm_value(x, io, io.nm)
    if io.nm != "None" and nmv <= 0 and (io.inp_noise <= 0 or io.backward):
        return np.zeros((n, len(W)))
    nmv = nmv if nmv > 0 else 1.0
    out, active, red, rounds = np.zeros((n, len(W))), np.ones(n, bool), 0.5, 0
    while active.any():
        red *= 2.0
        rounds += 1
        k = int(active.sum())
        scale = 1.0 / nmv / (red if io.bm != "None" else 1.0)
        if io.ir > 0 and not p.inp_sto_round and np.any(np.abs(np.abs(x * scale / io.ir) % 1.0 - 0.5) < 1e-3):
            raise Skip()            # floating point decides the rounding
        v = sto(np.tile(x * scale, (k, 1)), io.ir, p.inp_sto_round, rng)
        v = np.clip(v, -io.ib, io.ib) + (io.inp_noise * rng.standard_normal(v.shape) if io.inp_noise > 0 else 0.0)
        if io.inp_asym:
            v = np.where(v < 0, v * (1 - io.inp_asym), v)

        def mac(v):
            y = v @ W.T
            if p.w_noise > 0 and p.w_noise_type == "AdditiveConstant":
                y = y + p.w_noise * np.sqrt((v * v).sum(1, keepdims=True)) * rng.standard_normal(y.shape)
            elif p.w_noise > 0 and p.w_noise_type == "PCMRead":
                y = y + p.w_noise * np.sqrt((v * v) @ np.abs(W).T) * rng.standard_normal(y.shape)
            return y

        def final(y):
            if io.out_asym > 0:
                y = np.where(y < 0, y * (1 - io.out_asym), y)
            y = y + p.noise * rng.standard_normal(y.shape)
            if io.orr > 0 and not p.out_sto_round and np.any((np.abs(np.abs(y / io.orr) % 1.0 - 0.5) < 1e-3).all(axis=0)):
                raise Skip()        # floating point decides the rounding
            y = sto(y, io.orr, p.out_sto_round, rng)
            return np.clip(y, -io.ob, io.ob), np.any(np.abs(y) > io.ob, axis=1)
        if io.mv == "OnePass":
            y, fail = final(mac(v))
        elif io.mv == "PosNegSeparate":
            y, fail = final(mac(np.minimum(v, 0)) + mac(np.maximum(v, 0)))
        else:
            (a, fa), (b, fb) = final(mac(np.minimum(v, 0))), final(mac(np.maximum(v, 0)))
            y, fail = a + b, fa | fb
        out[active] = y * io.out_scale / scale
        if io.bm == "None" or int(red) > io.max_factor or (io.ir > 0 and red > io.max_res / io.ir):
            break
        idx = np.flatnonzero(active)
        active[idx[~fail]] = False
    return out


def ranks(v):
    s = np.sort(v)
    return (np.searchsorted(s, v, "left") + np.searchsorted(s, v, "right")) / 2.0


class P:
    pass


def check(c, rec):
    spec = {"kind": c["kind"], "mapping": {"weight_scaling_omega": 0.0, "digital_bias": False, "learn_out_scaling": False}}
    spec["backward" if c["backward"] else "forward"] = c["io"]
    if c["kind"] == "single":
        spec["device"] = {"cls": "IdealDevice"}
    rpu = cfg.config(spec)
    t = rpu.tile_class(c["n_out"], c["n_in"], rpu, bias=False)
    W = cfg.ten(c["w"], (c["n_out"], c["n_in"]))
    t.tile.set_weights(W)
    W = npy(t.tile.get_weights())
    t.train(c["train"])
    pars = rpu.backward if c["backward"] else rpu.forward
    io, p = Io(pars, c["backward"], c["kind"] == "torch"), P()
    p.inp_sto_round, p.out_sto_round = pars.inp_sto_round, pars.out_sto_round
    p.w_noise, p.w_noise_type = getattr(pars, "w_noise", 0.0), pars.w_noise_type.value
    p.noise = pars.out_noise
    M = W.T if c["backward"] else W
    if pars.out_noise_std > 0:
        q = t.get_backward_parameters() if c["backward"] else t.get_forward_parameters()
        require("out_noise_values" in q, "no systematic output noise variation drawn")
        p.noise = np.abs(npy(q["out_noise_values"])).ravel()
        require(len(p.noise) == len(M), f"{len(p.noise)} output noise values for {len(M)} outputs")
    x = npy(cfg.ten(c["x"], (M.shape[1],)))
    if c["sparse"]:
        x = x * (np.arange(len(x)) % 2)
    if c["zero"]:
        x = x * 0.0
    X = torch.tensor(np.tile(x, (N, 1)), dtype=torch.float32)
    if c["kind"] == "torch":
        torch.manual_seed(c["seed"])
    ys = []
    for i in range(c["calls"]):
        xb = X[:N // c["calls"]].clone()
        if c["shape"]:
            xb = xb.reshape((c["shape"], -1) + xb.shape[1:] if c["shape"] > 0 else (2, -c["shape"], -1) + xb.shape[1:])
        ys.append(npy(t.tile.backward(xb, False, False, False, False) if c["backward"] else t.tile.forward(xb, False, False, False, not c["train"], False)).reshape(-1, len(M)))
        if c["between"]:
            z = torch.zeros(2, c["n_in"])
            t.tile.forward(z, False, False, False, True, False)
    ref = simulate(M, x.astype(np.float64), io, p, NREF, np.random.default_rng(c["seed"]))
    compare(np.concatenate(ys), ys, ref, rec)


def compare(y, ys, ref, rec):
    what = "noise"
    require(y.shape[1] == ref.shape[1], f"shape {y.shape}")
    active = False
    for k in range(y.shape[1]):
        same_dist(y[:, k], ref[:, k], f"output {k}", 3e-5)
        s = ref[:, k].std()
        if s > 1e-4 * max(np.abs(ref[:, k]).max(), 1e-6):
            active = True
            f = float(np.mean(((ref[:, k] - ref[:, k].mean()) / s) ** 4))
            if f < 30:
                mean_std(y[:, k], ref[:, k].mean(), s, f"output {k}", fourth=max(f, 1.02), rel=6.5 / np.sqrt(NREF) * max(1.0, np.sqrt(f) / 2))
            if f < 12:
                r = ranks(y[:, k])
                uncorrelated(r[:-1], r[1:], f"successive samples of output {k}")
                if len(ys) > 1:
                    uncorrelated(ranks(ys[0][:, k]), ranks(ys[1][:, k]), f"output {k} of two calls")
    for k in range(y.shape[1]):
        for j in range(k):
            sk, sj = ref[:, k].std(), ref[:, j].std()
            if min(sk, sj) < 1e-4 * max(np.abs(ref).max(), 1e-6) or max(np.mean((ref[:, i] - ref[:, i].mean()) ** 4) / ref[:, i].var() ** 2 for i in (j, k)) > 12:
                continue        # (constant, or dominated by rare events)
            cy = np.mean((y[:, k] - ref[:, k].mean()) * (y[:, j] - ref[:, j].mean())) / sk / sj
            a, b = (ref[:, k] - ref[:, k].mean()) / sk, (ref[:, j] - ref[:, j].mean()) / sj
            cr, sd = np.mean(a * b), np.std(a * b)
            require(abs(cy - cr) <= 7 * sd * (1 / np.sqrt(len(y)) + 1 / np.sqrt(NREF)) + 1e-3, f"correlation of outputs {j} and {k} is {cy:.3f}, expected {cr:.3f}")
    rec.hit(active)
    rec.label(what if active else "deterministic")


# ---- systematic variations

@st.composite
def sys_cases(draw):
    return {"kind": draw(st.sampled_from(["single", "torch", "inference"])), "side": draw(st.sampled_from(["forward", "backward"])),
            "out_noise": draw(st.sampled_from([0.06, 0.5])), "out_noise_std": draw(st.sampled_from([0.0, 0.1, 0.3])),
            "nl": draw(st.sampled_from([0.0, 0.2])), "nl_std": draw(st.sampled_from([0.0, 0.3])), "ob": draw(st.sampled_from([12.0, 2.0, 0.0])),
            "v": draw(st.sampled_from([0.0, 0.1])), "wa": draw(st.sampled_from([0.0, 0.2])), "seed": draw(gen.seeds)}


def check_sys(c, rec):
    io = {"is_perfect": False, "out_noise": c["out_noise"], "out_noise_std": c["out_noise_std"], "out_bound": c["ob"]}
    torch_tile = c["kind"] == "torch"
    side = "forward" if torch_tile else c["side"]
    if not torch_tile:
        io |= {"out_nonlinearity": c["nl"], "out_nonlinearity_std": c["nl_std"], "v_offset_std": c["v"], "w_read_asymmetry_dtod": c["wa"],
               "mv_type": "PosNegSeparate" if c["wa"] else "OnePass"}
    rpu = cfg.config({"kind": c["kind"], "mapping": {"digital_bias": False}, side: io} | ({"device": {"cls": "IdealDevice"}} if c["kind"] == "single" else {}))
    n = 3000
    d, x = (n, 3) if side == "forward" else (3, n)
    torch.manual_seed(c["seed"])
    t = rpu.tile_class(d, x, rpu, bias=False)
    get = t.get_forward_parameters if side == "forward" else t.get_backward_parameters
    q = {k: npy(v).ravel().astype(float) for k, v in get().items() if v is not None}
    if c["out_noise_std"] > 0:
        mean_std(q["out_noise_values"], c["out_noise"], c["out_noise"] * c["out_noise_std"], "output noise values", rel=2e-3, fourth=3.5)
        rec.hit(True)
    if not torch_tile and c["nl"] > 0:
        nl = c["nl"] / (c["ob"] if c["ob"] > 0 else 1.0)
        mean_std(q["out_nonlinearity"], nl, nl * c["nl_std"], "output non-linearity", rel=2e-3, fourth=3.5)
        rec.hit(c["nl_std"] > 0)
    if not torch_tile and c["v"] > 0:
        r = np.maximum(np.random.default_rng(c["seed"]).standard_normal(40000), 0) * c["v"]
        same_dist(q["v_offset"], r, "voltage offsets")
        rec.hit(True)
    if not torch_tile and c["wa"] > 0:
        mean_std(q["w_asymmetry"], 1.0, c["wa"], "read asymmetry of the weights")
        rec.hit(True)
    before = {k: v.copy() for k, v in q.items()}
    w = torch.rand(d, x) - 0.5
    t.tile.set_weights(w)
    t.tile.forward(torch.rand(2, x), False, False, False, True, False)
    for k, v in get().items():
        if v is not None and k in before:
            close(npy(v).ravel(), before[k], f"{k} after an MVM", 0, 0)


LANES = [Lane("cpp", cases(False), check, quick=300, thorough=12000), Lane("torch", cases(True), check, quick=120, thorough=6000),
         Lane("backward", cases(False, True), check, quick=180, thorough=6000), Lane("systematic", sys_cases(), check_sys, quick=60, thorough=2000)]
