"""P10: reading, writing, scaling and programming the weights of a tile."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib import cfg, gen
from vlib.core import Lane
from vlib.util import close, npy, require, same

PROPERTY = "P10"
RULE = ("cases: a tile (floating point, ideal, bounded device, inference C++, torch) with drawn size, bias placement and mapping "
        "configuration, and a history of up to 8 operations (set with / without scaling and omega override, from tensors, numpy "
        "or lists; get scaled / unscaled; set scales as tensor or number; learned scales; remap; realistic read with default or "
        "given inputs; programming from reference or current weights), compared with a model of (normalised weights, mapping "
        "scales, learned scales, bias). Non-trivial: at least two operations that change state.")
KINDS = {
    "fp": {"kind": "fp"},
    "ideal": {"kind": "single", "device": {"cls": "IdealDevice"}, "forward": {"is_perfect": True}, "backward": {"is_perfect": True}},
    "bounded": {"kind": "single", "device": {"cls": "ConstantStepDevice", "w_max_dtod": 0.0, "w_min_dtod": 0.0, "w_max": 0.7, "w_min": -0.8},
                "forward": {"is_perfect": True}, "backward": {"is_perfect": True}},
    "inference": {"kind": "inference", "forward": {"is_perfect": True}},
    "torch": {"kind": "torch", "forward": {"is_perfect": True}},
}
WD = gen.data(["normal", "uniform", "grid", "sparse", "zeros", "const", "outlier"], (0.5, 0.1, 2.0))
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("set"), "w": WD, "apply": st.booleans(), "omega": st.sampled_from([None, None, 0.0, 0.3, 1.0]),
                           "form": st.sampled_from(["tensor", "numpy", "list"])}),
    st.fixed_dictionaries({"op": st.just("scales"), "how": st.sampled_from(["all", "mapping"]),
                           "form": st.sampled_from(["float", "one", "vec", "col"]), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("learned"), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("remap"), "omega": st.sampled_from([1.0, None, 0.5])}),
    st.fixed_dictionaries({"op": st.just("read"), "apply": st.booleans(), "x": st.sampled_from([None, 1, 3])}),
    st.fixed_dictionaries({"op": st.just("program"), "ref": st.booleans(), "x": st.booleans(), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("nudge"), "s": gen.seeds}),
)


@st.composite
def cases(draw):
    return {"kind": draw(st.sampled_from(list(KINDS))), "n_in": draw(st.integers(1, 8)), "n_out": draw(st.integers(1, 6)),
            "bias": draw(st.sampled_from(["none", "digital", "analog"])), "omega": draw(st.sampled_from([0.0, 0.6, 1.0])),
            "cw": draw(st.booleans()), "lrc": draw(st.booleans()), "los": draw(st.booleans()), "ocw": draw(st.booleans()),
            "ir": draw(st.sampled_from([None, None, 0.5, 1.0, 4.0])), "w": draw(WD), "ops": draw(st.lists(OPS, min_size=1, max_size=8)), "train": draw(st.booleans())}


class Model:
    def __init__(self, c):
        self.c, self.W, self.ms, self.al = c, None, np.ones(1), np.ones(1)
        self.b, self.ref = np.zeros(c["n_out"]), None

    def clip(self):
        if self.c["kind"] == "bounded":
            self.W = np.clip(self.W, np.float32(-0.8), np.float32(0.7))

    def set(self, w, b, apply, omega):
        self.ref = None
        if self.c["bias"] == "analog":
            w = np.concatenate([w, b.reshape(-1, 1)], 1)
        elif self.c["bias"] == "digital":
            self.b = b
        omega = self.c["omega"] if omega is None else omega
        if apply and omega > 0:
            m = np.abs(w).max(1) if self.c["cw"] else np.abs(w).max().reshape(1)
            m = np.where(m == 0, omega, m) / omega
            self.ms, self.al = (m if len(m) > 1 or len(self.ms) == 1 else np.full(len(self.ms), m[0])), np.ones(1)
            w = w / m.reshape(-1, 1)
        self.W = w
        self.clip()

    def scale(self):
        return (self.ms * self.al).reshape(-1, 1)

    def logical(self):
        return self.W * self.scale()


def check(c, rec):
    n_in, n_out = c["n_in"], c["n_out"]
    if c["kind"] == "torch" and c["bias"] == "analog":
        c["bias"] = "digital"
    spec = dict(KINDS[c["kind"]])
    spec["mapping"] = {"digital_bias": c["bias"] != "analog", "weight_scaling_omega": c["omega"], "weight_scaling_columnwise": c["cw"],
                       "weight_scaling_lr_compensation": c["lrc"], "learn_out_scaling": c["los"], "out_scaling_columnwise": c["ocw"]}
    if c["bias"] == "analog":
        c["ir"] = None               # F67: the range scales the bias column (P22)
    if c.get("ir"):
        spec["pre_post"] = {"input_range": {"enable": True, "init_value": c["ir"], "init_from_data": 0}}
    rpu = cfg.config(spec)
    tile = rpu.tile_class(n_out, n_in, rpu, bias=c["bias"] != "none")
    tile.train(c["train"])
    m = Model(c)

    def setw(w, apply, omega, form="tensor"):
        wt = cfg.ten(w, (n_out, n_in))
        bt = cfg.ten({"k": "uniform", "s": w["s"] + 1, "m": 0.5}, (n_out,)) if c["bias"] != "none" else None
        m.set(npy(wt), npy(bt) if bt is not None else None, apply, omega)
        conv = {"tensor": lambda t: t, "numpy": lambda t: t.numpy(), "list": lambda t: t.tolist()}[form]
        wa = conv(wt)
        tile.set_weights(wa, None if bt is None else conv(bt), apply_weight_scaling=apply, weight_scaling_omega=omega)
        if form == "tensor":
            wt.fill_(99.0)
            if bt is not None:
                bt.fill_(99.0)
    setw(c["w"], True, None)
    changes, inexact = 1, 0.0
    for i, o in enumerate(c["ops"]):
        what = f"op {i} ({o['op']})"
        if o["op"] == "set":
            setw(o["w"], o["apply"], o["omega"], o["form"])
            inexact = 0.0
            changes += 1
            rec.label("set-" + o["form"], "apply" if o["apply"] else "raw")
        elif o["op"] == "scales":
            r = np.random.RandomState(o["s"])
            if o["form"] == "float":
                v = float(np.float32(r.uniform(0.2, 2.0)))
                arg, mv = v, np.full(len(m.ms), v)
            elif o["form"] == "one":
                v = r.uniform(0.2, 2.0, 1).astype(np.float32)
                arg, mv = torch.from_numpy(v.copy()), np.full(len(m.ms), v[0])
            else:
                v = r.uniform(0.2, 2.0, n_out).astype(np.float32)
                arg, mv = torch.from_numpy(v.copy()), v.astype(np.float64)
                if o["form"] == "col":
                    arg = arg.view(-1, 1)
            m.ms = mv
            if o["how"] == "all":
                m.al = np.ones(1)
                tile.set_scales(arg)
            else:
                tile.set_mapping_scales(arg)
            changes += 1
            rec.label("scales-" + o["form"])
        elif o["op"] == "learned" and c["los"]:
            a = cfg.ten({"k": "pos", "s": o["s"]}, tuple(tile.out_scaling_alpha.shape))
            tile.set_learned_out_scales(a)
            m.al = npy(a).reshape(-1)
            changes += 1
        elif o["op"] == "remap":
            L = m.logical()
            tile.remap_weights(o["omega"])
            w, b = (L[:, :-1], L[:, -1]) if c["bias"] == "analog" else (L, m.b)
            m.set(w, b, True, o["omega"])
            changes += 1
        elif o["op"] == "nudge":
            d = np.random.RandomState(o["s"]).uniform(-0.1, 0.1, m.W.shape)
            m.W = npy(torch.from_numpy(m.W + d).float())
            m.clip()
            tile.tile.set_weights(torch.from_numpy(m.W).float())
            changes += 1
        elif o["op"] == "read":
            x = None
            if o["x"]:
                x = torch.cat([torch.eye(n_in), torch.randn(o["x"] * n_in + 1, n_in)])
            w, b = tile.read_weights(apply_weight_scaling=o["apply"], x_values=x)
            L = m.logical() if o["apply"] else m.W
            require(tile.training == c["train"], "read_weights changed the training mode")
            if c.get("ir"):
                rec.label("read with input range")
            scl = float(np.abs(m.logical()).max() + (np.abs(m.b).max() if c["bias"] == "digital" else 0.0))
            tol = 2e-3 * (scl if o["apply"] else scl / np.abs(m.scale()).min()) + 1e-4
            wr, br = (L[:, :-1], L[:, -1]) if c["bias"] == "analog" else (L, m.b)
            close(w, wr, what + " weight", rtol=0, atol=tol)
            require((b is None) == (c["bias"] == "none"), "bias presence")
            if b is not None:
                close(b, br, what + " bias", rtol=0, atol=tol)
            rec.label("read-x" if o["x"] else "read")
        elif o["op"] == "program" and c["kind"] not in ("torch", "inference"):
            target = m.ref if (o["ref"] and m.ref is not None) else m.W.copy()
            if c["kind"] != "bounded" and np.abs(target).max() > 1e-3 and np.abs(target).max() < 1e3:
                m.ref = target.copy()
                nx = m.W.shape[1]
                x = torch.eye(nx)[torch.from_numpy(np.random.RandomState(o["s"]).permutation(nx)).long()] if o["x"] else None
                # another rate than the default one of the programming
                tile.set_learning_rate(0.02 + 0.01 * (o["s"] % 7))
                lr = tile.get_learning_rate()
                tile.program_weights(from_reference=o["ref"], x_values=x)
                require(abs(tile.get_learning_rate() - lr) <= 1e-6 * abs(lr), f"program_weights changed the learning rate from {lr}")
                W = npy(tile.tile.get_weights())
                err = np.abs(W - target).mean()
                require(err <= 0.0105 * np.abs(target).max() + 1e-6, f"{what}: mean deviation {err} of the programmed weights from the "
                        f"target (max {np.abs(target).max()}) exceeds the tolerance")
                m.W = W
                changes += 1
                rec.label("program-ref" if o["ref"] else "program-current", "program-x" if o["x"] else "-")
        # state after every operation
        W = npy(tile.tile.get_weights())
        close(W, m.W, what + ": normalised weights", rtol=1e-5, atol=1e-6)
        L = m.logical()
        for apply, ref in ((True, L), (False, m.W)):
            w, b = tile.get_weights(apply_weight_scaling=apply)
            wr, br = (ref[:, :-1], ref[:, -1]) if c["bias"] == "analog" else (ref, m.b)
            close(w, wr, f"{what}: get_weights(apply_weight_scaling={apply})", rtol=2e-5, atol=1e-6)
            require((b is None) == (c["bias"] == "none"), "bias presence")
            if b is not None:
                close(b, br, f"{what}: bias", rtol=2e-5, atol=1e-6)
            w.add_(7.0)            # must be a copy
        same(tile.tile.get_weights(), W, what + ": tile weights changed through the returned copy")
        sc = tile.get_scales()
        close(np.ones(n_out) * (npy(sc).reshape(-1) if sc is not None else 1.0), np.ones(n_out) * m.scale().reshape(-1), what + ": scales",
              rtol=1e-5, atol=1e-7)
    x = torch.randn(4, n_in)
    tile.eval()
    y = tile(x)
    L = m.logical()
    if c.get("ir"):
        x = x.clamp(-c["ir"], c["ir"])
    ref = npy(x) @ (L[:, :-1] if c["bias"] == "analog" else L).T + (L[:, -1] if c["bias"] == "analog" else m.b if c["bias"] == "digital" else 0)
    close(y, ref, "forward with the final weights", rtol=3e-4)
    rec.label(c["kind"], "bias=" + c["bias"])
    rec.hit(changes >= 3)


LANES = [Lane("history", cases(), check, quick=2500, thorough=80000)]
