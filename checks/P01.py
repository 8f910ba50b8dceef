"""P01: saving, loading, pickling and copying analog models."""
import copy
import io
import pickle

import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.optim import AnalogSGD
from vlib import cfg, gen, gencomp
from vlib.core import Lane, Violation, reset
from vlib.util import npy, require

PROPERTY = "P01"
RULE = ("cases: an analog model (linear, split linear, convolution) on a drawn hardware configuration (floating point, all single "
        "devices with device-to-device variation, unit cells, mixed precision, hardware-aware inference C++/torch), a history "
        "of training steps, weight writes, scale changes, programming and drift, then a copy by state dict (direct or through a "
        "file), pickle, or deepcopy, into a model built with other random devices. Compared: all observable tile state, the "
        "outputs, independence in both directions, and (for noise-free hardware) bit-identical continued training. "
        "Non-trivial: the history changed the weights.")
IO = gencomp.NOISEFREE_IO
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("train"), "n": st.integers(1, 3), "lr": st.sampled_from([0.1, 0.5, 0.02]), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("train"), "n": st.integers(1, 3), "lr": st.sampled_from([0.1, 0.5, 0.02]), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("set"), "s": gen.seeds, "m": st.sampled_from([0.1, 0.5, 2.0])}),
    st.fixed_dictionaries({"op": st.just("learned"), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("mapping"), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("remap")}),
    st.fixed_dictionaries({"op": st.just("hidden_idx"), "i": st.integers(0, 1)}),
    st.fixed_dictionaries({"op": st.just("drift"), "t": st.sampled_from([0.0, 100.0, 1e5])}),
    st.fixed_dictionaries({"op": st.just("program")}),
    st.fixed_dictionaries({"op": st.just("lr"), "lr": st.sampled_from([0.3, 0.05])}),
)


@st.composite
def configs(draw, quiet):
    kind = draw(st.sampled_from(["fp", "single", "single", "single", "unit", "unit", "unit", "digrank", "inference", "inference",
                                 "torch"]))
    spec = {"kind": kind}
    io_ = {"is_perfect": True} if draw(st.booleans()) else dict(IO)
    if kind not in ("fp", "torch"):
        spec["backward"] = dict(io_)
    if kind != "fp":
        spec["forward"] = dict(io_)
    if kind == "single":
        spec["device"] = draw(gencomp.single(quiet))
    elif kind == "unit":
        spec["device"] = draw(gencomp.compound(quiet))
    elif kind == "digrank":
        spec["device"] = draw(gencomp.mixedprec(quiet))
    elif kind == "fp":
        spec["device"] = {"cls": "FloatingPointDevice", "lifetime": draw(st.sampled_from([0.0, 10.0])),
                          "diffusion": 0.0 if quiet else draw(st.sampled_from([0.0, 0.01]))}
    if kind in ("single", "unit", "digrank"):
        pulse = "DeterministicImplicit" if quiet else draw(st.sampled_from(["StochasticCompressed", "Stochastic", "MeanCount"]))
        if kind == "unit" and spec["device"]["cls"] != "VectorUnitCell" and spec["device"]["cls"] != "ReferenceUnitCell":
            pulse = "DeterministicImplicit" if quiet else "StochasticCompressed"
        spec["update"] = {"pulse_type": pulse, "update_management": draw(st.booleans()), "update_bl_management": draw(st.booleans()),
                          "desired_bl": draw(st.sampled_from([5, 31]))}
    spec["mapping"] = {"digital_bias": True if kind == "torch" else draw(st.booleans()),
                       "weight_scaling_omega": draw(st.sampled_from([0.0, 0.6, 0.3])), "weight_scaling_columnwise": draw(st.booleans()),
                       "learn_out_scaling": draw(st.booleans()), "out_scaling_columnwise": draw(st.booleans()),
                       "weight_scaling_lr_compensation": draw(st.booleans()) if kind not in ("inference", "torch") else False,
                       "max_input_size": draw(st.sampled_from([0, 0, 3])), "max_output_size": draw(st.sampled_from([0, 0, 2]))}
    if draw(st.booleans()):
        spec["pre_post"] = {"input_range": {"enable": True, "learn_input_range": draw(st.booleans()),
                                            "init_from_data": draw(st.sampled_from([0, 3])), "init_value": 1.5}}
    if kind in ("inference", "torch"):
        spec["modifier"] = {"type": draw(st.sampled_from(["Copy", "Discretize"])), "std_dev": 0.1, "res": 0.05, "pdrop": 0.0}
        spec["clip"] = {"type": draw(st.sampled_from(["None", "FixedValue", "LayerGaussian"])), "fixed_value": 0.8, "sigma": 2.0}
        if kind == "inference":
            spec["remap"] = {"type": draw(st.sampled_from(["None", "None", "LayerwiseSymmetric", "ChannelwiseSymmetric"]))}
    return spec


@st.composite
def cases(draw):
    quiet = draw(st.sampled_from([True, True, False]))
    spec = draw(configs(quiet))
    layer = draw(st.sampled_from(["linear", "linear", "mapped", "conv"]))
    if layer == "mapped" or layer == "conv" or spec["mapping"]["max_input_size"] or spec["mapping"]["max_output_size"]:
        spec["mapping"]["digital_bias"] = True
    if layer == "conv":
        spec["mapping"]["max_input_size"] = spec["mapping"]["max_output_size"] = 0
    return {"spec": spec, "quiet": quiet, "layer": layer, "n_in": draw(st.integers(1, 5)), "n_out": draw(st.integers(1, 4)),
            "bias": draw(st.booleans()), "ops": draw(st.lists(OPS, min_size=1, max_size=6)),
            "how": draw(st.sampled_from(["state", "state", "state_file", "pickle", "deepcopy", "save", "tile_pickle"])),
            "more": draw(st.lists(OPS, min_size=1, max_size=3)), "loadcfg": draw(st.sampled_from([None, True, False])), "alt": draw(st.integers(0, 2)) == 2}


def alternative(spec):
    """A configuration with other settings for tiles of the same kind and shape."""
    m = spec["mapping"]
    new = {**spec, "mapping": {**m, "weight_scaling_omega": {0.0: 0.0, 0.3: 0.0, 0.6: 0.3}[m["weight_scaling_omega"]], "weight_scaling_columnwise": not m["weight_scaling_columnwise"]}}
    if "forward" in spec:
        new["forward"] = dict(IO) if spec["forward"].get("is_perfect") else {"is_perfect": True}
    if "update" in spec:
        new["update"] = {**spec["update"], "desired_bl": 12, "update_management": not spec["update"]["update_management"]}
    if "clip" in spec:
        new["clip"] = {"type": "FixedValue", "fixed_value": 0.5}
        new["modifier"] = {"type": "None"}
    return new


def build(c):
    rpu = cfg.config(c["spec"])
    if c["layer"] == "conv":
        layer = AnalogConv2d(c["n_in"], c["n_out"], 2, bias=c["bias"], rpu_config=rpu, use_indexed=c.get("indexed"))
    else:
        layer = (AnalogLinearMapped if c["layer"] == "mapped" else AnalogLinear)(c["n_in"], c["n_out"], bias=c["bias"], rpu_config=rpu)
    return AnalogSequential(layer)


def inp(c, s, n=2):
    shape = (n, c["n_in"], 3, 3) if c["layer"] == "conv" else (n, c["n_in"])
    return cfg.ten({"k": "normal", "s": s, "m": 0.7}, shape)


class Player:
    """Applies operations to a model with its own optimizer."""

    def __init__(self, c, model, opt=None):
        self.c, self.m = c, model
        self.opt = opt or AnalogSGD(model.parameters(), lr=0.1)
        self.drifted = False

    def apply(self, ops):
        for o in ops:
            self.one(o)

    def one(self, o):
        c, m = self.c, self.m
        tiles = list(m.analog_tiles())
        if o["op"] == "train":
            m.train()
            for g in self.opt.param_groups:
                g["lr"] = o["lr"]
            for i in range(o["n"]):
                self.opt.zero_grad()
                y = m(inp(c, o["s"] + i))
                y.backward(cfg.ten({"k": "normal", "s": o["s"] + 77 + i, "m": 0.5}, tuple(y.shape)))
                self.opt.step()
        elif o["op"] == "set":
            w, b = m[0].get_weights()
            m[0].set_weights(cfg.ten({"k": "uniform", "s": o["s"], "m": o["m"]}, tuple(w.shape)),
                             None if b is None else cfg.ten({"k": "uniform", "s": o["s"] + 1, "m": 0.3}, tuple(b.shape)))
        elif o["op"] == "learned":
            for t in tiles:
                if t.out_scaling_alpha is not None:
                    t.set_learned_out_scales(cfg.ten({"k": "pos", "s": o["s"], "m": 2.0}, tuple(t.out_scaling_alpha.shape)))
        elif o["op"] == "mapping":
            for t in tiles:
                s = t.get_mapping_scales()
                if s is not None:
                    t.set_mapping_scales(cfg.ten({"k": "pos", "s": o["s"], "m": 2.0}, tuple(s.shape)))
        elif o["op"] == "remap":
            m.remap_analog_weights()
        elif o["op"] == "hidden_idx":
            if c["spec"]["kind"] == "unit" and c["spec"]["device"].get("update_policy") == "SingleFixed":
                for t in tiles:
                    t.set_hidden_update_index(min(o["i"], len(c["spec"]["device"]["unit_cell_devices"]) - 1))
        elif o["op"] in ("drift", "program"):
            if c["spec"]["kind"] in ("inference", "torch"):
                m.eval()
                if o["op"] == "drift":
                    m.drift_analog_weights(o["t"])
                else:
                    m.program_analog_weights()
                self.drifted = True
        elif o["op"] == "lr":
            self.opt.set_learning_rate(o["lr"])


def observe(c, model, outputs=True):
    """All observable state of the model as {name: array or value}."""
    out = {}
    for i, t in enumerate(model.analog_tiles()):
        w, b = t.get_weights(apply_weight_scaling=False)
        out[f"{i}.weights"] = npy(w)
        out[f"{i}.scaled weights"] = npy(t.get_weights()[0])
        if b is not None:
            out[f"{i}.bias"] = npy(b)
        for k, v in t.get_hidden_parameters().items():
            out[f"{i}.hidden {k}"] = npy(v)
        ms, ls = t.get_mapping_scales(), t.get_learned_out_scales()
        out[f"{i}.mapping scales"] = None if ms is None else npy(ms)
        out[f"{i}.learned scales"] = None if ls is None else npy(ls)
        out[f"{i}.mapping_lr_scale"] = getattr(t, "mapping_lr_scale", None)
        out[f"{i}.input range"] = None if t.input_range is None else npy(t.input_range)
        if hasattr(t, "input_range_update_idx"):
            out[f"{i}.input range update index"] = npy(t.input_range_update_idx)
        out[f"{i}.learning rate"] = t.get_learning_rate()
        out[f"{i}.hidden update index"] = t.get_hidden_update_index() if hasattr(t, "get_hidden_update_index") else None
        out[f"{i}.analog context data"] = npy(t.analog_ctx._raw_data())
        out[f"{i}.rpu_config"] = str(t.rpu_config)
        if hasattr(t, "drift_baseline"):
            for k in ("drift_baseline", "alpha", "drift_readout_tensor", "reference_combined_weights", "drift_noise_parameters",
                      "programmed_weights", "nu_drift_list"):
                v = getattr(t, k, None)
                if isinstance(v, torch.Tensor):
                    out[f"{i}.{k}"] = npy(v)
                elif isinstance(v, (list, tuple)):
                    for j, x in enumerate(v):
                        out[f"{i}.{k}.{j}"] = npy(x)
                else:
                    out[f"{i}.{k}"] = v
        for k, v in (t.dump_extra() or {}).items() if hasattr(t, "dump_extra") and hasattr(t.tile, "dump_extra") else []:
            if "rng" not in k and "seed" not in k:
                out[f"{i}.extra {k}"] = np.asarray(v, dtype=np.float64) if not isinstance(v, str) else v
    if outputs:
        tr = model.training
        model.eval()
        reset(5)
        with torch.no_grad():
            out["output"] = npy(model(inp(c, 4)))
        model.train(tr)
    return out


def beyond_reference_bounds(c, before):
    """F32: reference devices bound the weight plus reference in the update, but the weight alone when set (or loaded)."""
    if not any(n in str(c["spec"]) for n in ("SoftBoundsReferenceDevice", "PowStepReferenceDevice")):
        return False
    for k, hi in before.items():
        if "hidden max_bound" in k:
            lo = before[k.replace("max_bound", "min_bound")]
            i, sfx = k.split(".")[0], k.split("max_bound")[1]
            for n in (f"{i}.weights", f"{i}.hidden persistent_weights{sfx}", f"{i}.hidden hidden_weights{sfx}"):
                w = before.get(n)
                if w is None:
                    continue
                w = w.reshape(hi.shape[0], -1)
                if w.shape[1] + 1 == hi.shape[1]:          # analog bias
                    w = np.concatenate([w, before[f"{i}.bias"].reshape(-1, 1)], 1)
                if (w > hi).any() or (w < lo).any():
                    return True
    return False


def compare(a, b, what, skip=()):
    require(set(a) == set(b), f"{what}: state entries differ: {sorted(set(a) ^ set(b))[:6]}")
    for k in a:
        if any(s in k for s in skip):
            continue
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            ok = isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
        else:
            ok = x == y or (x is None and y is None)
        require(ok, f"{what}: {k} is {np.ravel(y)[:6] if isinstance(y, np.ndarray) else y} instead of "
                    f"{np.ravel(x)[:6] if isinstance(x, np.ndarray) else x}")


def duplicate(c, model):
    how = c["how"]
    if how == "deepcopy":
        return copy.deepcopy(model)
    if how == "pickle":
        return pickle.loads(pickle.dumps(model))
    if how == "save":
        f = io.BytesIO()
        torch.save(model, f)
        f.seek(0)
        return torch.load(f, weights_only=False)
    if how == "tile_pickle":
        new = build(c)
        new.load_state_dict(pickle.loads(pickle.dumps(model.state_dict())))
        return new
    sd = model.state_dict()
    if how == "state_file":
        f = io.BytesIO()
        torch.save(sd, f)
        f.seek(0)
        sd = torch.load(f, weights_only=False)
    torch.manual_seed(99)
    # with the configuration of the checkpoint it does not matter what the model had before
    new = build({**c, "spec": alternative(c["spec"])} if c.get("alt") and c["loadcfg"] else c)
    keys = set(sd)
    new.load_state_dict(sd, load_rpu_config=c["loadcfg"])
    require(set(sd) == keys, "load_state_dict changed the given state dict")
    return new


def check(c, rec):
    model = build(c)
    p = Player(c, model)
    w0 = observe(c, model, False)
    p.apply(c["ops"])
    before = observe(c, model)
    compare(before, observe(c, model), "observing twice")
    dup = duplicate(c, model)
    dup.train(model.training)
    after = observe(c, model)
    compare(before, after, f"original after {c['how']}")
    copied = observe(c, dup)
    # the state dict does not hold the read-out tensor and programming references of the drift simulation
    skip = ("drift_", "reference_combined", "programmed_weights") if c["how"] in ("state", "state_file", "tile_pickle") else ()
    drop = lambda s: {k: v for k, v in s.items() if not any(x in k for x in skip)}  # noqa
    try:
        compare(drop(before), drop(copied), f"copy by {c['how']}")
    except Violation as e:
        if c["how"] in ("state", "state_file", "tile_pickle", "pickle", "deepcopy", "save") and beyond_reference_bounds(c, before):
            rec.known.append(("F32", str(e)))
            return
        raise
    # independence
    q = Player(c, dup)
    reset(7)
    q.apply(c["more"])
    mid = observe(c, dup)
    compare(before, observe(c, model), "original after changing the copy")
    reset(7)
    p2 = Player(c, model)
    p2.apply(c["more"])
    fin = observe(c, model)
    compare(mid, observe(c, dup), "copy after changing the original")
    same_rand = not q.drifted
    if c["quiet"] and same_rand:
        compare(drop(fin), drop(mid), "continued from the copy")
    rec.label(c["spec"]["kind"] + (":" + c["spec"]["device"]["cls"] if "device" in c["spec"] else ""), c["how"], c["layer"],
              "quiet" if c["quiet"] else "noisy", *["op-" + o["op"] for o in c["ops"]])
    if p.drifted:
        rec.label("drifted")
    rec.hit(any(not np.array_equal(w0[k], before[k]) for k in w0 if k.endswith(".weights")))


@st.composite
def config_cases(draw):
    c = draw(cases().filter(lambda c: c["quiet"]))
    return {**c, "way": draw(st.sampled_from(["replace", "to", "keyword"])), "back": draw(st.booleans())}


def check_config(c, rec):
    """Another configuration for an existing model changes what it says and keeps the rest."""
    model = build(c)
    p = Player(c, model)
    w0 = observe(c, model, False)
    p.apply(c["ops"])
    before = observe(c, model)
    other = cfg.config(alternative(c["spec"]))
    text = str(other)
    m = copy.deepcopy(model)
    m.train(model.training)
    opt = AnalogSGD(m.parameters(), lr=0.1)

    def to(m, q):
        if c["way"] == "replace":
            m.replace_rpu_config(q)
        else:
            for t in m.analog_tiles():
                t.to(q) if c["way"] == "to" else t.to(rpu_config=q)
    drift = ("drift_", "reference_combined", "programmed_weights")
    drop = lambda s, *x: {k: v for k, v in s.items() if not any(n in k for n in x)}  # noqa
    try:
        to(m, other)
        got = observe(c, m)
        require(str(other) == text, "the given configuration changed")
        require(all(str(t.rpu_config) == text and t.rpu_config is not other for t in m.analog_tiles()), "the tiles do not have (a copy of) the given configuration")
        compare(drop(before, "rpu_config", "output"), drop(got, "rpu_config", "output"), "state after replacing the configuration")
        torch.manual_seed(98)
        new = build({**c, "spec": alternative(c["spec"])})
        new.load_state_dict(model.state_dict(), load_rpu_config=False)
        new.train(model.training)
        compare(drop(got, *drift), drop(observe(c, new), *drift), "loaded into a model of that configuration")
        compare(before, observe(c, model), "original after replacing the configuration of a copy")
        if c["back"]:
            to(m, cfg.config(c["spec"]))
            compare(before, observe(c, m), "after putting the configuration back")
            rec.label("back")
        else:
            q, r = Player(c, m, opt), Player(c, new)      # (the optimizer is from before)
            reset(7)
            q.apply(c["more"])
            reset(7)
            r.apply(c["more"])
            if not q.drifted:
                compare(drop(observe(c, m), *drift), drop(observe(c, new), *drift), "continued from the replaced configuration")
    except Violation as e:
        if beyond_reference_bounds(c, before):
            rec.known.append(("F32", str(e)))
            return
        raise
    rec.label(c["spec"]["kind"], c["way"], c["layer"])
    rec.hit(any(not np.array_equal(w0[k], before[k]) for k in w0 if k.endswith(".weights")))


_REF = {"cls": "SoftBoundsReferenceDevice", "dw_min": 0.01, "w_max": 0.6, "w_min": -0.6, "w_max_dtod": 0.0, "w_min_dtod": 0.0, "reference_mean": 0.59,
        "reference_std": 0.0, "subtract_symmetry_point": False}
F32 = {"spec": {"kind": "unit", "forward": {"is_perfect": True}, "backward": {"is_perfect": True},
                "device": {"cls": "VectorUnitCell", "unit_cell_devices": [_REF, dict(_REF)]},
                "update": {"pulse_type": "DeterministicImplicit", "desired_bl": 31}, "mapping": {"digital_bias": False, "weight_scaling_omega": 0.0}},
       "quiet": True, "layer": "linear", "n_in": 3, "n_out": 3, "bias": False,
       "ops": [{"op": "set", "s": 1, "m": 2.0}, {"op": "train", "n": 6, "lr": 0.5, "s": 3}], "how": "state",
       "more": [{"op": "remap"}], "loadcfg": None}
LANES = [Lane("copy", cases(), check, quick=1500, thorough=60000, explicit=[F32]),
         Lane("config", config_cases(), check_config, quick=500, thorough=15000)]
