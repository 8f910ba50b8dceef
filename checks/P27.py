"""P27: looking at a model does not change it; seeds determine the random parts that they are documented to determine."""
import copy
import io
import pickle

import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogSequential
from aihwkit.nn.conversion import convert_to_analog, convert_to_digital
from aihwkit.utils.analog_info import analog_summary
from checks import P01
from vlib import cfg, gen, gencomp, gendev
from vlib.core import Lane, Skip, reset
from vlib.util import npy, require

PROPERTY = "P27"
RULE = ("cases: lane reads: a model on any hardware configuration with a history of training, weight writes, scale changes, programming and "
        "drift, interrupted by any of 20 reading operations (evaluation with or without gradients, weight / scale / hidden parameter getters, "
        "realistic reading, printing, state dict, copies, pickles, summaries, conversions); the complete state is the same before and after "
        "each read, and the model ends as its twin (built from the same construction seeds) that was never looked at. Lane seeds: "
        "hidden parameters are determined by the construction seed for every device and compound. Lane torch: torch seeds determine torch "
        "tiles and drawn weights. Non-trivial: training changed the weights / parameters are random.")

READS = ["eval", "eval-grad", "weights", "raw-weights", "realistic", "realistic-eval", "layer-weights", "state", "print", "hidden", "deepcopy", "pickle", "save",
         "summary", "getters", "to-digital", "to-analog", "iterate", "switch", "config", "extra", "params", "rpu"]
READ_OPS = st.fixed_dictionaries({"op": st.just("read"), "r": st.sampled_from(READS), "s": gen.seeds})


def seeded(spec, s):
    """The device spec with construction seeds."""
    if isinstance(spec, list):
        return [seeded(x, s + 7 * i) for i, x in enumerate(spec)]
    if isinstance(spec, dict):
        out = {k: seeded(v, s + 101) for k, v in spec.items()}
        if "cls" in spec and spec["cls"] not in ("FloatingPointDevice", "IdealDevice"):
            out["construction_seed"] = s
        return out
    return spec


@st.composite
def read_cases(draw):
    c = draw(P01.cases())
    for k in ("how", "more", "loadcfg", "ops"):
        c.pop(k)
    c["indexed"] = draw(st.sampled_from([None, True])) if c["layer"] == "conv" else None
    if "device" in c["spec"]:
        c["spec"]["device"] = seeded(c["spec"]["device"], draw(st.integers(1, 10 ** 6)))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append(draw(P01.OPS))
        ops += draw(st.lists(READ_OPS, min_size=1, max_size=3))
    if draw(st.booleans()):
        ops.append(draw(P01.OPS))
    if c["quiet"] and c["spec"]["kind"] in ("inference", "torch"):
        ops = [o for o in ops if o["op"] not in ("drift", "program")] or [{"op": "read", "r": "eval", "s": 1}]
    c["ops"] = ops
    return c


def full(c, m):
    out = P01.observe(c, m, False)
    for n, sub in m.named_modules():
        out[f"training {n}"] = sub.training
        out[f"hooks {n}"] = (len(sub._forward_hooks), len(sub._forward_pre_hooks), len(sub._backward_hooks), len(sub._backward_pre_hooks))
    for n, p in m.named_parameters():
        out[f"requires_grad {n}"] = p.requires_grad
        out[f"grad {n}"] = None if p.grad is None else npy(p.grad)
        out[f"identity {n}"] = id(p)
        if "analog_ctx" not in n:
            out[f"value {n}"] = npy(p)
    for n, p in m.named_buffers():
        if "analog_ctx" not in n:
            out[f"buffer {n}"] = npy(p)
    for i, t in enumerate(m.analog_tiles()):
        ctx = t.analog_ctx
        out[f"pending {i}"] = (len(ctx.analog_input), len(ctx.analog_grad_output), ctx.use_indexed)
        out[f"indexed {i}"] = t.is_indexed() if hasattr(t, "is_indexed") else None
    return out


def strip(o):
    """What a twin has in common."""
    return {k: v for k, v in o.items() if not k.startswith("identity")}


def read(c, m, o):
    r, tiles = o["r"], list(m.analog_tiles())
    x = P01.inp(c, o["s"])
    if r in ("eval", "eval-grad"):
        tr = {n: s.training for n, s in m.named_modules()}
        m.eval()
        if r == "eval":
            with torch.no_grad():
                y1 = m(x)
        else:
            xg = x.clone().requires_grad_()
            y1 = m(xg)
            require(bool((xg == x).all()), "evaluation changed its input")
        if c["quiet"]:
            with torch.no_grad():
                y2 = m(x)
            require(np.array_equal(npy(y1), npy(y2), equal_nan=True), "two evaluations with the same input differ on noise-free hardware")
        for n, s in m.named_modules():
            s.training = tr[n]
    elif r == "weights":
        for t in tiles:
            w, b = t.get_weights()
            w += 3.0
            if b is not None:
                b += 1.0
    elif r == "raw-weights":
        for t in tiles:
            w, b = t.get_weights(apply_weight_scaling=False)
            w *= 2.0
            if t.analog_bias and b is not None:
                b *= 2.0
    elif r == "realistic":
        for t in tiles:
            w, b = t.get_weights(realistic=True)
            w += 1.0
            t.read_weights(apply_weight_scaling=False)
    elif r == "realistic-eval":
        tr = {n: s.training for n, s in m.named_modules()}
        m.eval()
        for t in tiles:
            t.read_weights(), t.get_weights(realistic=True)
        for n, s in m.named_modules():
            s.training = tr[n]
    elif r == "layer-weights":
        w, b = m[0].get_weights()
        w += 3.0
        if b is not None:
            b += 1.0
    elif r == "state":
        m.state_dict()
        f = io.BytesIO()
        torch.save(m.state_dict(), f)
    elif r == "print":
        str(m), repr(m), m.extra_repr(), [str(t) for t in tiles], [t.get_brief_info() for t in tiles], [t.tile.get_brief_info() for t in tiles]
        [str(t.tile) for t in tiles]
    elif r == "hidden":
        for t in tiles:
            for v in t.get_hidden_parameters().values():
                v += 0.5
            t.tile.get_hidden_parameter_names()
    elif r == "deepcopy":
        d = copy.deepcopy(m)
        d.eval()
        with torch.no_grad():
            d(x)
    elif r == "pickle":
        pickle.dumps(m)
        [pickle.dumps(t) for t in tiles]
    elif r == "save":
        torch.save(m, io.BytesIO())
    elif r == "summary":
        shape = tuple(x.shape)
        a = analog_summary(m, shape)
        str(a)
        n = len(a.layer_summary)
        b = analog_summary(m, shape, tiles[0].rpu_config)
        require(len(a.layer_summary) == n == len(b.layer_summary), "an earlier summary changed")
        require(a.total_tile_number == len(tiles), f"summary with {a.total_tile_number} tiles of {len(tiles)}")
    elif r == "getters":
        for t in tiles:
            v = [t.get_scales(), t.get_mapping_scales(), t.get_learned_out_scales(), t.get_learning_rate(), t.get_dtype(), t.get_data_type(),
                 t.get_runtime(), t.get_tensor_view(2), t.is_cuda, t.device, t.get_analog_ctx()]
            if hasattr(t, "get_backward_parameters"):
                v += [t.get_forward_parameters(), t.get_backward_parameters(), t.get_forward_out_bound(), t.get_hidden_update_index() if c["spec"]["kind"] == "unit" else 0,
                      t.tile.get_meta_parameters(), t.tile.get_learning_rate(), t.tile.get_x_size(), t.tile.get_d_size()]
        m.analog_tile_count(), m.get_analog_tile_devices()
    elif r == "to-digital":
        d = convert_to_digital(m, inplace=False)
        for p in d.parameters():
            p.data += 1.0
    elif r == "to-analog":
        d = convert_to_analog(convert_to_digital(m, inplace=False), cfg.config({"kind": "fp"}), inplace=False)
        for t in d.analog_tiles():
            t.set_weights(torch.zeros(t.out_size, t.in_size), torch.zeros(t.out_size) if t.bias is not None or t.analog_bias else None)
    elif r == "iterate":
        list(m.analog_layers()), list(m.named_analog_layers()), list(m.analog_modules()), list(m.named_analog_modules())
        list(m.analog_tiles()), list(m.named_analog_tiles())
    elif r == "switch":
        tr = {n: s.training for n, s in m.named_modules()}
        m.eval(), m.train(), m.eval()
        for n, s in m.named_modules():
            s.training = tr[n]
        m.cpu(), m.to(torch.device("cpu"))
    elif r == "config":
        for t in tiles:
            rpu = t.rpu_config
            before = str(rpu)
            repr(rpu), copy.deepcopy(rpu), pickle.dumps(rpu)
            if hasattr(rpu, "device"):
                rpu.device.as_bindings(t.get_data_type())
            for k in ("forward", "backward", "update"):
                if hasattr(rpu, k) and hasattr(getattr(rpu, k), "as_bindings"):
                    getattr(rpu, k).as_bindings(t.get_data_type())
            require(str(rpu) == before, "the configuration changed by making its bindings")
    elif r == "extra":
        for t in tiles:
            if hasattr(t.tile, "dump_extra"):
                t.tile.dump_extra()
            t.get_analog_state()
    elif r == "params":
        [p.shape for p in m.parameters()], [p.requires_grad for p in m.parameters()], list(m.buffers()), list(m.named_parameters())
        for t in tiles:
            str(t.analog_ctx), t.analog_ctx.size(), t.analog_ctx.has_gradient() if hasattr(t.analog_ctx, "has_gradient") else None
    elif r == "rpu":
        from aihwkit.simulator.rpu_base import tiles as _  # noqa
        for t in tiles:
            t.tile.get_weights()


def make(c):
    m = P01.build(c)
    if c.get("indexed"):        # (the index is set up by the first input)
        m.eval()
        m(P01.inp(c, 0))
        m.train()
    return m


def check_reads(c, rec):
    rpu_before = str(cfg.config(c["spec"]))
    torch.manual_seed(c["spec"].get("seed", 3))
    reset(3)
    m = make(c)
    a = P01.Player(c, m)
    w0 = P01.observe(c, m, False)
    changed = False
    for k, o in enumerate(c["ops"]):
        if o["op"] != "read":
            reset(100 + k)
            a.apply([o])
            continue
        before = full(c, m)
        read(c, m, o)
        P01.compare(before, full(c, m), f"state after reading ({o['r']})")
        rec.label("read-" + o["r"])
    end = strip(full(c, m))
    changed = any(not np.array_equal(w0[k], end[k]) for k in w0 if k.endswith(".weights"))
    for t in m.analog_tiles():
        require(str(t.rpu_config).split("(")[0] == rpu_before.split("(")[0], "type of the configuration changed")
    # the same without reading
    if c["quiet"]:
        torch.manual_seed(c["spec"].get("seed", 3))
        reset(3)
        m2 = make(c)
        b = P01.Player(c, m2)
        for k, o in enumerate(c["ops"]):
            if o["op"] != "read":
                reset(100 + k)
                b.apply([o])
        P01.compare(end, strip(full(c, m2)), "twin that was never read")
        rec.label("twin")
    rec.label(c["spec"]["kind"], c["layer"])
    rec.hit(changed)


# ---- construction seeds

@st.composite
def seed_cases(draw):
    kind = draw(st.sampled_from(["single", "single", "unit", "digrank"]))
    dev = draw({"single": gencomp.single(True), "unit": gencomp.compound(True), "digrank": gencomp.mixedprec(True)}[kind])
    return {"kind": kind, "device": dev, "n": [draw(st.integers(1, 5)), draw(st.integers(1, 6))], "seed": draw(st.integers(1, 10 ** 6)),
            "bias": draw(st.booleans()), "torch": [draw(st.integers(0, 99)), draw(st.integers(0, 99))], "between": draw(st.sampled_from([0, 1, 3])), "inner": draw(st.booleans())}


HIDDEN = ("max_bound", "min_bound", "dwmin", "decay", "diffusion", "slope", "gamma", "reset_bias", "reference", "drift")


def check_seeds(c, rec):
    def seeds(s):
        return seeded(c["device"], s) if c["inner"] else {**c["device"], "construction_seed": s}
    dev = seeds(c["seed"])

    def tile(s, d=dev):
        torch.manual_seed(s)
        before = torch.get_rng_state()
        rpu = cfg.config({"kind": c["kind"], "device": d, "mapping": {"digital_bias": False}})
        txt = str(rpu)
        t = rpu.tile_class(c["n"][0], c["n"][1], rpu, bias=c["bias"])
        require(str(rpu) == txt, "building a tile changed the given configuration")
        require(torch.equal(before, torch.get_rng_state()), "building a tile consumed random numbers of torch")
        return {k: npy(v) for k, v in t.get_hidden_parameters().items() if any(k.startswith(h) for h in HIDDEN)}
    a = tile(c["torch"][0])
    for i in range(c["between"]):
        tile(c["torch"][1] + i, seeds(c["seed"] + 13 + i))
    b = tile(c["torch"][1])
    P01.compare(a, b, "hidden parameters of two tiles with the same construction seed")
    other = tile(c["torch"][0], seeds(c["seed"] + 5))
    rand = [k for k, v in a.items() if v.size > 2 and len(np.unique(v)) > max(2, v.size // 2)]
    for k in rand:
        require(not np.array_equal(a[k], other[k]), f"hidden parameter {k} is the same for different construction seeds")
    # within one tile, parameters of different devices of a compound are drawn with their own seeds
    rec.label(c["kind"], c["device"]["cls"], "random" if rand else "fixed")
    rec.hit(bool(rand))


# ---- torch seeds

@st.composite
def torch_cases(draw):
    return {"kind": draw(st.sampled_from(["torch", "torch", "irdrop"])), "n": [draw(st.integers(1, 5)), draw(st.integers(1, 6))], "s": draw(st.integers(0, 10 ** 6)),
            "io": draw(st.fixed_dictionaries({"inp_noise": st.sampled_from([0.0, 0.1]), "out_noise": st.sampled_from([0.0, 0.1]), "inp_sto_round": st.booleans(), "out_sto_round": st.booleans()})),
            "mod": draw(st.sampled_from(["None", "AddNormal", "MultNormal", "Discretize"])), "steps": draw(st.integers(1, 3)),
            "noise": draw(st.booleans()), "bias": draw(st.booleans())}


def check_torch(c, rec):
    from aihwkit.nn import AnalogLinear
    from aihwkit.optim import AnalogSGD

    def go(seed, disturb):
        torch.manual_seed(seed)
        io_ = dict(c["io"])
        rpu = cfg.config({"kind": c["kind"], "forward": io_, "modifier": {"type": c["mod"], "std_dev": 0.1, "res": 0.05 if c["mod"] == "Discretize" else 0.0}})
        m = AnalogSequential(AnalogLinear(c["n"][1], c["n"][0], bias=c["bias"], rpu_config=rpu))
        opt = AnalogSGD(m.parameters(), lr=0.1)
        out = []
        for i in range(c["steps"]):
            opt.zero_grad()
            y = m(P01.cfg.ten({"k": "normal", "s": 5 + i, "m": 1.0}, (3, c["n"][1])))
            (y ** 2).sum().backward()
            if disturb:
                np.random.seed(i + 1)
                np.random.randn(3)
            opt.step()
            out.append(npy(y))
        m.eval()
        if c["noise"]:
            m.drift_analog_weights(100.0)
        y = m(torch.ones(2, c["n"][1]))
        return out + [npy(y), npy(next(m.analog_tiles()).tile.get_weights())]
    if c["kind"] == "irdrop":
        c["mod"] = "None"
    a, b = go(c["s"], False), go(c["s"], True)
    for k, (u, v) in enumerate(zip(a, b)):
        require(np.array_equal(u, v, equal_nan=True), f"result {k} of a torch tile differs in a repetition with the same torch seed")
    d = go(c["s"] + 1, False)
    require(not np.array_equal(a[-1], d[-1]), "weights of a torch tile are the same for other torch seeds")
    rec.label(c["kind"], c["mod"])
    rec.hit(c["io"]["out_noise"] > 0 or c["io"]["inp_noise"] > 0 or c["mod"] != "None" or c["noise"])


LANES = [Lane("reads", read_cases(), check_reads, quick=1000, thorough=40000), Lane("seeds", seed_cases(), check_seeds, quick=1500, thorough=30000),
         Lane("torch", torch_cases(), check_torch, quick=150, thorough=3000)]
