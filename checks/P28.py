"""P28: the analog context shows what its access mode promises, and nothing that is done to it changes the tile."""
import copy
import io

import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.optim import AnalogSGD
from aihwkit.optim.context import AnalogContext
from aihwkit.simulator.parameters.enums import AnalogContextDataViewMode as Mode
from vlib import cfg, gen
from vlib.core import Lane, Skip
from vlib.util import close, npy, raises, require, same

PROPERTY = "P28"
RULE = ("cases: networks of one or two analog layers on drawn tiles (floating point, pulsed, inference, torch; analog bias, mapping and output scales, clipping, remapping, several tiles), a history of "
        "mode switches, reads, writes through the context and everything derived from it, training steps, weight writes, saving and loading, copying, moving, converting, freezing; an untouched twin makes the same "
        "training steps. Non-trivial: at least one read of values and one attempted write, or a training step in another mode than the default.")

# name: (function of the context, whether it needs values)
METADATA = {"shape": lambda t: tuple(t.shape), "size": lambda t: tuple(t.size()), "size1": lambda t: t.size(1), "dim": lambda t: t.dim(), "ndim": lambda t: t.ndim, "len": lambda t: len(t), "numel": lambda t: t.numel(),
            "nelement": lambda t: t.nelement(), "floating": lambda t: t.is_floating_point(), "complex": lambda t: t.is_complex(), "dtype": lambda t: t.dtype, "device": lambda t: str(t.device),
            "layout": lambda t: t.layout, "element_size": lambda t: t.element_size(), "data.shape": lambda t: tuple(t.data.shape), "data.dim": lambda t: t.data.dim(), "detach.shape": lambda t: tuple(t.detach().shape),
            "data.numel": lambda t: t.data.numel(), "data.data": lambda t: tuple(t.data.data.shape), "itemsize": lambda t: t.itemsize, "leaf": lambda t: bool(t.is_leaf), "data.dtype": lambda t: t.data.dtype}
READS = {"norm": lambda t: t.norm(), "sum": lambda t: t.sum(), "add": lambda t: t + 1, "radd": lambda t: 1 + t, "mul": lambda t: 2 * t, "neg": lambda t: -t, "idx": lambda t: t[0], "eq": lambda t: t == 0, "T": lambda t: t.T,
         "t": lambda t: t.t(), "mT": lambda t: t.mT, "H": lambda t: t.H, "real": lambda t: t.real, "clone": lambda t: t.clone(), "tolist": lambda t: t.tolist(), "numpy": lambda t: t.detach().numpy(),
         "item": lambda t: t[0, 0].item(), "cat": lambda t: torch.cat([t, t]), "stack": lambda t: torch.stack([t, t]), "iter": lambda t: [x for x in t], "double": lambda t: t.double(), "mm": lambda t: t @ torch.ones(t.shape[1]),
         "reshape": lambda t: t.reshape(-1), "flatten": lambda t: t.flatten(), "max": lambda t: t.max(), "argmax": lambda t: t.argmax(1), "where": lambda t: torch.where(t > 0, t, t * 0), "isnan": lambda t: torch.isnan(t),
         "abs": lambda t: abs(t), "pow": lambda t: t ** 2, "bool": lambda t: bool(t[0, 0] > 0.1), "float": lambda t: float(t[0, 0]), "linear": lambda t: torch.nn.functional.linear(torch.ones(1, t.shape[1]), t),
         "unbind": lambda t: list(t.unbind()), "slice": lambda t: t[:, :1], "std": lambda t: t.std(), "data": lambda t: t.data + 0, "data.T": lambda t: t.data.T, "data.mT": lambda t: t.data.mT, "data.real": lambda t: t.data.real,
         "data.norm": lambda t: t.data.norm(), "data.idx": lambda t: t.data[0], "detach": lambda t: t.detach() + 0, "detach.T": lambda t: t.detach().T, "nonzero": lambda t: t.nonzero(), "contiguous": lambda t: t.contiguous(),
         "type": lambda t: t.type(torch.float64), "contains": lambda t: 3.0 in t, "array": lambda t: np.asarray(t.detach()), "expand": lambda t: t.expand(2, *t.shape), "rand_like": lambda t: torch.zeros_like(t) + t,
         "iadd": lambda t: torch.zeros(t.shape).add_(t), "copy": lambda t: torch.zeros(t.shape).copy_(t), "out": lambda t: torch.add(t, 1, out=torch.zeros(t.shape)), "get_data": lambda t: (t.get_data() if hasattr(t, "get_data") else t) + 0}
WRITES = {"add_": lambda t: t.add_(1), "mul_": lambda t: t.mul_(2), "zero_": lambda t: t.zero_(), "copy_": lambda t: t.copy_(torch.ones(t.shape)), "fill_": lambda t: t.fill_(3), "iadd": lambda t: t.__iadd__(1),
          "itruediv": lambda t: t.__itruediv__(2), "out": lambda t: torch.add(torch.ones(t.shape), 1, out=t), "clamp_": lambda t: t.clamp_(-0.1, 0.1), "masked": lambda t: t.masked_fill_(torch.ones(t.shape, dtype=torch.bool), 0.5),
          "index_put": lambda t: t.index_put_((torch.tensor([0]),), torch.tensor(1.0)), "addcmul": lambda t: t.addcmul_(torch.ones(t.shape), torch.ones(t.shape)), "d.add_": lambda t: t.data.add_(1),
          "d.zero_": lambda t: t.data.zero_(), "zeros init": lambda t: torch.nn.init.zeros_(t.data), "d.out": lambda t: torch.add(torch.ones(t.shape), 1, out=t.data)}
# (may succeed in any mode but the placeholder, on values only)
DERIVED = {"view": lambda t: t.data.reshape(-1).zero_(), "idx": lambda t: t[0].fill_(7), "T": lambda t: t.T.zero_(), "d.T": lambda t: t.data.T.zero_(), "d.idx": lambda t: t.data[0].zero_(),
           "detach": lambda t: t.detach().zero_(), "numpy": lambda t: t.detach().numpy().fill(4), "get_data": lambda t: t.get_data().mul_(2), "foreach": lambda t: torch._foreach_add_([t], 1.0),
           "relu": lambda t: torch.nn.functional.relu(t, inplace=True), "unbind": lambda t: [x.zero_() for x in t], "split": lambda t: t.split(1)[0].zero_(), "uniform": lambda t: torch.nn.init.uniform_(t),
           "setitem": lambda t: t.data.__setitem__(0, 1.0), "real": lambda t: t.real.zero_(), "slice": lambda t: t[:, :1].add_(1), "sgd": lambda t: sgd(t, False), "foreach sgd": lambda t: sgd(t, True)}
NEVER = {"data=": lambda t: setattr(t, "data", torch.zeros(t.shape)), "ctx[]": lambda t: t.__setitem__((0, 0), 9.0)}
MODES = ["placeholder", "data_view", "buffer"]


def sgd(t, foreach):
    old = t.grad
    t.grad = torch.ones(t.shape)
    try:
        torch.optim.SGD([t], lr=0.5, foreach=foreach).step()
    finally:
        t.grad = old


sizes = st.integers(1, 4)
OP = st.one_of(
    st.fixed_dictionaries({"op": st.just("mode"), "mode": st.sampled_from(MODES), "how": st.sampled_from(["enum", "value", "name", "lower", "method"]), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("bad mode"), "v": st.sampled_from(["view", "", None, 1, "data view"]), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("read"), "f": st.lists(st.sampled_from(sorted(READS)), min_size=1, max_size=4), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("read"), "f": st.lists(st.sampled_from(sorted(READS)), min_size=1, max_size=4), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("write"), "f": st.sampled_from(sorted(WRITES)), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("derived"), "f": st.sampled_from(sorted(DERIVED)), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("never"), "f": st.sampled_from(sorted(NEVER)), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("train"), "n": st.integers(1, 2), "lr": st.sampled_from([0.1, 0.5]), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("train"), "n": st.integers(1, 2), "lr": st.sampled_from([0.1, 0.5]), "s": gen.seeds}),
    st.fixed_dictionaries({"op": st.just("set"), "w": gen.data(None, (0.3, 0.8)), "layer": st.integers(0, 1)}),
    st.fixed_dictionaries({"op": st.sampled_from(["save", "load", "copy", "pickle", "freeze", "cpu", "zero_grad", "reset"]), "v": st.booleans(), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.sampled_from(["reload", "ctx cpu", "double"]), "v": st.booleans(), "which": st.integers(0, 3)}),
    st.fixed_dictionaries({"op": st.just("dtype"), "which": st.integers(0, 3)}))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["fp", "single", "inference", "torch"]))
    cpp = kind != "torch"
    spec = {"kind": kind, "mapping": {"digital_bias": draw(st.booleans()) if cpp else True, "weight_scaling_omega": draw(st.sampled_from([0.0, 0.0, 0.6, 1.0])), "weight_scaling_columnwise": draw(st.booleans()),
                                      "learn_out_scaling": draw(st.booleans()), "out_scaling_columnwise": draw(st.booleans()), "max_input_size": draw(st.sampled_from([0, 0, 2])), "max_output_size": draw(st.sampled_from([0, 0, 2]))}}
    if kind == "single":
        spec["device"] = {"cls": "ConstantStepDevice", "dw_min": 0.01, "dw_min_std": 0.0, "dw_min_dtod": 0.0, "up_down_dtod": 0.0, "w_max_dtod": 0.0, "w_min_dtod": 0.0}
        spec["update"] = {"pulse_type": draw(st.sampled_from(["MeanCount", "DeterministicImplicit", "None"]))}
    if kind != "fp":
        spec["forward"] = {"is_perfect": True}
    if kind == "single":
        spec["backward"] = {"is_perfect": True}
    if kind in ("inference", "torch"):
        spec["clip"] = draw(st.sampled_from([{"type": "None"}, {"type": "FixedValue", "fixed_value": 0.4}, {"type": "LayerGaussian", "sigma": 1.0}]))
        spec["remap"] = draw(st.sampled_from([{"type": "None"}, {"type": "LayerwiseSymmetric"}, {"type": "ChannelwiseSymmetric"}]))
    layers = draw(st.lists(st.fixed_dictionaries({"k": st.sampled_from(["lin", "lin", "map", "conv"]), "n": sizes, "bias": st.booleans(), "w": gen.data(None, (0.3, 0.8))}), min_size=1, max_size=2))
    return {"spec": spec, "n_in": draw(sizes), "layers": layers, "ops": draw(st.lists(OP, min_size=5, max_size=20)), "start": draw(st.lists(st.sampled_from(MODES + MODES[1:]), min_size=1, max_size=3)), "seed": draw(gen.seeds), "end": draw(st.integers(0, 3))}


def build(c):
    torch.manual_seed(c["seed"] % 10000)
    out, n = [], c["n_in"]
    for i, d in enumerate(c["layers"]):
        rpu, bias = cfg.config(c["spec"]), d["bias"]
        if not c["spec"]["mapping"]["digital_bias"]:
            if d["k"] in ("map",) or rpu.mapping.max_input_size or rpu.mapping.max_output_size:
                bias = False
        if d["k"] == "conv" and i == 0:
            out.append(torch.nn.Unflatten(1, (n, 2, 2)))
            out.append(AnalogConv2d(n, d["n"], 2, bias=bias, rpu_config=rpu))
            out.append(torch.nn.Flatten())
            m = out[-2]
        else:
            m = (AnalogLinearMapped if d["k"] == "map" else AnalogLinear)(n, d["n"], bias, rpu_config=rpu)
            out.append(m)
        w, b = m.get_weights()
        m.set_weights(cfg.ten(d["w"], w.shape), None if b is None else torch.full_like(b, 0.1))
        n = d["n"]
    return AnalogSequential(*out)


def contexts(model):
    return [t.analog_ctx for t in model.analog_tiles()]


def truth(ctx):
    """The logical weights, from the tile itself."""
    t = ctx.analog_tile
    w = t.tile.get_weights().detach().clone().double().numpy()
    if t.analog_bias:
        w = w[:, :-1]
    s = t.get_scales()
    return w if s is None else w * npy(s).reshape(-1, 1)


def weights(model):
    return [truth(x) for x in contexts(model)] + [npy(b) for m in model.analog_layers() for b in [m.get_weights()[1]] if b is not None]


def train(model, opt, c, op):
    n = c["n_in"] * (4 if c["layers"][0]["k"] == "conv" else 1)
    r = np.random.RandomState(op["s"])
    for g in opt.param_groups:
        g["lr"] = op["lr"]
    for _ in range(op["n"]):
        bounded(model)
        x = torch.tensor(r.uniform(-1, 1, (2, n)), dtype=torch.get_default_dtype())
        opt.zero_grad()
        y = model(x)
        (y ** 2).sum().backward()
        opt.step()


def bounded(net):
    if not all(np.isfinite(w).all() and (abs(w) < 20).all() for w in weights(net)):
        raise Skip("training diverged")


def outcome(f, t):
    try:
        return f(t)
    except Exception as e:
        return e


def value(v):
    if isinstance(v, torch.Tensor):
        return npy(v.detach().as_subclass(torch.Tensor))
    return v


def agree(a, b, what):
    if isinstance(b, Exception):
        require(isinstance(a, Exception), f"{what}: {a}, a tensor raises {type(b).__name__} ({b})")
    elif isinstance(a, Exception):
        require(False, f"{what}: raises {type(a).__name__}: {a}")
    elif isinstance(b, list) and b and not isinstance(b[0], float):
        require(len(a) == len(b), f"{what}: {len(a)} instead of {len(b)} elements")
        for x, y in zip(a, b):
            agree(x, y, what)
    elif isinstance(b, torch.Tensor) or isinstance(b, (list, np.ndarray, float)):
        require(not isinstance(b, torch.Tensor) or (isinstance(a, torch.Tensor) and a.dtype == b.dtype), f"{what}: {type(a)}")
        close(value(a), value(b), what, 1e-5, 1e-6)
    else:
        require(type(a) is type(b) and a == b, f"{what}: {a!r} instead of {b!r}")


class Model:
    def __init__(self, c):
        self.c = c
        self.net, self.twin = build(c), build(c)
        self.attach()
        self.modes = ["placeholder"] * len(contexts(self.net))
        self.buffers = [None] * len(self.modes)

    def attach(self, state=True):
        self.opt, self.topt = AnalogSGD(self.net.parameters(), lr=0.1), AnalogSGD(self.twin.parameters(), lr=0.1)

    def check(self, what):
        ctxs = contexts(self.net)
        require(len(ctxs) == len(self.modes), f"{what}: {len(ctxs)} contexts")
        ps = list(self.net.parameters())
        for i, x in enumerate(ctxs):
            w = f"{what}, context {i} ({self.modes[i]})"
            require(isinstance(x, AnalogContext) and isinstance(x, torch.nn.Parameter) and x.analog_tile.analog_ctx is x, f"{w}: context and tile are not connected")
            require(sum(p is x for p in ps) == 1, f"{w}: not a parameter of the model")
            require(x.data_view_mode == Mode(self.modes[i]), f"{w}: mode {x.data_view_mode}")
            v = truth(x)
            require(tuple(x.shape) == v.shape == tuple(x.size()) == tuple(x.data.shape), f"{w}: shape {tuple(x.shape)}, weights have {v.shape}")
            if self.modes[i] == "data_view":
                close(x.data, v, f"{w}: data", 1e-5, 1e-6)
                close(x.analog_tile.get_weights()[0], v, f"{w}: weights of the tile", 1e-5, 1e-6)
            elif self.modes[i] == "buffer":
                same(x.data, self.buffers[i], f"{w}: buffer")
            else:
                raises(lambda: x.sum(), RuntimeError, f"{w}: values")
        a, b = weights(self.net), weights(self.twin)
        require(len(a) == len(b), f"{what}: weights are missing")
        for x, y in zip(a, b):
            same(x, y, f"{what}: weights, compared with a model whose contexts are not accessed")

    def set_mode(self, i, mode, how="value"):
        x = contexts(self.net)[i]
        if how == "method":
            r = {"placeholder": x.enable_placeholder, "data_view": x.enable_data_view, "buffer": x.enable_buffer}[mode]()
            require(r is x, "enabling a mode does not return the context")
        else:
            m = Mode(mode)
            x.data_view_mode = {"enum": m, "value": m.value, "name": m.name, "lower": m.name.lower()}[how]
        self.modes[i] = mode
        self.buffers[i] = np.zeros(truth(x).shape) if mode == "buffer" else None

    def reference(self, i):
        """The values operations shall see, as an own tensor."""
        x = contexts(self.net)[i]
        return torch.tensor(self.buffers[i] if self.modes[i] == "buffer" else truth(x), dtype=x.dtype)


def check(c, rec):
    m = Model(c)
    m.check("default")
    for i in range(len(m.modes)):
        m.set_mode(i, c["start"][i % len(c["start"])])
    m.check("start")
    saved = None
    read = wrote = trained = False
    for k, op in enumerate(c["ops"]):
        what = f"step {k} ({op['op']}{' ' + str(op['f']) if 'f' in op else ''})"
        n = len(m.modes)
        i = op.get("which", 0) % n
        x, mode = contexts(m.net)[i], m.modes[i]
        o = op["op"]
        if o == "mode":
            m.set_mode(i, op["mode"], op["how"])
        elif o == "bad mode":
            raises(lambda: setattr(x, "data_view_mode", op["v"]), ValueError, f"{what}: mode {op['v']!r}")
        elif o == "read":
            for f in op["f"]:
                r = outcome(READS[f], x)
                if mode == "placeholder":
                    require(isinstance(r, RuntimeError), lambda: f"{what}: {f} returns {r!r} of a placeholder")
                else:
                    agree(r, outcome(READS[f], m.reference(i)), f"{what}: {f} in mode {mode}")
                    read = True
            for f in METADATA:
                r, e = outcome(METADATA[f], x), outcome(METADATA[f], m.reference(i))
                require(r == e, lambda: f"{what}: {f} is {r} in mode {mode}, of a tensor {e}")
            require("data_view_mode" in dir(x) and "norm" in dir(x), f"{what}: names for completion")
        elif o == "write":
            wrote = True
            r = outcome(WRITES[op["f"]], x)
            if mode == "buffer":
                t = m.reference(i)
                WRITES[op["f"]](t)
                require(not isinstance(r, Exception), f"{what}: raises {r} on a buffer")
                m.buffers[i] = npy(t)
            else:
                require(isinstance(r, RuntimeError), f"{what}: possible in mode {mode}")
        elif o == "derived":
            wrote = True
            if "sgd" in op["f"] and x.analog_tile.analog_bias:
                continue  # a gradient has the shape of the weights with the bias, torch does not allow another
            g = x.grad
            r = outcome(DERIVED[op["f"]], x)
            require(x.grad is g, f"{what}: gradient lost")
            if mode == "placeholder" and "sgd" not in op["f"]:
                require(isinstance(r, RuntimeError), f"{what}: possible in mode {mode}")
            if mode == "buffer":
                require(not isinstance(r, Exception), f"{what}: raises {r} on a buffer")
                t = m.reference(i)
                if op["f"] == "uniform":
                    t = x.data.detach().clone()
                    require(bool((t != 0).any()) and 0 <= float(t.min()) and float(t.max()) <= 1, f"{what}: not written")
                elif "sgd" in op["f"] and not x.requires_grad:
                    t = x.data.detach().clone()
                elif op["f"] == "get_data":
                    t *= 2
                else:
                    DERIVED[op["f"]](t)
                m.buffers[i] = npy(t)
        elif o == "never":
            raises(lambda: NEVER[op["f"]](x), RuntimeError, f"{what} in mode {mode}")
        elif o == "train":
            for net, opt in ((m.net, m.opt), (m.twin, m.topt)):
                train(net, opt, c, op)
            bounded(m.net)
            trained = trained or any(v != "placeholder" for v in m.modes)
        elif o == "set":
            for net in (m.net, m.twin):
                ls = list(net.analog_layers())
                lay = ls[op["layer"] % len(ls)]
                w, b = lay.get_weights()
                lay.set_weights(cfg.ten(op["w"], w.shape), b)
        elif o == "save":
            saved = [copy.deepcopy(net.state_dict()) for net in (m.net, m.twin)]
            if op["v"]:
                for j, s in enumerate(saved):
                    f = io.BytesIO()
                    torch.save(s, f)
                    f.seek(0)
                    saved[j] = torch.load(f, weights_only=False)
        elif o == "load":
            if saved is not None:
                for net, s in zip((m.net, m.twin), saved):
                    net.load_state_dict(copy.deepcopy(s) if op["v"] else s)
                # existing optimizers go on to train the model
                m.topt = AnalogSGD(m.twin.parameters(), lr=0.1)
                for net, opt in ((m.net, m.opt), (m.twin, m.topt)):
                    train(net, opt, c, {"n": 1, "lr": 0.3, "s": c["seed"]})
                bounded(m.net)
        elif o in ("copy", "pickle"):
            before = m.net, m.twin
            if o == "copy":
                m.net, m.twin = copy.deepcopy(m.net), copy.deepcopy(m.twin)
            else:
                nets = []
                for net in before:
                    f = io.BytesIO()
                    torch.save(net, f)
                    f.seek(0)
                    nets.append(torch.load(f, weights_only=False))
                m.net, m.twin = nets
            m.attach()
            for j, y in enumerate(contexts(m.net)):
                if y.data_view_mode == Mode.PLACEHOLDER:
                    m.modes[j], m.buffers[j] = "placeholder", None
            # independent of the original
            w = weights(m.net)
            old = contexts(before[0])[i]
            old.enable_data_view()
            for lay in before[0].analog_layers():
                a, b = lay.get_weights()
                lay.set_weights(a * 0.5 + 0.01, b)
            for a, b in zip(w, weights(m.net)):
                same(a, b, f"{what}: weights of the copy after changing the original")
            close(old.data, truth(old), f"{what}: view of the original", 1e-5, 1e-6)
            if op["v"]:
                m.set_mode(i, "data_view")
        elif o == "freeze":
            for net in (m.net, m.twin):
                lays = list(net.analog_layers())
                lays[i % len(lays)].requires_grad_(op["v"])
            for y, z in zip(contexts(m.net), contexts(m.twin)):
                require(y.requires_grad == z.requires_grad, f"{what}: requires_grad {y.requires_grad} in mode {mode}, {z.requires_grad} by default")
            lay = lays[i % len(lays)]
            require(all(t.analog_ctx.requires_grad == op["v"] for t in lay.analog_tiles()), f"{what}: requires_grad")
            for net in (m.net, m.twin):
                net.requires_grad_(True)
        elif o == "cpu":
            for net in (m.net, m.twin):
                for lay in net.analog_layers():
                    lay.to("cpu") if op["v"] else lay.cpu()
        elif o == "reload":
            for net in (m.net, m.twin):
                s = net.state_dict()
                net.load_state_dict(copy.deepcopy(s) if op["v"] else s)
        elif o == "ctx cpu":
            require((x.cpu() if op["v"] else x.to("cpu")) is x, f"{what}: another object")
        elif o == "double" and c["spec"]["kind"] == "torch":
            before = weights(m.net)
            for net in (m.net, m.twin):
                net.to(dtype=torch.float64)
            m.check(f"{what} to double")
            for net in (m.net, m.twin):
                net.to(dtype=torch.float32)
            for a, b in zip(before, weights(m.net)):
                close(b, a, f"{what}: weights after changing the precision", 1e-5, 1e-6)
        elif o == "zero_grad":
            m.net.zero_grad(set_to_none=op["v"])
            m.twin.zero_grad(set_to_none=op["v"])
        elif o == "reset":
            x.reset()
            require(not x.has_gradient(), f"{what}: has a gradient")
        elif o == "dtype":
            require(x.to(torch.float64) is x, f"{what}: another object")
        m.check(what)
    for i in range(len(m.modes)):
        m.set_mode(i, MODES[(i + c["end"]) % 3])
    m.check("end")
    rec.hit((read and wrote) or trained)
    rec.label(c["spec"]["kind"], *(["several tiles"] if len(m.modes) > len(c["layers"]) else []), *sorted(set(m.modes)))


LANES = [Lane("context", cases(), check, quick=700, thorough=30000)]
