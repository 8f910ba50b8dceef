"""P12: analog convolutions compute the documented convolution for every shape history."""
import faulthandler
import os
import torch
from hypothesis import strategies as st
from torch import nn

from aihwkit.nn import (AnalogConv1d, AnalogConv1dMapped, AnalogConv2d, AnalogConv2dMapped, AnalogConv3d,
                        AnalogConv3dMapped)
from aihwkit.optim import AnalogSGD
from vlib import cfg, gen
from vlib.core import Lane, Violation, Skip
from vlib.util import LAYOUTS, close, laid_out, require

PROPERTY = "P12"
RULE = ("cases: conv dimension, mapped or not, channels, kernel, stride, padding, dilation, bias kind, ideal configuration, "
        "indexed or unfolded path, tile size limits, and a history of forward / backward / SGD steps with changing image "
        "sizes and batch sizes, several passes before a step; compared step by step with torch's convolution and SGD. Non-trivial: at least two steps "
        "of different input shape, or a kernel larger than 1 with padding or stride, or more than one tile.")
CLS = {(1, False): AnalogConv1d, (2, False): AnalogConv2d, (3, False): AnalogConv3d,
       (1, True): AnalogConv1dMapped, (2, True): AnalogConv2dMapped, (3, True): AnalogConv3dMapped}
REF = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([2, 2, 1, 3]))
    mapped = draw(st.booleans())
    hi = 7 if dim < 3 else 4
    c = {"dim": dim, "mapped": mapped,
         "cin": draw(st.integers(1, 4)), "cout": draw(st.integers(1, 4)),
         "k": [draw(st.integers(1, 3 if dim < 3 else 2)) for _ in range(dim)],
         "stride": [draw(st.integers(1, 2)) for _ in range(dim)],
         "pad": [draw(st.integers(0, 2 if dim < 3 else 1)) for _ in range(dim)],
         "dil": [draw(st.integers(1, 2)) for _ in range(dim)] if dim == 2 else [1] * dim,
         "bias": draw(st.booleans()),
         "digital_bias": draw(st.booleans()) or mapped,
         "rpu": draw(gen.ideal_kinds(("fp", "single", "inference", "torch") if dim == 2 else ("fp", "single", "inference"))),
         "indexed": draw(st.sampled_from([None, True, False])) if dim == 2 else None,
         "max_in": draw(st.sampled_from([512, 0, 18, 27])), "max_out": draw(st.sampled_from([512, 0, 2, 3])),
         "w": draw(gen.data(["normal", "uniform", "grid"])), "b": draw(gen.data(["normal", "grid"])),
         "lr": draw(st.sampled_from([0.01, 0.1])), "split": draw(st.booleans())}
    if draw(st.booleans()):   # same geometry in all dimensions is the common use
        for key in ("k", "stride", "pad", "dil"):
            c[key] = [c[key][0]] * dim
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        if steps and draw(st.integers(0, 2)) == 0:      # permuted image: same number of elements
            size = list(draw(st.permutations(steps[-1]["size"])))
        elif steps and draw(st.integers(0, 2)) == 0:
            size = list(steps[-1]["size"])
        else:
            size = [draw(st.integers(1, hi)) for _ in range(dim)]
        for i in range(dim):
            size[i] = max(size[i], c["dil"][i] * (c["k"][i] - 1) + 1 - 2 * c["pad"][i])
        steps.append({"size": size, "batch": draw(st.integers(1, 3)), "x": draw(gen.data(["normal", "grid", "uniform"])),
                      "op": draw(st.sampled_from(["train", "train", "eval", "acc"])),
                      "unbatched": draw(st.integers(0, 4)) == 4,
                      "layout": draw(st.sampled_from(LAYOUTS)), "glayout": draw(st.sampled_from(LAYOUTS))})
    c["steps"] = steps
    return c


def check(c, rec):
    dim, mapped = c["dim"], c["mapped"]
    if mapped:
        kel = 1
        for k in c["k"]:
            kel *= k
        if 0 < c["max_in"] < kel:
            c["max_in"] = kel
    rpu = cfg.config(gen.merge(c["rpu"], {"mapping": {"digital_bias": c["digital_bias"], "max_input_size": c["max_in"],
                                                      "max_output_size": c["max_out"]}}))
    args = (c["cin"], c["cout"], tuple(c["k"]))
    kw = dict(stride=tuple(c["stride"]), padding=tuple(c["pad"]), dilation=tuple(c["dil"]), bias=c["bias"])
    extra = {} if c["indexed"] is None else {"use_indexed": c["indexed"]}
    if c["rpu"]["kind"] == "torch":
        rpu.mapping.digital_bias = True     # analog bias is documented as unsupported
    if not mapped and (not c["split"] or dim != 2):     # split arrays do not support the indexed 1d/3d paths
        rpu.mapping.max_input_size = rpu.mapping.max_output_size = 0
    layer = CLS[dim, mapped](*args, rpu_config=rpu, **kw, **extra)
    ntiles = layer.analog_tile_count()
    ref = REF[dim](*args, **kw).double()
    w = cfg.ten(c["w"], ref.weight.shape)
    b = cfg.ten(c["b"], (c["cout"],)) if c["bias"] else None
    layer.set_weights(w, b)
    with torch.no_grad():
        ref.weight.copy_(w)
        if b is not None:
            ref.bias.copy_(b)
            b.fill_(99.0)
        w.fill_(99.0)
    opt = AnalogSGD(layer.parameters(), lr=c["lr"])
    ropt = torch.optim.SGD(ref.parameters(), lr=c["lr"])
    shapes = set()
    pending = None
    for s in c["steps"]:        # F131: the index matrix of the last pass is used for all
        # (the unfolded mode refuses several sizes for layers updated in memory)
        if pending is not None and c["rpu"]["kind"] in ("fp", "single"):
            s["size"], s["unbatched"] = list(pending), False
        if s["op"] == "acc":
            s["unbatched"] = False
        pending = s["size"] if s["op"] == "acc" or (s["op"] == "eval" and pending is not None) else None
    for i, s in enumerate(c["steps"]):
        shape = (s["batch"], c["cin"], *s["size"])
        shapes.add(shape[1:])
        x = laid_out(cfg.ten(s["x"], shape), s["layout"])
        if s["unbatched"] and dim == 2 and not mapped and not c["indexed"]:
            x = x[0]       # the other modes refuse inputs without batch dimension
            rec.label("unbatched")
        shape = tuple(x.shape)
        if s["layout"] != "plain":
            rec.label(s["layout"])
        xr = x.detach().contiguous().double()
        train = s["op"] in ("train", "acc")
        layer.train(train)
        tag = f"step {i} {s['op']} input {shape}"
        x = x.detach()
        x.requires_grad_(train)
        xr.requires_grad_(train)
        if train:
            if i == 0 or c["steps"][i - 1]["op"] != "acc":       # "acc": several passes before the step
                opt.zero_grad()
                ropt.zero_grad()
            y, yr = layer(x), ref(xr)
        else:
            with torch.no_grad():
                y, yr = layer(x), ref(xr)
        close(y, yr, f"{tag}: output")
        if train:
            g = cfg.ten({"k": "normal", "s": s["x"]["s"] // 2 + 1}, tuple(yr.shape))
            g = laid_out(g, s["glayout"])
            y.backward(g)
            yr.backward(g.double())
            close(x.grad, xr.grad, f"{tag}: input gradient")
            if s["op"] == "acc":
                rec.label("accumulated")
                continue
            opt.step()
            ropt.step()
            lw, lb = layer.get_weights()
            close(lw.reshape(ref.weight.shape), ref.weight, f"{tag}: weight after SGD step", rtol=2e-4)
            if b is not None:
                close(lb, ref.bias, f"{tag}: bias after SGD step", rtol=2e-4)
    rec.label(f"dim{dim}", "mapped" if mapped else "single", c["rpu"]["kind"], f"indexed={c['indexed']}",
              "multi-tile" if ntiles > 1 else "one-tile", f"shapes={min(len(shapes), 3)}", "bias" if c["bias"] else "nobias")
    if c["bias"] and not c["digital_bias"]:
        rec.label("analog-bias")
    numel = {}
    for s in shapes:
        n = 1
        for v in s:
            n *= v
        numel.setdefault(n, []).append(s)
    if any(len(v) > 1 for v in numel.values()):
        rec.label("same-numel-different-shape")
    rec.hit(len(shapes) > 1 or ntiles > 1 or (max(c["k"]) > 1 and (max(c["pad"]) > 0 or max(c["stride"]) > 1)))


@st.composite
def two_cases(draw):
    return {"kind": draw(st.sampled_from(["fp", "single"])), "mapped": draw(st.booleans()), "n": [draw(st.integers(1, 3)) for _ in range(2)],
            "a": draw(st.integers(3, 6)), "b": draw(st.integers(3, 6)), "batch": draw(st.integers(1, 3)), "s": draw(gen.seeds), "k": draw(st.integers(1, 3)),
            "indexed": draw(st.sampled_from([True, True, False]))}


def two(c):
    """Weights after two passes with images of two sizes before one step, and those of the reference."""
    spec = {"kind": c["kind"], "mapping": {"max_input_size": 0, "max_output_size": 0}}
    if c["kind"] == "single":
        spec.update(device={"cls": "IdealDevice"}, forward={"is_perfect": True}, backward={"is_perfect": True}, update={"pulse_type": "None"})
    layer = CLS[2, c["mapped"]](c["n"][0], c["n"][1], c["k"], bias=False, rpu_config=cfg.config(spec), use_indexed=c["indexed"])
    ref = nn.Conv2d(c["n"][0], c["n"][1], c["k"], bias=False)
    with torch.no_grad():
        ref.weight.copy_(cfg.ten({"k": "uniform", "s": c["s"]}, ref.weight.shape))
    layer.set_weights(ref.weight.detach().clone(), None)
    opt, ropt = AnalogSGD(layer.parameters(), lr=0.1), torch.optim.SGD(ref.parameters(), lr=0.1)
    for k, n in enumerate((c["a"], c["b"])):
        x = cfg.ten({"k": "uniform", "s": c["s"] + 1 + k}, (c["batch"], c["n"][0], n, n))
        y, yr = layer(x), ref(x)
        g = cfg.ten({"k": "normal", "s": c["s"] + 3 + k}, tuple(yr.shape))
        close(y, yr, f"pass {k}: output")
        y.backward(g)
        yr.backward(g)
    opt.step()
    ropt.step()
    return layer.get_weights()[0].reshape(ref.weight.shape), ref.weight.detach()


def check_two(c, rec):
    """Several passes with images of two sizes before one step."""
    rec.label(f"indexed={c['indexed']}", c["kind"], "sizes" if c["a"] != c["b"] else "one size")
    rec.hit(c["a"] != c["b"])
    if c["indexed"] and c["a"] != c["b"]:
        pid = os.fork()             # F131: the update may read out of the bounds of the image
        if pid == 0:
            code = 4
            try:
                faulthandler.disable()
                w, r = two(c)
                code = 0 if torch.allclose(w, r, rtol=2e-4, atol=1e-4) else 3
            except Violation:
                pass
            finally:
                os._exit(code)
        status = os.waitpid(pid, 0)[1]
        require(not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 4), "output of a pass, or an error in the step")
        if status != 0:
            rec.known.append(("F131", "indexed convolution updated with two image sizes in one step"))
        return
    if c["a"] != c["b"]:
        raise Skip("refused with an error")
    w, r = two(c)
    close(w, r, "weights after a step of two passes", rtol=2e-4, atol=1e-4)


LANES = [Lane("two", two_cases(), check_two, quick=60, thorough=2000,
              explicit=[{"kind": "fp", "mapped": False, "n": [1, 1], "a": 5, "b": 4, "batch": 1, "s": 5, "k": 2, "indexed": True}]), Lane("conv", cases(), check, quick=1400, thorough=40000)]
