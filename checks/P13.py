"""P13: analog recurrent layers equal the digital ones."""
import numpy as np
import torch
from hypothesis import strategies as st

from aihwkit.nn import (AnalogGRUCell, AnalogLSTMCell, AnalogLSTMCellCombinedWeight, AnalogRNN, AnalogVanillaRNNCell)
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.tiles.array import TileModuleArray  # noqa
from vlib import cfg, gen
from vlib.core import Lane
from vlib.util import close, npy, require

PROPERTY = "P13"
RULE = ("cases: a recurrent network (vanilla, LSTM, combined-weight LSTM, GRU; 1-3 layers, one or two directions, bias or not, "
        "dropout off, certain or in evaluation) on ideal hardware, with a sequence of calls (lengths, batch sizes, given or zero or carried "
        "states) and SGD steps. Outputs, all final states, gradients of inputs and initial states, and the weights after each "
        "step equal those of the torch network. Non-trivial: a step changed the weights.")
CELLS = {"rnn": (AnalogVanillaRNNCell, 1), "lstm": (AnalogLSTMCell, 4), "comb": (AnalogLSTMCellCombinedWeight, 4), "gru": (AnalogGRUCell, 3)}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["fp", "fp", "single", "inference", "torch", "digital"]))
    spec = {"fp": {"kind": "fp"}, "inference": {"kind": "inference", "forward": {"is_perfect": True}},
            "torch": {"kind": "torch", "forward": {"is_perfect": True}},
            "single": {"kind": "single", "device": {"cls": "IdealDevice"}, "forward": {"is_perfect": True}, "backward": {"is_perfect": True},
                       "update": {"pulse_type": "None"}}, "digital": None}[kind]
    cell = draw(st.sampled_from(list(CELLS)))
    if cell == "gru" and kind == "digital":
        spec = {"kind": "fp"}                         # (the GRU cell has no digital version)
    if spec:
        spec = dict(spec)
        spec["mapping"] = {"digital_bias": True if kind == "torch" else draw(st.booleans()),
                           "weight_scaling_omega": draw(st.sampled_from([0.0, 0.6])),
                           "max_input_size": 0, "max_output_size": 0}
        if draw(st.integers(0, 3)) == 3:
            spec["mapping"].update(digital_bias=True, max_input_size=draw(st.sampled_from([2, 3])), max_output_size=draw(st.sampled_from([0, 5])))
    call = st.fixed_dictionaries({"t": st.integers(1, 4), "b": st.integers(1, 3), "s": gen.seeds,
                                  "state": st.sampled_from(["none", "given", "carry"]), "lr": st.sampled_from([0.1, 0.5, 0.0]),
                                  "twice": st.booleans(), "train": st.booleans()})
    return {"spec": spec, "cell": cell, "n_in": draw(st.integers(1, 4)), "n_hid": draw(st.integers(1, 4)),
            "layers": draw(st.integers(1, 3)), "bidir": draw(st.booleans()), "bias": draw(st.booleans()),
            "dropout": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])), "ws": draw(gen.seeds), "xavier": draw(st.booleans()),
            "calls": draw(st.lists(call, min_size=1, max_size=4))}


def cells(model, c):
    """Analog cells in torch order: layer by layer, forward then reverse."""
    out = []
    for lay in model.rnn.layers:
        out += [d.cell for d in lay.directions] if c["bidir"] else [lay.cell]
    return out


def put(mod, w, b):
    if isinstance(mod, AnalogLinear):
        mod.set_weights(w, b)
    else:
        mod.weight.data.copy_(w)
        if b is not None:
            mod.bias.data.copy_(b)


def weights(mod):
    if isinstance(mod, AnalogLinear):
        w, b = mod.get_weights()
        return npy(w), None if b is None else npy(b)
    return npy(mod.weight), None if mod.bias is None else npy(mod.bias)


def check(c, rec):
    kind = c["cell"]
    cls = {"rnn": torch.nn.RNN, "lstm": torch.nn.LSTM, "comb": torch.nn.LSTM, "gru": torch.nn.GRU}[kind]
    n_hid, lstm = c["n_hid"], kind in ("lstm", "comb")
    # (dropping with certainty is deterministic: everything between the layers, nothing else)
    ref = cls(c["n_in"], n_hid, c["layers"], bias=c["bias"], bidirectional=c["bidir"],
              dropout=1.0 if c["dropout"] == 1.0 and c["layers"] > 1 else 0.0)
    rpu = cfg.config(c["spec"]) if c["spec"] else None
    model = AnalogRNN(CELLS[kind][0], c["n_in"], n_hid, bias=c["bias"], rpu_config=rpu, num_layers=c["layers"], bidir=c["bidir"],
                      dropout=c["dropout"] if c["layers"] > 1 else 0.0, xavier=c["xavier"])
    dirs = ["", "_reverse"] if c["bidir"] else [""]
    names = [f"l{i}{d}" for i in range(c["layers"]) for d in dirs]
    cl = cells(model, c)
    require(len(cl) == len(names), "number of cells")
    r = np.random.RandomState(c["ws"])
    for n in names:
        for w in [f"weight_ih_{n}", f"weight_hh_{n}"] + ([f"bias_ih_{n}", f"bias_hh_{n}"] if c["bias"] else []):
            p = getattr(ref, w)
            p.data.copy_(torch.from_numpy(r.uniform(-0.8, 0.8, tuple(p.shape))))
    for cell in cl:
        for m in [cell.weight] if kind == "comb" else [cell.weight_ih, cell.weight_hh]:
            w, b = weights(m)
            require(np.abs(w).max() > 0, "weights are not initialised")
            lim = np.sqrt(6.0 / sum(w.shape)) if c["xavier"] else 1 / np.sqrt(n_hid)
            require(np.abs(w).max() <= lim * 1.0001, "initial weights beyond the documented range")
            if b is not None:
                require(np.abs(b).max() <= (0 if c["xavier"] else lim * 1.0001), "initial biases beyond the documented range")
    g = lambda n: getattr(ref, n).data.clone() if hasattr(ref, n) else None  # noqa
    for n, cell in zip(names, cl):
        if kind == "comb":
            put(cell.weight, torch.cat([g("weight_ih_" + n), g("weight_hh_" + n)], 1), g("bias_ih_" + n) + g("bias_hh_" + n) if c["bias"] else None)
        else:
            put(cell.weight_ih, g("weight_ih_" + n), g("bias_ih_" + n) if c["bias"] else None)
            put(cell.weight_hh, g("weight_hh_" + n), g("bias_hh_" + n) if c["bias"] else None)
    opt, ropt = AnalogSGD(model.parameters(), lr=0.1), torch.optim.SGD(ref.parameters(), lr=0.1)
    carry, moved = None, False
    for i, k in enumerate(c["calls"]):
        what = f"call {i}"
        model.train(k["train"] and c["dropout"] in (0.0, 1.0))
        ref.train(model.training)
        for gr in opt.param_groups + ropt.param_groups:
            gr["lr"] = k["lr"] / (2 if kind == "comb" and False else 1)
        opt.zero_grad()
        ropt.zero_grad()
        for rep in range(2 if k["twice"] else 1):
            x = cfg.ten({"k": "normal", "s": k["s"] + rep, "m": 1.0}, (k["t"], k["b"], c["n_in"]))
            xa, xr = x.clone().requires_grad_(), x.clone().requires_grad_()
            nd = len(names)
            h0 = None
            if k["state"] == "given" or (k["state"] == "carry" and carry is not None):
                if k["state"] == "carry" and carry[0].shape[1] == k["b"]:
                    base = carry
                else:
                    base = [cfg.ten({"k": "uniform", "s": k["s"] + 9 + j, "m": 0.9}, (nd, k["b"], n_hid)) for j in range(2)]
                h0 = [b.clone().requires_grad_() for b in base]
                ha = [b.clone().requires_grad_() for b in base]
            if h0 is None:
                yr, sr = ref(xr)
                ya, sa = model(xa)
            else:
                yr, sr = ref(xr, tuple(h0) if lstm else h0[0])
                per = [(ha[0][j], ha[1][j]) if lstm else ha[0][j] for j in range(nd)]
                ya, sa = model(xa, [[per[2 * j], per[2 * j + 1]] for j in range(c["layers"])] if c["bidir"] else per)
            close(ya, yr, what + ": output", 1e-4, 1e-5)
            flat = [s for lay in sa for s in lay] if c["bidir"] else list(sa)
            require(len(flat) == nd, what + ": number of final states")
            if lstm:
                close(torch.stack([f[0] for f in flat]), sr[0], what + ": final hidden state", 1e-4, 1e-5)
                close(torch.stack([f[1] for f in flat]), sr[1], what + ": final cell state", 1e-4, 1e-5)
                carry = [sr[0].detach(), sr[1].detach()]
            else:
                close(torch.stack(flat), sr, what + ": final state", 1e-4, 1e-5)
                carry = [sr.detach(), sr.detach()]
            go = cfg.ten({"k": "normal", "s": k["s"] + 31 + rep, "m": 0.5}, tuple(yr.shape))
            (yr * go).sum().backward()
            (ya * go).sum().backward()
            close(xa.grad, xr.grad, what + ": input gradient", 1e-3, 1e-5)
            if h0 is not None:
                close(ha[0].grad, h0[0].grad, what + ": gradient of the initial state", 1e-3, 1e-5)
                if lstm:
                    close(ha[1].grad, h0[1].grad, what + ": gradient of the initial cell state", 1e-3, 1e-5)
        opt.step()
        ropt.step()
        for n, cell in zip(names, cl):
            if kind == "comb":
                w, b = weights(cell.weight)
                # the combined weight has one bias: its step is that of each of the two torch biases
                close(w, np.concatenate([npy(g("weight_ih_" + n)), npy(g("weight_hh_" + n))], 1), f"{what}: weights {n}", 1e-3, 2e-5)
                if c["bias"]:
                    bi, bh = getattr(ref, "bias_ih_" + n), getattr(ref, "bias_hh_" + n)
                    step = k["lr"] * npy(bi.grad)
                    old = npy(bi) + step + npy(bh) + step
                    close(b, old - step, f"{what}: bias {n}", 1e-3, 2e-5)
                    half = torch.from_numpy(b / 2).float()
                    bi.data.copy_(half)
                    bh.data.copy_(half)
            else:
                for part in ("ih", "hh"):
                    w, b = weights(getattr(cell, "weight_" + part))
                    close(w, g(f"weight_{part}_{n}"), f"{what}: weight {part} {n}", 1e-3, 2e-5)
                    if c["bias"]:
                        close(b, g(f"bias_{part}_{n}"), f"{what}: bias {part} {n}", 1e-3, 2e-5)
        moved |= k["lr"] > 0
    rec.label(kind, c["spec"]["kind"] if c["spec"] else "digital", f"layers{c['layers']}", "bidir" if c["bidir"] else "unidir")
    rec.hit(moved)


LANES = [Lane("rnn", cases(), check, quick=700, thorough=40000)]
