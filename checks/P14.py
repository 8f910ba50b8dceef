"""P14: converting models to analog and back preserves what they compute."""
import copy

import torch
from hypothesis import strategies as st
from torch import nn

from aihwkit.nn import (AnalogConv1d, AnalogConv1dMapped, AnalogConv2d, AnalogConv2dMapped, AnalogConv3d, AnalogConv3dMapped,
                        AnalogLinear, AnalogLinearMapped, AnalogSequential)
from aihwkit.nn.conversion import (_DEFAULT_CONVERSION_MAP, _DEFAULT_MAPPED_CONVERSION_MAP, convert_to_analog,
                                   convert_to_digital)
from aihwkit.nn.modules.base import AnalogLayerBase
from aihwkit.nn.modules.container import AnalogWrapper
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.tiles.module import TileModule
from vlib import cfg, gen
from vlib.core import Lane
from vlib.util import close, npy, require, same

PROPERTY = "P14"
RULE = ("cases: a random module tree (nested Sequential, two custom block classes of equal name with a skip connection, shared and "
        "repeated layers, normalisation, dropout, a convolutional front end, bare layers as root), converted with ideal hardware "
        "(any layer map, tile size limits, scaling, excluded names, per-layer configurations, in place or not, wrapped or not), "
        "then trained and converted back. Non-trivial: at least one layer was converted and one kept.")
N = 6


def make(cls_kind):
    """Two different module classes which have the same name."""
    class Block(nn.Module):
        def __init__(self, body, n_in, n_out, act):
            super().__init__()
            self.act = act
            self.body = body
            self.skip = nn.Linear(n_in, n_out, bias=cls_kind == 0)
            self.gain = nn.Parameter(torch.tensor(0.7))
            self.note = f"block{cls_kind}"

        def forward(self, x):
            if cls_kind == 0:
                return self.act(self.body(x)) + self.gain * self.skip(x)
            return self.act(self.skip(x)) - self.gain * self.body(x)
    return Block


BLOCKS = [make(0), make(1)]


class MyLinear(nn.Linear):
    """A derived class: not in the conversion map."""


class Wrap(nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.tag = "kept"

    def forward(self, x):
        return 0.5 * self.inner(x)


def leaf():
    return st.one_of(st.fixed_dictionaries({"t": st.just("lin"), "n": st.integers(1, N), "b": st.booleans()}),
                     st.fixed_dictionaries({"t": st.just("lin"), "n": st.integers(1, N), "b": st.booleans()}),
                     st.fixed_dictionaries({"t": st.just("mylin"), "n": st.integers(1, N), "b": st.booleans()}),
                     st.fixed_dictionaries({"t": st.sampled_from(["relu", "tanh", "ident", "norm", "drop", "shared"])}))


def tree():
    return st.recursive(leaf(), lambda ch: st.one_of(
        st.fixed_dictionaries({"t": st.just("seq"), "c": st.lists(ch, min_size=0, max_size=4)}),
        st.fixed_dictionaries({"t": st.just("seq"), "c": st.lists(ch, min_size=2, max_size=4)}),
        st.fixed_dictionaries({"t": st.just("block"), "k": st.integers(0, 1), "body": ch}),
        st.fixed_dictionaries({"t": st.just("repeat"), "b": st.booleans(), "c": ch}),
        st.fixed_dictionaries({"t": st.just("wrap"), "c": ch})), max_leaves=8)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["fp", "fp", "single", "inference", "torch"]))
    rpu = draw(gen.ideal_kinds((kind,)))
    rpu = gen.merge(rpu, {"mapping": {"digital_bias": True if kind == "torch" else draw(st.booleans()),
                                      "weight_scaling_omega": draw(st.sampled_from([0.0, 0.6])),
                                      "weight_scaling_columnwise": draw(st.booleans()),
                                      "max_input_size": 0, "max_output_size": 0}})
    mapped = draw(st.integers(0, 3)) == 3
    if mapped or draw(st.integers(0, 3)) == 3:
        rpu["mapping"].update(digital_bias=True, max_input_size=draw(st.sampled_from([9, 27])), max_output_size=draw(st.sampled_from([0, 2])))
    conv = None
    if draw(st.integers(0, 2)) == 2:
        dim = draw(st.sampled_from([1, 2, 2, 3]))
        if kind == "torch" or (not mapped and rpu["mapping"]["max_input_size"]):
            dim = 2                                  # split arrays and torch tiles do not support the indexed 1d/3d paths
        conv = {"dim": dim, "ch": draw(st.lists(st.integers(1, 3), min_size=1, max_size=2)), "k": draw(st.integers(1, 3 if dim < 3 else 2)),
                "pad": draw(st.integers(0, 1)), "stride": draw(st.integers(1, 2)), "b": draw(st.booleans()), "size": draw(st.integers(3, 5)),
                "where": draw(st.sampled_from(["seq", "root"]))}
    return {"rpu": rpu, "mapped": mapped, "conv": conv, "tree": draw(tree()), "n_in": draw(st.integers(1, N)), "batch": draw(st.integers(2, 4)),
            "s": draw(gen.seeds), "exclude": draw(st.lists(st.integers(0, 30), max_size=2)), "inplace": draw(st.booleans()),
            "root": draw(st.booleans()), "fun": draw(st.sampled_from(["none", "record", "modify"])), "tile_cls": draw(st.booleans()),
            "eval": draw(st.sampled_from(["train", "eval", "mixed"])), "train": draw(st.booleans()), "only": draw(st.sampled_from(["", "", "seq", "lin"])),
            "dig_inplace": draw(st.booleans()), "dig_only": draw(st.booleans())}


def build(t, n, env):
    """Returns (module, output size)."""
    k = t["t"]
    if k in ("lin", "mylin"):
        return (nn.Linear if k == "lin" else MyLinear)(n, t["n"], bias=t["b"]), t["n"]
    if k == "relu":
        return nn.ReLU(), n
    if k == "tanh":
        return nn.Tanh(), n
    if k == "ident":
        return nn.Identity(), n
    if k == "norm":
        return nn.LayerNorm(n), n
    if k == "drop":
        return nn.Dropout(0.4), n
    if k == "shared":
        return env["shared"], n
    if k == "seq":
        mods = []
        for sub in t["c"]:
            m, n = build(sub, n, env)
            mods.append(m)
        return nn.Sequential(*mods), n
    if k == "repeat":                               # the same layer used twice within one parent
        lin = nn.Linear(n, n, bias=t["b"])
        body, m = build(t["c"], n, env)
        if m != n:
            body, m = nn.Sequential(body, nn.Linear(m, n)), n
        return nn.Sequential(lin, body, lin), n
    if k == "wrap":
        m, n = build(t["c"], n, env)
        return Wrap(m), n
    body, m = build(t["body"], n, env)
    return BLOCKS[t["k"]](body, n, m, env["shared"] if t["k"] else nn.Sigmoid()), m


def model(c):
    env = {"shared": nn.ReLU()}
    if c["conv"] is None:
        return build(c["tree"], c["n_in"], env)[0], (c["batch"], c["n_in"])
    v = c["conv"]
    cls = {1: nn.Conv1d, 2: nn.Conv2d, 3: nn.Conv3d}[v["dim"]]
    n, mods = 2, []
    for ch in v["ch"]:
        mods += [cls(n, ch, v["k"], stride=v["stride"], padding=v["pad"], bias=v["b"]), env["shared"]]
        n = ch
    shape = (c["batch"], 2) + (v["size"] + 2,) * v["dim"]
    if v["where"] == "root" and len(v["ch"]) == 1:
        return mods[0], shape
    mods += [nn.Flatten(), nn.AdaptiveAvgPool1d(N)]
    n = N
    try:
        nn.Sequential(*mods)(torch.zeros(shape))
    except RuntimeError:                            # image too small for the second layer
        mods = mods[:2] + mods[-2:]
    tail, _ = build(c["tree"], n, env)
    return nn.Sequential(*mods, tail), shape


ANALOG = {nn.Linear: AnalogLinear, nn.Conv1d: AnalogConv1d, nn.Conv2d: AnalogConv2d, nn.Conv3d: AnalogConv3d, nn.Sequential: AnalogSequential}
MAPPED = {nn.Linear: AnalogLinearMapped, nn.Conv1d: AnalogConv1dMapped, nn.Conv2d: AnalogConv2dMapped, nn.Conv3d: AnalogConv3dMapped,
          nn.Sequential: AnalogSequential}
LAYERS = (nn.Linear, nn.Conv1d, nn.Conv2d, nn.Conv3d)


def names(mod, prefix=""):
    """All registered names (repeated uses included)."""
    out = [(prefix, mod)]
    for n, m in mod._modules.items():
        out += names(m, f"{prefix}.{n}" if prefix else n)
    return out


def check(c, rec):
    torch.manual_seed(c["s"] % 100003)
    digital, shape = model(c)
    with torch.no_grad():
        for p in digital.parameters():
            if p.dim():
                p.copy_(cfg.ten({"k": "uniform", "s": c["s"] + p.numel()}, p.shape))
    digital.train(c["eval"] != "eval")
    if c["eval"] == "mixed":
        for i, m in enumerate(digital.modules()):
            m.training = (c["s"] >> (i % 20)) & 1 == 0
    all_names = names(digital)
    exclude = sorted({all_names[i % len(all_names)][0] for i in c["exclude"]})
    repeated = {n for n, m in all_names if sum(m is k for _, k in all_names) > 1}
    exclude = [e for e in exclude if e not in repeated]      # (the name of a repeated layer is ambiguous)
    table = MAPPED if c["mapped"] else ANALOG
    if c["only"]:
        table = {k: v for k, v in table.items() if (k is nn.Sequential) == (c["only"] == "seq")}
    require(_DEFAULT_CONVERSION_MAP == ANALOG and _DEFAULT_MAPPED_CONVERSION_MAP == MAPPED, "default conversion maps")
    rpu = cfg.config(c["rpu"])
    tile_cls = None
    if c["tile_cls"] and c["rpu"]["mapping"]["max_input_size"] == 0:
        tile_cls = type("CustomTile", (rpu.tile_class,), {})
    calls = []

    def fun(name, mod, config):
        require(config is not rpu and config.mapping is not rpu.mapping, "the per-layer configuration is not a copy")
        require(config.mapping == rpu.mapping, f"{name}: configuration differs from the general one: {config.mapping}")
        calls.append((name, type(mod)))
        if c["fun"] == "modify":
            config.mapping.weight_scaling_omega = 0.1 + 0.01 * (len(name) % 7)
        return config
    reference = copy.deepcopy(digital)
    before = {k: v.clone() for k, v in digital.state_dict().items()}
    structure = [(n, type(m), m.training) for n, m in names(digital)]
    before_map = copy.deepcopy(rpu.mapping)
    kw = dict(conversion_map=table if (c["mapped"] or c["only"]) else None, tile_module_class=tile_cls, exclude_modules=exclude or None,
              inplace=c["inplace"], ensure_analog_root=c["root"], specific_rpu_config_fun=None if c["fun"] == "none" else fun)
    analog = convert_to_analog(digital, rpu, **kw)
    ann = names(analog)
    require(rpu.mapping == before_map, "the given configuration was changed")
    if not c["inplace"]:
        require([(n, type(m), m.training) for n, m in names(digital)] == structure, "the original model's structure changed")
        for k, v in digital.state_dict().items():
            same(v, before[k], f"original {k} after a conversion that is not in place")
    refn, refd = names(reference), dict(names(reference))
    # structure
    expected, kept_excl = {}, []
    for n, m in refn:
        parts = n.split(".") if n else []
        anc = [".".join(parts[:i]) for i in range(1, len(parts) + 1)]
        if any(a in exclude for a in anc) or (n == "" and "" in exclude):
            expected[n] = type(m)
            kept_excl.append(n)
        else:
            expected[n] = table.get(type(m), type(m))
    got = {n: m for n, m in ann if not any(isinstance(p, TileModule) for p in [m])}
    converted = kept = 0
    for n, cls in expected.items():
        require(n in got, f"module {n} is missing after the conversion")
        gcls = type(got[n])
        if n == "" and c["root"] and not issubclass(cls, AnalogLayerBase):
            require(isinstance(got[n], AnalogWrapper) and isinstance(got[n], cls), f"root is {gcls} instead of a wrapped {cls}")
            require(isinstance(got[n], AnalogLayerBase), "root is not analog")
        else:
            require(gcls is cls, f"module '{n}' became {gcls.__name__}, expected {cls.__name__}")
        ref_mod = refd[n]
        require(got[n].training == ref_mod.training, f"module '{n}': training mode {got[n].training}, was {ref_mod.training}")
        if cls in LAYERS or cls is MyLinear:
            kept += 1
        if isinstance(got[n], AnalogLayerBase) and not got[n].IS_CONTAINER:
            converted += 1
            tiles = [m for m in got[n].modules() if isinstance(m, TileModule)]
            require(len(tiles) > 0, f"{n} has no tiles")
            for t in tiles:
                require(tile_cls is None or type(t) is tile_cls, f"{n}: tile class {type(t)}")
                require(t.training == ref_mod.training, f"{n}: training mode of the tile")
                om = rpu.mapping.weight_scaling_omega if c["fun"] != "modify" else None
                require(t.rpu_config is not rpu, f"{n}: tile shares the given configuration")
                if om is not None:
                    require(t.rpu_config.mapping.weight_scaling_omega == om, f"{n}: omega {t.rpu_config.mapping.weight_scaling_omega}")
                elif not any(got[n] is m for q, m in ann if q != n):
                    require(abs(t.rpu_config.mapping.weight_scaling_omega - (0.1 + 0.01 * (len(n) % 7))) < 1e-6, f"{n}: specific configuration")
    if c["fun"] != "none":
        seen = {}
        for n, m in refn:
            if expected[n] is not type(m):
                seen.setdefault(id(m) if n in repeated else n, n)
        want = {n for n in seen.values()}
        gotn = {n for n, _ in calls}
        require(want <= gotn | repeated and gotn <= {n for n in expected if expected[n] is not type(refd[n])},
                f"configuration function called for {sorted(gotn)}, expected {sorted(want)}")
    # shared modules stay shared within a parent
    pairs = [(n, k) for n, m in refn for k, q in refn if n < k and m is q and n.rsplit(".", 1)[:-1] == k.rsplit(".", 1)[:-1]]
    for n, k in pairs:
        require(got[n] is got[k], f"{n} and {k} were the same module but are not after the conversion")
    for n, m in refn:
        for attr in ("note", "tag"):
            if hasattr(m, attr):
                require(getattr(got[n], attr, None) == getattr(m, attr), f"attribute {attr} of {n} lost")

    # function
    x = cfg.ten({"k": "uniform", "s": c["s"] + 1}, shape)
    has_drop = any(isinstance(m, nn.Dropout) for m in reference.modules())
    state = {n: m.training for n, m in analog.named_modules()}
    if not has_drop:
        close(analog(x), reference(x), "output after conversion", rtol=1e-4)
    analog.eval()
    reference.eval()
    with torch.no_grad():
        yr = reference(x)
        close(analog(x), yr, "output in evaluation mode after conversion", rtol=1e-4)
    if not c["inplace"]:
        digital.eval()
        with torch.no_grad():
            same(digital(x), yr, "output of the original model")
    # training the analog model does not touch the original
    if c["train"] and converted:
        opt = AnalogSGD(analog.parameters(), lr=0.01)
        ropt = torch.optim.SGD(reference.parameters(), lr=0.01)
        for _ in range(2):
            opt.zero_grad()
            ropt.zero_grad()
            g = torch.ones_like(yr)
            cross = any(q is m for n, m in refn for k, q in refn if n < k and isinstance(m, nn.Linear))
            for m in (analog, reference):
                y = m(x)
                y.backward(g)
            opt.step()
            ropt.step()
        if not cross:
            with torch.no_grad():
                yr = reference(x)
                close(analog(x), yr, "output after two SGD steps", rtol=1e-3, atol=1e-4)
        rec.label("trained")
        if not c["inplace"]:
            for k, v in digital.state_dict().items():
                same(v, before[k], f"original {k} after training the analog model")
    with torch.no_grad():
        ya = analog(x)
    if not bool(torch.isfinite(ya).all()):
        rec.label("diverged")
        return
    # back to digital
    if c["mapped"] and converted:
        rec.label("mapped")
    dset = None if not c["dig_only"] else {AnalogLinear, AnalogSequential}
    for n, m in analog.named_modules():
        m.training = state.get(n, m.training)
    back = convert_to_digital(analog, conversion_set=dset, inplace=c["dig_inplace"])
    bn = dict(names(back))
    for n, cls in expected.items():
        orig = refd[n]
        conv = cls is not type(orig)
        stays = conv and dset is not None and cls not in dset
        want = cls if stays else type(orig)
        require(type(bn[n]) is want, f"'{n}' is {type(bn[n]).__name__} after converting back, expected {want.__name__}")
        require(bn[n].training == state[n if n in state else n] if n in state else True, f"'{n}': training mode after converting back")
        for attr in ("note", "tag", "in_features", "out_features", "kernel_size", "stride", "padding", "in_channels", "out_channels", "dilation"):
            if hasattr(orig, attr):
                require(getattr(bn[n], attr) == getattr(orig, attr), f"'{n}': {attr} {getattr(bn[n], attr)} after converting back")
        if isinstance(orig, LAYERS) and not stays:
            require((bn[n].bias is None) == (orig.bias is None), f"'{n}': bias after converting back")
    back.eval()
    with torch.no_grad():
        close(back(x), ya, "output after converting back", rtol=1e-4)
    if dset is None:
        require(not any(isinstance(m, (AnalogLayerBase, TileModule)) for m in back.modules()), "analog modules left")
        # independent of the analog model
        if not c["dig_inplace"]:
            with torch.no_grad():
                for p in back.parameters():
                    p.add_(1.0)
                analog.eval()
                close(analog(x), ya, "analog output after changing the converted digital model", rtol=1e-5)
    rec.label(c["rpu"]["kind"], "mapped-map" if c["mapped"] else "plain-map", "excluded" if kept_excl else "none-excluded",
              "conv" if c["conv"] else "mlp", "root" if c["root"] else "noroot", f"converted={min(converted, 3)}")
    rec.hit(converted > 0 and kept + len([1 for m in reference.modules() if isinstance(m, (nn.ReLU, nn.Tanh))]) > 0)


LANES = [Lane("convert", cases(), check, quick=1600, thorough=20000)]
