"""P18: a configuration means what it says: every field reaches the simulator, presets and builders are what their names promise."""
import copy
import inspect
import re
from dataclasses import fields, is_dataclass
from enum import Enum

import numpy as np
import torch
from hypothesis import strategies as st

import aihwkit.simulator.configs.compounds as CO
import aihwkit.simulator.configs.configs as RC
import aihwkit.simulator.configs.devices as D
import aihwkit.simulator.parameters as P
from aihwkit.exceptions import ArgumentError, ConfigError
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator import presets as PR
from aihwkit.simulator.configs import build_config
from aihwkit.simulator.parameters import enums as E
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from aihwkit.simulator.parameters.inference import DriftParameter, SimpleDriftParameter
from aihwkit.simulator.parameters.io import IOParametersIRDropT
from aihwkit.simulator.presets import devices as PD
from aihwkit.simulator.presets.compounds import PCMPresetUnitCell
from aihwkit.simulator.presets.utils import PresetIOParameters, PresetUpdateParameters, StandardIOParameters
from vlib import cfg, gencomp, gendev
from vlib.core import Lane
from vlib.util import close, require

PROPERTY = "P18"
RULE = ("cases: (fields) any parameter class with bindings with generated values of some fields, nested ones included: the simulator "
        "parameters read back equal in all fields; (tile) configurations of all devices: the simulator reports the configured values, "
        "the configuration is unchanged and layers built from it are independent; (reject) a misspelled or wrongly typed field "
        "anywhere raises; (preset) composition, documented values and isolation of all presets; (build) build_config for "
        "all algorithms and ways to give the parts; (learn) presets and algorithms learn a linear teacher. Non-trivial: a "
        "non-default value was checked, respectively the weights changed.")

DEV = [n for n, v in vars(D).items() if inspect.isclass(v) and getattr(v, "bindings_class", None) and v.__module__ == D.__name__]
CELLS = ["VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound", "BufferedTransferCompound",
         "ChoppedTransferCompound", "DynamicTransferCompound", "MixedPrecisionCompound"]
PARAMS = {"IOParameters": P.IOParameters, "IOParametersIRDropT": IOParametersIRDropT, "UpdateParameters": P.UpdateParameters,
          "WeightModifierParameter": P.WeightModifierParameter, "WeightClipParameter": P.WeightClipParameter,
          "WeightRemapParameter": P.WeightRemapParameter, "DriftParameter": DriftParameter, "SimpleDriftParameter": SimpleDriftParameter,
          "PresetIOParameters": PresetIOParameters, "PresetUpdateParameters": PresetUpdateParameters, "StandardIOParameters": StandardIOParameters}
TORCH_ONLY = ("Shift", "SplitMode", "BitWise")       # documented as not implemented in the tiles with bindings
HIDDEN = {"w_min", "w_max", "dw_min", "up_down"}
PMAX = {"p_max", "alpha", "range_min", "range_max"}
F = RC.InferenceRPUConfig


def sig(o):
    """All values of a configuration (objects like noise models by class)."""
    return re.sub(r" at 0x[0-9a-f]+", "", repr(o))


def make(name):
    if name in PARAMS:
        return PARAMS[name]()
    if name in CELLS:
        cls = getattr(CO, name)
        if name == "MixedPrecisionCompound":
            return cls(device=D.SoftBoundsDevice())
        return cls(unit_cell_devices=[D.SoftBoundsDevice(), D.SoftBoundsDevice()])
    return getattr(D, name)()


def leaves(obj, path=()):
    """All settable (path, current value) of a parameter object."""
    out = []
    for f in fields(obj):
        v = getattr(obj, f.name)
        if f.name in getattr(obj, "bindings_ignore", ()) and not is_dataclass(v):
            continue
        if isinstance(obj, D.SoftBoundsPmaxDevice) and f.name in HIDDEN:
            continue
        if is_dataclass(v):
            out += leaves(v, path + (f.name,))
        elif isinstance(v, list) and v and is_dataclass(v[0]):
            for i, d in enumerate(v):
                out += leaves(d, path + (f.name, i))
        elif isinstance(v, (bool, int, float, Enum, list)):
            out.append((path + (f.name,), v))
    return out


def at(obj, path):
    for k in path:
        obj = obj[k] if isinstance(k, int) else getattr(obj, k)
    return obj


def put(obj, path, v):
    obj = at(obj, path[:-1])
    setattr(obj, path[-1], v)


def value(draw, cur):
    """A generated value of the type of the current one."""
    if isinstance(cur, bool):
        return draw(st.booleans())
    if isinstance(cur, Enum):
        return draw(st.sampled_from([m.value for m in type(cur) if m.value not in TORCH_ONLY]))
    if isinstance(cur, int):
        return draw(st.integers(1, 9))
    if isinstance(cur, float):
        return draw(st.one_of(st.integers(1, 99).map(lambda i: i / 100), st.integers(1, 9)))
    return draw(st.lists(st.integers(1, 99).map(lambda i: i / 100), min_size=1, max_size=3))


@st.composite
def field_cases(draw):
    name = draw(st.sampled_from(DEV + CELLS + list(PARAMS)))
    lv = leaves(make(name))
    if not lv:
        return {"name": name, "set": []}
    idx = draw(st.lists(st.integers(0, len(lv) - 1), min_size=1, max_size=12, unique=True))
    return {"name": name, "set": [[list(lv[i][0]), value(draw, lv[i][1])] for i in idx]}


def assign(obj, sets):
    for path, v in sets:
        cur = at(obj, path)
        if isinstance(cur, Enum):
            v = type(cur)(v)
        elif isinstance(cur, list):
            v = [float(x) for x in v]
        put(obj, path, v)
    return obj


def bind(obj):
    if hasattr(obj, "as_bindings"):
        return obj.as_bindings(E.RPUDataType.FLOAT)
    return parameters_to_bindings(obj, E.RPUDataType.FLOAT)


def expected(obj):
    """Fields that have to arrive in the bindings: name -> value."""
    exp = {f.name: getattr(obj, f.name) for f in fields(obj)}
    for k in list(exp):
        if k in getattr(obj, "bindings_ignore", ()) or k in ("unit_cell_devices", "device"):
            del exp[k]
    if isinstance(obj, D.SoftBoundsPmaxDevice):
        b = (obj.range_max - obj.range_min) / (1 - np.exp(-obj.p_max * obj.alpha))
        for k in PMAX:
            del exp[k]
        exp.update(w_min=obj.range_min, w_max=obj.range_min + b, dw_min=b * obj.alpha, up_down=1 + 2 * obj.range_min / b)
    return exp


def matches(got, want, where, skip=()):
    for k, v in expected(want).items():
        if k in skip:
            continue
        if not hasattr(got, k):
            require(is_dataclass(v), f"{where}: the simulator parameters have no field {k}")
            continue
        g = getattr(got, k)
        w = f"{where}.{k}"
        if is_dataclass(v):
            matches(g, v, w)
        elif isinstance(v, Enum):
            require(g == getattr(type(g), v.value, None), f"{w}: {g.name} instead of {v.value}")
        elif isinstance(v, list):
            require(np.allclose(np.asarray(g, dtype=np.float32).ravel(), np.asarray(v, dtype=np.float32).ravel()) if len(g) == len(v) else False,
                    f"{w}: {list(g)} instead of {v}")
        else:
            require(g == v or abs(g - v) <= 1e-6 * max(1.0, abs(v)), f"{w}: {g!r} instead of {v!r}")


def check_fields(c, rec):
    obj = assign(make(c["name"]), c["set"])
    ref = copy.deepcopy(obj)
    got = bind(obj)
    require(obj == ref, f"{c['name']}: creating the simulator parameters changed the configuration")
    matches(got, ref, c["name"])
    fresh = bind(make(c["name"]))
    matches(fresh, make(c["name"]), c["name"] + " (defaults, after another instance was changed)")
    # the printed configuration shows the changed values
    text = str(obj)
    if not getattr(obj, "is_perfect", False):
        for path, v in c["set"]:
            if len(path) == 1 and not isinstance(v, list) and v != {f.name: f.default for f in fields(obj)}.get(path[0]):
                cur = at(obj, path)
                f = {f.name: f for f in fields(obj)}[path[0]]
                if cur == f.default or ("hide_if" in f.metadata and f.metadata["hide_if"] == cur):
                    continue
                require(f"{path[0]}={cur}" in text, f"{c['name']}: printed without {path[0]}={cur}: {text}")
    rec.label(c["name"])
    rec.hit(bool(c["set"]))


# ---------------------------------------------------------------------------------------------------------------- tile
IO = {"out_noise": [0.0, 0.3], "inp_res": [0.01, -1.0], "out_res": [0.01, 0.003], "out_bound": [3.0, 20.0], "inp_noise": [0.0, 0.1], "w_noise": [0.02],
      "out_scale": [2.0], "bound_management": ["None", "Iterative"], "noise_management": ["None", "AbsMax", "Constant"], "nm_thres": [0.5], "inp_bound": [1.0],
      "w_noise_type": ["None", "AdditiveConstant"], "ir_drop": [0.5], "is_perfect": [True, False], "max_bm_factor": [5], "inp_sto_round": [True]}
UP = {"desired_bl": [3, 17], "fixed_bl": [True, False], "pulse_type": ["StochasticCompressed", "DeterministicImplicit", "MeanCount", "None"],
      "res": [0.1], "sto_round": [True], "update_management": [True, False], "update_bl_management": [True, False], "um_grad_scale": [0.5], "x_res_implicit": [0.1],
      "d_res_implicit": [0.05], "d_sparsity": [True]}


def sub(table):
    return st.fixed_dictionaries({}, optional={k: st.sampled_from(v) for k, v in table.items()})


@st.composite
def tile_cases(draw):
    kind = draw(st.sampled_from(["single", "single", "unit", "digrank", "inference"]))
    c = {"kind": kind, "forward": draw(sub(IO)), "backward": draw(sub(IO))}
    if kind == "inference":
        pass
    else:
        c["update"] = draw(sub(UP))
    if kind == "single":
        c["device"] = draw(gendev.single(std=(0.0, 0.3), write=(0.0, 1.0), lifecycle=True))
    elif kind == "unit":
        c["device"] = draw(gencomp.compound(quiet=False))
    elif kind == "digrank":
        c["device"] = {"cls": "MixedPrecisionCompound", "device": draw(gendev.single(std=(0.0, 0.3))), "transfer_every": draw(st.integers(1, 3)),
                       "n_rows_per_transfer": draw(st.sampled_from([-1, 2])), "transfer_lr": draw(st.sampled_from([1.0, 0.5])),
                       "n_x_bins": draw(st.sampled_from([0, 11])), "n_d_bins": draw(st.sampled_from([0, 7])), "stoc_round_x": draw(st.booleans()),
                       "stoc_round_d": draw(st.booleans())}
    c["_n"] = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    return c


NUM = r"([-+0-9.e]+|inf|nan)"


def block_values(text):
    """Values of one printed device parameter block."""
    out = {}
    pats = {"dw_min": r"dw_min:\s*" + NUM + r"\s*\(dtod=" + NUM + ", ctoc=" + NUM, "up_down": r"\sup_down:\s*" + NUM + r"\s*\(dtod=" + NUM,
            "w_min": r"w min:\s*" + NUM + r"\s*\(dtod=" + NUM, "w_max": r"w max:\s*" + NUM + r"\s*\(dtod=" + NUM,
            "reset": r"resets to:\s*" + NUM + r"\s*\(dtod=" + NUM + ", ctoc=" + NUM,
            "A_up": r"es_A_up:\s*" + NUM, "A_down": r"es_A_down:\s*" + NUM, "eg_up": r"es_gamma_up:\s*" + NUM, "eg_down": r"es_gamma_down:\s*" + NUM,
            "a": r"es_a:\s*" + NUM, "b": r"es_b:\s*" + NUM, "pow_gamma": r"ps_gamma:\s*" + NUM + r"\s*\(dtod=" + NUM,
            "pow_up_down": r"ps_gamma_up_down:\s*" + NUM + r"\s*\(dtod=" + NUM, "reference_mean": r"reference_mean:\s*" + NUM,
            "reference_std": r"reference_std:\s*" + NUM, "slope_up_dtod": r"slope_up_dtod:\s*" + NUM, "slope_down_dtod": r"slope_down_dtod:\s*" + NUM,
            "ls_up": r"ls_decrease_up[^:]*:\s*" + NUM + r"\s*\(dtod=" + NUM, "ls_down": r"ls_decrease_down\s[^:]*:\s*" + NUM + r"\s*\(dtod=" + NUM}
    for k, p in pats.items():
        m = re.search(p, text)
        if m:
            out[k] = [float(v) for v in m.groups()]
    return out


def device_values(d):
    exp = expected(d)
    out = {"dw_min": [exp["dw_min"], d.dw_min_dtod, d.dw_min_std], "up_down": [exp["up_down"], d.up_down_dtod],
           "w_min": [exp["w_min"], d.w_min_dtod], "w_max": [exp["w_max"], d.w_max_dtod], "reset": [d.reset, d.reset_dtod, d.reset_std]}
    n = type(d).__name__
    if n == "ExpStepDevice":
        out.update(A_up=[d.A_up], A_down=[d.A_down], eg_up=[d.gamma_up], eg_down=[d.gamma_down], a=[d.a], b=[d.b])
    if n.startswith("PowStep"):
        out.update(pow_gamma=[d.pow_gamma, d.pow_gamma_dtod], pow_up_down=[d.pow_up_down, d.pow_up_down_dtod])
    if n.endswith("ReferenceDevice"):
        out.update(reference_mean=[d.reference_mean], reference_std=[d.reference_std])
    if n == "SoftBoundsReferenceDevice":
        out.update(slope_up_dtod=[d.slope_up_dtod], slope_down_dtod=[d.slope_down_dtod])
    if n == "LinearStepDevice":
        out.update(ls_up=[d.gamma_up, d.gamma_up_dtod], ls_down=[d.gamma_down, d.gamma_down_dtod])
    return out


def check_tile(c, rec):
    n, k = c["_n"]
    spec = {a: b for a, b in c.items() if a != "_n"}
    rpu = cfg.config(spec)
    if isinstance(getattr(rpu, "device", None), CO.ReferenceUnitCell):
        rpu.device.construction_seed = 0
    ref = copy.deepcopy(rpu)
    torch.manual_seed(1)
    lay = AnalogLinear(k, n, bias=False, rpu_config=rpu)
    other = AnalogLinear(k, n, bias=False, rpu_config=rpu)
    require(sig(rpu) == sig(ref) and str(rpu) == str(ref), "creating a layer changed the configuration it was given")
    tile = next(lay.analog_tiles())
    require(tile.rpu_config is not rpu, "the layer shares the configuration object of the caller")
    meta = tile.tile.get_meta_parameters()
    for what, got, want in (("forward", meta.forward_io, ref.forward), ("backward", meta.backward_io, ref.backward)):
        # derived when the tile is created: resolutions are scaled to the range, no thresholds without noise management,
        # no bound management in the backward pass
        skip = ["mv_type", "inp_res", "out_res"] + (["nm_thres"] if want.noise_management == E.NoiseManagementType.NONE else [])
        matches(got, want, what, skip + (["bound_management"] if what == "backward" else []))
        for k, b in (("inp_res", want.inp_bound), ("out_res", want.out_bound)):
            v = getattr(want, k)
            if not want.is_perfect and v > 0:
                require(abs(getattr(got, k) - (1 / v if v > 1 else v) * 2 * b) < 1e-5 * b, f"{what}.{k}: {getattr(got, k)} for a resolution of {v} and bound {b}")
    if c["kind"] != "inference":
        u = ref.update
        matches(meta.update, u, "update", ["update_management"] if u.update_bl_management else [])
    info = tile.tile.get_info()
    dev = ref.device
    if c["kind"] == "single":
        subs = [dev]
    elif c["kind"] == "unit":
        subs = list(dev.unit_cell_devices)
        if isinstance(dev, CO.TransferCompound):
            subs = [subs[0]] + [subs[1]] * (len(subs) - 1)
        elif isinstance(dev, CO.OneSidedUnitCell):
            subs = []
            matches(tile.rpu_config.device.unit_cell_devices[0].as_bindings(E.RPUDataType.FLOAT), dev.unit_cell_devices[0], "device")
    elif c["kind"] == "digrank":
        subs = [dev.device]
    else:
        subs = []
    blocks = re.split(r"granularity \(calc\.\):", info)[1:]
    seen = 0
    if len(blocks) == len(subs):
        for i, (b, d) in enumerate(zip(blocks, subs)):
            got = block_values(b)
            for key, want in device_values(d).items():
                if key not in got:
                    continue
                seen += 1
                close(np.array(got[key]), np.array(want), f"{type(d).__name__} {i}: the simulator reports for {key} (and its variations)", 2e-4, 1e-6)
    # a second layer of the same configuration does not share anything
    ot = next(other.analog_tiles())
    ot.rpu_config.forward.out_noise = 7.0
    if c["kind"] != "inference":
        ot.rpu_config.update.desired_bl = 13
    require(sig(rpu) == sig(ref), "changing the configuration of a layer changed the configuration it was built from")
    require(tile.rpu_config.forward.out_noise == ref.forward.out_noise, "two layers built from one configuration share it")
    rec.label(c["kind"], type(dev).__name__ if c["kind"] != "inference" else "")
    rec.hit(seen > 0 or c["kind"] == "inference" or bool(c["forward"]))


# -------------------------------------------------------------------------------------------------------------- reject
@st.composite
def reject_cases(draw):
    kind = draw(st.sampled_from(["single", "unit", "digrank", "inference"]))
    cell = draw(st.sampled_from(CELLS[:-1])) if kind == "unit" else None
    dev = draw(st.sampled_from(gendev.SINGLE))
    rpu = _reject_config({"kind": kind, "cell": cell, "dev": dev})
    targets = {}
    for name in ("forward", "backward", "update", "device"):
        if kind == "inference" and name in ("update", "device"):
            continue
        targets[name] = getattr(rpu, name)
    objs = []
    for name, o in targets.items():
        objs += _nodes(o, (name,))
    path = draw(st.sampled_from(objs))
    o = at(rpu, path)
    how = draw(st.sampled_from(["name", "type"]))
    fl = [f.name for f in fields(o) if not is_dataclass(getattr(o, f.name)) and f.name not in ("unit_cell_devices", "device")
          and isinstance(getattr(o, f.name), (bool, int, float)) and not (isinstance(o, D.SoftBoundsPmaxDevice) and f.name in HIDDEN | PMAX)]
    fld = draw(st.sampled_from(fl))
    return {"kind": kind, "cell": cell, "dev": dev, "path": list(path), "how": how, "field": fld, "bad": draw(st.integers(0, 3)),
            "typo": draw(st.integers(0, 3))}


def _nodes(o, path):
    out = [path]
    for f in fields(o):
        v = getattr(o, f.name)
        if is_dataclass(v):
            out += _nodes(v, path + (f.name,))
        elif isinstance(v, list) and v and is_dataclass(v[0]):
            for i, x in enumerate(v):
                out += _nodes(x, path + (f.name, i))
    return out


def _reject_config(c):
    dev = getattr(D, c["dev"])
    if c["kind"] == "inference":
        return RC.InferenceRPUConfig()
    if c["kind"] == "single":
        return RC.SingleRPUConfig(device=dev())
    if c["kind"] == "digrank":
        return RC.DigitalRankUpdateRPUConfig(device=CO.MixedPrecisionCompound(device=dev()))
    return RC.UnitCellRPUConfig(device=getattr(CO, c["cell"])(unit_cell_devices=[dev(), dev()]))


def check_reject(c, rec):
    rpu = _reject_config(c)
    o = at(rpu, c["path"])
    if c["how"] == "name":
        n = c["field"]
        name = [n + "s", n + "_", n.replace("_", ""), "my_" + n][c["typo"]]
        if hasattr(o, name):
            name = "my_" + n
        setattr(o, name, getattr(o, n))
        what = f"misspelled {name}"
    else:
        want = {f.name: f.type for f in fields(o)}[c["field"]]
        want = getattr(want, "__name__", want)
        bad = {"bool": ["yes", 1, 0.5, None], "int": ["3", 2.5, None, [1]], "float": ["0.1", None, True, [0.1]]}[want][c["bad"]]
        setattr(o, c["field"], bad)
        what = f"{c['field']}={bad!r} instead of a {want}"
    what = ".".join(str(p) for p in c["path"]) + f" ({type(o).__name__}): {what}"
    try:
        AnalogLinear(2, 3, bias=False, rpu_config=rpu)
    except (ConfigError, TypeError):
        rec.label(c["kind"], c["how"], type(o).__name__)
        rec.hit()
        return
    require(False, f"{what} was accepted silently")


# -------------------------------------------------------------------------------------------------------------- preset
NAMES = sorted(n for n, v in vars(PR).items() if inspect.isclass(v) and n.endswith("Preset") and hasattr(v, "tile_class"))
TECH = ("ReRamES", "ReRamSB", "Capacitor", "EcRamMO", "EcRam", "Idealized", "GokmenVlasov", "PCM")


def split_name(name):
    """(algorithm, technology, number of devices) of a preset name."""
    s = name[:-len("Preset")]
    alg = next((a for a in ("TikiTaka", "ChoppedTTv2", "TTv2", "AGAD", "MixedPrecision") if s.startswith(a)), "")
    s = s[len(alg):]
    n = int(s[-1]) if s[-1] in "24" else 1
    s = s[:-1] if n > 1 else s
    return alg, s, n


def preset_device(tech):
    return PCMPresetUnitCell() if tech == "PCM" else getattr(PD, tech + "PresetDevice")()


PIO = {"inp_res": 1 / 126, "out_res": 1 / 510, "out_bound": 20.0, "out_noise": 0.1, "w_noise": 0.0, "inp_sto_round": False}
SIO = {"inp_res": 1 / 254, "out_res": 1 / 254, "out_bound": 10.0, "out_noise": 0.04, "w_noise": 0.0, "inp_sto_round": False}


def documented_io(o, vals, what, managed=True):
    for k, v in vals.items():
        g = getattr(o, k)
        require(g == v or abs(g - v) < 1e-9, f"{what}.{k} is {g}, documented is {v}")
    if managed:
        require(o.noise_management == E.NoiseManagementType.ABS_MAX and o.bound_management == E.BoundManagementType.ITERATIVE,
                f"{what}: noise and bound management are not on as documented")


def preset_cases():
    return st.fixed_dictionaries({"name": st.sampled_from(NAMES), "o": st.sampled_from(["", "forward", "update", "mapping", "backward", "device"]),
                                  "v": st.integers(1, 30), "n": st.integers(1, 4), "k": st.integers(1, 4)})


def check_preset(c, rec):
    name = c["name"]
    cls = getattr(PR, name)
    p, q = cls(), cls()
    require(sig(p) == sig(q) and str(p) == str(q), f"{name}: two instances differ")
    tile_lists = [(f.name, getattr(p, f.name), getattr(q, f.name)) for f in fields(p)]
    for fn, a, b in tile_lists:
        if is_dataclass(a) and not isinstance(a, type):
            shared = {id(at(a, x)) for x in _nodes(a, ())} & {id(at(b, x)) for x in _nodes(b, ())}
            require(not shared, f"{name}: two instances share their {fn}")
            own = [id(at(a, x)) for x in _nodes(a, ())]
            require(len(own) == len(set(own)), f"{name}: {fn} contains the same parameter object twice")
    if name == "StandardHWATrainingPreset":
        require(isinstance(p, RC.InferenceRPUConfig), "StandardHWATrainingPreset is no inference configuration")
    elif name == "FloatingPointPreset":
        require(p.forward.is_perfect, "FloatingPointPreset has an imperfect forward pass")
        torch.manual_seed(c["v"])
        lay = AnalogLinear(c["k"] * 300, c["n"], rpu_config=p)
        x = torch.randn(3, c["k"] * 300) * 3
        w, b = lay.get_weights()
        for mode in (True, False):
            lay.train(mode)
            close(lay(x), x @ w.T + b, "FloatingPointPreset is not equivalent to the FP model", 1e-4, 1e-4)
    else:
        alg, tech, n = split_name(name)
        require(tech in TECH, f"unknown technology in {name}")
        dev, want = p.device, preset_device(tech)
        if alg == "MixedPrecision":
            require(isinstance(p, RC.DigitalRankUpdateRPUConfig) and type(dev) is CO.MixedPrecisionCompound, f"{name}: not mixed precision")
            require(type(dev.device) is type(want) and dev.device == want, f"{name}: device is {dev.device}")
        elif alg:
            comp = {"TikiTaka": CO.TransferCompound, "TTv2": CO.ChoppedTransferCompound, "ChoppedTTv2": CO.ChoppedTransferCompound, "AGAD": CO.DynamicTransferCompound}[alg]
            require(isinstance(p, RC.UnitCellRPUConfig) and type(dev) is comp, f"{name}: device is {type(dev).__name__}")
            if hasattr(want, "subtract_symmetry_point"):              # the transfer presets of ReRamSB operate around the symmetry point
                want.subtract_symmetry_point = dev.unit_cell_devices[0].subtract_symmetry_point
            require([type(d) for d in dev.unit_cell_devices] == [type(want)] * 2 and all(d == want for d in dev.unit_cell_devices),
                    f"{name}: unit cell devices are {dev.unit_cell_devices}")
            if alg == "TTv2":
                require(dev.in_chop_prob == 0.0 and dev.out_chop_prob == 0.0, f"{name}: chopper is on")
            if alg in ("ChoppedTTv2", "AGAD"):
                require(dev.in_chop_prob > 0.0, f"{name}: chopper is off")
            documented_io(dev.transfer_forward, PIO, f"{name}: transfer_forward", False)
            ref = build_config({"TikiTaka": "tiki-taka", "TTv2": "ttv2", "ChoppedTTv2": "c-ttv2", "AGAD": "agad"}[alg], type(want))
            require(type(ref.device) is type(dev), f"{name}: {type(dev).__name__} but build_config makes {type(ref.device).__name__}")
        elif n > 1:
            require(isinstance(p, RC.UnitCellRPUConfig) and type(dev) is CO.VectorUnitCell and len(dev.unit_cell_devices) == n
                    and all(type(d) is type(want) and d == want for d in dev.unit_cell_devices), f"{name}: device is {dev}")
            require(dev.update_policy == E.VectorUnitCellUpdatePolicy.SINGLE_RANDOM, f"{name}: update policy is {dev.update_policy}")
        elif tech == "PCM":
            require(isinstance(p, RC.UnitCellRPUConfig) and type(dev) is PCMPresetUnitCell and dev == want, f"{name}: device is {dev}")
        else:
            require(isinstance(p, RC.SingleRPUConfig) and type(dev) is type(want) and dev == want, f"{name}: device is {dev}")
        if tech != "GokmenVlasov" or True:
            for io in ("forward", "backward"):
                documented_io(getattr(p, io), PIO, f"{name}.{io}", io == "forward")
        require(p.update.pulse_type == E.PulseType.STOCHASTIC_COMPRESSED, f"{name}: pulse type {p.update.pulse_type}")
    documented_io(PresetIOParameters(), PIO, "PresetIOParameters")
    documented_io(StandardIOParameters(), SIO, "StandardIOParameters")
    u = PresetUpdateParameters()
    require(u.desired_bl == 31 and u.update_bl_management and u.update_management, f"PresetUpdateParameters: {u}")
    # overrides at construction and afterwards
    o, v = c["o"], c["v"]
    if o in ("forward", "backward", "update", "mapping") and not next(f for f in fields(p) if f.name == o).init:
        o = ""
    if o == "forward":
        r = cls(forward=P.IOParameters(out_bound=v / 2))
        require(r.forward.out_bound == v / 2 and type(r.forward) is P.IOParameters, f"{name}: forward given at construction is not used")
    elif o == "backward":
        r = cls(backward=P.IOParameters(out_bound=v / 2))
        require(r.backward.out_bound == v / 2, f"{name}: backward given at construction is not used")
    elif o == "update":
        r = cls(update=P.UpdateParameters(desired_bl=v))
        require(r.update.desired_bl == v, f"{name}: update given at construction is not used")
    elif o == "mapping":
        r = cls(mapping=P.MappingParameter(max_input_size=v))
        require(r.mapping.max_input_size == v, f"{name}: mapping given at construction is not used")
    else:
        r = p
        p.forward.out_bound = float(v)
        if o == "device" and hasattr(p.device, "construction_seed"):
            p.device.construction_seed = v
        require(sig(cls()) == sig(q), f"{name}: changing an instance changed the preset")
    lay = AnalogLinear(c["k"], c["n"], bias=False, rpu_config=r)
    t = next(lay.analog_tiles())
    if name != "FloatingPointPreset" and o in ("", "forward", "device"):
        got = t.tile.get_meta_parameters().forward_io.out_bound
        require(abs(got - r.forward.out_bound) < 1e-5, f"{name}: the tile uses out_bound {got} instead of {r.forward.out_bound}")
    rec.label(name, o)
    rec.hit()


# --------------------------------------------------------------------------------------------------------------- build
ALG = {"sgd": "sgd", "mp": "mp", "mixed-precision": "mp", "tiki-taka": "tt", "ttv1": "tt", "tt": "tt", "ttv2": "ttv2", "chopped-ttv2": "c", "ttv3": "c", "c-ttv2": "c",
       "agad": "agad", "ttv4": "agad"}
BDEV = ["ConstantStepDevice", "SoftBoundsReferenceDevice", "LinearStepDevice", "ReRamSBPresetDevice", "EcRamPresetDevice"]


def build_cases():
    part = st.fixed_dictionaries({"how": st.sampled_from(["class", "instance", "callable", "default"]), "v": st.integers(1, 20)})
    return st.fixed_dictionaries({"alg": st.sampled_from(list(ALG)), "case": st.sampled_from(["", "upper", "title"]), "dev": st.sampled_from(BDEV),
                                  "d": part, "io": part, "up": part, "n": st.integers(1, 4), "seed": st.integers(0, 50), "map": st.integers(0, 3),
                                  "bad": st.booleans()})


def check_build(c, rec):
    dcls = getattr(D, c["dev"], None) or getattr(PD, c["dev"])
    dw, ob, bl = c["d"]["v"] / 1000, float(c["io"]["v"]), c["up"]["v"]

    def part(cls, how, **kw):
        if how == "instance":
            return cls(**kw)
        if how == "callable":
            return lambda **k: cls(**{**kw, **k})
        return cls
    d = part(dcls, c["d"]["how"], dw_min=dw, up_down=0.1)
    io = part(P.IOParameters, c["io"]["how"], out_bound=ob, noise_management=E.NoiseManagementType.MAX)
    up = part(P.UpdateParameters, c["up"]["how"], desired_bl=bl, um_grad_scale=0.3)
    given = [copy.deepcopy(v) if is_dataclass(v) and not isinstance(v, type) else None for v in (d, io, up)]
    kw = {}
    if c["io"]["how"] != "default":
        kw["io_parameters"] = io
    if c["up"]["how"] != "default":
        kw["up_parameters"] = up
    mapping = P.MappingParameter(max_input_size=c["map"]) if c["map"] else None
    if mapping is not None:
        kw["mapping"] = mapping
    alg = ALG[c["alg"]]
    name = {"": c["alg"], "upper": c["alg"].upper(), "title": c["alg"].title()}[c["case"]]
    r = build_config(name, d, n_devices=c["n"], construction_seed=c["seed"], **kw)
    for g, v in zip(given, (d, io, up)):
        require(g is None or g == v, f"build_config({name}) changed {type(v).__name__} it was given")
    dev = r.device
    want = {"sgd": RC.SingleRPUConfig if c["n"] == 1 else RC.UnitCellRPUConfig, "mp": RC.DigitalRankUpdateRPUConfig}.get(alg, RC.UnitCellRPUConfig)
    require(type(r) is want, f"build_config({name}, n_devices={c['n']}) makes a {type(r).__name__}")
    if alg == "sgd" and c["n"] > 1:
        require(type(dev) is CO.VectorUnitCell and len(dev.unit_cell_devices) == c["n"], f"build_config(sgd, n_devices={c['n']}): {dev}")
        require(dev.update_policy == E.VectorUnitCellUpdatePolicy.SINGLE_RANDOM and dev.construction_seed == c["seed"], f"build_config(sgd): {dev}")
        subs = dev.unit_cell_devices
    elif alg == "sgd":
        subs = [dev]
        require(dev.construction_seed == c["seed"], f"build_config(sgd): construction seed {dev.construction_seed} instead of {c['seed']}")
    elif alg == "mp":
        require(type(dev) is CO.MixedPrecisionCompound, f"build_config({name}): {type(dev)}")
        subs = [dev.device]
        require(dev.device.construction_seed == c["seed"], f"build_config({name}): construction seed {dev.device.construction_seed}")
    else:
        comp = {"tt": CO.TransferCompound, "ttv2": CO.ChoppedTransferCompound, "c": CO.ChoppedTransferCompound, "agad": CO.DynamicTransferCompound}[alg]
        require(type(dev) is comp and len(dev.unit_cell_devices) == 2, f"build_config({name}): {type(dev).__name__}")
        require(dev.construction_seed == c["seed"], f"build_config({name}): construction seed {dev.construction_seed}")
        require((dev.in_chop_prob == 0.0) if alg == "ttv2" else (alg == "tt" or dev.in_chop_prob > 0), f"build_config({name}): chopper is wrong")
        subs = dev.unit_cell_devices
        # how the transfer is done follows the given parts
        tf, tu = dev.transfer_forward, dev.transfer_update
        if c["io"]["how"] in ("instance", "callable"):
            require(tf.out_bound == ob, f"build_config({name}): transfer_forward does not use the given io parameters")
            if alg == "agad":
                require(tf.noise_management == E.NoiseManagementType.MAX, f"build_config({name}): transfer_forward changed")
        if alg != "agad":
            require(tf.noise_management == E.NoiseManagementType.NONE and tf.bound_management == E.BoundManagementType.NONE,
                    f"build_config({name}): the transfer read uses noise or bound management")
        if c["up"]["how"] in ("instance", "callable"):
            require(tu.um_grad_scale == 0.3, f"build_config({name}): transfer_update does not use the given update parameters")
        require(r.update.desired_bl == 5 if alg != "tt" else True, f"build_config({name}): update.desired_bl is {r.update.desired_bl}")
    for s in subs:
        require(type(s) is dcls, f"build_config({name}): device {type(s).__name__} instead of {dcls.__name__}")
        if c["d"]["how"] in ("instance", "callable"):
            require(s.dw_min == dw and s.up_down == 0.1, f"build_config({name}): dw_min {s.dw_min} instead of {dw}")
        else:
            require(s.dw_min == dcls().dw_min, f"build_config({name}): dw_min {s.dw_min}")
    for f in (r.forward, r.backward):
        if c["io"]["how"] in ("instance", "callable"):
            require(f.out_bound == ob and f.noise_management == E.NoiseManagementType.MAX, f"build_config({name}): forward or backward does not use the given parameters")
        else:
            require(f == P.IOParameters(), f"build_config({name}): forward or backward is not the default")
    if c["up"]["how"] in ("instance", "callable"):
        require(r.update.um_grad_scale == 0.3, f"build_config({name}): update does not use the given parameters")
        if alg in ("sgd", "tt", "mp"):
            require(r.update.desired_bl == bl, f"build_config({name}): desired_bl {r.update.desired_bl} instead of {bl}")
    if mapping is not None:
        require(r.mapping.max_input_size == c["map"], f"build_config({name}): mapping is not used")
    # nothing is shared
    own = []
    for fn in ("device", "forward", "backward", "update"):
        own += [id(at(r, x)) for x in _nodes(getattr(r, fn), (fn,))]
    require(len(own) == len(set(own)), f"build_config({name}): parts of the configuration share their parameters")
    for v in (d, io, up):
        require(id(v) not in own, f"build_config({name}): the configuration shares {type(v).__name__} with the caller")
    AnalogLinear(2, 3, rpu_config=r)
    if c["bad"]:
        try:
            build_config("my" + c["alg"], d)
        except ArgumentError:
            pass
        else:
            require(False, "build_config accepts an unknown algorithm")
    rec.label(alg, c["d"]["how"], c["io"]["how"], c["up"]["how"])
    rec.hit()


# --------------------------------------------------------------------------------------------------------------- learn
# correlation of the learned with the teacher's weights: about half of what it is on the pinned commit (min over seeds)
MINCOR = {"": {"Capacitor": 0.8, "EcRam": 0.8, "EcRamMO": 0.8, "Idealized": 0.8, "GokmenVlasov": 0.8, "ReRamES": 0.25, "ReRamSB": 0.25, "PCM": 0.05},
          "MixedPrecision": {"Capacitor": 0.8, "EcRam": 0.8, "EcRamMO": 0.8, "Idealized": 0.8, "GokmenVlasov": 0.8, "PCM": 0.4, "ReRamES": 0.25, "ReRamSB": 0.25},
          "TTv2": {"Capacitor": 0.5, "EcRam": 0.5, "EcRamMO": 0.5, "Idealized": 0.5, "ReRamES": 0.08, "ReRamSB": 0.08},
          "ChoppedTTv2": {"Capacitor": 0.35, "EcRam": 0.5, "EcRamMO": 0.4, "Idealized": 0.4},
          "TikiTaka": {"Capacitor": 0.35, "EcRam": 0.5, "EcRamMO": 0.5, "Idealized": 0.5, "ReRamES": 0.25, "ReRamSB": 0.25},
          "AGAD": {"Capacitor": 0.4}}


def learn(config, n, seed, lr=0.1):
    torch.manual_seed(seed)
    w = (torch.rand(12, 10) - 0.5) * 0.5
    m = AnalogLinear(10, 12, bias=False, rpu_config=config)
    m.set_weights(torch.zeros(12, 10))
    opt = AnalogSGD(m.parameters(), lr=lr)
    opt.regroup_param_groups()
    es = []
    for i in range(n):
        x = torch.randn(4, 10)
        opt.zero_grad()
        y = m(x)
        (((y - x @ w.T) ** 2).sum() / 8).backward()
        opt.step()
        if i >= n * 3 // 4 and i % 5 == 0:
            g = m.get_weights()[0].flatten()
            require(bool(torch.isfinite(g).all()), "weights are not finite")
            es.append(np.corrcoef(g.numpy(), w.flatten().numpy())[0, 1] if float(g.std()) > 1e-9 else 0.0)
    return float(np.mean(es))


LEARN = [n for n in NAMES if n not in ("FloatingPointPreset", "StandardHWATrainingPreset")
         and split_name(n)[1] in MINCOR.get(split_name(n)[0], {})]


def learn_cases():
    return st.fixed_dictionaries({"name": st.sampled_from(LEARN + ["StandardHWATrainingPreset", "FloatingPointPreset"]), "seed": st.integers(0, 10000)})


def check_learn(c, rec):
    name = c["name"]
    p = getattr(PR, name)()
    if name == "StandardHWATrainingPreset":
        thr = 0.4
    elif name == "FloatingPointPreset":
        thr = 0.9
    else:
        alg, tech, n = split_name(name)
        thr = MINCOR[alg][tech]
        if n > 1 and thr < 0.5:
            thr = 0.35
    cor = learn(p, 400, c["seed"])
    if cor <= thr:                                                     # three independent attempts
        cor = max([cor] + [learn(p, 600, c["seed"] + k) for k in (1, 2)])
    require(cor > thr, f"{name}: after training the correlation with the teacher's weights is only {cor:.3f} (normally above {thr})")
    rec.label(name)
    rec.hit()


LANES = [Lane("fields", field_cases(), check_fields, quick=3000, thorough=60000), Lane("tile", tile_cases(), check_tile, quick=1200, thorough=20000),
         Lane("reject", reject_cases(), check_reject, quick=800, thorough=15000),
         Lane("preset", preset_cases(), check_preset, quick=400, thorough=6000, explicit=[{"name": n, "o": "", "v": 3, "n": 2, "k": 3} for n in NAMES]),
         Lane("build", build_cases(), check_build, quick=800, thorough=10000),
         Lane("learn", learn_cases(), check_learn, quick=24, thorough=1500, explicit=[{"name": n, "seed": 0} for n in LEARN + ["StandardHWATrainingPreset", "FloatingPointPreset"]])]
