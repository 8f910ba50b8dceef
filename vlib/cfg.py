"""Builds configurations and numpy/torch data from JSON-able specs."""
import numpy as np
import torch

import aihwkit.simulator.configs as C
import aihwkit.simulator.configs.devices as D
import aihwkit.simulator.configs.compounds as CO
import aihwkit.simulator.parameters as P
import aihwkit.simulator.parameters.enums as E
from aihwkit.simulator.configs.configs import (
    DigitalRankUpdateRPUConfig, FloatingPointRPUConfig, InferenceRPUConfig, QuantizedTorchInferenceRPUConfig,
    SingleRPUConfig, TorchInferenceRPUConfig, TorchInferenceRPUConfigIRDropT, UnitCellRPUConfig)

from vlib.core import HarnessError

KINDS = {"fp": FloatingPointRPUConfig, "single": SingleRPUConfig, "unit": UnitCellRPUConfig,
         "inference": InferenceRPUConfig, "torch": TorchInferenceRPUConfig, "irdrop": TorchInferenceRPUConfigIRDropT,
         "quant": QuantizedTorchInferenceRPUConfig, "digrank": DigitalRankUpdateRPUConfig}

_ENUMS = {"mv_type": E.AnalogMVType, "bound_management": E.BoundManagementType,
          "noise_management": E.NoiseManagementType, "w_noise_type": E.WeightNoiseType, "pulse_type": E.PulseType,
          "update_policy": E.VectorUnitCellUpdatePolicy, "data_type": E.RPUDataType}
_TYPE = {"modifier": E.WeightModifierType, "clip": E.WeightClipType, "remap": E.WeightRemapType}


def apply(obj, spec, where=""):
    for k, v in spec.items():
        if not hasattr(obj, k):
            raise HarnessError(f"no field {k} in {type(obj).__name__}")
        cur = getattr(obj, k)
        if k in _ENUMS:
            v = _ENUMS[k](v)
        elif k == "type" and where in _TYPE:
            v = _TYPE[where](v)
        elif isinstance(v, dict) and "cls" in v:
            v = device(v)
        elif isinstance(v, list) and v and isinstance(v[0], dict) and "cls" in v[0]:
            v = [device(x) for x in v]
        elif isinstance(v, dict):
            apply(cur, v, k)
            continue
        setattr(obj, k, v)
    return obj


def device(spec):
    spec = dict(spec)
    name = spec.pop("cls")
    cls = getattr(D, name, None) or getattr(CO, name, None)
    if cls is None:
        raise HarnessError(f"no device class {name}")
    obj = cls()
    return apply(obj, spec)


def config(spec):
    """spec: {"kind":..., "device": {"cls":...}, "forward": {...}, "mapping": {...}, ...}"""
    spec = dict(spec)
    kind = spec.pop("kind")
    dev = spec.pop("device", None)
    kwargs = {"device": device(dev)} if dev is not None else {}
    rpu = KINDS[kind](**kwargs)
    return apply(rpu, spec)


def arr(spec, shape=None):
    """Deterministic data: {"k": kind, "s": seed, "m": magnitude} -> float32 numpy array of shape."""
    k, seed, mag = spec["k"], spec["s"], spec.get("m", 1.0)
    shape = tuple(shape if shape is not None else spec["shape"])
    r = np.random.RandomState(seed)
    n = int(np.prod(shape))
    if k == "normal":
        x = r.randn(n)
    elif k == "uniform":
        x = r.uniform(-1, 1, n)
    elif k == "pos":
        x = r.uniform(0.05, 1, n)
    elif k == "sparse":
        x = r.uniform(-1, 1, n) * (r.rand(n) < 0.3)
    elif k == "zeros":
        x = np.zeros(n)
    elif k == "onehot":
        x = np.zeros(n)
        if n:
            x[r.randint(n)] = 1.0
    elif k == "grid":
        x = r.randint(-4, 5, n) / 4.0
    elif k == "const":
        x = np.full(n, 1.0)
    elif k == "negconst":
        x = np.full(n, -1.0)
    elif k == "outlier":
        x = r.uniform(-1, 1, n) * 0.05
        if n:
            x[r.randint(n)] = 1.0
    elif k == "ramp":
        x = np.linspace(-1, 1, n) if n > 1 else np.ones(n)
    else:
        raise HarnessError(f"data kind {k}")
    return (x * mag).reshape(shape).astype(np.float32)


def ten(spec, shape=None):
    return torch.from_numpy(arr(spec, shape))
