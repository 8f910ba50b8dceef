"""Float64 reference of the single-pulse response of the resistive device models, from their hidden parameters.

The formulas are the documented ones (class docstrings of simulator/configs/devices.py).  All arrays have the shape
[out_size, in_size] of the tile.
"""
import numpy as np

from vlib.core import HarnessError
from vlib.util import npy

# device classes with write noise support
WRITE_NOISE = ("LinearStepDevice", "SoftBoundsDevice", "SoftBoundsPmaxDevice", "SoftBoundsReferenceDevice", "ExpStepDevice",
               "PowStepDevice", "PiecewiseStepDevice")


def hidden(tile, suffix=""):
    """Hidden parameters of an analog tile as a dictionary of float64 arrays (suffix "_k" of a compound is removed)."""
    out = {}
    for k, v in tile.get_hidden_parameters().items():
        if not suffix:
            out[k] = npy(v)
        elif k.endswith(suffix):
            out[k[:-len(suffix)]] = npy(v)
    return out


def pulse(dev, par, hp, w, up, noise=0.0):
    """The weights after one up (or down) pulse at every crosspoint.  par: the device dataclass; noise: c-to-c gaussian."""
    name = type(dev).__name__ if not isinstance(dev, str) else dev
    w = np.array(w, dtype=np.float64)
    mx, mn = hp["max_bound"], hp["min_bound"]
    su, sd = hp["dwmin_up"], hp["dwmin_down"]
    std = par.dw_min_std * noise
    if name == "ConstantStepDevice":
        v = w + su * (1 + std) if up else w - sd * (1 + std)
    elif name in ("LinearStepDevice", "SoftBoundsDevice", "SoftBoundsPmaxDevice"):
        s, sl = (su, hp["slope_up"]) if up else (sd, hp["slope_down"])
        d = (sl * w + s) * (1 + std) if par.mult_noise else sl * w + s * (1 + std)
        v = w + d if up else w - d
    elif name == "SoftBoundsReferenceDevice":
        r = hp["reference"]
        v = w + r
        with np.errstate(divide="ignore", invalid="ignore"):
            a = np.where(mx > 0, v / np.where(mx > 0, mx, 1), 0.0) if up else np.where(mn < 0, v / np.where(mn < 0, mn, 1), 0.0)
        s = su if up else sd
        d = s * (1 - a) * (1 + std) if par.mult_noise else s * (1 - a + std)
        v = np.clip(v + d if up else v - d, mn, mx)
        return v - r
    elif name == "ExpStepDevice":
        rng = mx - mn
        ok = rng > 0
        z = 2 * w / np.where(ok, rng, 1) * par.a + par.b
        if up:
            d = np.maximum(1 - par.A_up * np.exp(np.minimum(par.gamma_up * z, 80)), 0) * su
        else:
            d = -np.maximum(1 - par.A_down * np.exp(np.minimum(-par.gamma_down * z, 80)), 0) * sd
        if par.dw_min_std_add > 0 or par.dw_min_std_slope > 0:
            d = d + std * (np.abs(d) + par.dw_min_std_add + par.dw_min_std_slope * np.abs(w))
        else:
            d = d * (1 + std)
        return np.where(ok, np.clip(w + d, mn, np.maximum(mn, mx)), w)
    elif name in ("PowStepDevice", "PowStepReferenceDevice"):
        r = hp.get("reference", 0.0)
        rng = mx - mn
        ok = rng != 0
        v = w + r
        q = np.where(ok, rng, 1)
        if up:
            d = su * np.power(np.maximum((mx - v) / q, 0), hp["gamma_up"]) * (1 + std)
        else:
            d = -sd * np.power(np.maximum((v - mn) / q, 0), hp["gamma_down"]) * (1 + std)
        return np.where(ok, np.clip(v + d, mn, np.maximum(mn, mx)) - r, w)
    elif name == "PiecewiseStepDevice":
        p = np.asarray(par.piecewise_up if up else par.piecewise_down, dtype=np.float64)
        n = len(par.piecewise_up) - 1
        s = su if up else sd
        if n <= 0:
            f = np.full(w.shape, p[0] if len(p) else 1.0)
        else:
            ok = mx > mn
            pos = np.clip((w - mn) / np.where(ok, mx - mn, 1), 0, 1)
            f = np.interp(pos.ravel(), np.linspace(0, 1, n + 1), p).reshape(w.shape)
            f = np.where(ok, f, p[0])
        v = w + f * s * (1 + std) if up else w - f * s * (1 + std)
    else:
        raise HarnessError(f"no model of {name}")
    return np.clip(v, mn, np.maximum(mn, mx))


def scales(par, mean=True):
    """Mean up and down step sizes of the population."""
    up_bias, down_bias = min(par.up_down, 0.0), -max(par.up_down, 0.0)
    return (1 + up_bias) * par.dw_min, (1 + down_bias) * par.dw_min
