"""Comparison helpers."""
import numpy as np
import torch

from vlib.core import Violation


def npy(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().double().numpy()
    return np.asarray(x, dtype=np.float64)


def close(a, b, what, rtol=1e-4, atol=1e-5):
    """Elementwise |a-b| <= atol + rtol*max|b| (scale-relative: float32 sums may cancel)."""
    a, b = npy(a), npy(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
        raise Violation(f"{what}: not finite: {a.ravel()[:8]}")
    fin = np.abs(b[np.isfinite(b)])
    tol = atol + rtol * (fin.max() if fin.size else 0.0)
    d = np.abs(a - b)
    if not np.all((d <= tol) | (np.isnan(a) & np.isnan(b)) | (a == b)):
        i = int(np.argmax(np.nan_to_num(d, nan=np.inf)))
        raise Violation(f"{what}: differs by {d.ravel()[i]:.6g} (tol {tol:.3g}) at {np.unravel_index(i, a.shape)}: "
                        f"got {a.ravel()[i]:.7g}, expected {b.ravel()[i]:.7g}; got {a.ravel()[:6]}, expected {b.ravel()[:6]}")


def same(a, b, what):
    a, b = npy(a), npy(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    if not np.array_equal(a, b, equal_nan=True):
        d = np.nan_to_num(np.abs(a - b), nan=np.inf)
        i = int(np.argmax(d))
        raise Violation(f"{what}: not identical, {int((d > 0).sum())} of {a.size} differ, e.g. {a.ravel()[i]!r} instead of {b.ravel()[i]!r}")


def require(cond, what):
    if not cond:
        raise Violation(what() if callable(what) else what)


def raises(fn, exc, what):
    try:
        fn()
    except exc:
        return
    raise Violation(f"{what}: no {exc} raised")


LAYOUTS = ["plain", "plain", "plain", "transposed", "strided", "offset", "expanded", "flipped"]


def laid_out(x, layout):
    """The tensor in another memory layout ("expanded" repeats the first entry of the batch, the others keep all values)."""
    if layout == "transposed":
        return x.movedim(-1, 0).contiguous().movedim(0, -1)
    if layout == "strided":
        return torch.stack([x, torch.full_like(x, 77.0)], -1)[..., 0]
    if layout == "offset":
        return torch.cat([torch.full_like(x[:1], 55.0), x])[1:]
    if layout == "expanded":
        return x[:1].expand_as(x)
    if layout == "flipped":         # every other row of a larger tensor
        return torch.stack([x, torch.full_like(x, -33.0)], 1)[:, 0]
    return x
