"""Statistical comparisons with a negligible false alarm rate (all generators are reset per case, so runs are repeatable)."""
import math

import numpy as np

from vlib.core import Violation

Z = 6.5           # standard errors for a mean / variance comparison
KS_P = 1e-8


def ks_p(a, b):
    """Asymptotic two-sample Kolmogorov-Smirnov p-value."""
    a, b = np.sort(np.ravel(a)), np.sort(np.ravel(b))
    n, m = len(a), len(b)
    z = np.concatenate([a, b])
    d = np.max(np.abs(np.searchsorted(a, z, side="right") / n - np.searchsorted(b, z, side="right") / m))
    en = math.sqrt(n * m / (n + m))
    lam = (en + 0.12 + 0.11 / en) * d
    p = 2 * sum((-1) ** (k - 1) * math.exp(-2 * lam * lam * k * k) for k in range(1, 60)) if lam > 0.2 else 1.0
    return min(max(p, 0.0), 1.0), d


def same_dist(got, ref, what, tol=1e-6):
    """Two samples come from the same distribution (constants compare by value)."""
    got, ref = np.ravel(got).astype(np.float64), np.ravel(ref).astype(np.float64)
    if not np.all(np.isfinite(got)):
        raise Violation(f"{what}: not finite")
    scale = max(np.max(np.abs(ref)), 1e-30)
    if np.ptp(ref) <= 1e-9 * scale or np.ptp(ref) == 0:
        # (rare events may not occur in the reference sample)
        if (np.abs(got - ref[0]) > max(tol * max(1.0, scale), 1e-5 * scale)).sum() > len(got) // 100:
            raise Violation(f"{what}: expected the constant {ref[0]:.7g}, got values from {got.min():.7g} to {got.max():.7g}")
        return
    # quantise to float32-level ties (avoids spurious differences of mixed distributions at atoms)
    q = 1e-5 * scale
    # (several grids: an atom may lie between two cells of one)
    p, d = max(ks_p(np.round(got / q + o), np.round(ref / q + o)) for o in (0.0, 0.23, 0.41, 0.67))
    if p < KS_P:
        raise Violation(f"{what}: distribution differs (KS distance {d:.4f}, p={p:.2g}, n={len(got)}): mean {got.mean():.6g} "
                        f"instead of {ref.mean():.6g}, std {got.std():.6g} instead of {ref.std():.6g}")


def mean_std(got, mean, std, what, z=Z, rel=0.0, fourth=3.0):
    """Sample mean and standard deviation against a (near) gaussian with given moments (scalar or per-sample arrays)."""
    got = np.ravel(got).astype(np.float64)
    mean, std = np.broadcast_to(np.ravel(mean), got.shape), np.broadcast_to(np.ravel(std), got.shape)
    n = len(got)
    if not np.all(np.isfinite(got)):
        raise Violation(f"{what}: not finite")
    if np.all(std == 0):
        d = np.max(np.abs(got - mean))
        if d > 1e-5 * max(1e-3, np.max(np.abs(mean))) + 1e-6:
            raise Violation(f"{what}: expected no noise, deviates by {d:.4g}")
        return
    u = (got - mean) / np.where(std > 0, std, 1)
    u = u[std > 0]
    n = len(u)
    tol = z / math.sqrt(n) + rel
    if abs(u.mean()) > tol:
        raise Violation(f"{what}: mean off by {u.mean():.4f} standard deviations (tolerance {tol:.4f}, n={n}); mean {got.mean():.6g}, "
                        f"expected {mean.mean():.6g}, std {std.mean():.4g}")
    v = float(np.mean(u * u))
    tol = z * math.sqrt((fourth - 1) / n) + 2 * rel
    if abs(v - 1) > tol:
        raise Violation(f"{what}: variance ratio {v:.4f} (tolerance {tol:.4f}, n={n}); std {got.std():.6g}, expected {std.mean():.6g}")


def uncorrelated(a, b, what, z=Z):
    a, b = np.ravel(a).astype(np.float64), np.ravel(b).astype(np.float64)
    a, b = a - a.mean(), b - b.mean()
    s = math.sqrt(float((a * a).sum() * (b * b).sum()))
    if s == 0:
        return
    c = float((a * b).sum()) / s
    if abs(c) > z / math.sqrt(len(a)):
        raise Violation(f"{what}: correlation {c:.3f} of values that should be independent (n={len(a)})")
