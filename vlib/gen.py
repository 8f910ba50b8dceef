"""Hypothesis strategies shared by the checks (all JSON-able)."""
from hypothesis import strategies as st

DATA_KINDS = ["normal", "uniform", "grid", "sparse", "outlier", "ramp", "pos", "const", "negconst", "zeros", "onehot"]
seeds = st.integers(0, 2 ** 31 - 2)


def data(kinds=None, mags=(1.0, 0.1, 0.5, 2.0)):
    return st.fixed_dictionaries({"k": st.sampled_from(kinds or DATA_KINDS), "s": seeds, "m": st.sampled_from(list(mags))})


def opt(d, **optional):
    """A dict strategy with required d and optional keys."""
    return st.fixed_dictionaries(d, optional=optional)


def floats(lo, hi, digits=4):
    """Floats on a decimal grid (shrinks to lo)."""
    n = 10 ** digits
    return st.integers(round(lo * n), round(hi * n)).map(lambda i: i / n)


IDEAL_DEVICES = [{"kind": "fp"}, {"kind": "single", "device": {"cls": "IdealDevice"}, "forward": {"is_perfect": True},
                                  "backward": {"is_perfect": True}, "update": {"pulse_type": "None"}},
                 {"kind": "inference", "forward": {"is_perfect": True}},
                 {"kind": "torch", "forward": {"is_perfect": True}},
                 {"kind": "unit", "device": {"cls": "VectorUnitCell", "unit_cell_devices": [{"cls": "IdealDevice"}]},
                  "forward": {"is_perfect": True}, "backward": {"is_perfect": True}, "update": {"pulse_type": "None"}}]


def ideal_kinds(include=("fp", "single", "inference", "torch")):
    """Configurations whose MVM and update are documented to be exact floating point."""
    return st.sampled_from([d for d in IDEAL_DEVICES if d["kind"] in include])


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) and "cls" not in v else v
    return out
