"""Strategies of resistive device specs (JSON-able, see vlib.cfg.device)."""
from hypothesis import strategies as st

from vlib.gen import floats

SINGLE = ["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "SoftBoundsPmaxDevice", "SoftBoundsReferenceDevice",
          "ExpStepDevice", "PowStepDevice", "PowStepReferenceDevice", "PiecewiseStepDevice"]
WN = ["LinearStepDevice", "SoftBoundsDevice", "SoftBoundsReferenceDevice", "ExpStepDevice", "PowStepDevice", "PiecewiseStepDevice"]


@st.composite
def single(draw, names=None, dtod=True, std=(0.0,), write=(0.0,), corrupt=True, lifecycle=False, dw=(0.002, 0.01, 0.05)):
    """One resistive device.  dtod: allow device-to-device variation; std: values of dw_min_std; write: write noise."""
    name = draw(st.sampled_from(names or SINGLE))
    d = {"cls": name, "dw_min_std": draw(st.sampled_from(list(std)))}

    def var(*vals):
        return draw(st.sampled_from((0.0,) + vals)) if dtod else 0.0

    if name != "SoftBoundsPmaxDevice":
        d["dw_min"] = draw(st.sampled_from(list(dw)))
        d["w_max"] = draw(st.sampled_from([0.6, 1.0, 0.3]))
        d["w_min"] = -draw(st.sampled_from([0.6, 1.0, 0.25]))
        d["up_down"] = draw(st.sampled_from([0.0, 0.0, 0.3, -0.3, 0.05]))
        d["w_max_dtod"], d["w_min_dtod"] = var(0.1, 0.3), var(0.1, 0.3)
        if draw(st.integers(0, 9)) == 9 and name in ("ConstantStepDevice", "LinearStepDevice", "PiecewiseStepDevice"):
            d[draw(st.sampled_from(["w_max", "w_min"]))] = 0.0
    else:
        d["p_max"] = draw(st.sampled_from([50, 200, 1000]))
        d["alpha"] = draw(st.sampled_from([0.02, 0.005, 0.01]))
        d["range_min"] = -draw(st.sampled_from([1.0, 0.5]))
        d["range_max"] = draw(st.sampled_from([1.0, 0.5]))
        d["w_max_dtod"], d["w_min_dtod"] = var(0.1, 0.3), var(0.1, 0.3)
    d["dw_min_dtod"] = var(0.1, 0.3)
    d["up_down_dtod"] = var(0.01, 0.1)
    if dtod:
        d["dw_min_dtod_log_normal"] = draw(st.booleans())
        d["enforce_consistency"] = draw(st.sampled_from([True, True, True, False]))
        if corrupt and draw(st.integers(0, 4)) == 4:
            d["corrupt_devices_prob"], d["corrupt_devices_range"] = 0.3, draw(st.sampled_from([0.1, 0.5]))
        if draw(st.integers(0, 7)) == 7:
            d["perfect_bias"] = True
    if name == "LinearStepDevice":
        d["gamma_up"], d["gamma_down"] = draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])), draw(st.sampled_from([0.0, 0.1, 0.5, 1.0]))
        d["gamma_up_dtod"], d["gamma_down_dtod"] = var(0.05, 0.2), var(0.05, 0.2)
        d["allow_increasing"] = draw(st.booleans())
        d["mean_bound_reference"] = draw(st.booleans())
    if name in ("LinearStepDevice", "SoftBoundsDevice", "SoftBoundsPmaxDevice"):
        d["mult_noise"] = draw(st.booleans())
        rev = draw(st.sampled_from([None, None, "reverse_up", "reverse_down"]))
        if rev:
            d[rev], d["mult_noise"] = True, True
            d["reverse_offset"] = draw(st.sampled_from([0.01, 0.2]))
    if name == "SoftBoundsReferenceDevice":
        d["mult_noise"] = draw(st.booleans())
        d["slope_up_dtod"], d["slope_down_dtod"] = var(0.1), var(0.1)
    if name in ("SoftBoundsReferenceDevice", "PowStepReferenceDevice"):
        d["reference_mean"] = draw(st.sampled_from([0.0, 0.1, -0.1]))
        d["reference_std"] = var(0.05)
        d["subtract_symmetry_point"] = draw(st.booleans())
        if d["subtract_symmetry_point"] and not d.get("enforce_consistency", True):
            d["enforce_consistency"] = True       # negative steps have no symmetry point
    if name == "PowStepReferenceDevice":
        d["n_estimation_steps"] = draw(st.sampled_from([-1, 50]))
    if name in ("PowStepDevice", "PowStepReferenceDevice"):
        d["pow_gamma"] = draw(st.sampled_from([1.0, 0.5, 2.0]))
        d["pow_gamma_dtod"] = var(0.1)
        d["pow_up_down"] = draw(st.sampled_from([0.0, 0.2, -0.2]))
        d["pow_up_down_dtod"] = var(0.05)
    if name == "ExpStepDevice":
        if draw(st.booleans()):
            d["A_up"], d["A_down"] = draw(st.sampled_from([0.1, 0.5])), draw(st.sampled_from([0.1, 0.5]))
            d["gamma_up"], d["gamma_down"] = draw(st.sampled_from([1.0, 2.0])), draw(st.sampled_from([1.0, 2.0]))
            d["a"], d["b"] = draw(st.sampled_from([0.244, 0.5])), draw(st.sampled_from([0.0, 0.2425, -0.2]))
        if d["dw_min_std"] > 0 and draw(st.booleans()):
            d["dw_min_std_add"], d["dw_min_std_slope"] = draw(st.sampled_from([0.0, 0.01])), draw(st.sampled_from([0.0, 0.02]))
    if name == "PiecewiseStepDevice":
        n = draw(st.integers(1, 5))
        d["piecewise_up"] = draw(st.lists(floats(0.2, 2.0, 1), min_size=n, max_size=n))
        d["piecewise_down"] = draw(st.lists(floats(0.2, 2.0, 1), min_size=n, max_size=n))
    if name in WN:
        w = draw(st.sampled_from(list(write)))
        if w > 0:
            d["write_noise_std"] = w
            d["apply_write_noise_on_set"] = draw(st.booleans())
    if lifecycle:
        d["lifetime"] = draw(st.sampled_from([0.0, 10.0, 2.5, 0.5]))
        d["diffusion"] = draw(st.sampled_from([0.0, 0.02]))
        d["reset"] = draw(st.sampled_from([0.0, 0.1, -0.05]))
        d["reset_std"] = draw(st.sampled_from([0.0, 0.05]))
        if dtod:
            d["lifetime_dtod"], d["diffusion_dtod"], d["reset_dtod"] = var(0.2), var(0.2), var(0.05)
    return d
