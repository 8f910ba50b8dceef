"""Strategies of compound (unit cell) device specs and whole analog configurations."""
from hypothesis import strategies as st

from vlib import gendev

NOISEFREE_IO = {"out_noise": 0.0, "inp_noise": 0.0, "w_noise": 0.0, "w_noise_type": "None", "inp_sto_round": False,
                "out_sto_round": False}
PERFECT = {"is_perfect": True}


def _up(pulse):
    return {"pulse_type": pulse, "desired_bl": 10}


@st.composite
def single(draw, quiet, dtod=True, lifecycle=True, **kw):
    d = draw(gendev.single(std=(0.0,) if quiet else (0.0, 0.3), write=(0.0,) if quiet else (0.0, 1.0), dtod=dtod, lifecycle=lifecycle,
                           dw=(0.002, 0.01), **kw))
    if quiet:
        for k in ("diffusion", "diffusion_dtod", "reset_std"):
            if k in d:
                d[k] = 0.0
    return d


@st.composite
def compound(draw, quiet=True, names=None, **kw):
    """A unit cell.  quiet: nothing random happens after construction (with a deterministic pulse type)."""
    name = draw(st.sampled_from(names or ["VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound",
                                          "BufferedTransferCompound", "ChoppedTransferCompound", "DynamicTransferCompound"]))
    c = {"cls": name}
    kw.setdefault("corrupt", False)       # hidden weights of corrupt devices start outside their bounds
    nperf = {"is_perfect": True} if quiet else draw(st.sampled_from([PERFECT, NOISEFREE_IO, {}]))
    pulse = "DeterministicImplicit" if quiet else "StochasticCompressed"
    if name == "VectorUnitCell":
        n = draw(st.integers(1, 3))
        c["unit_cell_devices"] = [draw(single(quiet, **kw)) for _ in range(n)]
        c["update_policy"] = draw(st.sampled_from(["All", "SingleFixed", "SingleSequential"] + ([] if quiet else ["SingleRandom"])))
        c["first_update_idx"] = draw(st.integers(0, n - 1))
        if draw(st.booleans()):
            c["gamma_vec"] = [draw(st.sampled_from([1.0, 0.5, -0.5, 0.25])) for _ in range(n)]
    elif name == "ReferenceUnitCell":
        c["unit_cell_devices"] = [draw(single(quiet, **kw)) for _ in range(2)]
    elif name == "OneSidedUnitCell":
        c["unit_cell_devices"] = [draw(single(quiet, **kw))]
        c["refresh_every"] = draw(st.sampled_from([0, 1, 3]))
        c["units_in_mbatch"] = draw(st.booleans())
        c["refresh_upper_thres"], c["refresh_lower_thres"] = draw(st.sampled_from([(0.75, 0.25), (0.3, 0.2)]))
        c["refresh_forward"], c["refresh_update"] = nperf, {"pulse_type": pulse}
        c["copy_inverted"] = draw(st.booleans())
    else:
        c["unit_cell_devices"] = [draw(single(quiet, **kw)) for _ in range(2)]
        if name in ("TransferCompound", "BufferedTransferCompound") and draw(st.booleans()):
            c["unit_cell_devices"].append(draw(single(quiet, **kw)))
        c["transfer_every"] = float(draw(st.sampled_from([1, 2, 3])))
        c["units_in_mbatch"] = draw(st.booleans())
        c["n_reads_per_transfer"] = draw(st.sampled_from([1, 1, 2]))
        c["transfer_columns"] = draw(st.booleans())
        c["gamma"] = draw(st.sampled_from([0.0, 0.5]))
        c["fast_lr"] = draw(st.sampled_from([1.0, 0.1, 0.5]))
        c["transfer_lr"] = draw(st.sampled_from([1.0, 0.5]))
        c["scale_transfer_lr"] = draw(st.booleans())
        c["scale_fast_lr"] = draw(st.booleans())
        c["transfer_forward"] = nperf
        c["transfer_update"] = {"pulse_type": pulse}
        if name == "TransferCompound":
            c["with_reset_prob"] = draw(st.sampled_from([0.0, 1.0])) if c["transfer_columns"] else 0.0
        if name == "BufferedTransferCompound":
            c["thres_scale"], c["momentum"] = draw(st.sampled_from([1.0, 0.2])), draw(st.sampled_from([0.1, 0.0, 0.9]))
            c["step"], c["forget_buffer"] = draw(st.sampled_from([1.0, 2.0])), draw(st.booleans())
        if name in ("ChoppedTransferCompound", "DynamicTransferCompound"):
            c["in_chop_random"] = False if quiet else draw(st.booleans())
            c["in_chop_prob"] = draw(st.sampled_from([0.0, 0.1, 0.5]))
            c["out_chop_prob"] = 0.0 if quiet else draw(st.sampled_from([0.0, 0.1]))
            c["n_reads_per_transfer"] = 1
            c["auto_scale"], c["auto_granularity"] = draw(st.booleans()), draw(st.sampled_from([0.0, 5.0]))
            c["no_buffer"] = draw(st.sampled_from([False, False, True])) if name == "ChoppedTransferCompound" else False
            c["forget_buffer"] = draw(st.booleans())
            c["momentum"] = draw(st.sampled_from([0.0, 0.5]))
        if name == "DynamicTransferCompound":
            c["tail_weightening"], c["buffer_cap"] = draw(st.sampled_from([5.0, 1.0])), draw(st.sampled_from([0.0, 0.5]))
    if name == "OneSidedUnitCell" or c.get("with_reset_prob"):       # resetting is not supported with write noise
        for d in c["unit_cell_devices"]:
            d.pop("write_noise_std", None)
    return c


@st.composite
def mixedprec(draw, quiet=True, **kw):
    c = {"cls": "MixedPrecisionCompound", "device": draw(st.one_of(single(quiet, **kw), compound(quiet, ["VectorUnitCell"], **kw)))}
    c["transfer_every"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["n_rows_per_transfer"] = draw(st.sampled_from([-1, 1, 2]))
    c["random_row"] = False if quiet else draw(st.booleans())
    c["granularity"] = draw(st.sampled_from([0.0, 0.01]))
    c["transfer_lr"] = draw(st.sampled_from([1.0, 0.5]))
    c["n_x_bins"], c["n_d_bins"] = draw(st.sampled_from([0, 7, 101])), draw(st.sampled_from([0, 7, 101]))
    c["stoc_round_x"] = c["stoc_round_d"] = False if quiet else draw(st.booleans())
    return c
