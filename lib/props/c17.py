"""Outputs have the documented shape, type and precision."""
import contextlib

import numpy as np
import torch
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation
from otherdevice import OtherDefaultDevice, marked

ID = "C17"
RULE = (
    "Any of the 11 public functions of either backend with random options, float32 or float64, batch shapes of 0 to 3 dimensions, 1 to 5 references and estimates. Suite single concentrates on one reference, estimate or tap and length-one batch dimensions. Checked: tuple structure, types, documented shapes, "
    "exact floating-point precision of the inputs, int64 permutation (a tensor or array of its own), the device; torch calls are repeated with torch's default dtype set to the other precision and its default device emulated to be another one (lib/otherdevice.py), and must return the same values, types and devices. "
    "Non-trivial: at least one of batch dimensions, several channels, or a non-default option (always true for torch with other defaults)."
)
NAMES = gen.TOP + ["bss_eval_sources", "sdr", "sdr_loss", "square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
BATCH = [[], [], [1], [2], [3], [2, 2], [1, 3], [3, 1], [2, 1, 2], [1, 1, 1], [5], [1, 1], [2, 1]]


@st.composite
def single(draw):
    """one reference, one estimate, one tap, length-one dimensions: where squeezing and broadcasting go wrong"""
    case = draw(gen.problem(names=NAMES, cg=[None, None, 3], max_ch=2, max_L=2, max_order=4, max_N=60, max_total=600, batches=[[], [1], [1, 1], [1, 1, 1], [2, 1], [1, 2], [2]], perm=(False, True), dtypes=("f32", "f64")))
    if draw(st.booleans()):
        case["n_ref"] = 1
        if draw(st.booleans()) or (case["opts"].get("compute_permutation") is False or case["opts"].get("pairwise") is False):
            case["n_est"] = 1
    if draw(st.booleans()) and case["opts"].get("filter_length"):
        case["L"] = case["opts"]["filter_length"] = 1
    case.update(default=draw(st.sampled_from([None, None, "dtype", "device"])), grad=draw(st.booleans()), via=draw(st.sampled_from(["top", "mod"])))
    return case


SUITES = [
    Suite("single", single(), 1200, 20000),
    Suite("all", gen.merged(gen.problem(names=NAMES, cg=[None, None, 3, 10], max_ch=8, max_L=12, max_order=60, max_N=200, max_total=5000, batches=BATCH, dtypes=("f32", "f64")),
                            st.fixed_dictionaries(dict(default=st.sampled_from([None, "dtype", "device", "both"]), grad=st.booleans(), via=st.sampled_from(["top", "mod"])))), 2400, 40000),
    Suite("sizes", gen.merged(st.one_of(gen.long_problem(NAMES, dtypes=("f32", "f64")), gen.taps_problem(NAMES, dtypes=("f32", "f64")), gen.bulk_problem(NAMES, dtypes=("f32", "f64"))),
                              st.fixed_dictionaries(dict(default=st.sampled_from([None, None, "dtype", "device", "both"]), grad=st.booleans(), via=st.sampled_from(["top", "mod"])))), 100, 2000),
]


@contextlib.contextmanager
def defaults(which, dtype):
    d0 = torch.get_default_dtype()
    other = torch.float64 if dtype == "f32" else torch.float32
    try:
        if which in ("dtype", "both"):
            torch.set_default_dtype(other)
        with OtherDefaultDevice() if which in ("device", "both") else contextlib.nullcontext():
            yield
    finally:
        torch.set_default_dtype(d0)


def types(raw, what, be, dt, device):
    for x in raw if isinstance(raw, tuple) else (raw,):
        if str(x.dtype).split(".")[-1] not in ("float32", "float64", "int64"):
            # int64 is what take_along_dim, gather and the like accept as indices
            raise Violation(f"{what}: returned {x.dtype}")
    for x in raw if isinstance(raw, tuple) else (raw,):
        if be == "np":
            if not isinstance(x, np.ndarray):
                raise Violation(f"{what}: returned {type(x).__name__} instead of an array")
            if x.dtype.kind == "f" and x.dtype != api.NPD[dt]:
                raise Violation(f"{what}: returned {x.dtype} for {dt} inputs")
        else:
            if not isinstance(x, torch.Tensor):
                raise Violation(f"{what}: returned {type(x).__name__} instead of a tensor")
            if x.dtype.is_floating_point and x.dtype != api.PTD[dt]:
                raise Violation(f"{what}: returned {x.dtype} for {dt} inputs")
            if x.device != device or marked(x):
                raise Violation(f"{what}: returned a tensor on another device")


def check(case):
    be, dt, fn = case["backend"], case["dtype"], case["fn"]
    o = api.filter_opts(fn, case["opts"])
    ref, est = gen.signals(case)
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    R, E = api.to_backend(ref, be, dt), api.to_backend(est, be, dt)
    what = f"{fn} {be} {dt} batch {case['batch']} {o}"
    if be == "pt" and case["grad"]:
        E.requires_grad_(True)
    raw = api.call_raw(fn, R, E, o, via=case["via"], what=what)
    dev = torch.device("cpu")
    types(raw, what, be, dt, dev)
    a = api.canon(fn, raw, ref.shape[:-2], case["n_ref"], case["n_est"], o, be)
    w = 0.0
    if be == "pt" and case["default"]:
        with defaults(case["default"], dt):
            w2 = what + f" with another default {case['default']}"
            raw2 = api.call_raw(fn, R, E, o, via=case["via"], what=w2)
            if case["grad"]:
                fl = [x for x in (raw2 if isinstance(raw2, tuple) else (raw2,)) if x.dtype.is_floating_point]
                if not all(x.requires_grad for x in fl):
                    raise Violation(f"{w2}: a result does not require gradients")
                (g,) = api.guarded(w2 + " backward", torch.autograd.grad, [x.sum() for x in fl], [E])
                if g.dtype != E.dtype or g.device != dev or g.shape != E.shape:
                    raise Violation(f"{w2}: gradient of type {g.dtype} on {g.device}")
        types(raw2, w2, be, dt, dev)
        b = api.canon(fn, raw2, ref.shape[:-2], case["n_ref"], case["n_est"], o, be)
        w, _ = compare(a, b, tols, case, w2)
    nt = bool(case["batch"]) or case["n_ref"] + case["n_est"] > 2 or any(v not in (None, False) for k, v in o.items() if k != "filter_length") or (be == "pt" and bool(case["default"]))
    return Outcome(nt, labels_of(case) + [f"default {case['default']}" if be == "pt" else "numpy", "perm" if a.perm is not None else "no perm"], note(a), w)
