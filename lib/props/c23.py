"""Integer PCM recordings give the results of their float values."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C23"
RULE = (
    "The numpy functions with random options on signals quantised to uint8 (with its offset of 128), int8, int16, int32 or int64 (24-bit range) at levels from a few quantisation steps to clipping at both ends of the range, stored channel-last and passed transposed or contiguous, references and estimates of the same or of different types (one possibly floating point). "
    "Results must have type float64, and agree with those of the same values converted to float64 within the float64 rounding-error bound. Non-trivial: well-conditioned, some metric inside (-40, 60) dB."
)
NAMES = gen.WEIGHTED + ["square_cosine_metrics", "pairwise_sdr_loss", "pairwise_si_sdr_loss"]
INTS = {"uint8": (0, 255), "int8": (-128, 127), "int16": (-32768, 32767), "int32": (-2**31, 2**31 - 1), "int64": (-2**23, 2**23 - 1), "uint16": (0, 65535)}
KIND = st.sampled_from(["uint8", "int16", "int16", "int16", "int32", "int32", "int8", "int64", "uint16"])
SUITES = [
    Suite("pcm", gen.merged(gen.problem(names=NAMES, backends=("np",), dtypes=("f64",), max_L=65, max_order=130, max_N=900, max_total=9000, tex=gen.texture(snr=(-10, 40), spread=(0.0, 0.0, 1.0))),
                            st.fixed_dictionaries(dict(tr=KIND, te=st.one_of(st.just("same"), st.just("same"), KIND, st.just("float64")), level=st.sampled_from([0.02, 0.1, 0.5, 0.99, 1.5, 4.0]), tlast=st.booleans(), via=st.sampled_from(["top", "mod"])))), 1500, 30000),
    Suite("long", gen.merged(gen.problem(names=NAMES, backends=("np",), dtypes=("f64",), max_ch=3, max_L=24, max_order=60, max_N=60000, min_slack=200, max_total=120000, batches=[[], [], [2]], tex=gen.texture(snr=(-10, 40))),
                             st.fixed_dictionaries(dict(tr=KIND, te=st.just("same"), level=st.sampled_from([0.5, 0.99, 4.0]), tlast=st.booleans(), via=st.just("top")))), 80, 1600),
    Suite("taps", gen.merged(gen.taps_problem(NAMES, backends=("np",), dtypes=("f64",), max_order=700),
                             st.fixed_dictionaries(dict(tr=KIND, te=st.just("same"), level=st.sampled_from([0.5, 0.99, 4.0]), tlast=st.booleans(), via=st.just("top")))), 40, 1000),
    Suite("bulk", gen.merged(gen.bulk_problem(NAMES, backends=("np",), dtypes=("f64",)),
                             st.fixed_dictionaries(dict(tr=KIND, te=st.just("same"), level=st.sampled_from([0.5, 0.99, 4.0]), tlast=st.booleans(), via=st.just("top")))), 60, 1500),
]


def quantise(x, kind, level):
    if kind == "float64":
        return x
    lo, hi = INTS[kind]
    mid, half = (lo + hi + 1) / 2, (hi - lo + 1) / 2
    peak = np.abs(x).max(axis=-1, keepdims=True)
    y = np.rint(x / np.where(peak > 0, peak, 1) * level * half + mid)
    return np.clip(y, lo, hi).astype(kind)


def check(case):
    ref, est = gen.signals(dict(case, level=0))
    R = quantise(ref, case["tr"], case["level"])
    te = case["tr"] if case["te"] == "same" else case["te"]
    E = quantise(est, te, case["level"])
    Rf, Ef = R.astype(np.float64), E.astype(np.float64)
    tols = problem_tols(case, Rf, Ef)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    if case["tlast"]:
        R, E = (np.swapaxes(np.ascontiguousarray(np.swapaxes(x, -1, -2)), -1, -2) for x in (R, E))
    fn, o = case["fn"], api.filter_opts(case["fn"], case["opts"])
    what = f"{fn} {case['via']} {o} references {case['tr']} estimates {te} level {case['level']}"
    raw = api.call_raw(fn, R, E, o, via=case["via"], what=what)
    for x in raw if isinstance(raw, tuple) else (raw,):
        if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.dtype != np.float64:
            raise Violation(f"{what}: returned {x.dtype}")
    a = api.canon(fn, raw, Rf.shape[:-2], case["n_ref"], case["n_est"], o, "np")
    b = api.run(fn, Rf, Ef, o, via=case["via"])
    w, kinds = compare(a, b, tols, case, what + " against float64")
    return Outcome(informative(b), labels_of(case) + sorted(kinds) + [case["tr"], f"level {case['level']}", "channel-last" if case["tlast"] else "contiguous", "same type" if te == case["tr"] else "different types"], note(b), w)
