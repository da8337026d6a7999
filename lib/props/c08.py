"""Zero padding and common delay do not change the metrics."""
import numpy as np
from hypothesis import strategies as st

import api, gen, oracle
from common import *
from core import Suite, Outcome, Violation

ID = "C08"
RULE = (
    "A public function with random options (zero_mean off) and a random problem; the same number of zeros is prepended (0 to 300) and appended (0 to 600, or up to / past the next powers of two) to all signals. "
    "Suite short: SDR-only functions with 2 to 60 samples and filters up to 512 taps, always longer than the signals. Results must agree within the rounding-error bound. "
    "Non-trivial: well-conditioned, some padding, some metric inside (-40, 60) dB."
)

PAD = st.fixed_dictionaries(dict(
    pre=st.one_of(st.just(0), st.sampled_from([1, 2, 3, 7, 16, 64]), st.integers(0, 300)),
    post=st.one_of(st.just(0), st.sampled_from([1, 2, 5, 31, 32, 33]), st.integers(0, 600)),
    snap=st.sampled_from([None, None, -1, 0, 1]),
))
SDR_ONLY = ["sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss"]


@st.composite
def short(draw):
    case = draw(gen.problem(names=SDR_ONLY, cg=[None, None, None, 10], zm=(False,), max_ch=3, max_L=1, max_N=60, dtypes=("f64", "f64", "f32"),
                            tex=gen.texture(kinds=["white", "int", "uniform", "pm1", "ar"])))
    case["N"] = draw(st.integers(2, 60))
    L = draw(st.sampled_from([3, 8, 16, 17, 33, 64, 100, 128, 200, 256, 512]))
    case["L"] = case["opts"]["filter_length"] = L
    return case


SUITES = [
    Suite("any", gen.merged(gen.problem(names=gen.WEIGHTED + ["pairwise_sdr_loss", "square_cosine_metrics"], zm=(False,), max_total=20000), PAD), 1600, 20000),
    Suite("short", gen.merged(short(), PAD), 600, 6000),
    Suite("long", gen.merged(gen.problem(names=["sdr_loss", "sdr", "bss_eval_sources"], zm=(False,), max_ch=2, max_L=300, max_order=400, max_N=9000, min_N=300, batches=[[], [2]], max_total=18000), PAD), 240, 3000),
    Suite("taps", gen.merged(gen.taps_problem(gen.WEIGHTED, zm=(False,)), PAD), 40, 1000),
    Suite("huge", gen.merged(gen.huge_problem(gen.WEIGHTED, zm=(False,)), PAD), 24, 400),
    Suite("bulk", gen.merged(gen.bulk_problem(gen.WEIGHTED, zm=(False,)), PAD), 60, 1500),
]


def check(case):
    ref, est = gen.signals(case)
    N = case["N"]
    pre, post = case["pre"], case["post"]
    if case["snap"] is not None:
        # bring the padded length next to a power of two
        p = 1
        while p + case["snap"] < N + pre:
            p *= 2
        post = p + case["snap"] - N - pre
    if np.any(np.linalg.norm(ref, axis=-1) < 1e-4):
        return Outcome(False, ["silent"])
    tols = problem_tols(case, ref, est)
    if tols is None:
        return Outcome(False, ["ill-conditioned or silent"])
    be, dt = case["backend"], case["dtype"]
    pad = [(0, 0)] * (ref.ndim - 1) + [(pre, post)]
    a = api.run(case["fn"], api.to_backend(ref, be, dt), api.to_backend(est, be, dt), case["opts"], via="mod")
    b = api.run(case["fn"], api.to_backend(np.pad(ref, pad), be, dt), api.to_backend(np.pad(est, pad), be, dt), case["opts"], via="mod")
    w, kinds = compare(a, b, tols, case, f"{case['fn']} {be} {dt} with {pre} zeros before and {post} after")
    return Outcome(informative(a) and pre + post > 0, labels_of(case) + sorted(kinds) + ["N<=L" if N <= case["L"] else "N>L", "pre" if pre else "nopre", "post" if post else "nopost"], note(a), w)
